"""Exhaustive enumeration of plots.  (1) Library codes of every size up to a bound x places
in the plane (offset, negative, fractional, scaled, mirrored, turned, other labels, other
order of the qubits) x every combination of the flags x paddings.  (2) Every assignment of
drawing parameters to one qubit and one kind of artist.  (3) Small graphs with every pattern
of roles, stabilizer types and labels.  The artists that end up on the axes are compared
with the layout: one circle and one label per qubit, one polygon per stabilizer and one line
per connection, all at the coordinates of the layout, with one colour per kind of qubit."""

import re
from itertools import product

from surface_sim import Layout
from surface_sim.layouts import plot

from .c07 import PLACES, place

LEVEL = "exploration"
RULE = {
    "evaluations": "plots compared with their layout (or rejections checked)",
    "distinct_nontrivial": "plots with patches, connections or labels",
}

FLAGS = ("add_labels", "add_patches", "add_connections", "stim_orientation")


def axes():
    from matplotlib.figure import Figure

    return Figure().add_subplot()


def cases(tier):
    top = 4 if tier == "quick" else 6
    out = []
    for code in ("rot", "unrot"):
        for dx, dz in product(range(2, top + 1), repeat=2):
            for v in PLACES:
                out.append(("lib", code, dx, dz, v))
        out.append(("meta", code))
    labels = ["D1", "D1a", "q", "Z12", "Z1_2", "7", "anc-3", "X_4"]
    for n in range(len(labels)):
        out.append(("graph", labels[n:] + labels[:n]))
    out.append(("dims",))
    return out


def run_case(case, res, tier):
    if case[0] == "lib":
        run_lib(case, res, tier)
    elif case[0] == "meta":
        run_meta(case, res)
    elif case[0] == "graph":
        run_graph(case, res)
    else:
        run_dims(case, res)
    res.sample(dict(case=str(case)))


def plain(text):
    """Label without the TeX markup."""
    return re.sub(r"\\mathrm|[${}\\_]", "", text)


def num(c):
    return tuple(round(float(x), 6) for x in c)


def turns(points):
    """Whether the closed polygon is convex, visiting its vertices in angular order."""
    n = len(points)
    signs = set()
    for i in range(n):
        (ax, ay), (bx, by), (cx, cy) = (points[(i + k) % n] for k in range(3))
        cross = (bx - ax) * (cy - by) - (by - ay) * (cx - bx)
        if abs(cross) > 1e-6:
            signs.add(cross > 0)
    area = sum(
        points[i][0] * points[(i + 1) % n][1] - points[(i + 1) % n][0] * points[i][1]
        for i in range(n)
    )
    return len(signs) <= 1 and (abs(area) > 1e-6 or not signs)


class Drawn:
    def __init__(self, ax):
        from matplotlib.patches import Circle, Polygon

        self.circles = [p for p in ax.patches if isinstance(p, Circle)]
        self.polys = [p for p in ax.patches if isinstance(p, Polygon)]
        self.lines, self.texts = list(ax.lines), list(ax.texts)
        self.others = len(ax.get_children())

    def layers(self):
        """Lowest and highest level of each kind, from the bottom to the top."""
        ks = [self.polys, self.lines, self.circles, self.texts]
        return [sorted({a.get_zorder() for a in k}) for k in ks if k]


def kind(l, q):
    if l.param("role", q) == "data":
        return "data"
    return l.param("stab_type", q)


def check(l, ax, flags, pad=1, own=()):
    """Message or None.  ``own`` = {(artist, qubit)} with their own colours."""
    d = Drawn(ax)
    pos = {q: num(l.param("coords", q)) for q in l.get_qubits()}
    at = {c: q for q, c in pos.items()}
    if sorted(num(c.center) for c in d.circles) != sorted(pos.values()):
        return "the circles are not at the qubits"
    colour = {}
    for c in d.circles:
        q = at[num(c.center)]
        if ("circle", q) not in own:
            colour.setdefault(kind(l, q), set()).add(tuple(c.get_facecolor()))
    if any(len(c) != 1 for c in colour.values()):
        return f"qubits of one kind have different colours: {colour}"
    if len({min(c) for c in colour.values()}) != len(colour):
        return f"qubits of different kinds have the same colour: {colour}"
    anc = l.get_qubits(role="anc")
    want = []
    for a in anc:
        pts = [pos[n] for n in l.get_neighbors([a])]
        if len(pts) == 2:
            pts.append(pos[a])
        want.append((sorted(pts), a))
    got = []
    for p in d.polys:
        pts = [num(x) for x in p.get_xy()]
        if len(pts) > 1 and pts[0] == pts[-1]:
            pts = pts[:-1]
        if not turns(pts):
            return f"the patch {pts} is not a convex polygon"
        got.append((sorted(pts), tuple(p.get_facecolor())))
    if flags["add_patches"]:
        if sorted(g[0] for g in got) != sorted(w[0] for w in want):
            return "the patches are not the supports of the stabilizers"
        colour = {}
        used = list(want)
        for pts, col in got:
            a = next(w for w in used if w[0] == pts)
            used.remove(a)
            if ("patch", a[1]) not in own:
                colour.setdefault(kind(l, a[1]), set()).add(col)
        if any(len(c) != 1 for c in colour.values()):
            return f"patches of one type have different colours: {colour}"
        if len({min(c) for c in colour.values()}) != len(colour):
            return f"patches of different types have the same colour: {colour}"
    elif got:
        return "patches although they are switched off"
    lines = [tuple(num(x) for x in zip(*i.get_data())) for i in d.lines]
    want = [(pos[a], pos[n]) for a in anc for n in l.get_neighbors([a])]
    if not flags["add_connections"]:
        want = []
    if sorted(map(sorted, lines)) != sorted(map(sorted, want)):
        return "the lines are not the connections of the ancillas"
    texts = [(num(t.get_position()), plain(t.get_text())) for t in d.texts]
    want = [(c, plain(q)) for q, c in pos.items()] if flags["add_labels"] else []
    if sorted(texts) != sorted(want):
        return f"the labels are {sorted(texts)} instead of {sorted(want)}"
    ks = d.layers()
    if any(a[-1] >= b[0] for a, b in zip(ks, ks[1:])):
        return f"levels of patches, lines, circles, texts: {ks}"
    for i, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
        v = [c[i] for c in pos.values()]
        lo, hi = min(v) - pad, max(v) + pad
        if i == 1 and flags["stim_orientation"]:
            lo, hi = hi, lo
        if num(lim) != num((lo, hi)):
            return f"limits {lim} instead of {(lo, hi)}"
    if ax.get_aspect() not in ("equal", 1, 1.0):
        return f"aspect {ax.get_aspect()}"
    return None


def one(l, key, res, flags, pad=1, own=(), **kw):
    before = l.to_dict()
    ax = axes()
    out = plot(ax, l, pad=pad, **flags, **kw)
    res.count("evaluations")
    res.count(
        "distinct_nontrivial",
        int(any(flags[f] for f in FLAGS[:3])),
    )
    e = None
    if out is not ax:
        e = "another object than the axes is returned"
    e = e or check(l, ax, flags, pad, own)
    if not e and l.to_dict() != before:
        e = "plotting changed the layout"
    return res.expect(not e, key, f"{key}: {e}") and ax


ON = dict(zip(FLAGS, (True,) * 4))


def run_lib(case, res, tier):
    _, code, dx, dz, v = case
    l = place(code, dx, dz, v)
    big = dx * dz > 6 and tier == "quick"
    for vals in product((True, False), repeat=4):
        if big and sum(vals) not in (3, 4):
            continue
        for pad in (1, 0, 2.5):
            if pad != 1 and not all(vals):
                continue
            flags = dict(zip(FLAGS, vals))
            if not one(l, f"{case}:{vals}:{pad}", res, flags, pad):
                return
    # the defaults, and a second layout on the same axes
    ax = axes()
    plot(ax, l)
    e = check(l, ax, ON)
    if not res.expect(not e, f"{case}:defaults", f"{case}, default arguments: {e}"):
        return
    first = [(type(a), a.get_zorder()) for a in ax.patches + ax.lines + ax.texts]
    n = len(first)
    k = place(code, dx, dz, v, 1)
    plot(ax, k)
    both = [(type(a), a.get_zorder()) for a in ax.patches + ax.lines + ax.texts]
    res.count("evaluations")
    res.expect(
        len(both) == 2 * n and all(both.count(a) == 2 * first.count(a) for a in first),
        f"{case}:two",
        f"{case}: two layouts on one axes have {len(both)} artists instead of {2 * n}",
    )


def run_meta(case, res):
    """Drawing parameters of one qubit are used for it, and for nothing else."""
    code = case[1]
    base = place(code, 2, 3, "plain")
    data = dict(
        circle=dict(facecolor=(0.1, 0.2, 0.3, 1.0), radius=0.11),
        patch=dict(facecolor=(0.4, 0.1, 0.3, 1.0)),
        line=dict(linestyle=":", linewidth=3.25),
        text=dict(fontsize=23, color=(0.2, 0.6, 0.1, 1.0)),
    )
    for q in base.get_qubits():
        for what in data:
            l = place(code, 2, 3, "plain")
            l.set_param("metaparams", q, {what: dict(data[what])})
            key = f"{case}:{q}:{what}"
            ax = one(l, key, res, ON, 1, {(what, q)}, label_fontsize=7)
            if not ax:
                return
            d = Drawn(ax)
            c = num(l.param("coords", q))
            hit = set()
            for a in d.circles:
                if round(a.radius, 6) == 0.11 and tuple(a.get_facecolor())[:1] == (
                    0.1,
                ):
                    hit.add(("circle", num(a.center)))
            for a in d.texts:
                if a.get_fontsize() == 23:
                    hit.add(("text", num(a.get_position())))
                elif a.get_fontsize() != 7:
                    hit.add(("size", num(a.get_position())))
            for a in d.lines:
                if a.get_linewidth() == 3.25 and a.get_linestyle() == ":":
                    ends = [num(p) for p in zip(*a.get_data())]
                    hit.add(("line", c if c in ends else ends[0]))
            for a in d.polys:
                if tuple(a.get_facecolor())[:1] == (0.4,):
                    hit.add(("patch", c))
            want = {(what, c)}
            if what in ("line", "patch") and l.param("role", q) == "data":
                want = set()
            e = None if hit == want else f"used for {hit} instead of {want}"
            if not res.expect(not e, key, f"{key}: {e}"):
                return
            if l.param("metaparams", q) != {what: data[what]}:
                res.fail(key, f"{key}: the parameters were changed")
                return


def run_graph(case, res):
    """Four data qubits and four ancillas of every combination of types."""
    labels = case[1]
    spot = [(0, 0), (2, 0), (0, 2), (2, 2), (1, 1), (3, 1), (1, -1), (-1, 1)]
    links = [(4, 0), (4, 1), (4, 2), (4, 3), (5, 1), (5, 3), (6, 0), (6, 1), (7, 2)]
    links += [(7, 0)]
    for types in product(("x_type", "z_type", None), repeat=4):
        lay = []
        for k, q in enumerate(labels):
            nb = [b for a, b in links if a == k] + [a for a, b in links if b == k]
            lay.append(
                dict(
                    qubit=q,
                    ind=k,
                    role="data" if k < 4 else "anc",
                    stab_type=None if k < 4 else types[k - 4],
                    coords=list(spot[k]),
                    neighbors={f"d{i}": labels[n] for i, n in enumerate(nb)},
                )
            )
        l = Layout(dict(layout=lay))
        if not one(l, f"{case}:{types}", res, ON):
            return


def run_dims(case, res):
    """Coordinates in other than two dimensions cannot be plotted."""
    for c in ([1], [1, 2, 3], []):
        for odd in range(3):
            lay = [
                dict(
                    qubit=q,
                    ind=k,
                    role="data" if k else "anc",
                    stab_type=None if k else "x_type",
                    coords=[k, 0] if k != odd else c,
                    neighbors=dict(e="B", w="C") if not k else dict(e="A"),
                )
                for k, q in enumerate("ABC")
            ]
            l = Layout(dict(layout=lay))
            res.count("evaluations")
            try:
                plot(axes(), l)
            except ValueError:
                continue
            except Exception as e:
                res.fail(
                    f"{case}:{c}:{odd}", f"{type(e).__name__} instead of ValueError"
                )
                return
            res.fail(f"{case}:{c}:{odd}", f"coordinates {c} were plotted")
            return
