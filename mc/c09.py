"""Explicit-state exploration of layout histories.  A state is a layout reached from one of
many setups (library layouts in several placements and small hand-made setups with all
index assignments, coordinate sets and qubit orders) by a sequence of parameter changes and
copies / dictionary / YAML round trips; the reference model is the setup dictionary itself.
After every step every public query is compared with the answer computed from the
dictionary, and all earlier layouts of the history (which must be independent) are queried
again.  All malformed variants of the setups (every qubit, every pair) must be rejected."""

import os
from copy import copy, deepcopy
from itertools import combinations, permutations, product

import surface_sim.layouts
from surface_sim import Layout
from surface_sim.detectors import get_support_from_adj_matrix
from surface_sim.layouts import set_coords

from .lib import make_layout, scratch

LEVEL = "model_checking"
ASSUMPTIONS = [
    "conditions of a query only name parameters that every qubit has",
    "the order of the neighbours of one qubit is not compared after a YAML round trip",
]
DIRS = ("north_east", "north_west", "south_east", "south_west")


# ------------------------------------------------------------------ setups
def tiny(order, inds, coords):
    """Two data qubits and two ancillas in a ring, with unsorted labels."""
    qs = dict(
        Q9=dict(
            role="data",
            stab_type=None,
            neighbors={"north_east": "A2", "south_west": "A10"},
        ),
        Q10=dict(
            role="data",
            stab_type=None,
            neighbors={"south_west": "A2", "north_west": None, "north_east": "A10"},
        ),
        A2=dict(
            role="anc",
            stab_type="x_type",
            neighbors={"south_west": "Q9", "north_east": "Q10"},
        ),
        A10=dict(
            role="anc",
            stab_type="z_type",
            neighbors={"north_east": "Q9", "south_west": "Q10"},
        ),
    )
    labels = sorted(qs)
    out = []
    for k in order:
        q = labels[k]
        d = dict(qubit=q, **deepcopy(qs[q]))
        d["coords"] = list(coords[k])
        d["tag"] = ["u", "v"][k % 2]
        if inds is not None:
            d["ind"] = inds[k]
        out.append(d)
    return dict(
        name="tiny",
        code="none",
        logical_qubit_labels=["P", "B"],
        log_x={"B": ["Q10"], "P": ["Q9"]},
        log_z={"P": ["Q9", "Q10"], "B": ["Q10"]},
        distance=1,
        distance_x=1,
        distance_z=2,
        description="hand made",
        interaction_order=dict(z_type=list(DIRS), x_type=list(DIRS[::-1])),
        layout=out,
    )


COORDS = (
    ((0, 0), (1, 1), (2, 0), (3, 3)),
    ((-1.5, 2), (-10, 0.25), (7, -3), (-1.5, -3)),
    ((5, 5), (3, 9), (1, 9), (5, 1)),
    ((2, 10), (10, 2), (-2, 10), (100, 2)),
)
INDS = (None, (0, 1, 2, 3), (3, 2, 1, 0), (7, 0, 100, 5), (2, 1, 0, 9))


def cases(tier):
    t = tier == "thorough"
    out = []
    for order in permutations(range(4)):
        for inds in INDS:
            for coords in COORDS:
                out.append(("tiny", order, inds, coords, 2 if t else 1))
    for order in ((0, 1, 2, 3), (2, 0, 3, 1)):
        for inds in INDS:
            out.append(("tiny", order, inds, COORDS[1], 4 if t else 3))
    m = 5 if t else 4
    for code in ("rot", "unrot"):
        for dx, dz in product(range(1, m + 1), repeat=2):
            for v in ("plain", "shift", "reversed", "noind"):
                out.append(("lib", code, dx, dz, v, 2 if dx * dz <= 4 else 1))
    for code in ("rot", "unrot"):
        for d in ((2, 2), (2, 3), (3, 3), (4, 4)):
            out.append(("factory", code) + d)
    out.append(("malformed",))
    return out


def base(case):
    if case[0] == "tiny":
        return tiny(*case[1:4])
    _, code, dx, dz, v, _ = case
    kw = {}
    if v == "shift":
        kw = dict(shift=(-7.5, 3), init_ind=12, init_data_qubit_id=7)
    d = make_layout(code, dx, dz, **kw).to_dict()
    if v == "reversed":
        d["layout"] = d["layout"][::-1]
    if v == "noind":
        d["layout"] = d["layout"][1:] + d["layout"][:1]
        for q in d["layout"]:
            del q["ind"]
    return d


# ------------------------------------------------------------------ reference answers
def nones(d):
    return {k: v for k, v in d.items() if v is not None}


def compare(l, s, res, yaml=False):
    """Compares all queries of the layout with the setup; returns an error or None."""
    qs = s["layout"]
    labels = [q["qubit"] for q in qs]
    by = {q["qubit"]: q for q in qs}
    n = 0

    def neq(got, want, what):
        nonlocal n
        n += 1
        if got != want:
            return f"{what}: {got!r} instead of {want!r}"
        return None

    errs = []
    add = lambda e: errs.append(e) if e else None
    for a in ("name", "code", "distance", "distance_x", "distance_z", "description"):
        default = -1 if a.startswith("dist") else ("" if a != "description" else None)
        add(neq(getattr(l, a), s.get(a, default), a))
    add(neq(dict(l.log_x), s["log_x"], "log_x"))
    add(neq(dict(l.log_z), s["log_z"], "log_z"))
    add(neq(l.interaction_order, s["interaction_order"], "interaction_order"))
    add(neq(list(l.get_logical_qubits()), s["logical_qubit_labels"], "logical qubits"))
    # order
    add(neq(list(l.get_qubits()), labels, "get_qubits()"))
    # indices
    if all("ind" not in q for q in qs):
        inds = {q: k for k, q in enumerate(labels)}
    else:
        inds = {q["qubit"]: q["ind"] for q in qs}
    add(neq(dict(l.qubit_inds()), inds, "qubit_inds"))
    add(neq(l.get_max_ind(), max(inds.values()), "get_max_ind"))
    add(neq(l.get_min_ind(), min(inds.values()), "get_min_ind"))
    lists = [labels, labels[::-1], labels[1:] + labels[:1]] + [[q] for q in labels]
    for qq in lists:
        add(neq(list(l.get_inds(qq)), [inds[q] for q in qq], f"get_inds({qq})"))
        add(
            neq(
                [list(c) for c in l.get_coords(qq)],
                [list(by[q]["coords"]) for q in qq],
                f"get_coords({qq})",
            )
        )
    add(
        neq(
            {q: list(c) for q, c in l.qubit_coords().items()},
            {q: list(by[q]["coords"]) for q in labels},
            "qubit_coords",
        )
    )
    ancs = [q for q in labels if by[q]["role"] == "anc"]
    data = [q for q in labels if by[q]["role"] == "data"]
    add(
        neq(
            {q: list(c) for q, c in l.anc_coords().items()},
            {q: list(by[q]["coords"]) for q in ancs},
            "anc_coords",
        )
    )
    # conditions
    common = set(qs[0])
    for q in qs:
        common &= set(q)
    common -= {"qubit", "neighbors", "coords"}
    vals = {p: {q[p] for q in qs if _hashable(q[p])} - {None} for p in common}
    if "ind" in vals:
        vals["ind"] = set(sorted(vals["ind"])[:2])
    for p in sorted(vals):
        for v in sorted(vals[p], key=str):
            add(
                neq(
                    list(l.get_qubits(**{p: v})),
                    [q for q in labels if by[q][p] == v],
                    f"get_qubits({p}={v})",
                )
            )
    for p, r in permutations(sorted(vals), 2):
        for v, w in product(sorted(vals[p], key=str), sorted(vals[r], key=str)):
            add(
                neq(
                    list(l.get_qubits(**{p: v, r: w})),
                    [q for q in labels if by[q][p] == v and by[q][r] == w],
                    f"get_qubits({p}={v}, {r}={w})",
                )
            )
    # parameters
    params = {p for q in qs for p in q} | {"does-not-exist"}
    for q in labels:
        for p in params - {"qubit", "neighbors"}:
            add(neq(l.param(p, q), by[q].get(p), f"param({p}, {q})"))
        add(
            neq(
                nones(l.param("neighbors", q)),
                nones(by[q]["neighbors"]),
                f"param(neighbors, {q})",
            )
        )
    # neighbours
    dirs = sorted({d for q in qs for d in q["neighbors"]} | {"up"})
    for qq in lists:
        for d in [None] + dirs:
            pairs = [
                (q, r)
                for q in qq
                for e, r in by[q]["neighbors"].items()
                if r is not None and d in (None, e)
            ]
            gp = [tuple(x) for x in l.get_neighbors(qq, direction=d, as_pairs=True)]
            gn = list(l.get_neighbors(qq, direction=d))
            add(neq(gn, [r for _, r in gp], f"get_neighbors({qq}, {d})"))
            if yaml:
                gp = sorted(gp, key=lambda x: (qq.index(x[0]), x[1]))
                pairs = sorted(pairs, key=lambda x: (qq.index(x[0]), x[1]))
            add(neq(gp, pairs, f"get_neighbors({qq}, {d}, as_pairs)"))
    # matrices
    m = l.adjacency_matrix()
    if set(m.dims) != {"from_qubit", "to_qubit"}:
        return f"adjacency_matrix dims {m.dims}"
    m = m.transpose("from_qubit", "to_qubit")
    add(neq(list(m.from_qubit.values), labels, "adjacency_matrix.from_qubit"))
    add(neq(list(m.to_qubit.values), labels, "adjacency_matrix.to_qubit"))
    want = [
        [int(r in nones(by[q]["neighbors"]).values()) for r in labels] for q in labels
    ]
    add(neq(m.values.astype(int).tolist(), want, "adjacency_matrix"))
    sup = get_support_from_adj_matrix(m, ancs)
    add(neq(list(sup), list(ancs), "get_support_from_adj_matrix: ancillas"))
    for a in ancs:
        want_a = sorted(set(nones(by[a]["neighbors"]).values()) & set(labels))
        add(neq(sorted(sup[a]), want_a, f"support of {a}"))
    types = sorted({by[a]["stab_type"] for a in ancs} - {None})
    for st in types:
        p = l.projection_matrix(st).transpose("data_qubit", "anc_qubit")
        aa = [a for a in ancs if by[a]["stab_type"] == st]
        add(neq(list(p.data_qubit.values), data, "projection_matrix.data_qubit"))
        add(neq(list(p.anc_qubit.values), aa, "projection_matrix.anc_qubit"))
        want = [
            [int(a in nones(by[d]["neighbors"]).values()) for a in aa] for d in data
        ]
        add(neq(p.values.astype(int).tolist(), want, f"projection_matrix({st})"))
    if ancs:
        e = l.expansion_matrix()
        add(neq(e.dims, ("anc_qubit", "channel", "row", "col"), "expansion dims"))
        add(neq(list(e.anc_qubit.values), ancs, "expansion_matrix.anc_qubit"))
        rows = sorted({by[a]["coords"][0] for a in ancs}, reverse=True)
        cols = sorted({by[a]["coords"][1] for a in ancs})
        add(neq(e.shape, (len(ancs), 1, len(rows), len(cols)), "expansion shape"))
        if not errs:
            v = e.values
            for i, a in enumerate(ancs):
                r, c = by[a]["coords"]
                at = (rows.index(r), cols.index(c))
                got = [tuple(x) for x in zip(*v[i, 0].nonzero())]
                add(neq([tuple(map(int, x)) for x in got], [at], f"expansion of {a}"))
    res.count("queries", n)
    return errs[0] if errs else None


def _hashable(v):
    return isinstance(v, (str, int, float, type(None), tuple))


# ------------------------------------------------------------------ histories
def trip(l, how):
    if how == "copy":
        return copy(l)
    if how == "deepcopy":
        return deepcopy(l)
    if how == "dict":
        return Layout(l.to_dict())
    f = os.path.join(scratch(), f"layout_{os.getpid()}.yaml")
    l.to_yaml(f)
    try:
        return Layout.from_yaml(f)
    finally:
        os.remove(f)


def ops(s):
    q0, q1 = s["layout"][0]["qubit"], s["layout"][-1]["qubit"]
    out = [("trip", h) for h in ("copy", "deepcopy", "dict", "yaml")]
    out += [("back",)]
    out += [
        ("set", "new", q0, 3),
        ("set", "new", q1, {"cz": [q0, None]}),
        ("set", "stab_type", q0, "other"),
        ("set", "coords", q1, [-50, 0.5]),
        ("set", "tag", q0, None),
        ("mutate", "dict"),
        ("mutate", "source"),
        ("mutate", "answers"),
    ]
    return out


def setp(s, p, q, v):
    for d in s["layout"]:
        if d["qubit"] == q:
            d[p] = v


def wreck(x):
    """Changes everything that can be reached from a dictionary, except the containers
    that lead to it when the same dictionary is used again."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                wreck(x[k])
            elif k != "qubit":
                x[k] = "gone"
        x["extra"] = 1
    else:
        for v in x:
            if isinstance(v, (dict, list)):
                wreck(v)
        if not x or not isinstance(x[0], (dict, list)):
            x.append("x")
            x.reverse()


class State:
    """Layouts of the history with their reference setups (the last is current)."""

    def __init__(self, s):
        self.source = s
        self.items = [(Layout(s), deepcopy(s), False)]

    def apply(self, op):
        l, s, y = self.items[-1]
        if op[0] == "trip":
            new = trip(l, op[1])
            self.items.append((new, deepcopy(s), y or op[1] == "yaml"))
        elif op[0] == "back":
            self.items.insert(0, self.items.pop())
        elif op[0] == "set":
            l.set_param(op[1], op[2], deepcopy(op[3]))
            setp(s, op[1], op[2], deepcopy(op[3]))
        elif op == ("mutate", "dict"):
            wreck(l.to_dict())
        elif op == ("mutate", "source"):
            wreck(self.source)
        elif op == ("mutate", "answers"):
            l.get_qubits().clear()
            l.get_logical_qubits().append("x")
            l.qubit_inds().clear()
            l.get_neighbors(l.get_qubits()).clear()

    def check(self, res):
        for l, s, y in self.items:
            e = compare(l, s, res, y)
            if e:
                return e
        return None


def run_case(case, res, tier):
    if case[0] == "malformed":
        return malformed(res)
    if case[0] == "factory":
        return factory(case, res)
    depth = case[-1]
    s0 = base(case)
    menu = ops(s0)
    if case[0] == "lib":
        menu = [o for o in menu if o[0] != "back"]
        coords(case, s0, res)
    for k in range(depth + 1):
        for hist in product(menu, repeat=k):
            if k >= 2 and sum(o[0] == "trip" for o in hist) == 0:
                continue
            st = State(deepcopy(s0))
            res.count("states")
            e = None
            for i, op in enumerate(hist):
                st.apply(op)
                res.count("transitions")
                # shorter histories have been checked before
            e = st.check(res)
            res.count("traces_validated_against_impl")
            if e:
                res.fail(f"{case}:{hist}", f"{case} after {hist}: {e}")
                return
    res.sample(dict(case=str(case), operations=len(menu), depth=depth))


def factory(case, res):
    """Layouts created separately with the same arguments are independent."""
    _, code, dx, dz = case
    pkg = surface_sim.layouts
    makers = [lambda: make_layout(code, dx, dz)]
    rect = getattr(pkg, f"{code}_surface_code_rectangle")
    makers.append(lambda: rect(dx, dz))
    makers.append(lambda: rect(distance_x=dx, distance_z=dz, init_point=(3, -1)))
    if dx == dz:
        makers.append(lambda: getattr(pkg, f"{code}_surface_code")(dx))
        makers.append(lambda: getattr(pkg, f"{code}_surface_code")(distance=dx))
    for i, mk in enumerate(makers):
        a = mk()
        s = a.to_dict()
        b = mk()
        for q in a.get_qubits():
            for p, v in (("coords", [9, 9]), ("extra", q), ("stab_type", None)):
                a.set_param(p, q, v)
                res.count("transitions")
        res.count("states")
        for what, l in (("created before", b), ("created after", mk())):
            res.count("traces_validated_against_impl")
            e = compare(l, s, res)
            if e:
                res.fail(
                    f"{case}:{i}", f"{case}: layout {what} a change of another one: {e}"
                )
                return


def coords(case, s0, res):
    """Coordinates derived from the neighbour directions."""
    l = Layout(deepcopy(s0))
    try:
        set_coords(l)
        res.fail(f"{case}:set_coords", f"{case}: set_coords replaced the coordinates")
    except ValueError:
        pass
    e = compare(l, s0, res)
    res.expect(e is None, f"{case}:set_coords", f"{case}: rejected set_coords: {e}")
    s = deepcopy(s0)
    for q in s["layout"]:
        del q["coords"]
    for l in (Layout(s), Layout(deepcopy(s0))):
        set_coords(l, override=True)
        got = {q: tuple(c) for q, c in l.qubit_coords().items()}
        want = {q["qubit"]: q["coords"] for q in s0["layout"]}
        res.count("queries", len(want))
        e = None
        if set(got) != set(want) or any(len(c) != 2 for c in got.values()):
            e = f"the coordinates are {got}"
        elif not any(matches(got, want, m) for m in SYMMETRIES[case[1]]):
            e = f"the coordinates {got} do not agree with the neighbour directions"
        if e:
            res.fail(f"{case}:set_coords", f"{case}: set_coords: {e}")
            return
        # everything else stays as it was
        d = deepcopy(s0)
        for q in d["layout"]:
            q["coords"] = list(got[q["qubit"]])
            if "ind" not in s["layout"][0]:
                q.pop("ind", None)
        e = compare(l, d, res)
        res.expect(e is None, f"{case}:set_coords", f"{case}: after set_coords: {e}")


def matches(got, want, sym):
    """Are the coordinates the original ones up to a translation and the symmetry?"""
    shifts = set()
    for q, c in want.items():
        x = [sum(m * v for m, v in zip(row, c)) for row in sym]
        shifts.add((got[q][0] - x[0], got[q][1] - x[1]))
    return len(shifts) == 1


# the directions of the unrotated code fix the axes only up to their order
SYMMETRIES = dict(rot=[((1, 0), (0, 1))], unrot=[((1, 0), (0, 1)), ((0, 1), (1, 0))])


def malformed(res):
    good = tiny((0, 1, 2, 3), (3, 2, 1, 0), COORDS[0])
    lib = make_layout("rot", 2, 2).to_dict()
    bad = []

    def edit(s, f, what):
        d = deepcopy(s)
        f(d)
        bad.append((what, d))

    for name, s in (("tiny", good), ("lib", lib)):
        n = len(s["layout"])
        Layout(deepcopy(s))
        for k in range(n):
            edit(s, lambda d: d["layout"][k].pop("qubit"), f"{name}: no label {k}")
            edit(
                s,
                lambda d: d["layout"][k].pop("neighbors"),
                f"{name}: no neighbours {k}",
            )
        # every non-empty proper subset of qubits without index
        for r in range(1, n) if name == "tiny" else (1, 2, n - 1):
            for sub in combinations(range(n), r):

                def f(d):
                    for k in sub:
                        del d["layout"][k]["ind"]

                edit(s, f, f"{name}: no index for {sub}")
        for i, j in permutations(range(n), 2):

            def f(d):
                d["layout"][i]["ind"] = d["layout"][j]["ind"]

            edit(s, f, f"{name}: index of {j} repeated in {i}")

            def f(d):
                d["layout"][i]["qubit"] = d["layout"][j]["qubit"]

            edit(s, f, f"{name}: label of {j} repeated in {i}")

            def f(d):
                d["layout"].insert(i, dict(deepcopy(d["layout"][j]), ind=99))

            edit(s, f, f"{name}: {j} repeated at {i}")
        edit(s, lambda d: d.pop("layout"), f"{name}: no layout")
        for lab in s["logical_qubit_labels"]:
            for w in ("log_x", "log_z"):
                edit(s, lambda d: d[w].pop(lab), f"{name}: no {w} of {lab}")
                edit(s, lambda d: d[w].update(Z9=[]), f"{name}: {w} of unknown")
            edit(
                s, lambda d: d["logical_qubit_labels"].remove(lab), f"{name}: no {lab}"
            )
        for w in ("log_x", "log_z", "logical_qubit_labels"):
            edit(s, lambda d: d.pop(w), f"{name}: no {w}")
    bad += [("list", []), ("none", None), ("text", "layout")]
    for what, d in bad:
        res.count("states")
        res.count("transitions")
        try:
            Layout(d)
        except Exception:
            res.count("rejected")
            continue
        res.fail(f"malformed:{what}", f"malformed setup accepted ({what})")
    f = os.path.join(scratch(), "does_not_exist.yaml")
    try:
        Layout.from_yaml(f)
        res.fail("malformed:file", "missing file accepted")
    except Exception:
        pass
