"""Exhaustive enumeration of collections of layouts.  (1) Every way in which one or two
pairs of layouts out of up to four (five) share a qubit label, an index, a coordinate
and/or a logical label, at several qubits, in every order of the arguments.  (2) Every
pair of generated layouts in a window of relative positions, indices and labels.  (3) Every
pair of codes, sizes and relations for the preparation of a transversal CNOT.  The expected
verdict is computed from the labels, indices, coordinates and logical labels that the
layouts report; layouts must never change unless a gate has been prepared.  (4) All assignments of few
labels, indices and coordinates (interleaved, prefixes, fractions) to two and three layouts
of two qubits, and codes whose indices and coordinates alternate."""

from itertools import combinations, permutations, product

from surface_sim import Layout
from surface_sim.layouts import check_overlap_layouts

from .c18 import snapshot
from .lib import gates_module, make_layout

LEVEL = "exploration"
RULE = {
    "evaluations": "overlap checks and gate preparations executed",
    "distinct_nontrivial": "distinct collections (with order) that share something, or "
    "preparations that must be rejected",
}

WHAT = ("label", "ind", "coord", "logical")


def overlap(a, b):
    """Everything two layouts share."""
    out = set()
    if set(a.get_qubits()) & set(b.get_qubits()):
        out.add("label")
    if set(a.qubit_inds().values()) & set(b.qubit_inds().values()):
        out.add("ind")
    ca = {tuple(map(float, c)) for c in a.qubit_coords().values()}
    cb = {tuple(map(float, c)) for c in b.qubit_coords().values()}
    if ca & cb:
        out.add("coord")
    if set(a.get_logical_qubits()) & set(b.get_logical_qubits()):
        out.add("logical")
    return out


def expected(layouts):
    return not any(overlap(a, b) for a, b in combinations(layouts, 2))


def rename(d, old, new):
    """Setup dictionary with another label for a qubit."""
    for n in d["layout"]:
        if n["qubit"] == old:
            n["qubit"] = new
        n["neighbors"] = {
            k: (new if v == old else v) for k, v in n["neighbors"].items()
        }
    for log in ("log_x", "log_z"):
        d[log] = {k: [new if q == old else q for q in v] for k, v in d[log].items()}


def share(dst, src, what, where):
    """``dst`` with something of ``src``; ``where`` = (position in dst, in src)."""
    d = dst.to_dict()
    qd = dst.get_qubits()[where[0]]
    qs = src.get_qubits()[where[1]]
    node = next(n for n in d["layout"] if n["qubit"] == qd)
    if "ind" in what:
        node["ind"] = src.qubit_inds()[qs]
    if "coord" in what:
        node["coords"] = list(src.qubit_coords()[qs])
    if "logical" in what:
        new, old = src.get_logical_qubits()[0], dst.get_logical_qubits()[0]
        d["logical_qubit_labels"] = [new]
        for log in ("log_x", "log_z"):
            d[log] = {new: d[log][old]}
    if "label" in what:
        rename(d, qd, qs)
    return Layout(d)


def verdict(layouts, res, name):
    exp = expected(layouts)
    before = [snapshot(l) for l in layouts]
    for perm in permutations(range(len(layouts))):
        ls = [layouts[i] for i in perm]
        res.count("evaluations")
        try:
            r = check_overlap_layouts(*ls)
            got = True
        except ValueError:
            got = False
        except Exception as e:
            res.fail(
                f"error:{name}", f"{name} in order {perm}: {type(e).__name__}: {e}"
            )
            continue
        if not exp:
            res.count("distinct_nontrivial")
        res.expect(
            got == exp,
            f"verdict:{name}",
            f"{name} in order {perm}: {'accepted' if got else 'rejected'}, but "
            + str([sorted(overlap(a, b)) for a, b in combinations(ls, 2)]),
        )
    res.expect(
        before == [snapshot(l) for l in layouts],
        f"modified:{name}",
        f"check_overlap_layouts modified the layouts ({name})",
    )


def subsets():
    return [
        tuple(w for w, b in zip(WHAT, bits) if b)
        for bits in product((0, 1), repeat=len(WHAT))
        if any(bits)
    ]


CODES = [("rot", 2, 2), ("unrot", 2, 2), ("rot", 2, 3), ("unrot", 2, 3), ("rot", 3, 2)]


def disjoint(n):
    return [make_layout(*CODES[i % len(CODES)], i) for i in range(n)]


def one_pair(n, what, res):
    base = disjoint(n)
    verdict(base, res, f"{n} disjoint layouts")
    for i, j in permutations(range(n), 2):
        nd, ns = len(base[j].get_qubits()), len(base[i].get_qubits())
        pos = (
            product((0, 1, nd // 2, nd - 1), (0, ns // 2, ns - 1))
            if n < 4
            else [(0, 0), (nd - 1, ns - 1)]
        )
        for where in pos:
            ls = list(base)
            ls[j] = share(base[j], base[i], what, where)
            if len(ls[j].get_qubits()) != nd:
                continue
            verdict(
                ls, res, f"{n} layouts, {j} shares {'+'.join(what)} of {i} at {where}"
            )


def two_pairs(n, w1, res):
    base = disjoint(n)
    for (i, j), (k, l) in combinations(list(combinations(range(n), 2)), 2):
        for w2 in subsets():
            ls = list(base)
            ls[j] = share(ls[j], ls[i], w1, (0, 0))
            ls[l] = share(ls[l], ls[k], w2, (-1, -1))
            verdict(
                ls,
                res,
                f"{n} layouts, {j} shares {'+'.join(w1)} of {i}, "
                f"{l} shares {'+'.join(w2)} of {k}",
            )


def trivial(res):
    check_overlap_layouts()
    a, b, c = disjoint(3)
    for l in (a, b, c):
        check_overlap_layouts(l)
        res.count("evaluations")
    for ls in ((a, a), (a, b, a), (a, a, b), (a, b, b), (a, b, c, a), (b, a, a, c)):
        verdict(list(ls), res, "the same layout twice")
    verdict([a, Layout(a.to_dict())], res, "a layout and its copy")
    verdict([a, b, Layout(a.to_dict())], res, "a layout and its copy")


def logicals(res):
    """Layouts with zero to three logical qubits, all ways to share their labels."""
    names = ("P", "Q", "R")

    def make(k, logs):
        d = disjoint(k + 1)[k].to_dict()
        old = d["logical_qubit_labels"][0]
        d["logical_qubit_labels"] = list(logs)
        for log in ("log_x", "log_z"):
            d[log] = {n: d[log][old] for n in reversed(logs)}
        return Layout(d)

    orders = [p for r in range(4) for p in permutations(names, r)]
    for a, b in product(orders, repeat=2):
        verdict([make(0, a), make(1, b)], res, f"logical qubits {a} and {b}")
    few = [(), ("P",), ("Q", "P"), ("P", "R"), ("R", "Q")]
    for t in product(few, repeat=3):
        verdict([make(k, x) for k, x in enumerate(t)], res, f"logical qubits {t}")


NAMES = ("D1", "D2", "D11", "d1", "D")
INDICES = (0, 1, 2, 3, 10)
PLACES = ((0, 0), (0, 1), (1, 0), (1, 1), (0.5, 0), (-1, 0), (10, 1))


def small(k, labels=None, inds=None, coords=None):
    """Two qubits without connections."""
    labels = labels or (f"Q{2 * k}", f"Q{2 * k + 1}")
    inds = inds or (100 + 2 * k, 101 + 2 * k)
    coords = coords or ((50 + k, 0), (50 + k, 1))
    qubits = [
        dict(
            qubit=q,
            role="data",
            stab_type=None,
            ind=i,
            coords=list(c),
            neighbors={},
        )
        for q, i, c in zip(labels, inds, coords)
    ]
    return Layout(
        dict(
            code="small",
            logical_qubit_labels=[f"P{k}"],
            log_x={f"P{k}": [labels[0]]},
            log_z={f"P{k}": list(labels)},
            distance_x=1,
            distance_z=1,
            interaction_order={},
            layout=qubits,
        )
    )


def interleaved(kw, values, n, res):
    """All assignments of labels, indices or coordinates to ``n`` layouts of two qubits."""
    pairs = list(permutations(values, 2)) if n == 2 else list(combinations(values, 2))
    made = [[small(k, **{kw: p}) for p in pairs] for k in range(n)]
    for t in product(range(len(pairs)), repeat=n):
        verdict(
            [made[k][i] for k, i in enumerate(t)],
            res,
            f"{kw} {[pairs[i] for i in t]}",
        )


def grids(res):
    """Codes whose indices, labels or coordinates alternate."""
    for n in (2, 3):
        for codes in product((("rot", 2, 2), ("rot", 2, 3), ("unrot", 2, 2)), repeat=n):
            for shift in (0, 1):
                ls = []
                for k, c in enumerate(codes):
                    d = make_layout(*c, k).to_dict()
                    k = max(k - shift, 0)
                    for j, q in enumerate(d["layout"]):
                        q["ind"] = n * j + k
                        q["coords"] = [j // 4 * n + k, j % 4]
                    ls.append(Layout(d))
                verdict(ls, res, f"alternating {codes} {shift}")


def window(a, b, span, res):
    """Relative positions, ids and indices of two generated layouts."""
    (ca, xa, za), (cb, xb, zb) = a, b
    la = make_layout(ca, xa, za, 1, shift=(0, 0))
    na = len(la.get_qubits())
    i0 = la.get_min_ind()
    far = dict(init_ind=2000, logical_qubit_label="L9")
    ids = lambda k: dict(
        init_data_qubit_id=k, init_zanc_qubit_id=k, init_xanc_qubit_id=k
    )
    step = [x / 2 for x in range(-2 * span, 2 * span + 1)]
    for dx, dy in product(step, step):
        lb = make_layout(cb, xb, zb, 2, shift=(dx, dy), **far)
        verdict([la, lb], res, f"{a} and {b} displaced by {(dx, dy)}")
    for k in range(i0 - 30, i0 + na + 3):
        lb = make_layout(cb, xb, zb, 2, shift=(500, 500), **{**far, "init_ind": k})
        verdict([la, lb], res, f"{a} and {b} with indices from {k}")
    for k in range(201 - 14, 201 + 14):
        lb = make_layout(cb, xb, zb, 2, shift=(500, 500), **far, **ids(k))
        verdict([la, lb], res, f"{a} and {b} with labels from {k}")
    for name in ("L1", "L", "L2", "l1", "L11"):
        lb = make_layout(
            cb, xb, zb, 2, shift=(500, 500), init_ind=2000, logical_qubit_label=name
        )
        verdict([la, lb], res, f"{a} and {b} with logical label {name}")


# ------------------------------------------------------------------ transversal CNOT
def cnot_pair(code, a, b, res):
    """All relations between two layouts of the given (code, dx, dz)."""
    g = gates_module(code)
    l1 = make_layout(*a, 0)
    l2 = make_layout(*b, 1)
    rel = [("disjoint", l2)]
    for d in ((3.5, 0), (1, 0), (0, 1), (0.5, 0.5), (-20, 7), (0, -30), (60, 60)):
        rel.append((f"displaced by {d}", make_layout(*b, 1, shift=d)))
    n = len(l2.get_qubits())
    for what in subsets():
        for where in ((0, 0), (n - 1, -1)) if len(what) == 1 else ((0, 0),):
            rel.append((f"sharing {what} at {where}", share(l2, l1, what, where)))
    rel.append(("identical", l1 if a == b else Layout(l1.to_dict())))
    for name, l2 in rel:
        for c, t in ((l1, l2), (l2, l1)):
            c, t = (c, c) if c is t else (Layout(c.to_dict()), Layout(t.to_dict()))
            ok = (
                not overlap(c, t)
                and a == b
                and a[0] == code
                # sharing displaces a single qubit
                and "sharing" not in name
            )
            before = snapshot(c), snapshot(t)
            res.count("evaluations")
            if not ok:
                res.count("distinct_nontrivial")
            try:
                g.set_trans_cnot(c, t)
                got = True
            except Exception as e:
                got = False
                err = f"{type(e).__name__}: {e}"
            key = f"cnot:{code}:{a}:{b}:{name}"
            if got != ok:
                res.fail(
                    key,
                    f"set_trans_cnot ({code}) of {a} and {b} ({name}): "
                    + ("accepted" if got else "rejected: " + err),
                )
                continue
            if not got:
                res.expect(
                    before == (snapshot(c), snapshot(t)),
                    key,
                    f"rejected set_trans_cnot ({code}) of {a} and {b} ({name}) "
                    "modified the layouts",
                )
            else:
                lab = f"trans-cnot_{c.get_logical_qubits()[0]}_{t.get_logical_qubits()[0]}"
                res.expect(
                    all(
                        l.param(lab, q) is not None
                        for l in (c, t)
                        for q in l.get_qubits()
                    ),
                    key,
                    f"set_trans_cnot ({code}) of {a} and {b} ({name}) prepares only part",
                )


def cases(tier):
    t = tier == "thorough"
    out = [("trivial",), ("logicals",), ("grids",)]
    for kw, values in (("labels", NAMES), ("inds", INDICES), ("coords", PLACES)):
        out += [("interleaved", kw, values, n) for n in (2, 3)]
    for n in (2, 3, 4, 5) if t else (2, 3, 4):
        for w in subsets():
            out.append(("one", n, w))
    for n in (3, 4):
        for w in subsets():
            if n == 3 or t or len(w) == 1:
                out.append(("two", n, w))
    sizes = [("rot", 2, 2), ("unrot", 2, 2), ("rot", 2, 3)]
    if t:
        sizes += [("rot", 3, 3), ("unrot", 3, 2)]
    for a in sizes:
        for b in sizes:
            out.append(("window", a, b, 9 if t else 6))
    pairs = [(c, x, z) for c in ("rot", "unrot") for x, z in ((2, 2), (2, 3), (3, 2))]
    if t:
        pairs += [("rot", 3, 3), ("rot", 3, 4), ("unrot", 3, 3)]
    for code in ("rot", "unrot"):
        for a in pairs:
            for b in pairs:
                if code in (a[0], b[0]):
                    out.append(("cnot", code, a, b))
    return out


def run_case(case, res, tier):
    f = dict(
        one=one_pair,
        two=two_pairs,
        window=window,
        cnot=cnot_pair,
        trivial=trivial,
        logicals=logicals,
        grids=grids,
        interleaved=interleaved,
    )
    f[case[0]](*case[1:], res)
