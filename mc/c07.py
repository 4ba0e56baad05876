"""Exhaustive exploration of the preparation of transversal gates: every code x size x
placement of the layout in the plane x folding qubit (S, H) and every ordered pair of
layouts (CNOT).  For each prepared gate the circuit built from it is propagated exactly
(all Pauli generators at once): the image of every stabilizer generator must be the product
of the generators recorded on the layout, the image of the logical operators must be that
of S, H or CNOT up to stabilizers, and nothing outside the data qubits may be touched.  All
orders of preparing several gates and orientations are enumerated: each must record exactly
what it records when prepared alone."""

from copy import deepcopy
from itertools import permutations, product

from surface_sim import Layout
from surface_sim.detectors import get_new_stab_dict_from_layout

import warnings

from .frames import Frame, Span
from .lib import (
    FAM,
    corners,
    exchanged,
    gates_module,
    make_layout,
    make_model,
    qubit_inds,
)

warnings.filterwarnings("ignore", category=RuntimeWarning)

LEVEL = "exploration"
RULE = (
    "one evaluation = one operator (stabilizer generator or logical operator) whose image "
    "under one prepared gate was compared, or one record compared after a preparation "
    "order; non-trivial = operators that the gate changes, records of other gates"
)
ASSUMPTIONS = [
    "folding qubits other than the documented ones may be rejected; the images are "
    "compared up to a sign (Pauli)",
]
PLACES = (
    "plain",
    "offset",
    "neg",
    "frac",
    "far",
    "scaled",
    "half",
    "mirror",
    "turned",
    "diagonal",
    "types",
    "ids",
    "reversed",
)


def place(code, dx, dz, v, k=0):
    """k-th layout at the given place."""
    if v == "ids":
        l = make_layout(
            code,
            dx,
            dz,
            k,
            logical_qubit_label=f"q{k}",
            init_data_qubit_id=5 + 100 * k,
            init_zanc_qubit_id=70 + 100 * k,
            init_xanc_qubit_id=9 + 100 * k,
        )
        return l
    if v[0] == "near":
        return make_layout(code, dx, dz, k, shift=(1 + v[1], 1 + v[2]))
    shifts = dict(offset=(7, 12), neg=(-30, -11), frac=(0.25, -3.3), far=(1234, -777.5))
    x, y = shifts.get(v, (1, 1))
    l = make_layout(code, dx, dz, k, shift=(x + 40 * k, y))
    d = (exchanged(l) if v == "types" else l).to_dict()
    f = dict(
        scaled=lambda x, y: (2 * x, 2 * y),
        half=lambda x, y: (x / 2, y / 2),
        mirror=lambda x, y: (-x, y),
        turned=lambda x, y: (-y, x),
        diagonal=lambda x, y: (x + y, x - y),
    ).get(v)
    if f:
        for q in d["layout"]:
            q["coords"] = list(f(*q["coords"]))
    if v == "reversed":
        d["layout"] = d["layout"][::-1]
        for q in d["layout"]:
            q["neighbors"] = dict(reversed(q["neighbors"].items()))
    return Layout(d)


def mods(code):
    return ["css", "css_pip"] if code == "rot" else ["unrot"]


def cases(tier):
    m = 7 if tier == "thorough" else 5
    out = []
    for v in PLACES:
        for d in range(2, m + 1):
            out.append(("S", "rot", d, d + 1, v))
            out.append(("S", "unrot", d, d, v))
            out.append(("H", "unrot", d, d, v))
    w = 5 if tier == "thorough" else 4
    for v, v2 in product(PLACES, repeat=2):
        for code in ("rot", "unrot"):
            for dx, dz in product(range(2, w + 1), repeat=2):
                if v != v2 and (dx * dz > 6 or "diagonal" in (v, v2)):
                    continue
                if dx * dz == 16 and tier == "quick":
                    continue
                if code == "unrot" and dx * dz > (12 if tier == "thorough" else 9):
                    continue
                out.append(("CX", code, dx, dz, v, v2))
    steps = (0, 0.5, -0.5, 0.25, -1, 1, 1.5, -2, 2)
    for code, dx, dz in product(("rot", "unrot"), (2, 3), (2, 3)):
        for x, y in product(steps, repeat=2):
            if dx * dz > 4 and tier == "quick" and abs(x) + abs(y) > 1:
                continue
            if x % 1 or y % 1:
                out.append(("CX", code, dx, dz, "plain", ("near", x, y)))
    for code, dx, dz in (("rot", 2, 3), ("unrot", 2, 2), ("rot", 3, 3)):
        for first in range(dict(rot=5 if dz > dx else 3, unrot=6)[code]):
            out.append(("order", code, dx, dz, first))
    return out


# ------------------------------------------------------------------ symplectic images
class Images:
    def __init__(self, circ, inds):
        self.inds = inds
        fr = Frame()
        self.bit = {(q, p): fr.inject(i, p) for q, i in inds.items() for p in "XZ"}
        fr.apply(circ)
        self.fr = fr

    def of(self, op):
        """Image of {label: pauli} as a canonical frozenset of (label, pauli)."""
        m = []
        for q, p in op.items():
            m += [self.bit[q, c] for c in ("XZ" if p == "Y" else p)]
        out = set()
        for q, i in self.inds.items():
            x = z = 0
            for b in m:
                x ^= bool(self.fr.x.get(i, 0) & b)
                z ^= bool(self.fr.z.get(i, 0) & b)
            if x or z:
                out.add((q, "IXZY"[x + 2 * z]))
        return frozenset(out)


def vec(op, pos):
    v, n = 0, len(pos)
    for q, p in op:
        if p in "XY":
            v |= 1 << pos[q]
        if p in "ZY":
            v |= 1 << (n + pos[q])
    return v


def check_gate(gate, circ, layouts, label, key, res):
    """``layouts``: control and target, or a single one."""
    inds = qubit_inds(*layouts)
    pos = {q: k for k, q in enumerate(inds)}
    im = Images(circ, inds)
    gens, by = {}, {}
    for l in layouts:
        for a in l.get_qubits(role="anc"):
            p = "X" if l.param("stab_type", a) == "x_type" else "Z"
            gens[a] = {d: p for d in l.get_neighbors([a])}
            by[a] = l
    v = {a: vec(g.items(), pos) for a, g in gens.items()}
    group = Span(v.values())
    for l in layouts:
        told = get_new_stab_dict_from_layout(l, label)
        want = {a: list(l.param(label, a)["new_stab_gen"]) for a in gens if by[a] is l}
        if {a: list(r) for a, r in told.items()} != want:
            res.fail(key, f"{key}: get_new_stab_dict_from_layout gives {told}")
            return
    for a, g in gens.items():
        rec = by[a].param(label, a)["new_stab_gen"]
        want = 0
        for b in rec:
            want ^= v[b]
        got = im.of(g)
        res.count("evaluations")
        if set(got) != set(g.items()):
            res.count("distinct_nontrivial")
        if vec(got, pos) != want or len(set(rec)) != len(rec):
            res.fail(
                key,
                f"{key}: the stabilizer of {a} becomes {sorted(got)} but {list(rec)} is "
                "recorded",
            )
            return
    # logical operators
    L = []
    for l in layouts:
        lab = l.get_logical_qubits()[0]
        L.append(
            dict(X={q: "X" for q in l.log_x[lab]}, Z={q: "Z" for q in l.log_z[lab]})
        )
    table = dict(
        S={"X0": ["X0", "Z0"], "Z0": ["Z0"]},
        H={"X0": ["Z0"], "Z0": ["X0"]},
        CX={"X0": ["X0", "X1"], "Z0": ["Z0"], "X1": ["X1"], "Z1": ["Z0", "Z1"]},
    )[gate]
    for src, dst in table.items():
        want = 0
        for t in dst:
            want ^= vec(L[int(t[1])][t[0]].items(), pos)
        got = vec(im.of(L[int(src[1])][src[0]]), pos)
        res.count("evaluations")
        res.count("distinct_nontrivial", int(dst != [src]))
        if got ^ want not in group:
            res.fail(key, f"{key}: the logical {src} does not become {dst}")
            return
    # no ancilla takes part
    for a in gens:
        for p in "XZ":
            if im.of({a: p}) != frozenset([(a, p)]):
                res.fail(key, f"{key}: the gate acts on the ancilla {a}")
                return


def check_partners(gate, layouts, label, key, res):
    name = dict(S="cz", H="swap", CX="cnot")[gate]
    rec = {}
    for l in layouts:
        for d in l.get_qubits(role="data"):
            rec[d] = l.param(label, d)[name]
    for d, p in rec.items():
        ok = (p is None) if gate != "CX" else False
        ok = ok or (p in rec and rec[p] == d and p != d)
        if gate == "CX" and ok:
            ok = (d in layouts[0].get_qubits()) != (p in layouts[0].get_qubits())
        res.count("evaluations")
        if not ok:
            res.fail(
                key, f"{key}: partner of {d} is {p}, whose partner is {rec.get(p)}"
            )
            return
    if gate == "CX":
        # all the physical CNOTs are parallel
        pos = {q: c for l in layouts for q, c in l.qubit_coords().items()}
        data = layouts[0].get_qubits(role="data")
        v = [[b - a for a, b in zip(pos[d], pos[rec[d]])] for d in data]
        res.count("evaluations")
        bad = [
            d
            for d, w in zip(data, v)
            if any(abs(a - b) > 1e-6 for a, b in zip(w, v[0]))
        ]
        if bad:
            res.fail(
                key, f"{key}: the CNOTs on {bad[0]} and {data[0]} are not parallel"
            )


def circuit(gate, fam, layouts):
    _, mod = FAM[fam]
    inds = qubit_inds(*layouts)
    model = make_model("noiseless", inds)
    model.new_circuit()
    from surface_sim import Detectors

    anc = [a for l in layouts for a in l.get_qubits(role="anc")]
    det = Detectors(anc, "post-gate")
    det.activate_detectors(anc)
    f = dict(S="log_trans_s", H="log_trans_h", CX="log_trans_cnot")[gate]
    return getattr(mod, f)(model, *layouts, det)


def label_of(gate, layouts):
    labs = [l.get_logical_qubits()[0] for l in layouts]
    return dict(S="trans-s_", H="trans-h_", CX="trans-cnot_")[gate] + "_".join(labs)


def prepare(gate, code, layouts, q=None):
    g = gates_module(code)
    if gate == "CX":
        g.set_trans_cnot(*layouts)
    else:
        getattr(g, "set_trans_" + gate.lower())(layouts[0], q)


def required(gate, code, l):
    """Folding qubits that must be accepted."""
    if code == "unrot":
        return corners(l)
    return [fold_corner(l)]


def fold_corner(l):
    """Corner with a weight-two X stabilizer through which the rotated code is folded:
    the corner of the short side from which the X stabilizer leads along the long side.
    """
    data = l.get_qubits(role="data")
    for c in corners(l):
        nb = l.get_neighbors([c])
        xs = [a for a in nb if l.param("stab_type", a) == "x_type"]
        if len(xs) == 1 and len(l.get_neighbors(xs)) == 2:
            return c
    return None


def run_case(case, res, tier):
    gate, code = case[:2]
    if gate == "order":
        return run_order(case, res)
    if gate == "CX":
        _, _, dx, dz, v, v2 = case
        if v == v2:
            l = [place(code, dx, dz, v, k) for k in range(2)]
        else:
            l = [place(code, dx, dz, v, 0), place(code, dx, dz, v2, 1)]
        # layouts that are not translations of each other may be rejected
        odd = v != v2 and {v, v2} & {*("scaled", "half", "mirror", "turned", "types")}
        for c, t in (l, l[::-1]):
            try:
                prepare("CX", code, (c, t))
            except ValueError:
                if odd:
                    res.count("rejected")
                    return
                raise
        for c, t in (l, l[::-1]):
            key = f"{case}:{c.get_logical_qubits()[0]}"
            lab = label_of("CX", (c, t))
            check_partners("CX", (c, t), lab, key, res)
            for fam in mods(code):
                check_gate("CX", circuit("CX", fam, (c, t)), (c, t), lab, key, res)
        res.sample(dict(case=str(case)))
        return
    _, _, dx, dz, v = case
    base = place(code, dx, dz, v)
    must = required(gate, code, base)
    if code == "rot" and v in ("mirror", "turned", "diagonal", "types"):
        must = []  # may be rejected
    accepted = 0
    for q in base.get_qubits(role="data"):
        l = place(code, dx, dz, v)
        key = f"{case}:{q}"
        try:
            prepare(gate, code, (l,), q)
        except Exception as e:
            if q in must:
                res.fail(key, f"{key}: not accepted, {type(e).__name__}: {e}")
            continue
        accepted += 1
        lab = label_of(gate, (l,))
        check_partners(gate, (l,), lab, key, res)
        for fam in mods(code):
            check_gate(gate, circuit(gate, fam, (l,)), (l,), lab, key, res)
    res.count("accepted", accepted)
    res.sample(dict(case=str(case), required=must, accepted=accepted))


def run_order(case, res):
    _, code, dx, dz, first = case
    base = [place(code, dx, dz, "plain", k) for k in range(3)]
    acts = [("CX", (0, 1)), ("CX", (1, 0)), ("CX", (2, 0))]
    if (code == "rot" and dz == dx + 1) or (code == "unrot" and dx == dz):
        acts += [("S", (0,)), ("S", (1,))]
    if code == "unrot" and dx == dz:
        acts.append(("H", (0,)))

    def run(act, lays):
        gate, ks = act
        ls = [lays[k] for k in ks]
        q = required(gate, code, ls[0])[0] if gate != "CX" else None
        prepare(gate, code, ls, q)

    def record(act, lays):
        lab = label_of(act[0], [lays[k] for k in act[1]])
        return {
            (k, q): deepcopy(lays[k].param(lab, q))
            for k in act[1]
            for q in lays[k].get_qubits()
        }

    alone = {}
    for act in acts:
        lays = [deepcopy(l) for l in base]
        run(act, lays)
        alone[act] = record(act, lays)
    for rest in permutations(acts[:first] + acts[first + 1 :]):
        perm = (acts[first],) + rest
        lays = [deepcopy(l) for l in base]
        for act in perm:
            run(act, lays)
        for act in acts:
            res.count("evaluations")
            res.count("distinct_nontrivial", int(act != perm[-1]))
            if record(act, lays) != alone[act]:
                res.fail(
                    f"{case}:{perm}",
                    f"{case}: after preparing {perm} the record of {act} differs from "
                    "that of the gate prepared alone",
                )
                return
    # every short history over all the ordered pairs of layouts, also preparing a gate twice
    pairs = [("CX", ks) for ks in permutations(range(3), 2)]
    pool = acts + [act for act in pairs if act not in acts]
    for act in pool[len(acts) :]:
        lays = [deepcopy(l) for l in base]
        run(act, lays)
        alone[act] = record(act, lays)
    depth = 3 if dx * dz <= 6 else 2
    for n in range(2, depth + 1):
        for seq in product(pool, repeat=n):
            if seq[0] != acts[first]:
                if first or seq[0] in acts:
                    continue
            lays = [deepcopy(l) for l in base]
            for act in seq:
                run(act, lays)
            for act in set(seq):
                res.count("evaluations")
                res.count("distinct_nontrivial", int(act != seq[-1]))
                if record(act, lays) != alone[act]:
                    res.fail(
                        f"{case}:{seq}",
                        f"{case}: after preparing {seq} the record of {act} differs from "
                        "that of the gate prepared alone",
                    )
                    return
    # preparing a gate again through another corner only changes that gate
    if code == "unrot" and dx == dz and first == 0:
        for g1 in ("S", "H"):
            for c in corners(base[0]):
                lays = [deepcopy(l) for l in base]
                for act in acts:
                    run(act, lays)
                prepare(g1, code, [lays[0]], c)
                for act in acts:
                    if act == (g1, (0,)):
                        continue
                    res.count("evaluations")
                    res.expect(
                        record(act, lays) == alone[act],
                        f"{case}:again",
                        f"{case}: preparing {g1} again changes the record of {act}",
                    )
    # what the records of the layout say about the code is unchanged
    for l, b in zip(lays, base):
        for q in b.get_qubits():
            res.expect(
                l.param("neighbors", q) == b.param("neighbors", q)
                and l.param("stab_type", q) == b.param("stab_type", q)
                or b.param("role", q) == "data",
                f"{case}:code",
                f"{case}: the preparations changed the neighbours of {q}",
            )
    res.sample(dict(case=str(case), gates=[str(a) for a in acts]))
