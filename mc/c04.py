"""Exhaustive exploration of QEC rounds: every block family x rectangular size x variant
of the layout (offset, labels, indices, order of the qubits, order of the stabilizer
types, symmetric images of the interaction order) x reset policy.  For each round the complete set of Pauli inputs is propagated
symbolically: every single-qubit Pauli of the data and ancilla qubits is injected and the
outcomes it flips must be exactly those of the stabilizers (computed from the coordinates)
that anticommute with it, it must leave the round unchanged, and the random phases created
by resets and measurements may only leave stabilizers on the data.  This fixes the measured
operators up to a sign; the sign is decided by stim flows.  Composition: the map of n
consecutive rounds is checked in the same way."""

from itertools import product

import stim

from surface_sim import Layout

from .frames import MEAS, RESET, Frame, Span
from .lib import (
    FAM,
    Canon,
    diff_canon,
    exchanged,
    logical,
    make_detectors,
    make_layout,
    make_model,
    rotated_data,
    strip_noise,
    to_inds,
)

LEVEL = "exploration"
RULE = (
    "one evaluation = one (round, input Pauli or measured stabilizer) pair whose outcome "
    "flips and output were compared; non-trivial = pairs in which the Pauli flips at "
    "least one outcome or the stabilizer has support"
)
VARIANTS = ("plain", "offset", "ids", "reversed", "types", "frac", "exchanged")
# mirror images, rotations, reversals in time and exchanges of the types of the
# interaction order: all of them are schedules that measure the stabilizers
ORDERS = [
    ("order", *o)
    for o in product((1, -1), (1, -1), (False, True), (False, True), (False, True))
][1:]
STEPS = dict(north=(0, 1), south=(0, -1), east=(1, 0), west=(-1, 0))


def turn(direction, sx, sy, swap):
    """Image of a direction under a symmetry of the square."""
    x = y = 0
    for d in direction.split("_"):
        x, y = x + STEPS[d][0], y + STEPS[d][1]
    x, y = sx * x, sy * y
    if swap:
        x, y = y, x
    ns = {1: ["north"], -1: ["south"], 0: []}[y]
    return "_".join(ns + {1: ["east"], -1: ["west"], 0: []}[x])


def turned(order, sx, sy, swap, back, types):
    new = {
        t: [turn(d, sx, sy, swap) for d in (ds[::-1] if back else ds)]
        for t, ds in order.items()
    }
    if types:
        new = dict(x_type=new["z_type"], z_type=new["x_type"])
    return new


def make_variant(code, dx, dz, v):
    if v == "offset":
        return make_layout(code, dx, dz, shift=(-7, 12), init_ind=3)
    if v == "frac":
        return make_layout(code, dx, dz, shift=(-2.25, 0.5))
    if v == "ids":
        return make_layout(
            code,
            dx,
            dz,
            logical_qubit_label="q",
            init_data_qubit_id=5,
            init_zanc_qubit_id=90,
            init_xanc_qubit_id=8,
            init_ind=17,
        )
    l = make_layout(code, dx, dz)
    if v == "reversed":
        d = l.to_dict()
        d["layout"] = d["layout"][::-1]
        n = len(d["layout"])
        for k, q in enumerate(d["layout"]):
            q["ind"] = (
                (5 * k + 2) % n if n % 5 else (7 * k + 2) % (n if n % 7 else n + 1)
            )
        l = Layout(d)
    if v == "types":
        d = l.to_dict()
        d["interaction_order"] = dict(reversed(d["interaction_order"].items()))
        l = Layout(d)
    if v == "exchanged":
        l = exchanged(l)
    if v[0] == "order":
        d = l.to_dict()
        d["interaction_order"] = turned(d["interaction_order"], *v[1:])
        l = Layout(d)
    return l


def cases(tier):
    m = 10 if tier == "thorough" else 6
    out = []
    for fam in FAM:
        for dx in range(2, m + 1):
            for dz in range(2, m + 1):
                for v in VARIANTS:
                    for reset in (True, False):
                        if fam == "google" and not reset:
                            continue
                        out.append((fam, dx, dz, v, reset))
        top = 5 if tier == "thorough" else 3
        for dx, dz in [*product(range(2, top + 1), repeat=2), (2, 4), (4, 3)]:
            for v in ORDERS:
                for reset in (True, False):
                    if fam == "google" and not reset:
                        continue
                    out.append((fam, dx, dz, v, reset))
    return out


def run_case(case, res, tier):
    fam, dx, dz, v, reset = case
    code, mod = FAM[fam]
    lay = make_variant(code, dx, dz, v)
    inds = lay.qubit_inds()
    model = make_model("noiseless", dict(inds))
    model.new_circuit()
    det = make_detectors([lay], "post-gate")
    anc = lay.get_qubits(role="anc")
    data = lay.get_qubits(role="data")
    det.activate_detectors(anc)
    kw = {} if fam == "google" else dict(anc_reset=reset)
    rot = rotated_data(lay, fam)
    stab = {a: to_inds(geometric(lay, a, rot), inds) for a in anc}
    key = str(case)

    rounds = [mod.qec_round(model, lay, det, **kw) for _ in range(3)]
    one = rounds[0]
    # the iterator gives the same blocks
    if fam != "google":
        m2 = make_model("noiseless", dict(inds))
        m2.new_circuit()
        it = stim.Circuit()
        for b in mod.qec_round_iterator(model=m2, layout=lay, anc_reset=reset):
            it += b
        d = diff_canon(Canon(one, annotations=False), Canon(it), what=("layers",))
        res.expect(d is None, key + ":iterator", f"{case}: iterator differs: {d}")
    for other in rounds[1:]:
        d = diff_canon(
            Canon(one, annotations=False),
            Canon(other, annotations=False),
            what=("layers",),
        )
        res.expect(d is None, key + ":repeat", f"{case}: next round differs: {d}")

    # every ancilla is measured exactly once, nothing else is measured or reset
    meas, touched_reset = [], set()
    for ins in one.flattened():
        if ins.name in MEAS:
            meas += [t.value for t in ins.targets_copy()]
        if ins.name in RESET:
            touched_reset |= {t.value for t in ins.targets_copy()}
    ai = {inds[a]: a for a in anc}
    if sorted(meas) != sorted(ai):
        res.fail(key, f"{case}: measured qubits {sorted(meas)}, ancillas {sorted(ai)}")
        return
    if touched_reset - set(ai):
        res.fail(key, f"{case}: data qubits are reset: {touched_reset - set(ai)}")
        return
    if touched_reset and touched_reset != set(ai):
        res.fail(key, f"{case}: only some ancillas are reset")
        return
    if bool(touched_reset) != reset:
        res.fail(key, f"{case}: anc_reset={reset} but resets of {touched_reset}")
        return

    # all input Paulis at once
    fr = Frame()
    inj = {}
    qs = sorted(inds.values())
    for q in qs:
        for p in "XZ":
            inj[q, p] = fr.inject(q, p)
    fr.apply(one)
    last = dict(zip(meas, range(len(meas))))
    di = [inds[q] for q in data]
    for q in qs:
        for p in "XZ":
            b = inj[q, p]
            flips = {ai[a] for a in ai if fr.meas[last[a]] & b}
            if q in ai:
                # an incoming X of the ancilla is the previous outcome
                before = fam != "google" and reset
                want = {ai[q]} if p == "X" and not before else set()
                # a phase of the ancilla at the start (no reset) is the stabilizer
                # measured in that ancilla
                out = [{}] + ([stab[ai[q]]] if not before and p == "Z" else [])
            else:
                want = {a for a in anc if q in stab[a] and stab[a][q] != p}
                out = [{q: p}]
            got = {}
            for r in di:
                x, z = bool(fr.x.get(r, 0) & b), bool(fr.z.get(r, 0) & b)
                if x or z:
                    got[r] = "IXZY"[x + 2 * z]
            res.count("evaluations")
            if want:
                res.count("distinct_nontrivial")
            if flips != want:
                res.fail(
                    key,
                    f"{case}: input {p} on qubit {q} flips the outcomes of "
                    f"{sorted(flips)} instead of {sorted(want)}",
                )
                return
            if got not in out:
                res.fail(
                    key,
                    f"{case}: input {p} on qubit {q} becomes {got} on the data",
                )
                return
    # random phases leave stabilizers only
    n = len(di)
    pos = {r: k for k, r in enumerate(di)}
    vec = lambda op: sum(
        (1 << pos[r] if c in "XY" else 0) | (1 << (n + pos[r]) if c in "ZY" else 0)
        for r, c in op.items()
    )
    group = Span(vec(s) for s in stab.values())
    if group.rank != len(anc):
        res.fail(key, f"{case}: dependent stabilizers")
    for c in range(len(inj), fr.nbits):
        b = 1 << c
        w = sum(
            (1 << pos[r] if fr.x.get(r, 0) & b else 0)
            | (1 << (n + pos[r]) if fr.z.get(r, 0) & b else 0)
            for r in di
        )
        if w not in group:
            res.fail(key, f"{case}: a random phase leaves an operator outside the code")
            return
    # signs
    if fam != "google":
        circ = strip_noise(one)
        nq = max(qs) + 1
        for a in anc:
            s = pauli(stab[a], nq)
            rec = f"rec[{last[inds[a]] - len(meas)}]"
            inp = s
            if not reset:
                inp = s.copy()
                inp[inds[a]] = "Z"
            # S_a (Z_a) -> rec[a]
            ok = circ.has_flow(stim.Flow(f"{inp} -> {rec}"))
            ok = ok and circ.has_flow(stim.Flow(f"{s} -> {s}"))
            res.count("evaluations")
            res.count("distinct_nontrivial")
            if not ok:
                res.fail(key, f"{case}: wrong sign or operator measured on {a}")
                return
        for w in "XZ":
            s = pauli(to_inds(logical(lay, w, rot), inds), nq)
            res.count("evaluations")
            if not circ.has_flow(stim.Flow(f"{s} -> {s}")):
                res.fail(key, f"{case}: the logical {w} is not preserved")
                return
    # n rounds: the outcomes of the second and third round are those of the first
    # (reset) plus the accumulated ones (no reset)
    fr = Frame()
    inj = {(q, p): fr.inject(q, p) for q in di for p in "XZ"}
    total = (1 << len(inj)) - 1
    for c in rounds:
        fr.apply(c)
    m = len(meas)
    for k, a in enumerate(meas):
        first = fr.meas[k] & total
        sec, thr = fr.meas[m + k] & total, fr.meas[2 * m + k] & total
        want = (first, first) if reset else (0, first)
        res.count("evaluations")
        res.expect(
            (sec, thr) == want,
            key,
            f"{case}: outcomes of consecutive rounds disagree on ancilla {ai[a]}",
        )
    res.sample(dict(case=str(case), ancillas=len(anc), inputs=2 * len(qs)))


def pauli(op, n):
    s = stim.PauliString(n)
    for q, p in op.items():
        s[q] = p
    return s


def geometric(lay, a, rot):
    """Stabilizer of an ancilla from the coordinates only: the data qubits at diagonal
    distance one (rotated) or at distance one along an axis (unrotated)."""
    c = lay.qubit_coords()
    x, y = c[a]
    t = "X" if lay.param("stab_type", a) == "x_type" else "Z"
    sw = {"X": "Z", "Z": "X"}
    unrot = lay.code == "unrotated_surface_code"
    out = {}
    for d in lay.get_qubits(role="data"):
        dx, dy = abs(c[d][0] - x), abs(c[d][1] - y)
        near = (dx + dy == 1) if unrot else (dx == dy == 1)
        if near:
            out[d] = sw[t] if d in rot else t
    return out
