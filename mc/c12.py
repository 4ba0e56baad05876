"""Explicit-state exploration of measurement histories.  All sequences of operations (every
measurement method on several tuples of qubits, every other operation, new_circuit) up to a
depth are executed on every noise model; all interleavings of two models; all logical
programs up to a depth on the real building blocks under every noise model.  The reference
state is the list of qubits whose outcomes appear in the circuit returned since the last
new_circuit, read from the circuit itself.  In every state the offset of every measurement
of every qubit is compared, and every non-existing one must be rejected."""

from itertools import product

import stim

from surface_sim import Setup

from . import chan
from .frames import MEAS
from .lib import BLOCK_MODELS, inv_names
from .programs import World

LEVEL = "model_checking"
INDS = {"B": 4, "A": 9, "C": 0}
NAMES = {i: q for q, i in INDS.items()}
DUR = 0.3

MEASOPS = [
    (op, t)
    for op in chan.MEASURES
    for t in (("A",), ("B",), ("A", "B"), ("C", "A", "B"), (), ("B", "B", "A"))
]
OTHER = [(op, ("A",)) for op in chan.ONE if op not in chan.MEASURES]
OTHER += [(op, ("C", "A")) for op in chan.TWO]
OTHER += [("incoming_noise", ("A",)), ("tick",), ("coords",), ("new",)]
SMALL = [
    ("measure", ("A",)),
    ("measure_x", ("B", "A")),
    ("measure_y", ("C", "A", "B")),
    ("reset", ("A",)),
    ("new",),
]


def cases(tier):
    out = []
    for kind in chan.KINDS:
        ops = [o for o in MEASOPS + OTHER if chan.has_op(kind, o[0])]
        for k in range(len(ops)):
            out.append(("full", kind, k, 3 if tier == "quick" else 4))
        for k in range(len(SMALL)):
            out.append(("deep", kind, k, 6 if tier == "quick" else 8))
        out.append(("long", kind, 3 if tier == "quick" else 4))
        out.append(("two", kind, 4 if tier == "quick" else 6))
    for fam, size, nlay in (
        ("css", (2, 3), 1),
        ("css", (2, 2), 2),
        ("css_pip", (2, 2), 2),
        ("xzzx", (2, 2), 2),
        ("xzzx_pip", (2, 3), 1),
        ("google", (2, 3), 1),
        ("unrot", (2, 2), 2),
    ):
        for model in BLOCK_MODELS:
            for reset in (True, False):
                if fam == "google" and not reset:
                    continue
                d = 4 if nlay == 1 else 3
                out.append(
                    ("prog", fam, size, nlay, model, reset, d + (tier != "quick"))
                )
    return out


def setup():
    s = Setup(
        dict(
            setup=[
                dict(
                    sq_error_prob=0.01,
                    tq_error_prob=0.02,
                    assign_error_flag=True,
                    assign_error_prob=0.03,
                    biased_factor=2.0,
                    biased_pauli="bias",
                    T1=30.0,
                    T2=20.0,
                ),
                dict(qubit="B", assign_error_flag=False),
            ],
            gate_durations={
                n: 0.5
                for n in "X Z H S S_DAG CZ CX CNOT SWAP R RX RY RZ M MX MY MZ".split()
            },
        )
    )
    s.set_var_param("bias", "Z")
    return s


def measured(circ, names):
    out = []
    for ins in circ.flattened():
        if ins.name in MEAS:
            out += [names[t.value] for t in ins.targets_copy()]
    return out


def apply(model, kind, rec, op):
    if op[0] == "new":
        model.new_circuit()
        return []
    if op[0] == "tick":
        circ = model.tick()
    elif op[0] == "coords":
        circ = model.qubit_coords({"A": [1, 2], "C": [0, 0]})
    else:
        circ = chan.call(model, kind, op[0], list(op[1]), DUR)
    return rec + measured(circ, NAMES)


def rejected(model, q, k):
    try:
        model.meas_target(q, k)
    except Exception:
        return True
    return False


def check(model, rec, qubits, res):
    n = len(rec)
    for q in qubits:
        pos = [i for i, x in enumerate(rec) if x == q]
        for k, i in enumerate(reversed(pos), 1):
            res.count("transitions")
            try:
                t = model.meas_target(q, -k)
            except Exception as e:
                return f"({q}, {-k}) raised {type(e).__name__}: {e}"
            if t != stim.target_rec(i - n):
                return f"({q}, {-k}) gives {t} instead of {stim.target_rec(i - n)}"
        m = len(pos)
        for k, i in enumerate(pos):
            # counting from the first outcome need not be allowed
            if rejected(model, q, k):
                continue
            t = model.meas_target(q, k)
            if t != stim.target_rec(i - n):
                return f"({q}, {k}) gives {t} instead of {stim.target_rec(i - n)}"
        for k in (-m - 1, -m - 3, m, m + 2):
            if not rejected(model, q, k):
                return f"({q}, {k}) was accepted, there are only {m} outcomes"
    res.count("states")
    return None


def run_case(case, res, tier):
    what = case[0]
    if what == "prog":
        return run_prog(case, res)
    kind = case[1]
    s = setup()
    if what == "long":
        return run_long(case, s, res)
    if what == "two":
        run_two(case, s, res)
        return
    if what == "full":
        ops = [o for o in MEASOPS + OTHER if chan.has_op(kind, o[0])]
    else:
        ops = SMALL
    first, depth = ops[case[2]], case[3]
    for rest in product(ops, repeat=depth - 1):
        seq = (first,) + rest
        model = chan.build(kind, s, INDS)
        rec = []
        for i, op in enumerate(seq):
            rec = apply(model, kind, rec, op)
        res.count("traces_validated_against_impl")
        e = check(model, rec, INDS, res)
        # the states on the way belong to the sequence that starts this one
        if not e and all(o is ops[0] for o in rest):
            model = chan.build(kind, s, INDS)
            rec = []
            for op in seq:
                rec = apply(model, kind, rec, op)
                e = e or check(model, rec, INDS, res)
                e = e or check(model, rec, INDS, res)
        if e:
            res.fail(f"{kind}:{seq}", f"{kind} model after {seq}: {e}")
            return
    if tier == "quick" and what == "full":
        # all shorter sequences
        for n in range(1, depth - 1):
            for rest in product(ops, repeat=n):
                model = chan.build(kind, s, INDS)
                rec = []
                e = None
                for op in (first,) + rest:
                    rec = apply(model, kind, rec, op)
                    e = e or check(model, rec, INDS, res)
                res.count("traces_validated_against_impl")
                if e:
                    res.fail(f"{kind}:{(first,) + rest}", f"{kind} model: {e}")
                    return
    res.sample(dict(case=str(case)))


def run_long(case, s, res):
    """Words of operations repeated until there are hundreds of outcomes."""
    _, kind, size = case
    for k in range(1, size + 1):
        for word in product(SMALL[:-1], repeat=k):
            model = chan.build(kind, s, INDS)
            rec = []
            for i in range(130 // k + 1):
                for op in word:
                    rec = apply(model, kind, rec, op)
                if i in (3, 10, 99, 100):
                    rec = apply(model, kind, rec, ("tick",))
            res.count("traces_validated_against_impl")
            e = check(model, rec, INDS, res)
            rec = apply(model, kind, rec, ("new",))
            e = e or check(model, rec, INDS, res)
            if e:
                res.fail(f"{kind}:long:{word}", f"{kind} model after {word} * n: {e}")
                return


def run_two(case, s, res):
    _, kind, depth = case
    ops = [(m, o) for m in (0, 1) for o in SMALL]
    for seq in product(ops, repeat=depth):
        models = [chan.build(kind, s, INDS) for _ in range(2)]
        recs = [[], []]
        e = None
        for m, op in seq:
            recs[m] = apply(models[m], kind, recs[m], op)
        for m in (0, 1):
            e = e or check(models[m], recs[m], INDS, res)
        res.count("traces_validated_against_impl")
        if e:
            res.fail(f"{kind}:two:{seq}", f"two {kind} models after {seq}: {e}")
            return


def run_prog(case, res):
    _, fam, (dx, dz), nlay, model, reset, depth = case
    gates = fam in ("css", "css_pip", "unrot")
    w = World(fam, dx, dz, nlay, "post-gate", reset, model=model, gates=gates)
    names = inv_names(w.inds)
    start = w.start()
    stack = [(start, [], 0)]
    while stack:
        node, rec, d = stack.pop()
        e = check(node.model, rec, w.inds, res)
        if e:
            res.fail(f"{case}:{node.hist}", f"{case} after {node.hist}: {e}")
            return
        if d == depth:
            res.count("traces_validated_against_impl")
            continue
        ops = node.legal()
        if fam == "google":
            # a read-out includes a round
            ops = [o for o in ops if o[0] != "M" or "R" in [h[0] for h in node.hist]]
        if d == 0 and nlay > 1:
            ops = [("I", 0, 0), ("I", 0, 1)]
        if 0 < d < nlay:
            ops = [o for o in ops if o[0] == "I"]
        for op in ops:
            if nlay > 1 and op[0] in "XZSH" and op[1] > 0:
                continue
            n = node.step(op)
            stack.append((n, rec + measured(n.new_circ, names), d + 1))
    res.sample(dict(case=str(case)))
