"""Exhaustive exploration: every noise model x operation x ordered tuple of distinct qubits
(up to six qubits with unsorted indices; two-qubit operations on up to three pairs, also
pairs that share qubits) x
strength of the noise x assignment flags.  Every circuit is reduced to its events; without
the noise events it must be exactly the requested operation once per qubit (pair) in the
given order (and equal that of the noiseless model), outcomes must be recorded in the order
of the circuit, and the position of each noise event relative to the operation on the same
qubits must be the one of the model.  All ordered pairs of operations are composed to check
that nothing depends on earlier operations."""

from itertools import permutations, product

import stim

from surface_sim import Setup

from . import chan
from .chan import GATES1, GATES2, KINDS, MEASURES, ONE, RESETS, TIMED, TWO

LEVEL = "exploration"
RULE = (
    "one evaluation = one operation of one model on one tuple of qubits; non-trivial = "
    "operations that act on at least one qubit"
)
INDS = {"A": 7, "B": 0, "C": 12, "D": 3, "E": 21, "F": 1}
SHARED = ["ABBC", "ABCA", "ABAB", "ABBA", "ABCABC", "ABCDBC"]
DUR = 2.0


def cases(tier):
    out = []
    for kind in KINDS:
        for level in ("normal", "strong", "zero"):
            if kind == "noiseless" and level != "normal":
                continue
            for op in ONE + TWO + ["incoming_noise"]:
                if chan.has_op(kind, op):
                    out.append((kind, level, op))
        out.append((kind, "pairs"))
    return out


def setup(level):
    p = dict(normal=0.01, strong=0.2, zero=0.0, pairs=0.03)[level]
    glob = dict(
        sq_error_prob=p,
        tq_error_prob=p,
        assign_error_flag=True,
        assign_error_prob=p / 2,
        biased_factor=3.0,
        biased_pauli="bias",
        T1=30.0 if level != "zero" else 1e30,
        T2=20.0 if level != "zero" else 1e30,
    )
    loc = [
        dict(qubit="B", assign_error_flag=False),
        dict(qubit="C", T1=15.0 if level != "zero" else 1e30),
    ]
    names = ("X", "Z", "H", "S", "S_DAG", "CZ", "CNOT", "CX", "SWAP", "R", "RZ", "RX")
    names += ("RY", "M", "MZ", "MX", "MY", "I")
    s = Setup(
        dict(
            setup=[glob] + loc,
            gate_durations={n: 1.0 + 0.5 * k for k, n in enumerate(names)},
        )
    )
    s.set_var_param("bias", "Y")
    return s


def tuples(op):
    qs = list(INDS)
    if op in GATES2:
        return [t for n in (0, 2, 4, 6) for t in permutations(qs, n)]
    return [t for n in (0, 1, 2, 3, 6) for t in permutations(qs, n)] + list(
        permutations(qs[:4])
    )


def requested(op, t):
    inds = [INDS[q] for q in t]
    name = chan.stim_name(op)
    if name is None:
        return []
    if op in GATES2:
        return [("op", name, g) for g in zip(inds[::2], inds[1::2])]
    return [("op", name, (i,)) for i in inds]


def run_case(case, res, tier):
    kind, level = case[:2]
    s = setup(level)
    if level == "pairs":
        return run_pairs(kind, s, res)
    op = case[2]
    for t in tuples(op):
        m = chan.build(kind, s, INDS)
        m.new_circuit()
        res.count("evaluations")
        res.count("distinct_nontrivial", int(bool(t)))
        key = f"{kind}:{level}:{op}:{t}"
        e = check(kind, level, op, t, m)
        if e:
            res.fail(key, f"{kind} model, {op}({', '.join(t)}): {e}")
            return
    if op in GATES2:
        # pairs that share qubits are executed one after the other
        for t in map(tuple, SHARED):
            m = chan.build(kind, s, INDS)
            m.new_circuit()
            ev = chan.events(chan.call(m, kind, op, list(t), DUR))
            ops = [e for e in ev if e[0] == "op" and e[1] != "I"]
            res.count("evaluations")
            res.count("distinct_nontrivial")
            if ops != requested(op, t):
                res.fail(
                    f"{kind}:{level}:{op}:{t}",
                    f"{kind} model, {op}{t}: operations {ops}",
                )
                return
    res.sample(dict(case=str(case), tuples=len(tuples(op))))


def check(kind, level, op, t, m):
    circ = chan.call(m, kind, op, list(t), DUR)
    if not isinstance(circ, stim.Circuit):
        return f"returned {type(circ)}"
    ev = chan.events(circ)
    odd = [e for e in ev if e[0] in ("annotation", "unknown", "inverted")]
    if odd:
        return f"unexpected {odd}"
    want = requested(op, t)
    ops = [e for e in ev if e[0] == "op" and e[1] != "I"]
    if ops != want:
        return f"operations {ops} instead of {want}"
    ident = [e[2][0] for e in ev if e[0] == "op" and e[1] == "I"]
    if ident and (op != "idle" or ident != [INDS[q] for q in t]):
        return f"identities on {ident}"
    if kind == "noiseless" and any(e[0] in ("noise", "flip") for e in ev):
        return "noise in the noiseless model"
    if op == "incoming_noise" and kind not in ("incoming", "phenom") and ev:
        return f"incoming noise {ev}"
    if level == "zero" and kind not in ("decoh_sym", "decoh_asym", "experimental"):
        if any(e[0] in ("noise", "flip") for e in ev):
            return "noise with probability zero"
    # outcomes in the order of the circuit
    if op in MEASURES:
        for k, q in enumerate(t):
            if m.meas_target(q, -1) != stim.target_rec(k - len(t)):
                return f"the outcome of {q} is recorded at {m.meas_target(q, -1)}"
    # position of the noise
    inds = {INDS[q] for q in t}
    groups = (
        {INDS[a]: (INDS[a], INDS[b]) for a, b in zip(t[::2], t[1::2])}
        if op in GATES2
        else {}
    )
    pair_of = {}
    for g in groups.values():
        for i in g:
            pair_of[i] = g
    before, after, done = {}, {}, set()
    last = None
    for e in ev:
        if e[0] == "op":
            done |= set(e[2])
            last = e
        elif e[0] == "flip":
            if last is None or last[2] != e[1]:
                return "an assignment error that belongs to no outcome"
        elif e[0] == "noise":
            if not set(e[1]) <= inds:
                return f"noise on {e[1]}, which take no part"
            if len(e[1]) == 2 and set(pair_of.get(e[1][0], ())) != set(e[1]):
                return f"correlated noise on {e[1]}, which are no pair"
            side = after if done & set(e[1]) else before
            if done & set(e[1]) and not set(e[1]) <= done:
                return f"noise on {e[1]} in between"
            for i in e[1]:
                side[i] = side.get(i, 0) + 1
    if op in ("idle", "incoming_noise"):
        return None
    if kind == "decoh_sym":
        if level != "zero" and (set(before) != inds or set(after) != inds):
            return f"decoherence before {before} and after {after} the operation"
    elif kind == "decoh_asym":
        if before:
            return f"noise before the operation on {sorted(before)}"
    elif op in MEASURES:
        if after:
            return f"noise after the measurement of {sorted(after)}"
    elif before:
        return f"noise before the operation on {sorted(before)}"
    return None


def run_pairs(kind, s, res):
    """Ordered pairs of operations on one model: the second gives the same circuit as on
    a fresh model."""
    menu = [
        (op, t) for op in ONE if chan.has_op(kind, op) for t in (("A",), ("C", "B"))
    ]
    menu += [(op, t) for op in TWO for t in (("A", "B"), ("C", "B", "A", "D"))]
    menu += [("incoming_noise", ("A", "D"))]
    alone = {}
    for op, t in menu:
        m = chan.build(kind, s, INDS)
        m.new_circuit()
        alone[op, t] = chan.events(chan.call(m, kind, op, list(t), DUR))
    for first, second in product(menu, repeat=2):
        m = chan.build(kind, s, INDS)
        m.new_circuit()
        chan.call(m, kind, first[0], list(first[1]), DUR)
        got = chan.events(chan.call(m, kind, second[0], list(second[1]), DUR))
        res.count("evaluations")
        res.count("distinct_nontrivial")
        if got != alone[second]:
            res.fail(
                f"{kind}:pairs:{first}:{second}",
                f"{kind} model: {second} after {first} gives {got}, alone "
                f"{alone[second]}",
            )
            return
