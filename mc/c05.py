"""Exhaustive exploration of the circuits of all building blocks, merge functions and
experiments (families x sizes x bases x reset policy x one to three layouts).  In every
layer between two TICKs each qubit of each involved layout must have exactly one operation
or idle, decided on the noiseless circuit (explicit identities) and, with an idling
strength that differs from all other parameters, on the noisy ones; layers without
operation are exactly those that receive incoming noise and the annotations at the end.
Two-qubit gates must act on geometrically neighbouring qubits or on the partners prescribed
by the transversal gate, and the operations per layer must agree for all noise models."""

from itertools import combinations_with_replacement, product

import stim

from surface_sim import Setup
from surface_sim.util import merge_log_meas, merge_qec_rounds

from .frames import MEAS, NOISE
from .lib import (
    FAM,
    Canon,
    corners,
    experiments,
    gates_module,
    ideal_layers,
    inv_names,
    is_op,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
)

LEVEL = "exploration"
RULE = (
    "one evaluation = one qubit in one layer of one circuit; non-trivial = layers that "
    "contain at least one operation"
)
ASSUMPTIONS = [
    "models whose idling needs a duration (decoherence, experimental) cannot run the "
    "building blocks and are not part of the comparison",
]
P_IDLE = 0.0123
MODELS = ("noiseless", "circuit", "biased", "incoming", "phenom")


def cases(tier):
    m = 5 if tier == "thorough" else 4
    out = []
    for fam in FAM:
        for dx, dz in product(range(2, m + 1), repeat=2):
            for reset in (True, False):
                if fam == "google" and not reset:
                    continue
                out.append(("block", fam, dx, dz, reset))
                out.append(("exp", fam, dx, dz, reset))
        if fam != "google":
            sizes = [(2, 3), (3, 3), (2, 2)] + (
                [(3, 2), (4, 3)] if tier != "quick" else []
            )
            for n in (1, 2, 3):
                every = product(sizes, repeat=n)
                if n == 3 and tier == "quick":
                    every = combinations_with_replacement(sizes, 3)
                for ss in every:
                    for reset in (True, False):
                        out.append(("merge", fam, ss, reset))
    return out


def model(kind, inds):
    d = dict(
        sq_error_prob=0.001,
        tq_error_prob=0.002,
        idle_error_prob=P_IDLE,
        meas_error_prob=0.003,
        reset_error_prob=0.004,
        assign_error_flag=True,
        assign_error_prob=0.005,
        biased_factor=2.0,
        biased_pauli="bias",
    )
    s = Setup(dict(setup=[d]))
    s.set_var_param("bias", "Z")
    m = make_model(kind, dict(inds), setup=s)
    m.new_circuit()
    return m


def prepare(fam, sizes):
    code, mod = FAM[fam]
    lays = [make_layout(code, dx, dz, k) for k, (dx, dz) in enumerate(sizes)]
    pairs = set()
    g = gates_module(code)
    kinds = []
    for l in lays:
        dx, dz = l.distance_x, l.distance_z
        lab = l.get_logical_qubits()[0]
        if (code == "rot" and dz == dx + 1) or (code == "unrot" and dx == dz):
            g.set_trans_s(l, sorted_corner(l))
            kinds.append("S")
            pairs |= partner(l, f"trans-s_{lab}", "cz")
        if code == "unrot" and dx == dz:
            g.set_trans_h(l, sorted_corner(l))
            kinds.append("H")
            pairs |= partner(l, f"trans-h_{lab}", "swap")
    return code, mod, lays, pairs, kinds


def sorted_corner(l):
    return corners(l)[0]


def partner(l, gate, what):
    out = set()
    for d in l.get_qubits(role="data"):
        p = l.param(gate, d)[what]
        if p is not None:
            out.add(frozenset([d, p]))
    return out


def neighbours(lays):
    out = set()
    for l in lays:
        c = l.qubit_coords()
        unrot = l.code == "unrotated_surface_code"
        data = l.get_qubits(role="data")
        for a in l.get_qubits(role="anc"):
            for d in data:
                x, y = abs(c[a][0] - c[d][0]), abs(c[a][1] - c[d][1])
                if (x + y == 1) if unrot else (x == y == 1):
                    out.add(frozenset([a, d]))
    return out


def check(build, lays, allowed, res, key):
    """``build(model, detectors)`` returns the circuit."""
    inds = qubit_inds(*lays)
    qubits = set(inds)
    data = {q for l in lays for q in l.get_qubits(role="data")}
    ref, empty_ref = None, None
    canon = {}
    for kind in MODELS:
        m = model(kind, inds)
        det = make_detectors(lays, "post-gate")
        c = Canon(build(m, det), inv_names(inds), annotations=False)
        canon[kind] = c
        il = ideal_layers(c)
        if ref is None:
            ref = il
        elif il != ref:
            res.fail(key, f"{key}: the operations differ between the models ({kind})")
            return
    n = len(ref)
    # layers with incoming noise
    inc = []
    for l in canon["incoming"].layers:
        noisy = {q: sorted(e[0] for e in es if e[0] in NOISE) for q, es in l.items()}
        noisy = {q: e for q, e in noisy.items() if e}
        inc.append(noisy)
    for k in range(n):
        ops = ref[k]
        annot = bool(inc[k]) or (k == n - 1 and not ops)
        if inc[k]:
            if ops:
                res.fail(key, f"{key}: incoming noise in a layer with operations ({k})")
                return
            bad = {q: e for q, e in inc[k].items() if e != ["X_ERROR", "Z_ERROR"]}
            dset = set(inc[k])
            res.expect(
                not bad and dset <= data and _whole(dset, lays),
                key,
                f"{key}: layer {k}: incoming noise {bad} on {sorted(dset)}",
            )
        for kind in ("noiseless", "circuit", "biased"):
            lay = canon[kind].layers[k]
            seen = {}
            for q, es in lay.items():
                o = [e for e in es if is_op(e)]
                i = [e for e in es if is_idle(e, kind)]
                seen[q] = (len(o), len(i))
            if annot and all(v == (0, 0) for v in seen.values()):
                continue  # annotation step
            if inc[k]:
                res.fail(
                    key,
                    f"{key}: layer {k} ({kind}): operations or idling in a "
                    "step of incoming noise",
                )
                return
            part = participants(ref, k, lays)
            for q in part:
                res.count("evaluations")
                if ops:
                    res.count("distinct_nontrivial")
                v = seen.get(q, (0, 0))
                if sum(v) != 1:
                    res.fail(
                        key,
                        f"{key}: layer {k} ({kind}): qubit {q} has {v[0]} operations "
                        f"and {v[1]} idles",
                    )
                    return
        for q, es in ops.items():
            for e in es:
                if len(e[1]) == 2 and frozenset(e[1]) not in allowed:
                    res.fail(key, f"{key}: layer {k}: {e} is not between neighbours")
                    return


def participants(ref, k, lays):
    return [q for l in lays for q in l.get_qubits()]


def _whole(dset, lays):
    """Incoming noise acts on all data qubits of each layout it acts on."""
    for l in lays:
        d = set(l.get_qubits(role="data"))
        if d & dset and not d <= dset:
            return False
    return True


def is_idle(e, kind):
    if kind == "noiseless":
        return e[0] == "I"
    if kind == "circuit":
        return e[0] == "DEPOLARIZE1" and abs(e[1][0] - P_IDLE) < 1e-9
    return e[0] == "PAULI_CHANNEL_1" and abs(sum(e[1]) - P_IDLE) < 1e-9


def inits(l):
    data = l.get_qubits(role="data")
    return [
        {},
        {q: 0 for q in data},
        {q: 1 for q in data},
        {q: k % 2 for k, q in enumerate(data)},
        {data[-1]: 1},
    ]


def run_case(case, res, tier):
    kind = case[0]
    if kind == "block":
        _, fam, dx, dz, reset = case
        code, mod, (l,), pairs, kinds = prepare(fam, [(dx, dz)])
        nb = neighbours([l])
        kw = {} if fam == "google" else dict(anc_reset=reset)

        def act(f):
            def g(m, d):
                d.activate_detectors(l.get_qubits(role="anc"))
                return f(m, d)

            return g

        jobs = [("round", act(lambda m, d: mod.qec_round(m, l, d, **kw)), nb)]
        for rb in (False, True):
            for k, init in enumerate(inits(l)):
                jobs.append(
                    (
                        f"init{k}{rb}",
                        lambda m, d, rb=rb, init=init: mod.init_qubits(
                            m, l, d, dict(init), rot_basis=rb
                        ),
                        nb,
                    )
                )
            if fam == "google":
                jobs.append(
                    (
                        f"roundmeas{rb}",
                        act(
                            lambda m, d, rb=rb: mod.qec_round_with_log_meas(
                                m, l, d, rot_basis=rb
                            )
                        ),
                        nb,
                    )
                )
            else:
                jobs.append(
                    (
                        f"meas{rb}",
                        act(
                            lambda m, d, rb=rb: two(
                                mod.qec_round(m, l, d, **kw),
                                mod.log_meas(m, l, d, rot_basis=rb, **kw),
                            )
                        ),
                        nb,
                    )
                )
        jobs.append(("x", act(lambda m, d: mod.log_x(m, l, d)), nb))
        jobs.append(("z", act(lambda m, d: mod.log_z(m, l, d)), nb))
        lab = l.get_logical_qubits()[0]
        if "S" in kinds and hasattr(mod, "log_trans_s"):
            jobs.append(
                (
                    "s",
                    act(lambda m, d: mod.log_trans_s(m, l, d)),
                    partner(l, f"trans-s_{lab}", "cz"),
                )
            )
        if "H" in kinds and hasattr(mod, "log_trans_h"):
            jobs.append(
                (
                    "h",
                    act(lambda m, d: mod.log_trans_h(m, l, d)),
                    partner(l, f"trans-h_{lab}", "swap"),
                )
            )
        for name, f, allowed in jobs:
            check(f, [l], allowed, res, f"{case}:{name}")
    elif kind == "exp":
        run_exp(case, res)
    else:
        run_merge(case, res)
    res.sample(dict(case=str(case)))


def two(a, b):
    return a + b


def cnot_pairs(c, t):
    lab = f"trans-cnot_{c.get_logical_qubits()[0]}_{t.get_logical_qubits()[0]}"
    return partner(c, lab, "cnot")


def run_exp(case, res):
    _, fam, dx, dz, reset = case
    exp = experiments()[fam]
    code, mod, (l,), pairs, kinds = prepare(fam, [(dx, dz)])
    nb = neighbours([l])
    data = l.get_qubits(role="data")
    kw = {} if fam == "google" else dict(anc_reset=reset)
    init = {q: k % 2 for k, q in enumerate(data)}
    for rb in (False, True):
        for r in range(1 if fam == "google" else 0, 3):
            check(
                lambda m, d: exp.memory_experiment(
                    m, l, d, num_rounds=r, data_init=dict(init), rot_basis=rb, **kw
                ),
                [l],
                nb,
                res,
                f"{case}:memory{r}{rb}",
            )
        for g, k in (("S", "s"), ("H", "h")):
            f = getattr(exp, f"repeated_{k}_experiment", None)
            if f is None or g not in kinds:
                continue
            for n, r in ((0, 1), (2, 0), (2, 1)):
                check(
                    lambda m, d: f(
                        m,
                        l,
                        d,
                        **{f"num_{k}_gates": n},
                        num_rounds_per_gate=r,
                        data_init=dict(init),
                        rot_basis=rb,
                        **kw,
                    ),
                    [l],
                    nb | pairs,
                    res,
                    f"{case}:rep{g}{n}{r}{rb}",
                )
    if hasattr(exp, "repeated_cnot_experiment") and dx * dz <= 9:
        code, mod, (c, t), pairs, kinds = prepare(fam, [(dx, dz), (dx, dz)])
        g = gates_module(code)
        g.set_trans_cnot(c, t)
        g.set_trans_cnot(t, c)
        allowed = neighbours([c, t]) | cnot_pairs(c, t)
        init = {q: 1 for q in c.get_qubits(role="data")[:2]}
        for rb in (False, True):
            for n, r, o in ((1, 1, "constant"), (2, 0, "alternating")):
                check(
                    lambda m, d: exp.repeated_cnot_experiment(
                        m,
                        c,
                        t,
                        d,
                        num_cnot_gates=n,
                        num_rounds_per_gate=r,
                        data_init=dict(init),
                        cnot_orientation=o,
                        rot_basis=rb,
                        **kw,
                    ),
                    [c, t],
                    allowed,
                    res,
                    f"{case}:cnot{n}{r}{o}{rb}",
                )


def run_merge(case, res):
    _, fam, sizes, reset = case
    code, mod, lays, pairs, kinds = prepare(fam, list(sizes))
    nb = neighbours(lays)

    def on(d):
        for l in lays:
            d.activate_detectors(l.get_qubits(role="anc"))

    def rnd(m, d):
        on(d)
        return merge_qec_rounds(mod.qec_round_iterator, m, lays, d, anc_reset=reset)

    check(rnd, lays, nb, res, f"{case}:rounds")
    for rb in product((False, True), repeat=len(lays)):

        def meas(m, d):
            return rnd(m, d) + merge_log_meas(
                mod.log_meas_iterator, m, lays, d, rot_bases=list(rb), anc_reset=reset
            )

        check(meas, lays, nb, res, f"{case}:meas{rb}")
    if len(lays) == 2 and sizes[0] == sizes[1] and hasattr(mod, "log_trans_cnot"):
        g = gates_module(code)
        for c, t in (lays, lays[::-1]):
            g.set_trans_cnot(c, t)

            def cx(m, d):
                on(d)
                return mod.log_trans_cnot(m, c, t, d)

            check(cx, lays, cnot_pairs(c, t), res, f"{case}:cnot")
