"""Exhaustive exploration of where noise enters the circuits: every building block, merge
of blocks and experiment x family x size x basis x reset policy x noise model, with a
different value of every parameter for every qubit and every ordered pair, and with a model
of our own (a subclass with a distinct incoming channel).  The circuit is decomposed into
the complete sequence of events of every qubit; the expected sequence is composed here: the
operations and idles of the noiseless circuit, each replaced by what the model emits for
this operation on these qubits alone, and for every data qubit one incoming-noise event in
front of everything else in each QEC round, logical gate and logical measurement."""

from itertools import product

import stim

from surface_sim.models import CircuitNoiseModel
from surface_sim.util import merge_log_meas, merge_qec_rounds

from .c14 import rich_setup
from .exper import EXPS, Setting
from .frames import NOISE
from .lib import (
    FAM,
    Canon,
    ancs,
    corners,
    gates_module,
    inv_names,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
)

LEVEL = "exploration"
RULE = (
    "one evaluation = the complete event sequence of one qubit in one circuit compared "
    "with the composed one; non-trivial = sequences that contain noise"
)
ASSUMPTIONS = [
    "models whose idling needs a duration (decoherence, experimental) cannot run the "
    "building blocks",
    "what a model emits for one operation on one qubit (pair) is decided by C10 and C11",
]
KINDS = ("circuit", "biased", "incoming", "phenom", "own")
METHOD = dict(
    X="x_gate",
    Z="z_gate",
    H="hadamard",
    S="s_gate",
    S_DAG="s_dag_gate",
    CZ="cphase",
    CX="cnot",
    SWAP="swap",
    M="measure",
    MX="measure_x",
    MY="measure_y",
    R="reset",
    RX="reset_x",
    RY="reset_y",
    I="idle",
)


class Own(CircuitNoiseModel):
    """Circuit-level noise with an incoming channel that occurs nowhere else."""

    def incoming_noise(self, qubits):
        c = stim.Circuit()
        for q in qubits:
            p = self.param("idle_error_prob", q) / 3
            c.append("PAULI_CHANNEL_1", self.get_inds([q]), [p, p / 2, p / 4])
        return c


def cases(tier):
    t = tier == "thorough"
    out = []
    m = 5 if t else 4
    for fam, kind in product(FAM, KINDS):
        for dx, dz in product(range(2, m + 1), repeat=2):
            if kind in ("biased", "circuit") and dx * dz > 9 and not t:
                continue
            for reset in (True, False) if fam != "google" else (True,):
                out.append(("block", fam, kind, dx, dz, reset))
        if fam != "google":
            sizes = [(2, 2), (2, 3), (3, 2)]
            for n in (1, 2, 3):
                for ss in product(sizes[: 4 - n + t], repeat=n):
                    for reset in (True, False):
                        out.append(("merge", fam, kind, ss, reset))
    for exp, fam in EXPS:
        for kind in KINDS:
            for reset in (True, False) if fam != "google" else (True,):
                for rot in (False, True):
                    out.append(("exp", exp, fam, kind, reset, rot))
    return out


class Bench:
    def __init__(self, layouts, kind):
        self.layouts, self.kind = layouts, kind
        self.inds = qubit_inds(*layouts)
        self.names = inv_names(self.inds)
        self.setup = rich_setup(layouts)
        n = 0
        for l in layouts:
            for k in "sh":
                lab = f"trans-{k}_{l.get_logical_qubits()[0]}"
                for q in l.get_qubits(role="data"):
                    p = l.param(lab, q)
                    p = p and (p.get("cz") or p.get("swap"))
                    if p:
                        n += 1
                        self.setup.set_param("cz_error_prob", 0.04 + n * 1e-6, q, p)
                        self.setup.set_param("swap_error_prob", 0.05 + n * 1e-6, q, p)
        if len(layouts) == 2:
            a, b = (l.get_qubits(role="data") for l in layouts)
            for q, p in product(a, b):
                n += 1
                self.setup.set_param("cnot_error_prob", 0.06 + n * 1e-6, q, p)
                self.setup.set_param("cnot_error_prob", 0.07 + n * 1e-6, p, q)
        self.cache = {}

    def model(self, kind=None):
        kind = kind or self.kind
        if kind == "own":
            m = Own(self.setup, dict(self.inds))
        else:
            m = make_model(kind, dict(self.inds), setup=self.setup)
        m.new_circuit()
        return m

    def events(self, circuit, qubits):
        """Events per qubit."""
        out = {q: [] for q in qubits}
        for l in Canon(circuit, self.names, annotations=False).layers:
            for q, es in l.items():
                out.setdefault(q, []).extend(es)
        return out

    def emitted(self, method, qs):
        key = (method, qs)
        if key not in self.cache:
            m = self.model()
            self.cache[key] = self.events(getattr(m, method)(list(qs)), qs)
        return self.cache[key]


def check(bench, build, incoming, res, key, first_only=True):
    """``build(model, detectors)`` gives the circuit; ``incoming`` is the number of
    incoming-noise events per data qubit; a single one of a block comes first."""
    lays = bench.layouts
    qubits = [q for l in lays for q in l.get_qubits()]
    data = {q for l in lays for q in l.get_qubits(role="data")}

    def run(kind):
        d = make_detectors(lays, "post-gate")
        return build(bench.model(kind), d)

    ideal = bench.events(run("noiseless"), qubits)
    noisy = bench.events(run(bench.kind), qubits)
    if set(noisy) != set(qubits):
        res.fail(key, f"{key}: other qubits: {sorted(set(noisy) - set(qubits))}")
        return
    for q in qubits:
        res.count("evaluations")
        first = bench.emitted("incoming_noise", (q,))[q] if q in data else []
        k = len(first)
        ops = [e for e in noisy[q] if e[0] not in NOISE and e[0] != "I"]
        want = []
        j = 0
        for e in ideal[q]:
            if e[0] not in METHOD:
                res.fail(key, f"{key}: unknown operation {e}")
                return
            qs = e[2]
            if e[0] != "I":
                # the order of the qubits is the one used by the noisy circuit
                if (
                    j >= len(ops)
                    or ops[j][0] != e[0]
                    or sorted(ops[j][2]) != sorted(qs)
                    or (e[0] == "CX" and ops[j][2] != qs)
                ):
                    res.fail(key, f"{key}: {q}: {ops[j : j + 1]} instead of {e}")
                    return
                qs = ops[j][2]
                j += 1
            want += bench.emitted(METHOD[e[0]], qs)[q]
        got = list(noisy[q])
        if any(e[0] in NOISE for e in got):
            res.count("distinct_nontrivial")
        if not k:
            ok = got == want
        elif incoming == 0:
            ok = got == want
        elif incoming == 1 and first_only:
            ok = got[:k] == first and got[k:] == want
        else:
            ok, got2, n = True, [], 0
            i = 0
            while i < len(got):
                if got[i : i + k] == first and n < incoming:
                    n += 1
                    i += k
                else:
                    got2.append(got[i])
                    i += 1
            ok = n == incoming and got2 == want
        if not ok:
            res.fail(
                key,
                f"{key}: the events of {q} are {got}, not {incoming} x {first} "
                f"and {want}",
            )
            return


def prepare(fam, lays):
    code, mod = FAM[fam]
    g = gates_module(code)
    kinds = set()
    for l in lays:
        dx, dz = l.distance_x, l.distance_z
        if (code == "rot" and dz == dx + 1) or (code == "unrot" and dx == dz):
            g.set_trans_s(l, corners(l)[0])
            kinds.add("s")
        if code == "unrot" and dx == dz:
            g.set_trans_h(l, corners(l)[0])
            kinds.add("h")
    return mod, g, kinds


def run_case(case, res, tier):
    {"block": run_block, "merge": run_merge, "exp": run_exp}[case[0]](case, res)
    res.sample(dict(case=str(case)))


def run_block(case, res):
    _, fam, kind, dx, dz, reset = case
    l = make_layout(FAM[fam][0], dx, dz)
    mod, g, kinds = prepare(fam, [l])
    b = Bench([l], kind)
    kw = {} if fam == "google" else dict(anc_reset=reset)
    data = l.get_qubits(role="data")

    def on(f):
        def build(m, d):
            d.activate_detectors(ancs(l))
            return f(m, d)

        return build

    jobs = [("round", on(lambda m, d: mod.qec_round(m, l, d, **kw)), 1)]
    jobs.append(("x", on(lambda m, d: mod.log_x(m, l, d)), 1))
    jobs.append(("z", on(lambda m, d: mod.log_z(m, l, d)), 1))
    for k in "sh":
        f = getattr(mod, f"log_trans_{k}", None)
        if f is not None and k in kinds:
            jobs.append((k, on(lambda m, d, f=f: f(m, l, d)), 1))
    for rot in (False, True):
        for n, init in enumerate(
            ({}, {q: 1 for q in data}, {q: k % 2 for k, q in enumerate(data)})
        ):
            jobs.append(
                (
                    f"init{n}{rot}",
                    lambda m, d, rot=rot, init=init: mod.init_qubits(
                        m, l, d, dict(init), rot_basis=rot
                    ),
                    0,
                )
            )
        if fam == "google":

            def f(m, d, rot=rot):
                return mod.qec_round_with_log_meas(m, l, d, rot_basis=rot)

            jobs.append((f"meas{rot}", on(f), 1))
        else:

            def f(m, d, rot=rot):
                return mod.log_meas(m, l, d, rot_basis=rot, **kw)

            def both(m, d, f=f):
                return mod.qec_round(m, l, d, **kw) + f(m, d)

            def alone(m, d, f=f):
                mod.qec_round(m, l, d, **kw)
                return f(m, d)

            jobs.append((f"meas{rot}", on(alone), 1))
            jobs.append((f"roundmeas{rot}", on(both), 2))
            jobs.append(
                (
                    f"iter{rot}",
                    lambda m, d, rot=rot: sum(
                        mod.log_meas_iterator(model=m, layout=l, rot_basis=rot),
                        start=stim.Circuit(),
                    ),
                    1,
                )
            )
    for name, build, inc in jobs:
        check(b, build, inc, res, f"{case}:{name}")


def run_merge(case, res):
    _, fam, kind, sizes, reset = case
    code = FAM[fam][0]
    lays = [make_layout(code, *s, k) for k, s in enumerate(sizes)]
    mod, g, kinds = prepare(fam, lays)
    b = Bench(lays, kind)

    def rnd(m, d):
        d.activate_detectors(ancs(*lays))
        return merge_qec_rounds(mod.qec_round_iterator, m, lays, d, anc_reset=reset)

    check(b, rnd, 1, res, f"{case}:round")
    for rot in product((False, True), repeat=len(lays)):

        def meas(m, d):
            rnd(m, d)
            return merge_log_meas(
                mod.log_meas_iterator, m, lays, d, rot_bases=list(rot), anc_reset=reset
            )

        check(b, meas, 1, res, f"{case}:meas{rot}")
    if len(lays) == 2 and sizes[0] == sizes[1] and hasattr(mod, "log_trans_cnot"):
        for c, t in (lays, lays[::-1]):
            g.set_trans_cnot(c, t)

            def cnot(m, d):
                d.activate_detectors(ancs(*lays))
                return mod.log_trans_cnot(m, c, t, d)

            check(b, cnot, 1, res, f"{case}:cnot")


def run_exp(case, res):
    _, exp, fam, kind, reset, rot = case
    size = (2, 2) if FAM[fam][0] == "unrot" or exp == "cnot" else (2, 3)
    s = Setting(exp, fam, *size)
    b = Bench(s.layouts, kind)
    init = {q: k % 2 for k, q in enumerate(s.data)}
    if exp == "mem":
        counts = [(r,) for r in range(1 if fam == "google" else 0, 4)]
    elif exp == "h":
        counts = [(0, 1), (1, 0), (2, 1), (3, 2)]
    else:
        counts = [(0, 1), (2, 0), (2, 1), (4, 1)]
    if exp == "cnot":
        counts += [(1, 1), (3, 1)]
    for c in counts:
        if exp == "mem":
            inc = c[0] + (fam != "google")
        else:
            inc = 1 + c[0] * (1 + c[1]) + 1
        for o in ("constant", "alternating") if exp == "cnot" else (None,):
            kw = dict(cnot_orientation=o) if o else {}

            def build(m, d):
                return s.call(m, d, c, init=dict(init), rot=rot, reset=reset, **kw)

            check(b, build, inc, res, f"{case}:{c}:{o}", first_only=False)
