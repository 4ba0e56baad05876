"""Exhaustive exploration: every noise model x operation x assignment of the relevant
parameters (each of local, global, parent local, parent global present or absent, as a
number or as a free parameter; local values of other qubits and pairs as decoys; all
combinations of assignment flags; all biases; local and global T1/T2) x tuples of qubits.
The channels in the circuit, as probability vectors, must be exactly those of the reference
(own resolution rules and own formulas), and operations with an undefined parameter must
be rejected.  Every configuration is also changed after the first use of the model."""

from itertools import product
from math import exp

from surface_sim import Setup

from . import chan
from .chan import GATES1, GATES2, MEASURES, P1, P2, RESETS

LEVEL = "exploration"
RULE = (
    "one evaluation = one operation on one tuple of qubits in one configuration, all "
    "channels compared; non-trivial = operations for which a channel is required"
)
INDS = {"A": 7, "B": 0, "C": 12, "D": 3, "E": 21, "F": 1}
T_ONE = [
    ("A",),
    ("B",),
    ("A", "B"),
    ("B", "A"),
    ("C", "B", "A"),
    ("C", "D"),
    (),
    tuple("FDACEB"),
]
T_TWO = [
    ("A", "B"),
    ("B", "A"),
    ("A", "B", "C", "D"),
    ("C", "D", "B", "A"),
    ("C", "A"),
    tuple("FECDBA"),
]
DUR = 0.7
NAMES = (
    "X",
    "Z",
    "H",
    "S",
    "S_DAG",
    "CZ",
    "CX",
    "SWAP",
    "R",
    "RX",
    "RY",
    "M",
    "MX",
    "MY",
)
DURATION = {n: 0.5 + 0.21 * k for k, n in enumerate(NAMES)}
ALIAS = dict(CX="CNOT", M="MZ", R="RZ")


def durations():
    d = dict(DURATION)
    for a, b in ALIAS.items():
        d[b] = d[a]
    return d


def op_param(op):
    if op in GATES1:
        return GATES1[op][1]
    if op in GATES2:
        return GATES2[op][1]
    if op in RESETS:
        return "reset_error_prob"
    if op in MEASURES:
        return "meas_error_prob"
    return "idle_error_prob"


ALL = sorted({op_param(o) for o in chan.ONE + chan.TWO})
PROBKINDS = ("circuit", "biased", "experimental", "phenom", "incoming")


def uses(kind, op):
    """Does the operation have a probability parameter in this model?"""
    if not chan.has_op(kind, op):
        return False
    if kind == "experimental":
        return op not in ("idle", "incoming_noise")
    if kind == "phenom":
        return op in MEASURES or op == "incoming_noise"
    if kind == "incoming":
        return op == "incoming_noise"
    return kind in ("circuit", "biased") and op != "incoming_noise"


def cases(tier):
    out = []
    ops = chan.ONE + chan.TWO + ["incoming_noise"]
    for kind in PROBKINDS:
        for op in ops:
            if uses(kind, op):
                for mode in ("number", "free", "mixed"):
                    out.append(("prob", kind, op, mode))
    for op in ops:
        if uses("biased", op) and op not in MEASURES and op not in RESETS:
            out.append(("bias", op))
    for kind in (
        "circuit",
        "biased",
        "experimental",
        "phenom",
        "decoh_sym",
        "decoh_asym",
    ):
        for op in MEASURES:
            out.append(("assign", kind, op))
    for kind in ("decoh_sym", "decoh_asym"):
        for op in chan.ONE + chan.TWO:
            out.append(("time", kind, op))
    out.append(("time", "experimental", "idle"))
    for kind in ("incoming", "phenom", "noiseless"):
        out.append(("silent", kind))
    return out


# ------------------------------------------------------------------ reference
class Config:
    """Parameters by scope: {scope: {param: value}}, scope () is global."""

    def __init__(self):
        self.p = {(): {}}
        self.free = {}

    def put(self, scope, param, value, free=False):
        if free:
            name = f"v_{len(self.free)}"
            self.free[name] = value
            self.p.setdefault(scope, {})[param] = ("free", name)
        else:
            self.p.setdefault(scope, {})[param] = value

    def get(self, param, *qubits):
        """Value or None."""
        while True:
            for scope in (tuple(qubits), ()):
                v = self.p.get(scope, {}).get(param)
                if v is not None:
                    return self.free[v[1]] if isinstance(v, tuple) else v
            if param in PARENTS:
                param = PARENTS[param]
            else:
                return None

    def setup(self):
        blocks = []
        for scope, d in self.p.items():
            b = {k: (v[1] if isinstance(v, tuple) else v) for k, v in d.items()}
            if len(scope) == 1:
                b["qubit"] = scope[0]
            elif scope:
                b["qubits"] = list(scope)
            blocks.append(b)
        s = Setup(dict(setup=blocks, gate_durations=durations()))
        for n, v in self.free.items():
            s.set_var_param(n, v)
        return s


PARENTS = {p: "sq_error_prob" for p in ALL}
for _p in ("cz_error_prob", "cnot_error_prob", "swap_error_prob"):
    PARENTS[_p] = "tq_error_prob"


def groups(op, t):
    if op in GATES2:
        return list(zip(t[::2], t[1::2]))
    return [(q,) for q in t]


def biased(p, pauli, b, n):
    ops = P1 if n == 1 else P2
    hit = [o for o in ops if pauli in o]
    w = {o: (b if o in hit else 1.0) for o in ops}
    tot = sum(w.values())
    return {o: p * x / tot for o, x in w.items()}


def idle(t1, t2, dur):
    x = (1 - exp(-dur / t1)) / 4
    return {"X": x, "Y": x, "Z": (1 - exp(-dur / t2)) / 2 - x}


def expected(kind, cfg, op, t):
    """(list of (group, vector or ('flip basis', basis, p)), {qubit: flip probability});
    None if the request has to be rejected."""
    chans, flips = [], {}
    name = chan.stim_name(op)
    for g in groups(op, t):
        inds = tuple(INDS[q] for q in g)
        if kind in ("decoh_sym", "decoh_asym") or (
            kind == "experimental" and op == "idle"
        ):
            if op == "incoming_noise":
                continue
            for q in g:
                t1, t2 = cfg.get("T1", q), cfg.get("T2", q)
                if t1 is None or t2 is None:
                    return None
                if op == "idle":
                    chans.append(((INDS[q],), idle(t1, t2, DUR)))
                elif kind == "decoh_sym":
                    for _ in range(2):
                        chans.append(((INDS[q],), idle(t1, t2, DURATION[name] / 2)))
                else:
                    chans.append(((INDS[q],), idle(t1, t2, DURATION[name])))
        elif uses(kind, op):
            p = cfg.get(op_param(op), *g)
            if p is None:
                return None
            if op == "incoming_noise":
                chans += [(inds, {"X": p}), (inds, {"Z": p})]
            elif op in RESETS or op in MEASURES:
                basis = RESETS.get(op) or MEASURES[op]
                chans.append((inds, ("against", basis, p)))
            elif kind == "biased":
                pauli, b = cfg.get("biased_pauli", *g), cfg.get("biased_factor", *g)
                if pauli is None or b is None:
                    return None
                chans.append((inds, biased(p, pauli, b, len(g))))
            else:
                ops = P1 if len(g) == 1 else P2
                chans.append((inds, {o: p / len(ops) for o in ops}))
        if op in MEASURES and kind not in ("noiseless", "incoming"):
            f = cfg.get("assign_error_flag", *g)
            if f is None:
                return None
            if f:
                p = cfg.get("assign_error_prob", *g)
                if p is None:
                    return None
                flips[inds[0]] = p
    return chans, {q: p for q, p in flips.items() if p > 0}


def norm(g, v):
    """Orientation of a pair does not matter."""
    if len(g) == 2 and g[0] > g[1]:
        return g[::-1], {o[::-1]: p for o, p in v.items()}
    return g, v


def matches(got, want):
    """Compares the noise events with the expected channels."""
    todo = []
    for g, v in want:
        if isinstance(v, tuple):
            if v[2] > 0:
                todo.append((g, v))
        else:
            v = {o: p for o, p in v.items() if p > 0}
            if v:
                todo.append(norm(g, v))
    for g, v in got:
        g, v = norm(g, v)
        for k, (h, w) in enumerate(todo):
            if g != h:
                continue
            if isinstance(w, tuple):
                _, basis, p = w
                ok = len(v) == 1 and basis not in v and abs(sum(v.values()) - p) < 1e-9
            else:
                ok = chan.same(v, w)
            if ok:
                del todo[k]
                break
        else:
            return f"channel {v} on {g}, expected {[w for h, w in todo if h == g]}"
    if todo:
        return f"missing channels {todo}"
    return None


def evaluate(kind, cfg, s, model, op, t):
    want = expected(kind, cfg, op, t)
    try:
        circ = chan.call(model, kind, op, list(t), DUR)
    except Exception as e:
        if want is None:
            return None
        return f"raised {type(e).__name__}: {e}"
    if want is None:
        return "accepted although a parameter is not defined"
    ev = chan.events(circ)
    got = [(e[1], e[2]) for e in ev if e[0] == "noise"]
    err = matches(got, want[0])
    if err:
        return err
    flips = {}
    for e in ev:
        if e[0] == "flip":
            if e[1][0] in flips:
                return f"two assignment errors on {e[1]}"
            flips[e[1][0]] = e[2]
    if not chan.same(flips, want[1]):
        return f"assignment errors {flips} instead of {want[1]}"
    return None


def common(cfg, skip=()):
    """Different values for everything that must not be used."""
    for k, p in enumerate(ALL):
        if p not in skip:
            cfg.put((), p, 0.3 + 0.01 * k)
    cfg.put((), "assign_error_flag", False)
    cfg.put((), "biased_factor", 2.5)
    cfg.put((), "biased_pauli", "Y", free=True)
    cfg.put((), "T1", 30.0)
    cfg.put((), "T2", 25.0)


def sweep(case, kind, ops, cfg, res, what, change=None):
    s = cfg.setup()
    model = chan.build(kind, s, INDS)
    model.new_circuit()
    for op in ops:
        for t in T_TWO if op in GATES2 else T_ONE:
            e = evaluate(kind, cfg, s, model, op, t)
            res.count("evaluations")
            w = expected(kind, cfg, op, t)
            res.count("distinct_nontrivial", int(bool(w and (w[0] or w[1]))))
            if e:
                res.fail(
                    f"{case}:{what}:{t}", f"{kind} model, {op}{t} with {what}: {e}"
                )
                return False
    if change:
        change(cfg, s)
        for op in ops:
            for t in T_TWO if op in GATES2 else T_ONE:
                e = evaluate(kind, cfg, s, model, op, t)
                res.count("evaluations")
                res.count("distinct_nontrivial")
                if e:
                    res.fail(
                        f"{case}:{what}:{t}:changed",
                        f"{kind} model, {op}{t} with {what} after a change: {e}",
                    )
                    return False
    return True


def run_case(case, res, tier):
    what = case[0]
    if what == "prob":
        run_prob(case, res)
    elif what == "bias":
        run_bias(case, res)
    elif what == "assign":
        run_assign(case, res)
    elif what == "time":
        run_time(case, res)
    else:
        run_silent(case, res)
    res.sample(dict(case=str(case)))


def run_prob(case, res):
    _, kind, op, mode = case
    P = op_param(op)
    Q = PARENTS[P]
    loc = ("A", "B") if op in GATES2 else ("A",)
    other = ("C", "D") if op in GATES2 else ("B",)
    slots = [(loc, P), ((), P), (loc, Q), ((), Q), (other, P), (other, Q)]
    if op in GATES2:
        slots += [(("B", "A"), P)]
    decoys = [("A",), ("B",)] if op in GATES2 else [("A", "B")]
    vals = [0.011, 0.021, 0.031, 0.041, 0.051, 0.061, 0.071]
    for bits in product((False, True), repeat=len(slots)):
        cfg = Config()
        common(cfg, skip=(P,))
        for k, (on, (scope, p)) in enumerate(zip(bits, slots)):
            if on:
                free = mode == "free" or (mode == "mixed" and k % 2 == 0)
                cfg.put(scope, p, vals[k], free=free)
        for d in decoys:
            cfg.put(d, P, 0.2)
            cfg.put(d, Q, 0.22)

        def change(cfg, s):
            for n in cfg.free:
                if isinstance(cfg.free[n], float):
                    cfg.free[n] /= 3
                s.set_var_param(n, cfg.free[n])
            cfg.put(("A", "B") if op in GATES2 else ("A",), P, 0.111)
            s.set_param(P, 0.111, *loc)
            cfg.put((), Q, 0.122)
            s.set_param(Q, 0.122)

        on = [f"{p}@{scope or 'global'}" for b, (scope, p) in zip(bits, slots) if b]
        if not sweep(case, kind, [op], cfg, res, f"{mode} {on}", change):
            return
    # probability zero
    cfg = Config()
    common(cfg, skip=(P,))
    cfg.put((), P, 0.0)
    cfg.put(loc, P, 0.09)
    sweep(case, kind, [op], cfg, res, "zero")
    # all magnitudes that the channel allows, also as other types of number
    top = 1.0
    if kind in ("circuit", "experimental") and op not in RESETS and op not in MEASURES:
        top = 15 / 16 if op in GATES2 else 0.75
    vals = [1e-14, 1e-7, 1e-4, 0.25, 0.3333333333333333, 0.5, 0.6, 0.7499, 0.93, 1.0]
    vals = [v for v in vals if v < top] + [top] + [int(v) for v in (0, 1) if v <= top]
    for v, w in product(vals, repeat=2):
        cfg = Config()
        common(cfg, skip=(P,))
        cfg.put((), P, w, free=mode != "number")
        cfg.put(loc, P, v, free=mode == "free")
        if not sweep(case, kind, [op], cfg, res, f"{mode} {v!r} global {w!r}"):
            return


def run_bias(case, res):
    op = case[1]
    loc = ("A", "B") if op in GATES2 else ("A",)
    for pl, pg in product((None, "X", "Y", "Z"), "XYZ"):
        for fl, fg in product(
            (None, 0, 0.0, 0.01, 0.5, 1, 1.0, 4.0, 1000.0, 1e9), (0.0, 1.0, 3.0, 250.0)
        ):
            cfg = Config()
            common(cfg)
            cfg.put((), op_param(op), 0.12)
            cfg.put((), "biased_pauli", pg, free=True)
            cfg.put((), "biased_factor", fg)
            if pl:
                cfg.put(loc, "biased_pauli", pl, free=True)
            if fl is not None:
                cfg.put(loc, "biased_factor", fl)

            def change(cfg, s):
                for n in cfg.free:
                    cfg.free[n] = dict(X="Y", Y="Z", Z="X")[cfg.free[n]]
                    s.set_var_param(n, cfg.free[n])
                cfg.put(loc, "biased_factor", 7.5)
                s.set_param("biased_factor", 7.5, *loc)
                cfg.put((), op_param(op), 0.06)
                s.set_param(op_param(op), 0.06)

            what = f"bias {pl}/{pg} factor {fl}/{fg}"
            if not sweep(case, "biased", [op], cfg, res, what, change):
                return


def run_assign(case, res):
    _, kind, op = case
    for fa, fb, fg in product((None, True, False), (None, True, False), (True, False)):
        for pa, pg in product(
            (None, 0, 0.0, 1e-9, 0.07, 0.5, 0.8, 1), (None, 0.03, 0.7)
        ):
            cfg = Config()
            common(cfg)
            cfg.put((), "assign_error_flag", fg)
            for q, f in (("A", fa), ("B", fb)):
                if f is not None:
                    cfg.put((q,), "assign_error_flag", f)
            if pa is not None:
                cfg.put(("A",), "assign_error_prob", pa)
            if pg is not None:
                cfg.put((), "assign_error_prob", pg, free=True)

            def change(cfg, s):
                cfg.put(("B",), "assign_error_flag", True)
                s.set_param("assign_error_flag", True, "B")
                cfg.put((), "assign_error_prob", 0.0123)
                s.set_param("assign_error_prob", 0.0123)

            if not sweep(
                case, kind, [op], cfg, res, f"flags {fa},{fb},{fg} p {pa},{pg}", change
            ):
                return


def run_time(case, res):
    _, kind, op = case
    for a1, a2, g1, g2, b1 in product(
        (None, 9.0, 0.01, 1e5),
        (None, 11.0, 0.015, 3),
        (None, 40.0, 1e8),
        (None, 60.0),
        (None, 33.0),
    ):
        cfg = Config()
        common(cfg)
        for scope, p, v in (
            (("A",), "T1", a1),
            (("A",), "T2", a2),
            ((), "T1", g1),
            ((), "T2", g2),
            (("B",), "T1", b1),
        ):
            if v is None:
                cfg.p.get(scope, {}).pop(p, None)
            else:
                cfg.put(scope, p, v, free=p == "T2")
        bad = False
        for q in INDS:
            t1, t2 = cfg.get("T1", q), cfg.get("T2", q)
            if t1 is not None and t2 is not None and not t2 < 2 * t1:
                bad = True
        if bad:
            continue  # unphysical

        def change(cfg, s):
            cfg.put((), "T1", 55.5)
            s.set_param("T1", 55.5)
            t2 = min(1.25, 0.9 * cfg.get("T1", "A"))  # physical
            cfg.put(("A",), "T2", t2)
            s.set_param("T2", t2, "A")

        what = f"T1/T2 {a1},{a2} global {g1},{g2} B {b1}"
        if not sweep(case, kind, [op], cfg, res, what, change):
            return


def run_silent(case, res):
    kind = case[1]
    cfg = Config()
    common(cfg)
    ops = [o for o in chan.ONE + chan.TWO if not uses(kind, o)]
    sweep(case, kind, ops, cfg, res, "silent operations")
