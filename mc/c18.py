"""Exploration of histories with rejected requests.  For detectors, noise models, layouts,
gate preparations, setups and circuit blocks: every history of valid requests up to a depth
is executed twice on new objects, once as it is and once with every request of a catalogue
of invalid ones inserted at every position.  Every invalid request must raise, and the two
runs must give the same outputs, before and after.  When they differ the insertion is
repeated for each request and position alone to name the culprit; a shallower exploration
inserts every request alone from the start.  Valid requests are repeated with every kind of
collection of the same labels."""

from collections import Counter
from copy import copy, deepcopy
from itertools import product

import numpy as np
import stim
import xarray as xr

from surface_sim.models import CircuitNoiseModel, NoiselessModel
from surface_sim import Detectors, Layout, Setup
from surface_sim.models import CircuitNoiseModel, NoiselessModel
from surface_sim.util import merge_log_meas, merge_qec_rounds

from . import chan
from .lib import (
    FAM,
    ancs,
    corners,
    gates_module,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
)

LEVEL = "fault_enumeration"
RULE = {
    "evaluations": "requests executed on the real objects (valid and invalid)",
    "distinct_nontrivial": "rejected requests at distinct positions of distinct histories",
}
ASSUMPTIONS = [
    "requests for labels the library documents to ignore (neighbours of unknown nodes) "
    "and objects of the wrong kind (detectors of other layouts) are not claimed",
]


class Op:
    """One request: ``fn(world)`` returns an observation; ``ok(world)`` tells whether it
    can be requested in the current state; ``must``: whether it has to raise."""

    def __init__(self, name, fn, ok=None, must=True):
        self.name, self.fn, self.ok, self.must = name, fn, ok, must


def obs(x):
    if isinstance(x, stim.Circuit):
        return ("circuit", str(x), tuple(sorted(canon_lines(x))))
    return x


def canon_lines(c):
    out, layer = [], 0
    for ins in c.flattened():
        if ins.name == "TICK":
            layer += 1
        a = tuple(ins.gate_args_copy())
        for g in ins.target_groups() or [[]]:
            out.append((layer, ins.name, a, tuple(map(str, g))))
    return [repr(x) for x in out]


def same(a, b):
    if isinstance(a, tuple) and a and a[0] == "circuit":
        return (
            isinstance(b, tuple)
            and b[:1] == ("circuit",)
            and (a[1] == b[1] or a[2] == b[2])
        )
    return a == b


def run(make, hist, bad, res, singles=None):
    """Executes ``hist`` with the invalid requests ``bad`` inserted at every position (or
    only ``singles``, a set of (position, index)).  Returns observations, or None if the
    history is not possible."""
    w = make()
    out = []
    for pos in range(len(hist) + 1):
        for i, b in enumerate(bad):
            if singles is not None and (pos, i) not in singles:
                continue
            if b.ok is not None and not b.ok(w):
                continue
            res.count("evaluations")
            try:
                b.fn(w)
            except Exception:
                res.count("distinct_nontrivial")
            else:
                if b.must:
                    h = " ; ".join(o.name for o in hist[:pos])
                    res.fail(
                        f"accepted:{b.name}",
                        f"invalid request accepted: {b.name} after [{h}]",
                    )
                    return out
        if pos < len(hist):
            o = hist[pos]
            if o.ok is not None and not o.ok(w):
                return None
            res.count("evaluations")
            try:
                out.append(obs(o.fn(w)))
            except Exception as e:
                out.append(("raised", type(e).__name__, str(e)[:200]))
    out.append(obs(w.probe()))
    return out


def compare(make, hist, bad, res, group, singly=False):
    ref = run(make, hist, [], res)
    if ref is None:
        return False
    for o, r in zip(hist, ref):
        if isinstance(r, tuple) and r and r[0] == "raised":
            res.fail(
                f"valid-raised:{group}:{o.name}",
                f"valid history [{' ; '.join(x.name for x in hist)}]: {o.name} {r}",
            )
            return True
    if not singly:
        n = len(res.viol)
        got = run(make, hist, bad, res)
        if len(res.viol) > n:
            return True
        if len(ref) == len(got) and all(same(a, b) for a, b in zip(ref, got)):
            return True
    found = False
    for pos in range(len(hist) + 1):
        for i, b in enumerate(bad):
            n = len(res.viol)
            got = run(make, hist, bad, res, singles={(pos, i)})
            if len(res.viol) > n:
                return True
            if len(ref) != len(got) or not all(same(a, b) for a, b in zip(ref, got)):
                found = True
                k = next(
                    (k for k, (x, y) in enumerate(zip(ref, got)) if not same(x, y)), -1
                )
                what = hist[k].name if 0 <= k < len(hist) else "the probe"
                res.fail(
                    f"effect:{group}:{b.name}",
                    f"the rejected request {b.name} at position {pos} of "
                    f"[{' ; '.join(o.name for o in hist)}] changes the result of "
                    f"{what}: {short(ref, k)} became {short(got, k)}",
                )
                if len(res.viol) > 10:
                    return True
    if not singly and not found:
        res.fail(
            f"effect:{group}:combined",
            f"rejected requests together change [{' ; '.join(o.name for o in hist)}]",
        )
    return True


def short(l, k):
    try:
        return str(l[k])[:700]
    except IndexError:
        return "-"


# ------------------------------------------------------------------ detectors
ANC = ["X1", "X2", "Z1"]
DATA = ["D1", "D2", "D3", "D4"]
SUPPORT = {"X1": ["D1", "D2"], "X2": ["D2", "D3"], "Z1": ["D3", "D4"]}
DINDS = {q: i for i, q in enumerate(ANC + DATA)}
KINDS = {
    "list": list,
    "tuple": tuple,
    "set": set,
    "keys": lambda x: {a: None for a in x}.keys(),
    "dict": lambda x: {a: None for a in x},
}


class DetWorld:
    def __init__(self, frame, reset, root, kind=list):
        self.reset, self.kind = reset, kind
        self.model = make_model("noiseless", dict(DINDS))
        coll = kind if kind in (list, tuple) else list
        self.det = Detectors(coll(ANC), frame, {a: [i, 0] for i, a in enumerate(ANC)})
        self.active = set()
        self.mixed = set()  # ancillas related by gates since the last round
        for op in root:
            DETOPS[op].fn(self)

    def anc(self, labels=None):
        self.model.measure(ANC)
        self.mixed = set()
        return self.det.build_from_anc(
            self.model.meas_target,
            self.reset,
            None if labels is None else self.kind(labels),
        )

    def data(self, stabs, labels=None):
        self.model.measure(DATA)
        self.mixed = set()
        return self.det.build_from_data(
            self.model.meas_target,
            {a: list(s) for a, s in SUPPORT.items()},
            self.reset,
            self.kind(stabs),
            None if labels is None else self.kind(labels),
        )

    def act(self, *labels):
        self.det.activate_detectors(self.kind(labels))
        self.active |= set(labels)

    def deact(self, *labels):
        self.det.deactivate_detectors(self.kind(labels))
        self.active -= set(labels)

    def upd(self, d):
        self.det.update_from_dict({k: self.kind(v) for k, v in d.items()})
        self.mixed |= {frozenset((k, x)) for k, v in d.items() for x in v}

    def probe(self):
        """Valid requests whose outputs depend on all of the bookkeeping."""
        out = []
        for a in ANC:
            if a not in self.active:
                self.act(a)
        for _ in range(2):
            out.append(str(self.anc()))
        self.upd({"X2": ["X2", "Z1"]})
        out.append(str(self.data(["X1", "X2"])))
        self.deact("X1")
        out.append(str(self.anc()))
        self.det.new_circuit()
        self.active = set()
        self.act(*ANC)
        out.append(str(self.anc()))
        return tuple(out)


def _det_ops():
    def free(*l):
        return lambda w: not (set(l) & w.active)

    # deactivating only some of the ancillas related by a gate since the last round
    # is the finding listed for C01
    def held(*l):
        return lambda w: set(l) <= w.active and all(
            p <= set(l) or not (p & set(l)) for p in w.mixed
        )

    ops = [
        Op("activate(X1)", lambda w: w.act("X1"), free("X1")),
        Op("activate(X2,Z1)", lambda w: w.act("X2", "Z1"), free("X2", "Z1")),
        Op("deactivate(X1)", lambda w: w.deact("X1"), held("X1")),
        Op("deactivate(X2,Z1)", lambda w: w.deact("X2", "Z1"), held("X2", "Z1")),
        Op("update(X1->X1*Z1)", lambda w: w.upd({"X1": ["X1", "Z1"]})),
        Op("update(swap X1,X2)", lambda w: w.upd({"X1": ["X2"], "X2": ["X1"]})),
        Op("build_from_anc", lambda w: w.anc()),
        Op("build_from_anc(X2,X1)", lambda w: w.anc(["X2", "X1"])),
        Op("build_from_data(X1,Z1)", lambda w: w.data(["X1", "Z1"], ["Z1", "X2"])),
    ]
    return ops


DETOPS = _det_ops()
ROOTS = {"none": (), "all": (0, 1, 6), "partial": (1, 6, 4)}


class Boom(Exception):
    pass


def _det_bad():
    ident = np.identity(3, dtype=int)

    def da(m, gen=ANC, new=ANC, dims=("new_stab_gen", "stab_gen")):
        return xr.DataArray(
            m, dims=list(dims), coords={dims[0]: list(new), dims[1]: list(gen)}
        )

    def boom(*a):
        raise Boom()

    class Late:
        """Raises at the k-th call."""

        def __init__(self, w, k):
            self.w, self.k = w, k

        def __call__(self, *a):
            self.k -= 1
            if self.k < 0:
                raise Boom()
            return stim.target_rec(-1)

    some = lambda w: bool(w.active)
    sup = {a: list(s) for a, s in SUPPORT.items()}
    rec = lambda w: (lambda *a: stim.target_rec(-1))
    out = []

    def add(name, fn, ok=None, must=True):
        out.append(Op(name, fn, ok, must))

    for nm in ("activate", "deactivate"):
        f = lambda w, nm=nm: getattr(w.det, nm + "_detectors")
        add(f"{nm}(unknown)", lambda w, f=f: f(w)(["Q9"]))
        add(f"{nm}(unknown,all)", lambda w, f=f: f(w)(["Q9", *ANC]))
        add(f"{nm}(all,unknown)", lambda w, f=f: f(w)([*ANC, "Q9"]))
        for a in ANC:
            state = (
                (lambda w, a=a: a not in w.active)
                if nm == "activate"
                else (lambda w, a=a: a in w.active)
            )
            add(f"{nm}({a},unknown)", lambda w, f=f, a=a: f(w)([a, "Q9"]), state)
        add(f"{nm}(3)", lambda w, f=f: f(w)(3))
        add(f"{nm}(None)", lambda w, f=f: f(w)(None))
        add(f"{nm}('X1')", lambda w, f=f: f(w)("X1"))
        add(f"{nm}(data qubit)", lambda w, f=f: f(w)(["D1"]))
    for perm in (("X1", "X2", "Z1"), ("Z1", "X2", "X1"), ("X2", "X1"), ("X1", "Z1")):
        add(
            f"activate{perm} with an active one",
            lambda w, p=perm: w.det.activate_detectors(list(p)),
            lambda w, p=perm: bool(set(p) & w.active),
        )
        add(
            f"deactivate{perm} with an inactive one",
            lambda w, p=perm: w.det.deactivate_detectors(list(p)),
            lambda w, p=perm: not set(p) <= w.active,
        )
    u = lambda x: (lambda w: w.det.update_from_dict(x))
    add("update_from_dict(list)", u([("X1", ["X1"])]))
    add("update_from_dict(unknown key)", u({"X1": ["X1", "Z1"], "Q9": ["X1"]}))
    add("update_from_dict(unknown old)", u({"X1": ["X1", "Q9"]}))
    add(
        "update_from_dict(unknown old last)",
        u({"X1": ["X1", "X2"], "Z1": ["Z1", "Q9"]}),
    )
    add("update_from_dict(singular)", u({"X1": ["X2"]}))
    add(
        "update_from_dict(singular mod 2)",
        u({"X1": ["X1", "X2"], "X2": ["X2", "Z1"], "Z1": ["Z1", "X1"]}),
    )
    add("update_from_dict(empty)", u({"X2": []}))
    add("update_from_dict(value 3)", u({"X1": 3}))
    m = lambda x: (lambda w: w.det.update(x))
    add("update(ndarray)", m(ident))
    add("update(dims)", m(da(ident, dims=("stab", "stab_gen"))))
    add("update(labels)", m(da(ident, gen=["X1", "X2", "Q9"])))
    add("update(labels new)", m(da(ident, new=["X1", "X2", "Q9"])))
    add("update(missing label)", m(da(ident[:2, :2], gen=ANC[:2], new=ANC[:2])))
    add("update(singular)", m(da(ident * 0)))
    add("update(singular mod 2)", m(da(np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]]))))
    A = lambda w: w.det.build_from_anc
    D = lambda w: w.det.build_from_data
    for r in (True, False):
        add(f"build_from_anc(get_rec=None,{r})", lambda w, r=r: A(w)(None, r))
        add(f"build_from_anc(anc_qubits=3,{r})", lambda w, r=r: A(w)(rec(w), r, 3))
        add(
            f"build_from_anc(unknown,{r})",
            lambda w, r=r: A(w)(rec(w), r, ["X1", "Q9", "Z1"]),
        )
        add(
            f"build_from_anc(missing measurement,{r})",
            lambda w, r=r: A(w)(boom, r),
            some,
        )
        for k in (2,):
            late = lambda w, r=r, k=k: A(w)(Late(w, k), r)
            add(
                f"build_from_anc(missing measurement #{k},{r})",
                late,
                lambda w, r=r, late=late: w.reset == r and on_copy(late, w),
            )
        add(
            f"build_from_data(get_rec=None,{r})", lambda w, r=r: D(w)(None, sup, r, ANC)
        )
        add(
            f"build_from_data(support list,{r})",
            lambda w, r=r: D(w)(rec(w), ANC, r, ANC),
        )
        add(f"build_from_data(stabs=3,{r})", lambda w, r=r: D(w)(rec(w), sup, r, 3))
        add(
            f"build_from_data(stabs not in support,{r})",
            lambda w, r=r: D(w)(rec(w), {"X1": ["D1"]}, r, ["X1", "Z1"]),
        )
        add(
            f"build_from_data(anc_qubits=3,{r})",
            lambda w, r=r: D(w)(rec(w), sup, r, ["X1"], 3),
        )
        add(
            f"build_from_data(unknown,{r})",
            lambda w, r=r: D(w)(rec(w), sup, r, ["X1"], ["X1", "Q9"]),
        )
        add(
            f"build_from_data(missing measurement,{r})",
            lambda w, r=r: D(w)(boom, sup, r, ANC),
            some,
        )
        for k in (1,):
            late = lambda w, r=r, k=k: D(w)(Late(w, k), sup, r, ANC)
            add(
                f"build_from_data(missing measurement #{k},{r})",
                late,
                lambda w, r=r, late=late: w.reset == r and on_copy(late, w),
            )
    return out


def on_copy(fn, w):
    """Whether the request is rejected by a copy of the detectors."""
    c = copy(w)
    c.det = deepcopy(w.det)
    try:
        fn(c)
    except Boom:
        return True
    return False


def hists(n, depth):
    return product(range(n), repeat=depth)


def det_case(frame, reset, root, first, depth, singly, res):
    bad = _det_bad()
    make = lambda: DetWorld(frame, reset, ROOTS[root])
    for rest in hists(len(DETOPS), depth - 1):
        hist = [DETOPS[i] for i in (first, *rest)]
        compare(make, hist, bad, res, f"detectors({frame})", singly)


def det_containers(frame, reset, depth, res):
    for root in ("all", "partial"):
        root = ROOTS[root]
        for h in hists(len(DETOPS), depth):
            hist = [DETOPS[i] for i in h]
            ref = run(lambda: DetWorld(frame, reset, root), hist, [], res)
            if ref is None:
                continue
            for kn, kind in KINDS.items():
                got = run(lambda: DetWorld(frame, reset, root, kind), hist, [], res)
                res.expect(
                    ref == got,
                    f"container:detectors:{kn}",
                    f"[{' ; '.join(o.name for o in hist)}] with labels given as {kn}: "
                    f"{got} instead of {ref}",
                )


def det_ctor(res):
    C = {a: [0, i] for i, a in enumerate(ANC)}
    bads = [
        ("anc_qubits=3", lambda: Detectors(3, "post-gate")),
        ("anc_qubits=set", lambda: Detectors(set(ANC), "post-gate")),
        ("frame=1", lambda: Detectors(ANC, 1)),
        ("frame=None", lambda: Detectors(ANC, None)),
        ("coords=list", lambda: Detectors(ANC, "post-gate", list(C.items()))),
        ("coords missing", lambda: Detectors(ANC, "post-gate", {"X1": [0], "X2": [1]})),
        ("coords unknown", lambda: Detectors(ANC, "post-gate", {**C, "Q9": [1, 1]})),
        ("coords value", lambda: Detectors(ANC, "post-gate", {**C, "X1": 3})),
        ("coords length", lambda: Detectors(ANC, "post-gate", {**C, "Z1": [3]})),
    ]
    for f in ("", "post", "post_gate", "Post-Gate", "1", "2", "gate", "pre", "-gate"):
        bads.append((f"frame={f!r}", lambda f=f: Detectors(ANC, f)))
    rejected(bads, res, "Detectors")


def rejected(bads, res, group):
    for name, fn in bads:
        res.count("evaluations")
        try:
            fn()
        except Exception:
            res.count("distinct_nontrivial")
        else:
            res.fail(f"accepted:{group}:{name}", f"{group}: {name} was accepted")


# ------------------------------------------------------------------ models
INDS = {"A1": 4, "B1": 9, "C1": 0}
DUR = 0.3
PAR = dict(
    x_error_prob=0.01,
    z_error_prob=0.012,
    h_error_prob=0.013,
    s_error_prob=0.014,
    sdag_error_prob=0.015,
    reset_error_prob=0.016,
    meas_error_prob=0.017,
    idle_error_prob=0.018,
    assign_error_prob=0.03,
    assign_error_flag=True,
    T1=30.0,
    T2=20.0,
    biased_factor=2.0,
    biased_pauli="Y",
)


def model_setup():
    """Every parameter of B1 is a free parameter with a value."""
    free = {k: f"free_{k}" for k in PAR}
    s = Setup(
        dict(
            setup=[
                dict(tq_error_prob=0.02, biased_factor=2.0, biased_pauli="pauli"),
                dict(qubit="A1", **{**PAR, "biased_pauli": "pauli"}),
                dict(qubit="C1", **{**PAR, "biased_pauli": "pauli"}),
                dict(qubit="B1", **free),
            ],
            gate_durations={
                n: 0.5
                for n in "X Z H S S_DAG CZ CX CNOT SWAP R RX RY RZ M MX MY MZ".split()
            },
        )
    )
    s.set_var_param("pauli", "X")
    for k, v in PAR.items():
        s.set_var_param(free[k], v)
    return s


class ModelWorld:
    def __init__(self, kind, container=list):
        self.kind, self.k = kind, container
        self.setup = model_setup()
        self.model = chan.build(kind, self.setup, INDS)
        self.model.new_circuit()

    def call(self, op, qubits):
        two = op in chan.TWO
        q = (
            tuple(qubits)
            if two and self.k is tuple
            else list(qubits) if two else self.k(qubits)
        )
        return chan.call(self.model, self.kind, op, q, DUR)

    def op(self, op, qubits):
        c = self.call(op, qubits)
        return (obs(c), self.table())

    def table(self):
        """Every existing measurement of every qubit."""
        out = []
        for q in INDS:
            k = 1
            while k < 200:
                try:
                    t = self.model.meas_target(q, -k)
                    out.append((q, -k, t.value, self.model.meas_target(q, k - 1).value))
                except ValueError:
                    break
                k += 1
        return tuple(out)

    def count(self, q):
        return sum(1 for t in self.table() if t[0] == q)

    def probe(self):
        out = [self.table()]
        for op in ("measure", "reset", "cphase", "idle", "x_gate"):
            out.append(str(self.call(op, ["A1", "C1"])))
        out.append(self.table())
        out.append(str(self.model.tick()))
        self.model.new_circuit()
        out.append(str(self.call("measure", ["C1", "A1"])))
        out.append(self.table())
        return tuple(out)


def model_ops():
    L = [
        ("measure", ("A1", "B1")),
        ("measure_x", ("B1",)),
        ("measure_y", ("C1", "A1", "B1")),
        ("cnot", ("C1", "B1")),
    ]
    ops = [Op(f"{o}{q}", lambda w, o=o, q=q: w.op(o, q)) for o, q in L]
    ops.append(Op("new_circuit", lambda w: w.model.new_circuit()))
    return ops


def model_bad(kind):
    out = []

    def add(name, fn, ok=None, must=True):
        out.append(Op(name, fn, ok, must))

    for op in chan.ONE:
        if not chan.has_op(kind, op):
            continue
        for q in (("Q9",), ("A1", "Q9"), ("Q9", "A1"), ("A1", "B1", "C1", "Q9")):
            add(f"{op}{q}", lambda w, op=op, q=q: w.call(op, q))
        add(f"{op}(3)", lambda w, op=op: chan.call(w.model, kind, op, 3, DUR))
        add(f"{op}('A1')", lambda w, op=op: chan.call(w.model, kind, op, "A1", DUR))
    for op in chan.TWO:
        if not chan.has_op(kind, op):
            continue
        qs = [("A1",), ("A1", "B1", "C1"), ("Q9", "A1"), ("A1", "Q9"), ("A1", "A1")]
        for q in qs + [("A1", "B1", "C1", "Q9"), ("A1", "B1", "C1", "C1")]:
            add(f"{op}{q}", lambda w, op=op, q=q: w.call(op, q))
    add("add_meas(unknown)", lambda w: w.model.add_meas("Q9"))
    add("meas_target(unknown)", lambda w: w.model.meas_target("Q9", -1))
    for q in INDS:
        for off in (0, 1, 5):
            add(
                f"meas_target({q}, n+{off})",
                lambda w, q=q, off=off: w.model.meas_target(q, w.count(q) + off),
            )
            add(
                f"meas_target({q}, -n-1-{off})",
                lambda w, q=q, off=off: w.model.meas_target(q, -w.count(q) - 1 - off),
            )
    for c in (["Q9"], ["A1", "Q9"], ["Q9", "A1", "B1", "C1"], ["A1", "B1", "C1", "Q9"]):
        add(
            f"qubit_coords({c})",
            lambda w, c=c: w.model.qubit_coords({q: [0, 1] for q in c}),
        )
    if kind == "noiseless":
        return out
    for p in PAR:
        for what, v in (("unset", None), ("invalid", 1.7)):
            if what == "invalid" and not p.endswith("_prob"):
                continue
            for op in chan.ONE:
                if not chan.has_op(kind, op):
                    continue
                for q in (("B1",), ("A1", "B1"), ("C1", "A1", "B1")):

                    def f(w, p=p, v=v, op=op, q=q):
                        w.setup.set_var_param(f"free_{p}", v)
                        try:
                            w.call(op, q)
                        finally:
                            w.setup.set_var_param(f"free_{p}", PAR[p])

                    # with 'must' False valid requests would change the state: only
                    # the parameters that the operation needs are unset
                    if needs(kind, op, p, v):
                        add(f"{op}{q} with {p} {what}", f)
    return out


_NEEDS = {}


def needs(kind, op, p, v):
    """Whether the operation on B1 alone is rejected in a new model."""
    key = (kind, op, p, v)
    if key not in _NEEDS:
        w = ModelWorld(kind)
        w.setup.set_var_param(f"free_{p}", v)
        try:
            w.call(op, ("B1",))
            _NEEDS[key] = False
        except Exception:
            _NEEDS[key] = True
    return _NEEDS[key]


def model_case(kind, depth, singly, res):
    bad = model_bad(kind)
    ops = model_ops()
    for h in hists(len(ops), depth):
        compare(
            lambda: ModelWorld(kind),
            [ops[i] for i in h],
            bad,
            res,
            f"model({kind})",
            singly,
        )
    # the needed parameters cannot all be optional
    if kind not in ("noiseless", "incoming"):
        for op in ("measure", "measure_x", "measure_y"):
            res.expect(
                needs(kind, op, "assign_error_prob", None),
                f"unset:{kind}:{op}",
                f"{kind}.{op} works with an unspecified assign_error_prob",
            )


def model_containers(kind, res):
    for op in chan.ONE + chan.TWO:
        if not chan.has_op(kind, op):
            continue
        sets = (
            [("A1", "C1")]
            if op in chan.TWO
            else [
                (),
                ("B1",),
                ("A1", "C1"),
                ("C1", "B1", "A1"),
            ]
        )
        for qs in sets:
            ref = ModelWorld(kind).call(op, qs)
            for kn, k in KINDS.items():
                if op in chan.TWO and k not in (list, tuple):
                    continue
                w = ModelWorld(kind, k)
                res.count("evaluations", 2)
                try:
                    got = w.call(op, qs)
                except Exception as e:
                    res.fail(
                        f"container:model:{kind}:{op}:{kn}",
                        f"{kind}.{op}({qs}) as {kn}: {type(e).__name__}: {e}",
                    )
                    continue
                res.expect(
                    Counter(canon_lines(ref)) == Counter(canon_lines(got)),
                    f"container:model:{kind}:{op}:{kn}",
                    f"{kind}.{op}({qs}) as {kn} gives\n{got}\ninstead of\n{ref}",
                )
                if op in chan.MEASURES:
                    order = [
                        t.value
                        for ins in got
                        if ins.name in ("M", "MX", "MY", "MZ")
                        for t in ins.targets_copy()
                    ]
                    for q in qs:
                        res.expect(
                            w.model.meas_target(q, -1).value
                            == order.index(INDS[q]) - len(order),
                            f"container:model:{kind}:{op}:{kn}",
                            f"{kind}.{op}({qs}) as {kn}: wrong record of {q}",
                        )


# ------------------------------------------------------------------ layouts
def snapshot(l):
    d = l.to_dict()
    nodes = {}
    for entry in d["layout"]:
        q = entry["qubit"]
        nodes[q] = {k: l.param(k, q) for k in entry}
    return repr((d, nodes, l.qubit_inds(), l.get_logical_qubits()))


class LayoutWorld:
    def __init__(self, code, dx, dz):
        self.code = code
        self.a = make_layout(code, dx, dz)
        self.b = make_layout(code, dx, dz, 1)
        self.other = make_layout("unrot" if code == "rot" else "rot", dx, dz, 2)
        self.big = make_layout(code, dx + 1, dz + 1, 3)
        self.dup = make_layout(code, dx, dz, 0, shift=(91, 91))
        self.same = make_layout(code, dx, dz, 4, shift=(41, 1))  # coordinates of b
        self.all = (self.a, self.b, self.other, self.big, self.dup, self.same)
        self.g = gates_module(code)

    def probe(self):
        return tuple(snapshot(l) for l in self.all)


def layout_ops(code, dx, dz):
    def do(f):
        def g(w):
            f(w)
            return w.probe()

        return g

    ops = [
        Op("set_param", do(lambda w: w.a.set_param("tag", "D1", [1, 2]))),
        Op("set_trans_cnot(a,b)", do(lambda w: w.g.set_trans_cnot(w.a, w.b))),
        Op("set_trans_cnot(b,a)", do(lambda w: w.g.set_trans_cnot(w.b, w.a))),
    ]
    if code == "rot" and dz == dx + 1:
        ops.append(Op("set_trans_s(D1)", do(lambda w: w.g.set_trans_s(w.a, "D1"))))
    if code == "unrot" and dx == dz:
        for i in (0, 3):
            for m in ("set_trans_s", "set_trans_h"):
                ops.append(
                    Op(
                        f"{m}(corner {i})",
                        do(lambda w, i=i, m=m: getattr(w.g, m)(w.a, corners(w.a)[i])),
                    )
                )
    return ops


def layout_bad(code, dx, dz):
    out = []

    def add(name, fn, must=True, ok=None):
        out.append(Op(name, fn, ok, must))

    add("set_param(unknown)", lambda w: w.a.set_param("tag", "Q9", 1))
    add("param(unknown)", lambda w: w.a.param("coords", "Q9"))
    for q in (["Q9"], ["D1", "Q9"], ["Q9", "Z1"]):
        add(f"get_inds({q})", lambda w, q=q: w.a.get_inds(q))
        add(f"get_coords({q})", lambda w, q=q: w.a.get_coords(q))
    add("get_coords(all,unknown)", lambda w: w.a.get_coords([*w.a.get_qubits(), "Q9"]))
    add("get_qubits(unknown attribute)", lambda w: w.a.get_qubits(colour="red"))
    folded = ["set_trans_s"] + (["set_trans_h"] if code == "unrot" else [])
    fits = dz == dx + 1 if code == "rot" else dx == dz
    for m in folded:
        f = lambda w, m=m: getattr(w.g, m)
        add(f"{m}(unknown)", lambda w, f=f: f(w)(w.a, "Q9"))
        for anc in ("X1", "Z1"):
            add(f"{m}({anc})", lambda w, f=f, anc=anc: f(w)(w.a, anc))
        add(f"{m}(qubit of other layout)", lambda w, f=f: f(w)(w.a, "D201"))
        add(f"{m}(other code)", lambda w, f=f: f(w)(w.other, "D401"))
        add(
            f"{m}(other sizes)",
            lambda w, f=f: [
                f(w)(l, corners(l)[0])
                for l in (
                    make_layout(w.code, dx, dz + 2),
                    make_layout(w.code, dx + 2, dz),
                )
            ],
        )
        if not fits:
            add(f"{m}(wrong size)", lambda w, f=f: f(w)(w.a, corners(w.a)[0]))
        else:
            n = len(make_layout(code, dx, dz).get_qubits(role="data"))
            for i in range(1, n + 1):
                # not every data qubit can be the corner of the fold
                def g(w, f=f, i=i):
                    # the copy tells whether this data qubit is rejected
                    f(w)(Layout(w.a.to_dict()), f"D{i}")
                    raise Skip()

                def h(w, f=f, i=i):
                    f(w)(w.a, f"D{i}")

                add(f"{m}(D{i})", h, ok=lambda w, g=g: rejects(g, w))
    cn = lambda w: w.g.set_trans_cnot
    add("set_trans_cnot(a,a)", lambda w: cn(w)(w.a, w.a))
    add("set_trans_cnot(a,copy)", lambda w: cn(w)(w.a, Layout(w.a.to_dict())))
    for x, y in (
        ("a", "other"),
        ("other", "a"),
        ("a", "big"),
        ("big", "a"),
        ("a", "dup"),
        ("dup", "a"),
        ("b", "same"),
        ("same", "b"),
    ):
        add(
            f"set_trans_cnot({x},{y})",
            lambda w, x=x, y=y: cn(w)(getattr(w, x), getattr(w, y)),
        )
    return out


class Skip(Exception):
    pass


def rejects(g, w):
    try:
        g(w)
    except Skip:
        return False
    except Exception:
        return True


def layout_case(code, dx, dz, depth, singly, res):
    ops, bad = layout_ops(code, dx, dz), layout_bad(code, dx, dz)
    for h in hists(len(ops), depth):
        compare(
            lambda: LayoutWorld(code, dx, dz),
            [ops[i] for i in h],
            bad,
            res,
            f"layout({code})",
            singly,
        )


def layout_containers(code, dx, dz, res):
    l = make_layout(code, dx, dz)
    for qs in (["D1"], ["X1", "D2", "Z1"], l.get_qubits(role="anc"), l.get_qubits()):
        for kn, k in KINDS.items():
            res.count("evaluations", 5)
            q = k(qs)
            order = list(q)
            inds, crd = l.qubit_inds(), l.qubit_coords()
            res.expect(
                list(l.get_inds(q)) == [inds[x] for x in order],
                f"container:get_inds:{kn}",
                f"get_inds of {kn} {qs}",
            )
            res.expect(
                list(l.get_coords(q)) == [crd[x] for x in order],
                f"container:get_coords:{kn}",
                f"get_coords of {kn} {qs}",
            )
            for d in (None, "north_east", "south_west"):
                res.expect(
                    sorted(l.get_neighbors(q, direction=d, as_pairs=True))
                    == sorted(l.get_neighbors(list(qs), direction=d, as_pairs=True)),
                    f"container:get_neighbors:{kn}",
                    f"get_neighbors of {kn} {qs}",
                )


def layout_ctor(code, res):
    base = make_layout(code, 2, 2).to_dict

    def edit(f):
        def g():
            d = base()
            f(d)
            Layout(d)

        return g

    def at(k, i, v=None, drop=False):
        def f(d):
            if drop:
                d["layout"][i].pop(k)
            else:
                d["layout"][i][k] = v

        return f

    n = len(base()["layout"])
    bads = [
        ("not a dict", lambda: Layout([1])),
        ("path", lambda: Layout("layout.yaml")),
        ("no layout", edit(lambda d: d.pop("layout"))),
        ("extra logical", edit(lambda d: d["logical_qubit_labels"].append("L9"))),
        ("no log_x", edit(lambda d: d["log_x"].clear())),
        ("no log_z", edit(lambda d: d["log_z"].clear())),
        ("log_z of unknown", edit(lambda d: d["log_z"].update(L9=["D1"]))),
        ("missing file", lambda: Layout.from_yaml("/nonexistent/layout.yaml")),
    ]
    for i in range(n):
        first = base()["layout"][0 if i else 1]
        bads += [
            (f"no label {i}", edit(at("qubit", i, drop=True))),
            (f"repeated label {i}", edit(at("qubit", i, first["qubit"]))),
            (f"no neighbors {i}", edit(at("neighbors", i, drop=True))),
            (f"repeated index {i}", edit(at("ind", i, first["ind"]))),
            (f"no index {i}", edit(at("ind", i, drop=True))),
            (
                f"unknown neighbor {i}",
                edit(
                    lambda d, i=i: d["layout"][i]["neighbors"].update(north_east="Q9")
                ),
            ),
        ]
    rejected(bads, res, f"Layout({code})")


# ------------------------------------------------------------------ setups
class SetupWorld:
    def __init__(self):
        self.s = Setup(
            dict(
                name="n",
                setup=[
                    dict(sq_error_prob=0.1, tq_error_prob="tq", T1=3.0),
                    dict(qubit="D1", sq_error_prob="sq", x_error_prob=0.2),
                    dict(qubits=["D1", "D2"], cz_error_prob=0.4),
                ],
                gate_durations=dict(X=0.5),
            )
        )

    def probe(self):
        s = self.s
        out = [repr(s.to_dict()), tuple(s.free_params)]
        for p in list(Setup.PARENTS) + ["sq_error_prob", "tq_error_prob", "T1", "T2"]:
            for q in ((), ("D1",), ("D2",), ("D1", "D2"), ("D2", "D1")):
                try:
                    out.append(s.param(p, *q))
                except Exception as e:
                    out.append(type(e).__name__)
        for v in ("tq", "sq", "zz"):
            try:
                out.append(s.var_param(v))
            except ValueError:
                out.append("unset")
        return tuple(out)


def setup_ops():
    def do(f):
        def g(w):
            f(w.s)
            return w.probe()

        return g

    return [
        Op("set_param(T2)", do(lambda s: s.set_param("T2", 2.0))),
        Op("set_param(x,D2)", do(lambda s: s.set_param("x_error_prob", 0.3, "D2"))),
        Op(
            "set_param(cz,pair)",
            do(lambda s: s.set_param("cz_error_prob", 0.5, "D2", "D1")),
        ),
        Op("set_var_param(tq)", do(lambda s: s.set_var_param("tq", 0.6))),
        Op("set_var_param(sq)", do(lambda s: s.set_var_param("sq", 0.7))),
        Op("unset(tq)", do(lambda s: s.set_var_param("tq", None))),
    ]


def setup_bad():
    out = []

    def add(name, fn, ok=None):
        out.append(Op(name, lambda w: fn(w.s), ok))

    for v in (None, [0.1], {"a": 1}, (1,), b"x", 1j):
        add(f"set_param(T1,{v!r})", lambda s, v=v: s.set_param("T1", v))
        add(f"set_param(T1,{v!r},D1)", lambda s, v=v: s.set_param("T1", v, "D1"))
        add(f"set_param(T1,{v!r},D7)", lambda s, v=v: s.set_param("T1", v, "D7"))
    for p in (1, None, ("T1",)):
        add(f"set_param({p!r})", lambda s, p=p: s.set_param(p, 0.1))
        add(f"set_param({p!r},D7)", lambda s, p=p: s.set_param(p, 0.1, "D7"))
        add(f"set_var_param({p!r})", lambda s, p=p: s.set_var_param(p, 0.1))
        add(f"param({p!r})", lambda s, p=p: s.param(p))
    for q in (1, None, ["D1"]):
        add(f"set_param(T1,q={q!r})", lambda s, q=q: s.set_param("T1", 0.1, q))
        add(f"set_param(T1,q=D1,{q!r})", lambda s, q=q: s.set_param("T1", 0.1, "D1", q))
        add(f"param(T1,q={q!r})", lambda s, q=q: s.param("T1", q))
    add("param(undefined)", lambda s: s.param("nope"))
    add("param(undefined,D1)", lambda s: s.param("nope", "D1"))
    add("param(undefined,D1,D2)", lambda s: s.param("nope", "D1", "D2"))
    add("var_param(undefined)", lambda s: s.var_param("nope"))
    add("gate_duration(undefined)", lambda s: s.gate_duration("CZ"))
    return out


def setup_case(depth, singly, res):
    ops, bad = setup_ops(), setup_bad()
    for h in hists(len(ops), depth):
        compare(SetupWorld, [ops[i] for i in h], bad, res, "setup", singly)


def setup_ctor(res):
    bads = [
        ("empty", lambda: Setup({})),
        ("no setup", lambda: Setup(dict(name="a"))),
        ("setup empty", lambda: Setup(dict(setup=[]))),
        ("setup None", lambda: Setup(dict(setup=None))),
        (
            "repeated qubit",
            lambda: Setup(dict(setup=[dict(qubit="D1", a=1), dict(qubit="D1", b=1)])),
        ),
        (
            "repeated pair",
            lambda: Setup(
                dict(
                    setup=[
                        dict(qubits=["D1", "D2"], a=1),
                        dict(qubits=["D1", "D2"], b=1),
                    ]
                )
            ),
        ),
        ("missing file", lambda: Setup.from_yaml("/nonexistent/setup.yaml")),
    ]
    rejected(bads, res, "Setup")


# ------------------------------------------------------------------ blocks
class BlockWorld:
    _cache = {}

    def __init__(self, fam, kind, frame, reset):
        self.fam = fam
        self.code, self.mod = FAM[fam]
        key = fam
        if key not in self._cache:
            dx, dz = (2, 3) if self.code == "rot" else (2, 2)
            a = make_layout(self.code, dx, dz)
            b = make_layout(self.code, dx, dz, 1)
            n = make_layout(self.code, dx, dz, 2)
            g = gates_module(self.code)
            # 'n' has no gates prepared
            g.set_trans_cnot(a, b)
            for l in (a, b):
                g.set_trans_s(l, corners(l)[0])
                if self.code == "unrot":
                    g.set_trans_h(l, corners(l)[0])
            self._cache[key] = (a, b, n)
        self.a, self.b, self.n = self._cache[key]
        self.L = (self.a, self.b, self.n)
        self.model = make_model(kind, qubit_inds(*self.L))
        self.model.new_circuit()
        self.det = make_detectors(self.L, frame)
        self.active = set()
        self.kw = {} if fam == "google" else dict(anc_reset=reset)

    def init(self, l, rot=False, bits=None):
        c = self.mod.init_qubits(
            self.model,
            l,
            self.det,
            bits or {"D1": 1} if l is self.a else {},
            rot_basis=rot,
        )
        self.active.add(l.get_logical_qubits()[0])
        return c

    def up(self, l):
        return l.get_logical_qubits()[0] in self.active

    def qec(self, **kw):
        ls = [l for l in self.L if self.up(l)]
        if self.fam == "google":
            return self.mod.qec_round(self.model, ls[0], self.det, **kw)
        return merge_qec_rounds(
            self.mod.qec_round_iterator, self.model, ls, self.det, **self.kw, **kw
        )

    def meas(self, l, **kw):
        f = (
            self.mod.qec_round_with_log_meas
            if self.fam == "google"
            else self.mod.log_meas
        )
        c = f(self.model, l, self.det, **self.kw, **kw)
        self.active.discard(l.get_logical_qubits()[0])
        return c

    def probe(self):
        out = []
        if not self.up(self.a):
            out.append(obs(self.init(self.a)))
        out.append(obs(self.qec()))
        out.append(obs(self.meas(self.a)))
        out.append(obs(self.init(self.a)))
        out.append(obs(self.qec()))
        return Pack(out)


class Pack:
    def __init__(self, l):
        self.l = l

    def __eq__(self, o):
        return len(self.l) == len(o.l) and all(same(a, b) for a, b in zip(self.l, o.l))

    def __repr__(self):
        return repr(self.l)


def block_ops(fam):
    up_a = lambda w: w.up(w.a)
    one = fam == "google"
    ops = [
        Op("init(a)", lambda w: w.init(w.a), lambda w: not w.up(w.a)),
        Op("qec", lambda w: w.qec(), lambda w: bool(w.active)),
        Op("log_meas(a)", lambda w: w.meas(w.a), up_a),
        Op("log_x(a)", lambda w: w.mod.log_x(w.model, w.a, w.det), up_a),
    ]
    if not one:
        ops.append(Op("init(b)", lambda w: w.init(w.b, True), lambda w: not w.up(w.b)))
    if fam in ("css", "css_pip", "unrot"):
        ops.append(Op("S(a)", lambda w: w.mod.log_trans_s(w.model, w.a, w.det), up_a))
        ops.append(
            Op(
                "CNOT(a,b)",
                lambda w: w.mod.log_trans_cnot(w.model, w.a, w.b, w.det),
                lambda w: w.up(w.a) and w.up(w.b),
            )
        )
    if fam == "unrot":
        ops.append(Op("H(a)", lambda w: w.mod.log_trans_h(w.model, w.a, w.det), up_a))
    return ops


def block_bad(fam):
    out = []

    def add(name, fn, ok=None):
        out.append(Op(name, fn, ok))

    any_up = lambda w: bool(w.active)
    up_a = lambda w: w.up(w.a)
    A = lambda w: w.a.get_qubits(role="anc")
    for nm, lab in (
        ("unknown", lambda w: ["Q9"]),
        ("known,unknown", lambda w: [*A(w), "Q9"]),
        ("data", lambda w: ["D1"]),
        ("unknown first", lambda w: ["Q9", A(w)[0]]),
    ):
        add(f"qec({nm})", lambda w, lab=lab: w.qec(anc_detectors=lab(w)), any_up)
        if fam != "google":
            add(
                f"qec_round({nm})",
                lambda w, lab=lab: w.mod.qec_round(
                    w.model, w.a, w.det, anc_detectors=lab(w), **w.kw
                ),
                up_a,
            )
            add(
                f"merge_log_meas({nm})",
                lambda w, lab=lab: merge_log_meas(
                    w.mod.log_meas_iterator,
                    w.model,
                    [w.a],
                    w.det,
                    [False],
                    anc_detectors=lab(w),
                ),
                up_a,
            )
        add(
            f"log_meas({nm})",
            lambda w, lab=lab: w.meas(w.a, anc_detectors=lab(w)),
            up_a,
        )
    add(
        "qec(other layout)",
        lambda w: w.mod.qec_round(w.model, w.a, w.det, anc_detectors=["X401"], **w.kw),
        up_a,
    )
    for rot in (False, True):
        add(f"init twice({rot})", lambda w, rot=rot: w.init(w.a, rot), up_a)
        add(
            f"log_meas(inactive,{rot})",
            lambda w, rot=rot: w.meas(w.n, rot_basis=rot),
        )
        add(
            f"log_meas(a inactive,{rot})",
            lambda w, rot=rot: w.meas(w.a, rot_basis=rot),
            lambda w: not w.up(w.a),
        )
        add(
            f"init(unknown data qubit,{rot})",
            lambda w, rot=rot: w.mod.init_qubits(
                w.model, w.n, w.det, {"D401": 1, "Q9": 1}, rot_basis=rot
            ),
        )
    # models that cannot build the circuit, at the beginning or later
    broken = dict(
        none=lambda w: NoiselessModel({"Q9": 0}),
        part=lambda w: NoiselessModel(
            {q: i for q, i in qubit_inds(*w.L).items() if q not in ("D1", "D201")}
        ),
        single=lambda w: CircuitNoiseModel(
            Setup(dict(setup=[dict(sq_error_prob=0.1)])), qubit_inds(*w.L)
        ),
        double=lambda w: CircuitNoiseModel(
            Setup(dict(setup=[dict(tq_error_prob=0.1)])), qubit_inds(*w.L)
        ),
    )
    both = lambda w: w.up(w.a) and w.up(w.b)
    for nm, mk in broken.items():
        one = lambda f, mk=mk: (lambda w: getattr(w.mod, f)(mk(w), w.a, w.det))
        if nm != "single":
            add(
                f"init({nm})",
                lambda w, mk=mk: w.mod.init_qubits(mk(w), w.a, w.det, {"D1": 1}),
                lambda w: not w.up(w.a),
            )
            add(f"log_x({nm})", one("log_x"), up_a)
        add(f"qec_round({nm})", one("qec_round"), up_a)
        if fam != "google":
            add(f"log_meas({nm})", one("log_meas"), up_a)
            add(
                f"merge_qec({nm})",
                lambda w, mk=mk: merge_qec_rounds(
                    w.mod.qec_round_iterator, mk(w), [w.a], w.det
                ),
                up_a,
            )
            add(
                f"merge_log_meas({nm})",
                lambda w, mk=mk: merge_log_meas(
                    w.mod.log_meas_iterator, mk(w), [w.a], w.det, [False]
                ),
                up_a,
            )
        else:
            add(f"log_meas({nm})", one("qec_round_with_log_meas"), up_a)
        if fam in ("css", "css_pip", "unrot"):
            add(f"S({nm})", one("log_trans_s"), up_a)
            add(
                f"CNOT({nm})",
                lambda w, mk=mk: w.mod.log_trans_cnot(mk(w), w.a, w.b, w.det),
                both,
            )
        if fam == "unrot":
            add(f"H({nm})", one("log_trans_h"), up_a)
    if fam in ("css", "css_pip", "unrot"):
        m = lambda w: w.mod
        add("S(unprepared)", lambda w: m(w).log_trans_s(w.model, w.n, w.det))
        add(
            "CNOT(a,unprepared)",
            lambda w: m(w).log_trans_cnot(w.model, w.a, w.n, w.det),
        )
        add(
            "CNOT(unprepared,a)",
            lambda w: m(w).log_trans_cnot(w.model, w.n, w.a, w.det),
        )
        add("CNOT(b,a)", lambda w: m(w).log_trans_cnot(w.model, w.b, w.a, w.det))
    if fam == "unrot":
        add("H(unprepared)", lambda w: w.mod.log_trans_h(w.model, w.n, w.det))
    if fam != "google":
        it = lambda w: w.mod.qec_round_iterator
        lm = lambda w: w.mod.log_meas_iterator
        for nm, ls in (
            ("layout", lambda w: w.a),
            ("set", lambda w: {w.a}),
            ("dict", lambda w: [w.a.to_dict()]),
            ("mixed", lambda w: [w.a, "b"]),
        ):
            add(
                f"merge_qec({nm})",
                lambda w, ls=ls: merge_qec_rounds(it(w), w.model, ls(w), w.det),
            )
            add(
                f"merge_log_meas({nm})",
                lambda w, ls=ls: merge_log_meas(lm(w), w.model, ls(w), w.det, [False]),
            )
        add(
            "merge_qec(iterator)",
            lambda w: merge_qec_rounds("qec", w.model, [w.a], w.det),
        )
        add(
            "merge_log_meas(iterator)",
            lambda w: merge_log_meas(None, w.model, [w.a], w.det, [False]),
        )
        for bases in ([], [False, True], False, {0: False}):
            add(
                f"merge_log_meas({bases})",
                lambda w, bases=bases: merge_log_meas(
                    lm(w), w.model, [w.a], w.det, bases
                ),
            )
    return out


BLOCK_ROOTS = [
    (),
    ("init(a)", "init(b)", "qec"),
    ("init(a)", "init(b)", "qec", "CNOT(a,b)", "S(a)"),
]


def block_case(fam, kind, frame, reset, depth, singly, res, root=0):
    ops, bad = block_ops(fam), block_bad(fam)
    by = {o.name: o for o in ops}
    start = [by[n] for n in BLOCK_ROOTS[root] if n in by]

    def make():
        w = BlockWorld(fam, kind, frame, reset)
        for o in start:
            o.fn(w)
        return w

    for h in hists(len(ops), depth):
        compare(make, [ops[i] for i in h], bad, res, f"blocks({fam})", singly)


def block_containers(fam, kind, frame, res):
    """anc_detectors and data_init given as any collection."""

    def one(mk):
        w = BlockWorld(fam, kind, frame, True)
        l = w.a
        sel = l.get_qubits(role="anc")[::2]
        out = [w.init(l), w.qec(anc_detectors=mk(sel)), w.qec(anc_detectors=mk(sel))]
        out.append(w.meas(l, anc_detectors=mk(sel)))
        return [obs(c) for c in out]

    ref = one(list)
    for kn, k in KINDS.items():
        res.count("evaluations", 4)
        try:
            got = one(k)
        except Exception as e:
            res.fail(f"container:blocks:{fam}:{kn}", f"{type(e).__name__}: {e}")
            continue
        res.expect(
            all(same(a, b) for a, b in zip(ref, got)),
            f"container:blocks:{fam}:{kn}",
            f"{fam}: anc_detectors given as {kn} gives another circuit",
        )


# ------------------------------------------------------------------ cases
def cases(tier):
    t = tier == "thorough"
    out = []
    for frame in ("post-gate", "pre-gate", "gate-independent"):
        for reset in (True, False):
            for root in ROOTS:
                for k in range(len(DETOPS)):
                    out.append(("det", frame, reset, root, k, 4 if t else 3, False))
                if t:
                    for k in range(len(DETOPS)):
                        out.append(("det", frame, reset, root, k, 2, True))
                else:
                    out += [
                        ("det", frame, reset, root, k, 1, True)
                        for k in range(len(DETOPS))
                    ]
            out.append(("det_cont", frame, reset, 3 if t else 2))
    out.append(("det_ctor",))
    for kind in chan.KINDS:
        out.append(("model", kind, 4 if t else 3, False))
        out.append(("model", kind, 2 if t else 1, True))
        out.append(("model_cont", kind))
    for code, dx, dz in (
        ("rot", 2, 2),
        ("rot", 2, 3),
        ("unrot", 2, 2),
        ("unrot", 2, 3),
    ) + ((("rot", 3, 4), ("unrot", 3, 3)) if t else ()):
        out.append(("layout", code, dx, dz, 2, False))
        out.append(("layout", code, dx, dz, 1, True))
        out.append(("layout_cont", code, dx, dz))
    out += [("layout_ctor", "rot"), ("layout_ctor", "unrot")]
    out += [("setup", 4 if t else 3, False), ("setup", 2, True), ("setup_ctor",)]
    for fam in FAM:
        for kind in (
            ("noiseless", "circuit")
            if not t
            else (
                "noiseless",
                "circuit",
                "biased",
                "incoming",
                "phenom",
            )
        ):
            for frame in ("post-gate", "pre-gate"):
                for reset in (True, False):
                    if fam == "google" and not reset:
                        continue
                    if not t and kind == "circuit" and frame == "pre-gate":
                        continue
                    out.append(("block", fam, kind, frame, reset, 3 if t else 2, False))
                out.append(("block_cont", fam, kind, frame))
        out.append(("block", fam, "noiseless", "post-gate", True, 1, True))
        for root in range(1, len(BLOCK_ROOTS)):
            if root == 2 and "xzzx" in fam or fam == "google" and root == 2:
                continue
            for frame in ("post-gate", "pre-gate"):
                out.append(("block", fam, "noiseless", frame, True, int(t), True, root))
                out.append(("block", fam, "circuit", frame, True, 1, False, root))
    return out


def run_case(case, res, tier):
    f = dict(
        det=det_case,
        det_cont=det_containers,
        det_ctor=det_ctor,
        model=model_case,
        model_cont=model_containers,
        layout=layout_case,
        layout_cont=layout_containers,
        layout_ctor=layout_ctor,
        setup=setup_case,
        setup_ctor=setup_ctor,
        block=block_case,
        block_cont=block_containers,
    )[case[0]]
    if case[0] == "block" and len(case) == 8:
        return block_case(*case[1:7], res, case[7])
    f(*case[1:], res)
