"""Exploration of call histories of the experiment functions.  (1) Structure: every
experiment x family x size x basis x reset policy x frame x numbers of rounds and gates x
orientation x initial bitstrings is compared with the documented sequence of building
blocks, composed here with new objects, and with counts read from the circuit itself
(measurements of every ancilla and data qubit, two-qubit gates between the layouts in the
prescribed direction, initial values).  (2) Histories: all sequences up to a length over an
alphabet of experiment calls, interrupted programs and rejected calls on the same model,
layout and detector objects; the circuit of every call must be the one obtained with new
objects and no argument may change.  (3) Inadmissible counts are rejected."""

from copy import copy, deepcopy
from itertools import product

from surface_sim.util import merge_circuits, merge_log_meas, merge_qec_rounds

from .exper import EXPS, Setting
from .lib import Canon, corners, diff_canon, gates_module, inv_names, make_model

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the building blocks themselves are decided by C01, C02, C04 and C14",
]


def counts_of(exp, fam, t):
    if exp == "mem":
        c = [(n,) for n in range(0, 6 if t else 5)]
        return c[1:] if fam == "google" else c
    g = range(0, 6, 2) if exp == "s" else range(0, 5)
    return [(n, r) for n in g for r in range(0, 4 if t else 3)]


def sizes_of(exp, fam, t):
    if exp == "mem":
        s = [(2, 2), (2, 3), (3, 3)]
        return s + ([(3, 5), (4, 4)] if t else [])
    if exp == "s":
        s = [(2, 3), (3, 4)] if fam != "unrot" else [(2, 2), (3, 3)]
    elif exp == "h":
        s = [(2, 2), (3, 3)]
    else:
        s = [(2, 2), (2, 3)]
    return s if t else s[:1]


def cases(tier):
    t = tier == "thorough"
    out = []
    for exp, fam in EXPS:
        for dx, dz in sizes_of(exp, fam, t):
            for rot in (False, True):
                for reset in (True, False):
                    if fam == "google" and not reset:
                        continue
                    out.append(("structure", exp, fam, dx, dz, rot, reset, None))
        # many rounds and gates, large codes
        small, large = ((2, 3), (5, 6)) if exp in ("mem", "s") else ((2, 2), (4, 4))
        if fam == "unrot" and exp == "s":
            small, large = (2, 2), (4, 4)
        many = (
            [(13,), (32,)]
            if exp == "mem"
            else [(12, 1), (2, 11), (6, 2), (4, 3), (4, 5)]
        )
        few = [(1,), (2,)] if exp == "mem" else [(2, 1)]
        for rot in (False, True):
            for reset in (True, False):
                if fam == "google" and not reset:
                    continue
                for c in many:
                    out.append(("structure", exp, fam, *small, rot, reset, (c,)))
                out.append(("structure", exp, fam, *large, rot, reset, tuple(few)))
        out.append(("counts", exp, fam))
        out.append(("bits", exp, fam))
    for fam in ("css", "css_pip", "xzzx", "xzzx_pip", "google", "unrot"):
        for model in ("circuit", "noiseless", "biased", "incoming", "phenom"):
            for frame in ("post-gate", "pre-gate"):
                out.append(("history", fam, model, frame, 3 if t else 2))
    return out


# ------------------------------------------------------------------ structure
def reference(s, model, det, counts, init, rot, reset, orientation="alternating"):
    """The documented sequence, composed from the building blocks."""
    mod, L = s.mod, s.layouts
    model.new_circuit()
    det.new_circuit()
    kw = {} if s.fam == "google" else dict(anc_reset=reset)
    parts = [mod.qubit_coords(model, *L)]
    inits = []
    for l in L:
        qs = set(l.get_qubits(role="data"))
        inits.append(
            mod.init_qubits(
                model, l, det, {q: v for q, v in init.items() if q in qs}, rot_basis=rot
            )
        )
    parts.append(inits[0] if len(L) == 1 else merge_circuits(*inits))

    def qec():
        if len(L) == 1:
            parts.append(mod.qec_round(model, L[0], det, **kw))
        else:
            parts.append(merge_qec_rounds(mod.qec_round_iterator, model, L, det, **kw))

    mrot = rot
    if s.exp == "mem":
        for _ in range(counts[0] - (s.fam == "google")):
            qec()
    else:
        qec()
        for k in range(counts[0]):
            if s.exp == "s":
                parts.append(mod.log_trans_s(model, L[0], det))
            elif s.exp == "h":
                parts.append(mod.log_trans_h(model, L[0], det))
                mrot = not mrot
            else:
                flip = orientation == "alternating" and k % 2
                c, t = (L[1], L[0]) if flip else (L[0], L[1])
                parts.append(mod.log_trans_cnot(model, c, t, det))
            for _ in range(counts[1]):
                qec()
    if s.fam == "google":
        parts.append(mod.qec_round_with_log_meas(model, L[0], det, rot_basis=mrot))
    elif len(L) == 1:
        parts.append(mod.log_meas(model, L[0], det, rot_basis=mrot, **kw))
    else:
        parts.append(
            merge_log_meas(
                mod.log_meas_iterator, model, L, det, rot_bases=[mrot, mrot], **kw
            )
        )
    c = parts[0]
    for p in parts[1:]:
        c = c + p
    return c


def differ(a, b):
    """First difference between two canonical circuits including all orders."""
    e = diff_canon(a, b)
    if e:
        return e
    if a.meas != b.meas:
        return "order of the measurements"
    if a.dets != b.dets:
        return "order of the detectors"
    if a.coords != b.coords:
        return f"coordinates {a.coords} != {b.coords}"
    return None


def rounds_of(exp, counts):
    return counts[0] if exp == "mem" else 1 + counts[0] * counts[1]


def direct(s, c, counts, orientation):
    """Counts read from the circuit."""
    n = rounds_of(s.exp, counts)
    per = {}
    for q, _ in c.meas:
        per[q] = per.get(q, 0) + 1
    for a in s.anc:
        if per.get(a, 0) != n:
            return f"ancilla {a} measured {per.get(a, 0)} times in {n} rounds"
    for q in s.data:
        if per.get(q, 0) != 1:
            return f"data qubit {q} measured {per.get(q, 0)} times"
    if [q for q, _ in c.meas][n * len(s.anc) :] and set(
        q for q, _ in c.meas[n * len(s.anc) :]
    ) != set(s.data):
        return "data qubits are not measured last"
    for l in s.layouts:
        for q, xy in l.qubit_coords().items():
            if c.coords.get(q) != [tuple(xy)]:
                return f"coordinates of {q}: {c.coords.get(q)} instead of {xy}"
    if set(c.obs) != set(range(len(s.layouts))):
        return f"observables {sorted(c.obs)}"
    if s.exp == "cnot":
        own = [set(l.get_qubits(role="data")) for l in s.layouts]
        seq = []
        for lay in c.layers:
            dirs = {
                0 if e[2][0] in own[0] else 1
                for ents in lay.values()
                for e in ents
                if e[0] in ("CX", "CNOT", "ZCX")
                and all(q in own[0] | own[1] for q in e[2])
            }
            if len(dirs) > 1:
                return "CNOTs in both directions in one step"
            seq += list(dirs)
        want = [k % 2 if orientation == "alternating" else 0 for k in range(counts[0])]
        if seq != want:
            return f"CNOT directions {seq} instead of {want}"
    return None


def run_structure(case, res, tier):
    _, exp, fam, dx, dz, rot, reset, special = case
    s = Setting(exp, fam, dx, dz)
    names = inv_names(s.inds)
    init = {q: (i * 5 // 3) % 2 for i, q in enumerate(s.data)}
    frames = ("post-gate", "pre-gate", "gate-independent")
    if len(s.anc) > 16:
        frames = frames[:1]
    for frame in frames:
        for counts in special or counts_of(exp, fam, tier == "thorough"):
            for ori in ("alternating", "constant") if exp == "cnot" else (None,):
                if frame == "gate-independent" and sum(counts) > 3:
                    continue
                kw = {} if ori is None else dict(cnot_orientation=ori)
                key = f"{case}:{frame}:{counts}:{ori}"
                m, d = s.model("circuit"), s.detectors(frame)
                got = Canon(s.call(m, d, counts, dict(init), rot, reset, **kw), names)
                ref = Canon(
                    reference(
                        s,
                        s.model("circuit"),
                        s.detectors(frame),
                        counts,
                        init,
                        rot,
                        reset,
                        ori,
                    ),
                    names,
                )
                res.count("states")
                res.count("transitions", 2 + sum(counts))
                res.count("traces_validated_against_impl")
                e = differ(got, ref) or direct(s, got, counts, ori)
                if e:
                    res.fail(key, f"{key}: {e}")
                    return
                # documented defaults
                if not rot and reset and ori in (None, "alternating"):
                    c2 = s.call(m, d, counts, dict(init), None, None)
                    e = differ(Canon(c2, names), ref)
                    if e:
                        res.fail(key + ":defaults", f"{key} with defaults: {e}")
                        return
    res.sample(dict(config=str(case)))


# ------------------------------------------------------------------ initial values
def run_bits(case, res):
    """All initial bitstrings (of up to 9 data qubits): reset and flips of the first
    steps prepare the requested value of every qubit."""
    _, exp, fam = case
    size = (2, 3) if fam != "unrot" else (2, 2)
    s = Setting(exp, fam, *size)
    names = inv_names(s.inds)
    data = s.data
    counts = (1,) if exp == "mem" else (0, 0)
    n = len(data)
    words = range(2**n) if n <= 6 else [2**i for i in range(n)] + [0, 2**n - 1, 0b1011]
    for x in words:
        bits = {q: x >> i & 1 for i, q in enumerate(data)}
        for rot in (False, True):
            for init in (bits, {q: v for q, v in reversed(bits.items()) if v}):
                before = dict(init)
                c = s.call(s.model("noiseless"), s.detectors(), counts, init, rot)
                res.count("states")
                res.count("transitions")
                res.count("traces_validated_against_impl")
                if init != before:
                    return res.fail(f"{case}:{x}", f"{case}: data_init was modified")
                e = prepared(s, c, bits, rot, names)
                if e:
                    return res.fail(
                        f"{case}:{x}:{rot}", f"{case} {bits} rot={rot}: {e}"
                    )
    # values and flags of other types with the same truth value
    import numpy as np

    bits = {q: int(i % 3 != 0) for i, q in enumerate(data)}
    for rot in (False, True):
        ref = Canon(s.call(s.model("circuit"), s.detectors(), counts, bits, rot), names)
        for kind in (bool, np.bool_, np.int64, np.int8):
            for flag in (bool, np.bool_, int):
                init = {q: kind(v) for q, v in bits.items()}
                c = s.call(s.model("circuit"), s.detectors(), counts, init, flag(rot))
                res.count("states")
                res.count("transitions")
                res.count("traces_validated_against_impl")
                e = differ(Canon(c, names), ref)
                if e:
                    key = f"{case}:{kind.__name__}:{flag.__name__}:{rot}"
                    return res.fail(key, f"{key}: {e}")
    res.sample(dict(config=str(case), bitstrings=len(words)))


def prepared(s, circ, bits, rot, names):
    """Simulates the circuit up to the first interaction and compares the state of every
    data qubit with the requested one."""
    import stim

    sim = stim.TableauSimulator()
    inds = s.inds
    from .lib import rotated_data

    swapped = set()
    for l in s.layouts:
        swapped |= rotated_data(l, s.fam)
    started = set()
    state = {}
    for ins in circ.flattened():
        if ins.name in ("CX", "CZ", "CNOT"):
            break
        if ins.name in ("R", "RX", "RY", "H", "X", "Y", "Z", "S", "S_DAG", "H_YZ"):
            c = stim.Circuit()
            c.append(ins)
            sim.do(c)
            started |= {names[t.value] for t in ins.targets_copy()}
        if ins.name == "TICK":
            now = {}
            for q, v in bits.items():
                now[q] = all_vals(sim, inds[q])
            # the requested product state must be reached at the end of a time step
            ok = True
            for q, v in bits.items():
                basis = "X" if (rot != (q in swapped)) else "Z"
                if now[q].get(basis) != v or q not in started:
                    ok = False
            if ok:
                return None
            state = now
    return f"the requested state is not prepared before the first interaction: {state}"


def all_vals(sim, i):
    out = {}
    for b, f in (("X", sim.peek_x), ("Z", sim.peek_z)):
        v = f(i)
        if v:
            out[b] = (1 - v) // 2
    return out


# ------------------------------------------------------------------ counts
def run_counts(case, res):
    _, exp, fam = case
    size = (2, 3) if fam != "unrot" else (2, 2)
    s = Setting(exp, fam, *size)
    names = inv_names(s.inds)
    good = [(1,), (2,)] if exp == "mem" else [(0, 0), (2, 1)]
    bad_n = [-1, -2, 1.0, 0.5, "1", None, [1]]
    bad = []
    if exp == "mem":
        bad = [(b,) for b in bad_n] + ([(0,)] if fam == "google" else [])
    else:
        bad = [(b, 1) for b in bad_n] + [(2, b) for b in bad_n]
        bad += [(b, b) for b in bad_n[:3]] + [(0, -1)]
        if exp == "s":
            bad += [(1, 0), (1, 1), (3, 2), (-1, 0), (5, 1)]
    m, d = s.model(), s.detectors()
    fresh = [Canon(s.call(s.model(), s.detectors(), c), names) for c in good]
    for b in bad:
        res.count("states")
        res.count("transitions")
        try:
            s.call(m, d, b)
        except Exception:
            pass
        else:
            res.fail(f"{case}:{b}", f"{case}: counts {b} are accepted")
            return
        for c, f in zip(good, fresh):
            res.count("traces_validated_against_impl")
            e = differ(Canon(s.call(m, d, c), names), f)
            if e:
                return res.fail(
                    f"{case}:{b}:{c}", f"{case}: {c} after rejected {b}: {e}"
                )
    if exp == "cnot":
        for o in ("", "other", None, "Alternating"):
            try:
                s.call(m, d, (1, 1), cnot_orientation=o)
            except Exception:
                continue
            res.fail(f"{case}:{o}", f"{case}: orientation {o!r} is accepted")
    res.sample(dict(config=str(case), rejected=len(bad)))


# ------------------------------------------------------------------ histories
class Objects:
    """The objects that the calls of a history share."""

    def __init__(self, fam, model, frame):
        self.fam = fam
        exp = "cnot" if fam in ("css", "unrot") else "mem"
        size = (2, 3) if fam != "unrot" else (2, 2)
        self.settings = {}
        base = Setting(exp, fam, *size)
        g = gates_module(base.code)
        for l in base.layouts:
            if fam in ("css", "css_pip", "unrot"):
                g.set_trans_s(l, corners(l)[0])
            if fam == "unrot":
                g.set_trans_h(l, corners(l)[0])
        self.base = base
        self.layouts = base.layouts
        self.m = make_model(model, dict(base.inds))
        self.d = base.detectors(frame)
        self.init = {q: (i + 1) % 2 for i, q in enumerate(base.data)}
        self.init1 = {
            q: v
            for q, v in self.init.items()
            if q in set(self.layouts[0].get_qubits(role="data"))
        }
        self.anc = list(self.layouts[0].get_qubits(role="anc"))
        self.names = inv_names(base.inds)

    def frozen(self):
        return (
            [deepcopy(l.to_dict()) for l in self.layouts],
            dict(self.init),
            dict(self.init1),
            list(self.anc),
        )

    def exp(self, kind):
        if kind not in self.settings:
            s = copy(self.base)
            s.exp = kind
            s.layouts = self.layouts if kind == "cnot" else self.layouts[:1]
            self.settings[kind] = s
        return self.settings[kind]

    def run(self, op):
        """Executes one operation of the alphabet; returns the canonical circuit of a
        complete experiment and None otherwise."""
        mod, m, d = self.base.mod, self.m, self.d
        L = self.layouts[0]
        if op[0] == "call":
            _, kind, counts, rot, reset, sel, gauge = op
            s = self.exp(kind)
            kw = dict(gauge_detectors=gauge)
            if sel:
                kw["anc_detectors"] = self.anc if sel == "all" else self.anc[:2]
            init = self.init if kind == "cnot" else self.init1
            c = s.call(m, d, counts, init, rot, reset, **kw)
            return Canon(c, self.names)
        if op[0] == "part":
            # an interrupted program
            m.new_circuit()
            d.new_circuit()
            kw = {} if self.fam == "google" else dict(anc_reset=False)
            mod.init_qubits(m, L, d, self.init1, rot_basis=True)
            if op[1] >= 1:
                mod.qec_round(m, L, d, **kw)
            if op[1] >= 2:
                if "cnot" in op[2]:
                    mod.init_qubits(m, self.layouts[1], d, {}, rot_basis=False)
                    mod.log_trans_cnot(m, L, self.layouts[1], d)
                elif "s" in op[2]:
                    mod.log_trans_s(m, L, d)
            if op[1] >= 3 and "cnot" in op[2]:
                merge_qec_rounds(mod.qec_round_iterator, m, self.layouts, d, **kw)
            elif op[1] >= 3:
                mod.qec_round(m, L, d, **kw)
            return None
        if op[0] == "bad":
            s = self.exp("mem")
            kws = dict(
                counts=dict(counts=(-1,)),
                sel=dict(counts=(2,), anc_detectors=["nope"]),
                init=dict(counts=(2,), init=3),
            )[op[1]]
            c = kws.pop("counts")
            i = kws.pop("init", self.init1)
            try:
                s.call(m, d, c, i, True, True, **kws)
            except Exception:
                return None
            raise AssertionError(f"rejected call {op} succeeds")
        raise ValueError(op)


def alphabet(fam):
    T, F = True, False
    out = [
        ("call", "mem", (2,), F, T, None, T),
        ("call", "mem", (1,), T, F, "two", F),
        ("call", "mem", (3,), T, T, "all", T),
    ]
    if fam != "google":
        out.append(("call", "mem", (0,), F, F, None, T))
    gates = ()
    if fam in ("css", "css_pip", "unrot"):
        out += [
            ("call", "s", (2, 1), F, T, None, T),
            ("call", "s", (2, 0), T, F, None, F),
        ]
        gates = ("s",)
    if fam == "unrot":
        out += [
            ("call", "h", (1, 1), F, T, None, F),
            ("call", "h", (3, 0), T, F, None, T),
        ]
    if fam in ("css", "unrot"):
        out += [
            ("call", "cnot", (1, 1), F, T, None, F),
            ("call", "cnot", (3, 0), T, F, "two", T),
        ]
        gates = ("cnot",)
    out += [("part", n, gates) for n in range(4)]
    out += [("bad", "counts"), ("bad", "sel"), ("bad", "init")]
    return out


def run_history(case, res, tier):
    _, fam, model, frame, depth = case
    al = alphabet(fam)
    calls = [a for a in al if a[0] == "call"]
    fresh = {c: Objects(fam, model, frame).run(c) for c in calls}

    for hist in product(*([al] * (depth - 1)), calls):
        obj = Objects(fam, model, frame)
        before = obj.frozen()
        for i, op in enumerate(hist):
            got = obj.run(op)
            res.count("transitions")
            if op[0] == "call":
                e = differ(got, fresh[op])
                if e:
                    res.fail(
                        f"{case}:{hist[:i + 1]}",
                        f"{case}: {op} after {hist[:i]} differs from a new run: {e}",
                    )
                    return
        res.count("states")
        res.count("traces_validated_against_impl")
        if obj.frozen() != before:
            res.fail(f"{case}:{hist}", f"{case} {hist}: the arguments are changed")
            return
    res.sample(dict(config=str(case), alphabet=len(al), depth=depth))


def run_case(case, res, tier):
    if case[0] == "structure":
        run_structure(case, res, tier)
    elif case[0] == "counts":
        run_counts(case, res)
    elif case[0] == "bits":
        run_bits(case, res)
    else:
        run_history(case, res, tier)
