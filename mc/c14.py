"""Exhaustive exploration of merges.  (1) All tuples of small circuits over a complete
alphabet of time steps: merge_circuits must accept exactly the tuples with equal numbers of
time steps and aligned measurements and leave each circuit as it is.  (2) Block families x
sets of two and three layouts of equal and different sizes x noise models with parameters
that differ for every qubit and pair x frames x reset policies x all bases of
initialisation and read-out x all orders of the layouts: in the merged program (initialise,
rounds, read-out) every layout must undergo, time step by time step, the operations and
channels of its program alone, with its detectors and observable referring to its outcomes;
layouts with a shorter read-out idle before it; layouts with
several logical qubits are run against their blocks.  (3) All pairs of logical gate blocks."""

from itertools import permutations, product

import stim

from surface_sim import Layout, Setup
from surface_sim.util import merge_circuits, merge_log_meas, merge_qec_rounds

from .lib import (
    FAM,
    Canon,
    ancs,
    corners,
    gates_module,
    interleaved,
    inv_names,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
)

LEVEL = "exploration"
RULE = (
    "one evaluation = one merge compared with its parts (or a rejection checked); "
    "non-trivial = merges of at least two circuits with operations"
)

# layouts (lists of blocks) with several logical qubits
GROUPS = [
    ((0, 1), (2,)),
    ((0,), (1, 2)),
    ((0, 1), (2, 3)),
    ((2, 0, 1), (3,)),
    ((0,), (1, 2, 3)),
    ((0, 1),),
    ((0, 1), (2,), (3, 4)),
]

# ------------------------------------------------------------------ (1) circuits
STEPS = {
    "h": "H {q}",
    "-": "",
    "n": "DEPOLARIZE1(0.0123456789) {q}\nS {q}\nZ_ERROR(0.25) {q}",
    "m": "M {q}",
    "k": "X_ERROR(0.125) {q}\nMX(0.0625) {q}\nZ_ERROR(0.5) {q}",
    "r": "MR {q}",
    "y": "MRX {q}",
}
MEASURING = set("mkry")


def text(word, q):
    return "\nTICK\n".join(STEPS[c].format(q=q) for c in word)


def legal(words):
    if len({len(w) for w in words}) != 1:
        return False
    pos = [[i for i, c in enumerate(w) if c in MEASURING] for w in words]
    if any(len(p) > 1 for p in pos):
        return False
    return len({p[0] for p in pos if p}) <= 1


def words(n, alphabet):
    return ["".join(w) for k in range(1, n + 1) for w in product(alphabet, repeat=k)]


def cases(tier):
    out = []
    al = "h-nmkr" if tier == "quick" else "h-nmkry"
    for w in words(3, al):
        out.append(("pairs", w, al, 3))
    for w in words(2, "hnmk"):
        out.append(("triples", w, "hnmk", 2))
    out.append(("repeat",))
    out += [("gates", k) for k in range(4)]
    sets2 = [((2, 2), (2, 2)), ((2, 2), (2, 3)), ((3, 2), (2, 3)), ((3, 3), (2, 2))]
    sets3 = [((2, 2), (2, 3), (3, 2))]
    for fam in ("css", "css_pip", "xzzx", "xzzx_pip", "unrot"):
        for sizes in sets2 + sets3:
            for model in ("circuit", "biased", "phenom", "incoming", "noiseless"):
                for frame in ("post-gate", "pre-gate", "gate-independent"):
                    for reset in (True, False):
                        main = model == "circuit" and frame == "post-gate"
                        if tier == "quick" and not main:
                            if len(sizes) == 3:
                                continue
                            if model != "circuit" and (
                                frame != "post-gate" or sizes[0] == (3, 3)
                            ):
                                continue
                            if frame == "gate-independent" and sizes[0] == (3, 3):
                                continue
                        for first in range(2):
                            out.append(("prog", fam, sizes, model, frame, reset, first))
        for model in ("circuit", "noiseless"):
            out.append(("blocks", fam, model))
        for groups in GROUPS:
            for model in ("circuit", "incoming"):
                out.append(("several", fam, groups, model))
    return out


def run_case(case, res, tier):
    if case[0] == "pairs":
        for w in words(case[3], case[2]):
            if not one_merge(case, (case[1], w), res):
                return
    elif case[0] == "triples":
        for w in product(words(case[3], case[2]), repeat=2):
            if not one_merge(case, (case[1],) + w, res):
                return
    elif case[0] == "repeat":
        run_repeat(res)
    elif case[0] == "gates":
        run_gates(case[1], res)
    elif case[0] == "prog":
        run_prog(case, res)
    elif case[0] == "several":
        run_several(case, res)
    else:
        run_blocks(case, res)
    res.sample(dict(case=str(case)))


def one_merge(case, ws, res):
    circs = [stim.Circuit(text(w, q)) for q, w in enumerate(ws)]
    copies = [c.copy() for c in circs]
    ok = legal(ws)
    res.count("evaluations")
    res.count("distinct_nontrivial", int(any(set(w) - {"-"} for w in ws)))
    try:
        m = merge_circuits(*circs)
    except Exception as e:
        if ok:
            res.fail(f"merge:{ws}", f"merging {ws} raised {type(e).__name__}: {e}")
        return not ok
    if not ok:
        res.fail(f"merge:{ws}", f"merging {ws} was accepted")
        return False
    e = parts(m, circs, range(len(ws)))
    if e is None and circs != copies:
        e = "an argument was changed"
    if e:
        res.fail(f"merge:{ws}", f"merging {ws}: {e}")
        return False
    if len(ws) == 2:
        # without the check of the measurements only the time steps must agree
        m = merge_circuits(*circs, check_meas=False)
        e = parts(m, circs, range(len(ws)))
        if e:
            res.fail(f"merge:{ws}:nocheck", f"merging {ws} without check: {e}")
            return False
    return True


def parts(m, circs, qubits):
    """Compares the merged circuit with the circuits (circuit k acts on qubit k)."""
    c = Canon(m)
    alone = [Canon(x) for x in circs]
    if len(c.layers) != len(alone[0].layers):
        return f"{len(c.layers)} time steps instead of {len(alone[0].layers)}"
    for k, a in enumerate(alone):
        for t, (x, y) in enumerate(zip(c.layers, a.layers)):
            if x.get(k) != y.get(k):
                return f"qubit {k}, step {t}: {x.get(k)} instead of {y.get(k)}"
    if any(set(l) - set(qubits) for l in c.layers):
        return "additional qubits"
    if sorted(c.meas) != sorted(x for a in alone for x in a.meas):
        return f"measurements {c.meas}"
    return None


def run_repeat(res):
    """Loops and repeated instructions count like their unrolled form."""
    a = stim.Circuit("H 0\nREPEAT 2 {\nTICK\nS 0\n}\nTICK\nM 0")
    b = stim.Circuit("H 1\nTICK\nS 1\nTICK\nX 1\nTICK\nM 1")
    s = stim.Circuit("H 1\nTICK\nM 1")
    for x, y in permutations((a, b, s), 2):
        res.count("evaluations")
        res.count("distinct_nontrivial")
        ok = s not in (x, y)
        try:
            m = merge_circuits(x, y)
        except Exception:
            res.expect(not ok, "repeat", "circuits with loops were rejected")
            continue
        res.expect(ok, "repeat", "different numbers of time steps were accepted")
        c = Canon(m)
        for z in (x, y):
            for t, l in enumerate(Canon(z).layers):
                for q, v in l.items():
                    res.expect(
                        len(c.layers) > t and c.layers[t].get(q) == v,
                        "repeat",
                        lambda: f"loop: step {t} is {c.layers}",
                    )


# instructions of stim that act on qubits, without those that herald errors
OUTCOMES = "M MZ MX MY MR MRZ MRX MRY MXX MYY MZZ MPP".split()
SILENT = (
    "I X Y Z C_XYZ C_ZYX H H_XZ H_XY H_YZ S S_DAG SQRT_X SQRT_X_DAG SQRT_Y SQRT_Y_DAG "
    "SQRT_Z SQRT_Z_DAG R RZ RX RY X_ERROR Y_ERROR Z_ERROR DEPOLARIZE1 PAULI_CHANNEL_1 "
    "CX CNOT ZCX CY CZ SWAP ISWAP ISWAP_DAG CXSWAP SWAPCX XCX XCY XCZ YCX YCY YCZ "
    "SQRT_XX SQRT_XX_DAG SQRT_YY SQRT_ZZ DEPOLARIZE2 PAULI_CHANNEL_2 MY! E"
).split()
NARG = dict(PAULI_CHANNEL_1=3, PAULI_CHANNEL_2=15, E=1)
PAIRED = set(SILENT[SILENT.index("CX") :]) | {"MXX", "MYY", "MZZ"}


def gate_text(g, q, step=1):
    """Instruction ``g`` on two qubits (``!``: inverted with noise)."""
    a, b = (2 * q, 2 * q + 1) if step == 1 else (q, q + step)
    n = NARG.get(g, int(g.endswith("_ERROR") or g.startswith("DEPOL")))
    args = "(" + ", ".join(["0.03125"] * n) + ")" if n else ""
    if g == "MY!":
        return f"MY(0.0625) !{b} {a}"
    if g == "MPP":
        return f"MPP X{a}*Z{b} Y{b}"
    if g == "E":
        return f"E{args} X{a} Y{b}"
    return f"{g}{args} {a} {b}"


def mpp_groups(ins):
    out, joined = [], False
    for t in ins.targets_copy():
        if t.is_combiner:
            joined = True
        elif joined:
            out[-1] += (str(t),)
            joined = False
        else:
            out.append((str(t),))
    return out


def gate_layers(circ):
    out = [[]]
    for ins in circ.flattened():
        if ins.name == "TICK":
            out.append([])
            continue
        t = [str(x) for x in ins.targets_copy()]
        if ins.name == "MPP":
            groups = mpp_groups(ins)
        elif ins.name == "E" or ins.name == "CORRELATED_ERROR":
            groups = [tuple(t)]
        elif (
            ins.name in ("MXX", "MYY", "MZZ")
            or stim.gate_data(ins.name).is_two_qubit_gate
        ):
            groups = list(zip(t[::2], t[1::2]))
        else:
            groups = [(x,) for x in t]
        out[-1] += [(ins.name, tuple(ins.gate_args_copy()), g) for g in groups]
    return [sorted(x) for x in out]


def run_gates(part, res):
    """Every pair of instructions of stim, in the same and in different time steps, and
    every measurement twice."""
    gates = OUTCOMES + SILENT
    meas = set(OUTCOMES) | {"MY!"}

    def one(words, step=1):
        texts = [
            "\nTICK\n".join(gate_text(g, q, step) if g else "" for g in w)
            for q, w in enumerate(words)
        ]
        circs = [stim.Circuit(x) for x in texts]
        pos = [[i for i, g in enumerate(w) if g in meas] for w in words]
        ok = all(len(p) < 2 for p in pos) and len({p[0] for p in pos if p}) < 2
        res.count("evaluations")
        res.count("distinct_nontrivial")
        for check in (True, False):
            try:
                m = merge_circuits(*circs, check_meas=check)
            except Exception as e:
                if ok or not check:
                    res.fail(f"gates:{words}", f"{words}: {type(e).__name__}: {e}")
                    return False
                continue
            if check and not ok:
                res.fail(f"gates:{words}", f"merging {words} was accepted")
                return False
            want = [sorted(sum(x, [])) for x in zip(*[gate_layers(c) for c in circs])]
            if gate_layers(m) != want:
                res.fail(f"gates:{words}:{check}", f"{words}: merged into {m!r}")
                return False
        return True

    for g, h in list(product(gates, repeat=2))[part::4]:
        for w in (((g, None), (None, h)), ((g, None), (h, None)), ((g, h), ("X", "H"))):
            if not one(w):
                return
        if not one(((g, "X"), (h, "S")), 3):
            return
        if not one(((None, g, None), (h, None, "Z"), (None, None, g))):
            return


# ------------------------------------------------------------------ (2) programs
def rich_setup(layouts):
    """Parameters that differ for every qubit and every ordered pair."""
    glob = dict(
        sq_error_prob=0.2,
        tq_error_prob=0.21,
        assign_error_flag=True,
        assign_error_prob=0.22,
        biased_factor=3.0,
        biased_pauli="bias",
    )
    blocks = [glob]
    n = 0
    for l in layouts:
        for q in l.get_qubits():
            n += 1
            b = dict(qubit=q, assign_error_flag=n % 3 != 0)
            b["assign_error_prob"] = 0.05 + n * 1.7e-7
            for k, p in enumerate("x z h s sdag reset meas idle".split()):
                b[f"{p}_error_prob"] = 0.001 * (k + 1) + n * 1.3e-7
            if n % 5 == 0:
                b["meas_error_prob"] = 0.0
            blocks.append(b)
            for a in l.get_neighbors([q]):
                n += 1
                blocks.append(
                    dict(
                        qubits=[q, a],
                        cz_error_prob=0.01 + n * 1.1e-7,
                        cnot_error_prob=0.02 + n * 1.1e-7,
                        swap_error_prob=0.03 + n * 1.1e-7,
                    )
                )
    s = Setup(dict(setup=blocks))
    s.set_var_param("bias", "X")
    return s


class Runner:
    def __init__(self, fam, sizes, model, frame, reset):
        self.code, self.mod = FAM[fam]
        self.layouts = [make_layout(self.code, *s, k) for k, s in enumerate(sizes)]
        if frame != "post-gate" or model in ("incoming", "phenom"):
            self.layouts = interleaved(self.layouts)
        self.inds = qubit_inds(*self.layouts)
        self.names = inv_names(self.inds)
        self.kind, self.frame, self.reset = model, frame, reset
        self.setup = rich_setup(self.layouts)
        self.cache = {}

    def model(self):
        m = make_model(self.kind, dict(self.inds), setup=self.setup)
        m.new_circuit()
        return m

    def init_data(self, l):
        return {q: k % 2 for k, q in enumerate(l.get_qubits(role="data"))}

    def alone(self, k, ib, mb, rounds):
        """Canonical circuit of the rounds and the read-out of one layout."""
        key = (k, ib, mb, rounds)
        if key not in self.cache:
            l = self.layouts[k]
            m = self.model()
            d = make_detectors([l], self.frame)
            d.new_circuit()
            self.mod.init_qubits(m, l, d, self.init_data(l), rot_basis=ib)
            c = stim.Circuit()
            for _ in range(rounds):
                c += self.mod.qec_round(m, l, d, anc_reset=self.reset)
            c += self.mod.log_meas(m, l, d, rot_basis=mb, anc_reset=self.reset)
            idle = Canon(m.idle(l.get_qubits()), self.names).layers[0]
            self.cache[key] = (Canon(c, self.names), idle)
        return self.cache[key]

    def merged(self, order, ib, mb, rounds):
        ls = [self.layouts[k] for k in order]
        m = self.model()
        d = make_detectors(self.layouts, self.frame)
        d.new_circuit()
        inits = [
            self.mod.init_qubits(m, l, d, self.init_data(l), rot_basis=ib[k])
            for k, l in zip(order, ls)
        ]
        if len({i.num_ticks for i in inits}) == 1:
            merge_circuits(*inits)  # compared in run_blocks
        c = stim.Circuit()
        for _ in range(rounds):
            c += merge_qec_rounds(
                self.mod.qec_round_iterator, m, ls, d, anc_reset=self.reset
            )
        c += merge_log_meas(
            self.mod.log_meas_iterator,
            m,
            ls,
            d,
            rot_bases=[mb[k] for k in order],
            anc_reset=self.reset,
        )
        return Canon(c, self.names)


def padded(alone, idle, total):
    """Layers of the program alone, idling before the final measurement."""
    layers = list(alone.layers)
    if len(layers) > total:
        return None
    # the read-out ends with: measurement, (annotations)
    at = max(
        i
        for i, l in enumerate(layers)
        if any(e[0][0] == "M" for v in l.values() for e in v)
    )
    return layers[:at] + [idle] * (total - len(layers)) + layers[at:]


def run_prog(case, res):
    _, fam, sizes, model, frame, reset, first = case
    R = Runner(fam, sizes, model, frame, reset)
    n = len(sizes)
    coords = [set(map(tuple, l.anc_coords().values())) for l in R.layouts]
    qubits = [set(l.get_qubits()) for l in R.layouts]
    for ib in product((False, True), repeat=n):
        if int(ib[0]) != first:
            continue
        for mb in product((False, True), repeat=n):
            if n == 3 and ib not in (mb, tuple(not b for b in mb)):
                continue
            rounds = 1 if ib[-1] != mb[-1] else 2
            for order in permutations(range(n)):
                key = f"{case}:{ib}:{mb}:{order}"
                res.count("evaluations")
                res.count("distinct_nontrivial")
                c = R.merged(order, ib, mb, rounds)
                alone = [R.alone(k, ib[k], mb[k], rounds) for k in range(n)]
                total = max(len(a[0].layers) for a in alone)
                e = None
                if len(c.layers) != total:
                    e = f"{len(c.layers)} time steps instead of {total}"
                for k in range(n):
                    if e:
                        break
                    e = compare(c, k, order.index(k), alone[k], total, qubits, coords)
                if not e and sorted(c.meas) != sorted(
                    x for a in alone for x in a[0].meas
                ):
                    e = "measurements differ"
                if not e and len(c.dets) != sum(len(a[0].dets) for a in alone):
                    e = "number of detectors differs"
                if not e and set(c.obs) != set(range(n)):
                    e = f"observables {sorted(c.obs)}"
                if e:
                    res.fail(key, f"{case} bases {ib}, {mb}, order {order}: {e}")
                    return


def compare(c, k, pos, alone, total, qubits, coords):
    a, idle = alone
    want = padded(a, idle, total)
    for t, (x, y) in enumerate(zip(c.layers, want)):
        for q in sorted(qubits[k]):
            if x.get(q) != y.get(q):
                return f"layout {k}, step {t}, {q}: {x.get(q)} instead of {y.get(q)}"
    d = [x for x in c.dets if tuple(x[0][:2]) in coords[k]]
    if sorted(map(str, map(norm, d))) != sorted(map(str, map(norm, a.dets))):
        return f"layout {k}: detectors {d} instead of {a.dets}"
    if c.obs.get(pos) != a.obs.get(0):
        return f"layout {k}: observable {c.obs.get(pos)} instead of {a.obs.get(0)}"
    return None


def joined(layouts):
    """One layout with the logical qubits of all the given ones."""
    setups = [l.to_dict() for l in layouts]
    s = setups[0]
    for o in setups[1:]:
        s["logical_qubit_labels"] += o["logical_qubit_labels"]
        s["layout"] += o["layout"]
        for w in ("log_z", "log_x"):
            s[w] = {**o[w], **s[w]}
    return Layout(s)


def run_several(case, res):
    """Layouts with different numbers of logical qubits: as their blocks run in parallel,
    with one observable per logical qubit, in the order of the layouts."""
    _, fam, groups, model = case
    n = sum(map(len, groups))
    R = Runner(
        fam, [(2, 2), (2, 3), (2, 2), (3, 2), (2, 2)][:n], model, "post-gate", True
    )
    names = R.names
    for basis in product((False, True), repeat=len(groups)):
        for order in permutations(range(len(groups))):
            flat = [k for g in order for k in groups[g]]
            bases = [basis[g] for g in order for _ in groups[g]]
            found = []
            for ls, bs in (
                ([R.layouts[k] for k in flat], bases),
                (
                    [joined([R.layouts[k] for k in groups[g]]) for g in order],
                    [basis[g] for g in order],
                ),
            ):
                m = R.model()
                d = make_detectors(R.layouts, "post-gate")
                d.new_circuit()
                for l, b in zip(ls, bs):
                    R.mod.init_qubits(m, l, d, R.init_data(l), rot_basis=b)
                c = merge_qec_rounds(R.mod.qec_round_iterator, m, ls, d)
                c += merge_log_meas(R.mod.log_meas_iterator, m, ls, d, rot_bases=bs)
                found.append(Canon(c, names))
            key = f"{case}:{basis}:{order}"
            res.count("evaluations")
            res.count("distinct_nontrivial")
            a, b = found
            e = None
            if sorted(a.obs) != list(range(n)) or len(a.layers) != len(b.layers):
                e = f"observables {sorted(a.obs)}, {len(b.layers)} time steps"
            elif a.obs != b.obs:
                e = f"observables {b.obs} instead of {a.obs}"
            elif sorted(str(norm(x)) for x in a.dets) != sorted(
                str(norm(x)) for x in b.dets
            ):
                e = "different detectors"
            for t, (x, y) in enumerate(zip(a.layers, b.layers)):
                if not e and x != y:
                    e = f"step {t}: {y} instead of {x}"
            if e:
                res.fail(key, f"{case} bases {basis}, order {order}: {e}")
                return


def norm(d):
    return (d[0], sorted(d[1]))


# ------------------------------------------------------------------ (3) blocks
def run_blocks(case, res):
    """All pairs of logical operations on two layouts, and one layout against idling."""
    _, fam, model = case
    code, mod = FAM[fam]
    size = (2, 3) if code == "rot" else (2, 2)
    R = Runner(fam, (size, size), model, "post-gate", True)
    g = gates_module(code)
    gates = [f"init{b}{s}" for b in "01" for s in ("", "-zero", "-one")]
    gates += ["log_x", "log_z"]
    if hasattr(mod, "log_trans_s"):
        for l in R.layouts:
            g.set_trans_s(l, corners(l)[0])
        gates.append("log_trans_s")
    if hasattr(mod, "log_trans_h"):
        for l in R.layouts:
            g.set_trans_h(l, corners(l)[0])
        gates.append("log_trans_h")

    def block(name, k):
        m = R.model()
        d = make_detectors(R.layouts, "post-gate")
        d.new_circuit()
        l = R.layouts[k]
        if name.startswith("init"):
            init = R.init_data(l)
            if "-" in name:
                init = {q: int(name.endswith("one")) for q in init}
            return mod.init_qubits(m, l, d, init, rot_basis=name[4] == "1")
        d.activate_detectors(ancs(*R.layouts))
        return getattr(mod, name)(m, l, d)

    for a, b in product(gates, repeat=2):
        for order in ((0, 1), (1, 0)):
            cs = [block(a, order[0]), block(b, order[1])]
            key = f"{case}:{a}:{b}:{order}"
            res.count("evaluations")
            res.count("distinct_nontrivial")
            ok = cs[0].num_ticks == cs[1].num_ticks
            if a[:4] == b[:4] == "init" and a[4] == b[4]:
                # same basis: the bitstrings must not matter
                if not res.expect(ok, key, f"{a} and {b} take different times"):
                    continue
            try:
                m = merge_circuits(*cs)
            except Exception as e:
                res.expect(not ok, key, f"{a} and {b} were rejected: {e}")
                continue
            if not res.expect(ok, key, f"{a} and {b} have different numbers of steps"):
                continue
            c = Canon(m, R.names)
            for x in cs:
                x = Canon(x, R.names)
                qs = {q for l in x.layers for q in l}
                for t, l in enumerate(x.layers):
                    for q in qs:
                        if c.layers[t].get(q) != l.get(q):
                            res.fail(
                                key,
                                f"{a} and {b}: step {t}, {q}: {c.layers[t].get(q)} "
                                f"instead of {l.get(q)}",
                            )
                            return
