"""Exploration of all logical programs up to a depth, and of all initial bitstrings of
small codes, on the real building blocks.  Next to every program the ideal logical circuit
runs on a stabilizer simulator with one qubit per layout.  Whenever the ideal outcome (or
the parity of several ideal outcomes) of a logical read-out is fixed, the emitted
observables must have a fixed noiseless value (decided exactly by Pauli frames over all
random coins) and it must be the ideal one."""

from itertools import combinations, permutations, product

import stim

from .lib import logical, strip_noise
from .programs import World

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the initial logical value is the parity of the data bitstring on the logical "
    "operator of the initialisation basis",
]


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(
        fam, dx, dz, nlay, q, th, resets=(True,), frames=("post-gate",), parts=1, **kw
    ):
        depth = th if t else q
        if depth is None:
            return
        for reset in resets:
            for frame in frames:
                for b in product((0, 1), repeat=nlay):
                    for part in range(parts):
                        out.append(
                            ("prog", fam, dx, dz, nlay, frame, reset, depth, b)
                            + (tuple(sorted(kw.items())), part, parts)
                        )

    nog = dict(gates=False)
    add("css", 2, 3, 1, 5, 6, parts=2)
    add("css", 3, 4, 1, 3, 5)
    add("css_pip", 2, 3, 1, 3, 5)
    add("unrot", 2, 2, 1, 4, 6, parts=2)
    add("unrot", 3, 3, 1, 3, 5, parts=2)
    add("unrot", 2, 3, 1, 3, 4)
    for f in ("xzzx", "xzzx_pip", "google"):
        add(f, 3, 3, 1, 4, 6, **nog)
        add(f, 2, 3, 1, 3, 5, **nog)
        add(f, 4, 2, 1, 3, 5, **nog)
    add("css", 3, 3, 1, 3, 4, **nog)
    add("css", 2, 3, 2, 2, 3, parts=4)
    add("css", 3, 3, 2, 2, 4, parts=4)
    add("unrot", 2, 2, 2, 2, 3, parts=4)
    add("unrot", 2, 3, 2, 2, 3, parts=2)
    add("css_pip", 3, 3, 2, 2, 3, parts=2)
    add("xzzx_pip", 2, 3, 2, 2, 3, parts=2, **nog)
    add("xzzx", 3, 2, 2, 2, 3, parts=2, **nog)
    add("css", 2, 2, 3, 1, 2, parts=2)
    # codes with X and Z exchanged, other orders of the qubits
    for v in ("exchanged", "shuffled"):
        add("css", 2, 3, 1, 3, 4, variant=v)
        add("css", 4, 3, 1, 2, 3, variant=v)
        add("css_pip", 3, 2, 1, 2, 4, variant=v)
        add("unrot", 2, 2, 1, 3, 4, variant=v)
        add("unrot", 2, 3, 1, 2, 4, variant=v)
        add("css", 2, 2, 2, 2, 3, variant=v)
        add("unrot", 2, 2, 2, 1, 2, variant=v)
        for f in ("xzzx", "xzzx_pip", "google"):
            add(f, 2, 3, 1, 3, 4, variant=v, **nog)
            add(f, 3, 3, 1, 2, 3, variant=v, **nog)
    # long periodic histories
    for fam, dx, dz, nlay, quick, thorough in (
        ("css", 2, 3, 1, 3, 4),
        ("unrot", 2, 2, 1, 3, 4),
        ("css_pip", 3, 4, 1, 2, 3),
        ("xzzx", 3, 2, 1, 3, 4),
        ("xzzx_pip", 2, 3, 1, 3, 4),
        ("google", 2, 3, 1, 3, 4),
        ("css", 2, 3, 2, 2, 3),
        ("unrot", 2, 2, 2, 2, 3),
        ("xzzx_pip", 2, 2, 2, 1, 3),
    ):
        for b in product((0, 1), repeat=nlay):
            w = (fam, dx, dz, nlay, b)
            for part in range(2 * nlay):
                size = thorough if t else quick
                out.append(("long", w, size, 20 if t else 9, part, 2 * nlay))
    # all bitstrings
    bits = [
        ("css", 2, 2),
        ("css", 2, 3),
        ("css_pip", 2, 3),
        ("xzzx", 2, 2),
        ("xzzx", 2, 3),
        ("xzzx", 3, 2),
        ("xzzx_pip", 2, 3),
        ("google", 2, 3),
        ("google", 3, 2),
        ("unrot", 2, 2),
        ("css", 3, 3),
        ("xzzx", 3, 3),
        ("xzzx_pip", 3, 3),
        ("google", 3, 3),
        ("unrot", 2, 3),
        ("unrot", 3, 2),
    ]
    if t:
        bits += [("css", 3, 4), ("css_pip", 3, 3)]
    for fam, dx, dz in bits:
        for b in (0, 1):
            nq = dx * dz if fam != "unrot" else dx * dz + (dx - 1) * (dz - 1)
            parts = 1 if nq <= 6 else (4 if nq <= 9 else 16)
            for part in range(parts):
                out.append(("bits", fam, dx, dz, b, part, parts))
    return out


# ------------------------------------------------------------------ ideal circuit
class Ideal:
    def __init__(self, sim=None):
        self.sim = stim.TableauSimulator() if sim is None else sim

    def copy(self):
        return Ideal(self.sim.copy())

    def step(self, op, value=0):
        s = self.sim
        o = op[0]
        if o == "I":
            s.reset(op[1])
            if value:
                s.x(op[1])
            if op[2]:
                s.h(op[1])
        elif o == "X":
            s.x(op[1])
        elif o == "Z":
            s.z(op[1])
        elif o == "S":
            s.s(op[1])
        elif o == "H":
            s.h(op[1])
        elif o == "CX":
            s.cx(op[1], op[2])

    def parity(self, qs):
        """Fixed value (0/1) of the product of logical Paulis ``{k: 'X'|'Z'}``, or
        None when it is random."""
        n = max(qs) + 1
        p = stim.PauliString(
            "".join(qs.get(i, "I") for i in range(n)).replace("I", "_")
        )
        e = self.sim.peek_observable_expectation(p)
        return None if e == 0 else (1 - e) // 2

    def project(self, k, basis):
        """The layout is read out; its outcome is not fixed in general."""
        (self.sim.measure if basis == "Z" else self._mx)(k)

    def _mx(self, k):
        self.sim.h(k)
        self.sim.measure(k)
        self.sim.h(k)


def check_readout(n, m, ideal, op, res, key):
    """``m`` is the node after the read-out ``op`` of node ``n``."""
    ks, rb = op[1], op[2]
    want = {0} if len(ks) == 1 else set(range(len(ks)))
    if set(m.new_obs) != want:
        res.fail(key, f"{m.hist}: observables {sorted(m.new_obs)} instead of {want}")
        return
    ref = None
    basis = {k: "X" if b else "Z" for k, b in zip(ks, rb)}
    for r in range(1, len(ks) + 1):
        for sub in combinations(range(len(ks)), r):
            v = ideal.parity({ks[i]: basis[ks[i]] for i in sub})
            if v is None:
                continue
            vec = 0
            for i in sub:
                vec ^= m.new_obs[i]
            res.count("observables_evaluated")
            if m.mask(vec) != 0:
                res.fail(
                    key,
                    f"{m.hist}: product of observables {sub} is random, "
                    f"but the ideal outcome is fixed ({v})",
                )
                continue
            if ref is None:
                ref = strip_noise(m.circ).reference_sample()
            val = 0
            for i in range(vec.bit_length()):
                if vec >> i & 1:
                    val ^= int(ref[i])
            val ^= offset(m, op)
            if val != v:
                res.fail(
                    key,
                    f"{m.hist}: product of observables {sub} is {val} without noise, "
                    f"the ideal circuit gives {v}",
                )


_OFFSET = {}


def offset(m, op):
    """The echo pulses of the Google circuits flip the frame: the value is relative to
    the all-zero program with the same rounds."""
    w = m.w
    if w.fam != "google":
        return 0
    lay = w.layouts[0]
    rounds = sum(h[0] == "R" for h in m.hist)
    key = (lay.distance_x, lay.distance_z, w.variant, rounds, op[2])
    if key not in _OFFSET:
        n = w.start(keep_circuit=True).step(("I", 0, op[2][0]))
        for _ in range(rounds):
            n = n.step(("R",))
        n = n.step(op)
        ref = strip_noise(n.circ).reference_sample()
        _OFFSET[key] = (
            sum(int(ref[i]) for i in range(len(ref)) if n.new_obs[0] >> i & 1) % 2
        )
    return _OFFSET[key]


def step(n, ideal, op, res, key, value=0, data_init=None):
    try:
        m = n.step(op, data_init)
    except Exception as e:
        res.fail(key, f"{n.hist + (op,)} raised {type(e).__name__}: {e}")
        return None, None
    res.count("states")
    res.count("transitions")
    if op[0] == "M":
        res.count("traces_validated_against_impl")
        check_readout(n, m, ideal, op, res, key)
        return m, None
    i2 = ideal.copy()
    i2.step(op, value)
    return m, i2


def run_case(case, res, tier):
    if case[0] == "prog":
        _, fam, dx, dz, nlay, frame, reset, depth, b, kw, part, parts = case
        w = World(fam, dx, dz, nlay, frame, reset, **dict(kw))
        n, ideal = w.start(keep_circuit=True), Ideal()
        for k in range(nlay):
            n, ideal = step(n, ideal, ("I", k, b[k]), res, str(case))
            if n is None:
                return
        dfs(n, ideal, depth, res, case, part, parts)
        res.sample(dict(config=str(case)))
    elif case[0] == "long":
        run_long(case, res)
    else:
        run_bits(case, res)


def run_long(case, res):
    """Words of operations repeated again and again (those that are not possible, or whose
    ideal outcome is random, are left out), then all read-outs."""
    _, (fam, dx, dz, nlay, b), size, length, part, parts = case
    gates = fam in ("css", "css_pip", "unrot")
    w = World(fam, dx, dz, nlay, "post-gate", True, gates=gates)
    n0, i0 = w.start(keep_circuit=True), Ideal()
    for k in range(nlay):
        n0, i0 = step(n0, i0, ("I", k, b[k]), res, str(case))
    al = [("R",)] + [(g, k) for k in range(nlay) for g in ("X", "Z", *w.gates)]
    al = [op for op in al if op[0] != "CX"]
    if "CX" in w.gates:
        al += [("CX", x, y) for x in range(nlay) for y in range(nlay) if x != y]
    al += [("M", (k,), (r,)) for k in range(nlay) for r in (0, 1)]
    al += [("I", 0, 0), ("I", nlay - 1, 1)]
    words = [x for k in range(1, size + 1) for x in product(al, repeat=k)]
    seen = set()
    for word in words[part::parts]:
        n, ideal, i, idle = n0, i0, 0, 0
        while i < length and idle < len(word):
            op = word[(i + idle) % len(word)]
            ok = op in n.legal() and (fam != "google" or op[0] != "M")
            if ok and op[0] == "M":
                basis = "X" if op[2][0] else "Z"
                ok = ideal.parity({op[1][0]: basis}) is not None
            if not ok:
                idle += 1
                continue
            n, i2 = step(n, ideal, op, res, f"{case[1]}{n.hist}{op}")
            if n is None:
                return
            # a fixed outcome does not change the state
            ideal = ideal if op[0] == "M" else i2
            i, idle = i + 1 + idle, 0
        if n.hist in seen or not n.active:
            continue
        seen.add(n.hist)
        for op in readouts(n):
            m, _ = step(n, ideal, op, res, f"{case[1]}{n.hist}{op}")
            if m is None:
                return
        if len(res.viol) > 5:
            return
    res.sample(dict(config=str(case), words=len(words)))


def alphabet(n):
    w = n.w
    ops = []
    for k in n.active:
        ops += [("X", k), ("Z", k)] + [(g, k) for g in "SH" if g in w.gates]
    if "CX" in w.gates:
        ops += [("CX", a, b) for a in n.active for b in n.active if a != b]
    return ops


def readouts(n):
    ops = []
    if len(n.active) == 1:
        ks = n.active
        ops += [("M", ks, (0,)), ("M", ks, (1,))]
    else:
        orders = list(permutations(n.active))
        if len(orders) > 2:
            orders = [orders[0], orders[3], orders[-1]]
        for ks in orders:
            for b in product((0, 1), repeat=len(ks)):
                ops.append(("M", ks, b))
        ops += [("M", (k,), (b,)) for k in n.active for b in (0, 1)]
    return ops


def dfs(n, ideal, left, res, case, part=0, parts=1):
    if len(res.viol) > 5:
        return
    if part == 0:
        for op in readouts(n):
            step(n, ideal, op, res, f"{case[1:7]}{n.hist}{op}")
    if left == 0:
        return
    ops = alphabet(n)
    if n.hist[-1] != ("R",):
        ops.append(("R",))
    for op in ops[part::parts]:
        # the order of operations on different layouts is irrelevant: canonical order
        m, i2 = step(n, ideal, op, res, f"{case[1:7]}{n.hist}{op}")
        if m is not None:
            dfs(m, i2, left - 1, res, case)


def run_bits(case, res):
    _, fam, dx, dz, b, part, parts = case
    w = World(
        fam, dx, dz, 1, "post-gate", True, gates=fam in ("css", "css_pip", "unrot")
    )
    data = sorted(w.data[0])
    lay = w.layouts[0]
    sup = set(logical(lay, "X" if b else "Z"))
    R, M = ("R",), ("M", (0,), (b,))
    progs = [(M,), (R, M)]
    if len(data) <= 6:
        progs += [(R, R, M), (("X", 0), R, M), (R, ("Z", 0), M)]
        if "S" in w.gates:
            progs += [(R, ("S", 0), R, ("S", 0), R, M)]
            progs += [(("S", 0), R, M)] if b == 0 else []
        if "H" in w.gates:
            progs += [(R, ("H", 0), R, ("M", (0,), (1 - b,)))]
    if len(data) > 6:
        progs = [(R, M)]
    for x in range(part, 2 ** len(data), parts):
        bits = {q: (x >> i) & 1 for i, q in enumerate(data)}
        value = sum(bits[q] for q in sup) % 2
        inits = [bits]
        if x % 5 == 0:
            # the qubits that are not given are in state 0; any order of the keys
            inits.append({q: v for q, v in reversed(bits.items()) if v})
        for init in inits:
            n0, i0 = step(
                w.start(True), Ideal(), ("I", 0, b), res, str(case), value, init
            )
            if n0 is None:
                return
            for prog in progs:
                n, ideal = n0, i0
                for op in prog:
                    n, ideal = step(n, ideal, op, res, f"{case[:5]}{x}{prog}")
                    if n is None:
                        break
        if len(res.viol) > 5:
            return
    res.sample(dict(config=str(case[:5]), programs=str(progs)))
