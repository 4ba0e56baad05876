"""Exhaustive fault enumeration on the noisy memory experiments of every block family x
rectangular size x basis x number of rounds x reset policy x frame x noise model.  Every
elementary fault (each Pauli component of each noise channel, each flipped outcome) is
propagated exactly to the set of detectors and observables it flips; then all sets of fewer
than d faults are searched (completely: a set that triggers nothing can be grown fault by
fault, always cancelling the first unresolved detector) for one that flips the observable
without any detector, with d the weight of the logical operator that can flip the
outcome.  A set of d faults that does is required to exist (the logical operator)."""

from itertools import product

from .frames import Frame, MEAS
from .lib import (
    FAM,
    experiments,
    inv_names,
    logical,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
    to_inds,
    rotated_data,
)

LEVEL = "fault_enumeration"
RULE = (
    "one evaluation = one fault set visited by the search (the last fault of a set is "
    "looked up, so all sets of the completed size are covered); non-trivial = fault sets "
    "that trigger at least one detector before the last fault"
)
ASSUMPTIONS = [
    "detectors without a fixed noiseless value (gauge detectors) are not used",
    "memory experiments only (transversal gates spread faults between qubits)",
]
PAULIS = ("X", "Z", "Y")
ORDER2 = [a + b for a in "IXYZ" for b in "IXYZ"][1:]


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(fams, sizes, rounds, models, frames=("post-gate",), resets=(True, False)):
        for fam, (dx, dz), r, m, f, reset, rb in product(
            fams, sizes, rounds, models, frames, resets, (False, True)
        ):
            if fam == "google" and (not reset or r == 0):
                continue
            d = dx if not rb else dz
            out.append((d, fam, dx, dz, rb, r, reset, f, m))

    noisy = ("circuit", "phenom", "incoming", "biased")
    small = [(2, 2), (2, 3), (3, 2), (3, 3)]
    add(FAM, small, (0, 1, 2, 3), noisy)
    add(FAM, [(3, 3)], (2,), ("circuit",), ("pre-gate", "gate-independent"))
    add(FAM, [(2, 4), (4, 2), (3, 4), (4, 3), (4, 4)], (1, 3), ("circuit",))
    add(FAM, [(2, 5), (5, 2), (3, 5), (5, 3), (5, 5)], (2,), ("phenom", "incoming"))
    add(FAM, [(2, 5), (5, 2), (3, 5), (5, 3), (5, 5)], (1,), ("circuit",))
    add(FAM, [(4, 4)], (2,), noisy)
    add(FAM, small, (4,), ("circuit",), ("post-gate", "pre-gate", "gate-independent"))
    add(FAM, list(product(range(2, 8), repeat=2)), (1,), ("circuit",))
    # long codes, only for the outcome with the small distance
    n = len(out)
    add(FAM, [(2, 6), (6, 2), (3, 6), (6, 3), (2, 8), (8, 2)], (2,), ("circuit",))
    add(FAM, [(2, 9), (9, 2), (3, 9), (9, 3), (2, 12)], (1,), ("circuit",))
    out[n:] = [c for c in out[n:] if c[0] <= 3]
    if t:
        add(FAM, [(6, 6), (2, 7), (7, 2)], (2,), ("circuit",))
        add(FAM, small, (4, 5, 6), noisy)
        add(FAM, small, (0, 1, 2, 3), noisy, ("pre-gate", "gate-independent"))
        add(FAM, [(4, 4)], (2, 4), noisy, ("post-gate", "pre-gate"))
        add(FAM, [(5, 5)], (2, 3, 5), ("circuit", "biased"))
        add(FAM, [(2, 5), (5, 2), (3, 5), (5, 3), (4, 5)], (2, 3), ("circuit",))
        add(FAM, [(6, 6)], (1, 2), ("phenom", "incoming"))
        add(FAM, [(3, 6), (6, 3)], (1,), ("circuit",))
    seen, uniq = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            uniq.append(c)
    uniq.sort(key=lambda c: -c[0] * (c[5] + 1) * c[2] * c[3])
    return uniq


def faults(circ):
    """All elementary faults of a noisy circuit as {symptom: description}; a symptom is
    an integer with one bit per observable (lowest) and detector."""
    fr = Frame()
    gens = {}  # mask -> description
    comps = []  # tuples of generator masks, description
    state = dict(k=0)

    def gen(q, p):
        return fr.inject(q, p)

    def on_noise(ins):
        name = ins.name
        args = ins.gate_args_copy()
        if name in MEAS:
            # called once per target, right after its measurement
            b = fr.new_bit()
            fr.meas[-1] ^= b
            comps.append(((b,), f"flip of outcome {len(fr.meas) - 1}"))
            return
        qs = [t.value for t in ins.targets_copy()]
        where = f"after {len(fr.meas)} outcomes"
        if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            if args[0] > 0:
                for q in qs:
                    comps.append(((gen(q, name[0]),), f"{name} {q} {where}"))
        elif name in ("DEPOLARIZE1", "PAULI_CHANNEL_1"):
            for q in qs:
                x, z = gen(q, "X"), gen(q, "Z")
                on = dict(X=True, Y=True, Z=True)
                if name == "PAULI_CHANNEL_1":
                    on = dict(zip("XYZ", (a > 0 for a in args)))
                for p, g in (("X", (x,)), ("Z", (z,)), ("Y", (x, z))):
                    if on[p]:
                        comps.append((g, f"{p}{q} of {name} {where}"))
        elif name in ("DEPOLARIZE2", "PAULI_CHANNEL_2"):
            for a, b in zip(qs[::2], qs[1::2]):
                g = {
                    (0, "X"): gen(a, "X"),
                    (0, "Z"): gen(a, "Z"),
                    (1, "X"): gen(b, "X"),
                    (1, "Z"): gen(b, "Z"),
                }
                for k, pp in enumerate(ORDER2):
                    if name == "PAULI_CHANNEL_2" and args[k] <= 0:
                        continue
                    m = []
                    for i, p in enumerate(pp):
                        if p in "XY":
                            m.append(g[i, "X"])
                        if p in "ZY":
                            m.append(g[i, "Z"])
                    comps.append((tuple(m), f"{pp} on {a},{b} of {name} {where}"))
        else:
            raise ValueError(f"unknown noise {name}")

    fr.apply(circ, on_noise)
    injected = set()
    for ms, _ in comps:
        injected.update(ms)
    inj = 0
    for b in injected:
        inj |= b
    coins = ((1 << fr.nbits) - 1) & ~inj

    cnt = 0
    dets, obs = [], {}
    for ins in circ.flattened():
        if ins.name in MEAS:
            cnt += len(ins.targets_copy())
        elif ins.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            m = 0
            for t in ins.targets_copy():
                m ^= fr.meas[cnt + t.value]
            if ins.name == "DETECTOR":
                dets.append(m)
            else:
                k = int(ins.gate_args_copy()[0])
                obs[k] = obs.get(k, 0) ^ m
    random_obs = [k for k, m in obs.items() if m & coins]
    used = [m for m in dets if not m & coins]
    rows = [obs.get(0, 0)] + used
    # transpose
    sym = {b: 0 for b in injected}
    for i, m in enumerate(rows):
        m &= inj
        while m:
            low = m & -m
            sym[low] |= 1 << i
            m ^= low
    out = {}
    for ms, what in comps:
        s = 0
        for b in ms:
            s ^= sym[b]
        if s:
            out.setdefault(s, what)
    return out, len(comps), len(used), random_obs, sorted(obs)


class Search:
    """Searches all sets of at most n faults with symptom == {observable} only."""

    def __init__(self, syms):
        self.syms = syms
        self.by_det = {}
        for s in syms:
            m = s & ~1
            while m:
                low = m & -m
                self.by_det.setdefault(low, []).append(s)
                m ^= low
        self.visited = 0
        self.nontrivial = 0

    def find(self, n):
        if 1 in self.syms:
            self.visited += 1
            return [1]
        if n <= 1:
            self.visited += len(self.syms)
            return None
        for s in self.syms:
            if s & ~1:
                r = self.grow(s, n - 1)
                if r:
                    return r + [s]
        return None

    def grow(self, s, left):
        """Faults to add to reach the symptom 1."""
        self.visited += 1
        self.nontrivial += 1
        if left == 1:
            return [s ^ 1] if s ^ 1 in self.syms else None
        if s ^ 1 in self.syms:
            return [s ^ 1]
        m = s & ~1
        if not m:
            return None
        for f in self.by_det[m & -m]:
            r = self.grow(s ^ f, left - 1) if s != f else None
            if r:
                return r + [f]
        return None


def run_case(case, res, tier):
    d, fam, dx, dz, rb, r, reset, frame, kind = case
    code, mod = FAM[fam]
    exp = experiments()[fam]
    lay = make_layout(code, dx, dz)
    inds = qubit_inds(lay)
    model = make_model(kind, dict(inds))
    det = make_detectors([lay], frame)
    data = lay.get_qubits(role="data")
    kw = {} if fam == "google" else dict(anc_reset=reset)
    circ = exp.memory_experiment(
        model,
        lay,
        det,
        num_rounds=r,
        data_init={q: k % 3 % 2 for k, q in enumerate(data)},
        rot_basis=rb,
        **kw,
    )
    # weight of the logical operator that flips the outcome
    flip = "Z" if rb else "X"
    lab = lay.get_logical_qubits()[0]
    want = len((lay.log_z if rb else lay.log_x)[lab])
    if want != d:
        res.fail(str(case), f"{case}: logical {flip} has weight {want}, distance {d}")
        return
    syms, nf, nd, rnd, obs = faults(circ)
    res.count("faults", nf)
    res.count("symptoms", len(syms))
    if rnd or obs != [0]:
        res.fail(str(case), f"{case}: observables {obs}, random {rnd}")
        return
    s = Search(syms)
    found = s.find(d - 1)
    res.count("evaluations", s.visited)
    res.count("distinct_nontrivial", s.nontrivial)
    if found:
        res.fail(
            str(case),
            f"{case}: {len(found)} < {d} faults flip the logical outcome unnoticed: "
            + "; ".join(syms[f] for f in found),
        )
        return
    s = Search(syms)
    found = witness(syms, d)
    res.count("witnesses")
    if not found:
        res.fail(str(case), f"{case}: no set of {d} faults flips the outcome unnoticed")
        return
    res.sample(
        dict(
            case=str(case),
            faults=nf,
            distinct=len(syms),
            detectors=nd,
            smallest=[syms[f] for f in found],
        )
    )


def witness(syms, d):
    """A set of d faults that flips only the observable.  Faults that trigger at most two
    detectors form a graph (with a boundary); the shortest path in it is found by
    breadth-first search, the full search is only done if there is none."""
    adj = {}
    for s in syms:
        m = s & ~1
        ends = []
        while m and len(ends) < 3:
            low = m & -m
            ends.append(low)
            m ^= low
        if len(ends) > 2 or not ends:
            continue
        a, b = (ends + [0])[:2]
        adj.setdefault(a, []).append((b, s))
        adj.setdefault(b, []).append((a, s))
    # states (vertex, parity), from the boundary to the boundary with parity 1
    prev = {(0, 0): None}
    frontier = [(0, 0)]
    while frontier and (0, 1) not in prev:
        nxt = []
        for v, p in frontier:
            for w, s in adj.get(v, []):
                k = (w, p ^ (s & 1))
                if k not in prev:
                    prev[k] = ((v, p), s)
                    nxt.append(k)
        frontier = nxt
    path, k = [], (0, 1)
    while k in prev and prev[k]:
        k, s = prev[k]
        path.append(s)
    if path and len(path) <= d:
        return path
    s = Search(syms)
    return s.find(d)
