"""Depth-first exploration of all logical programs up to a depth on the real building
blocks.  At every node the noiseless outcomes are represented exactly by Pauli frames (one
bit per random coin): a detector is deterministic iff its coin mask is zero.  At every
program end the kernel of the outcome->coin map (all deterministic parities) must be
contained in the span of the emitted detectors and observables.  Detectors may only be
random within the span of the stabilizer values that the initialisation left undetermined
and that have not been measured since."""

from itertools import product

from .programs import World

LEVEL = "model_checking"
ASSUMPTIONS = [
    "all active layouts take part in every QEC round (detectors count one round for "
    "all active ancillas)",
    "histories listed in known_findings.json are checked separately",
]


I00 = [(("I", 0, b),) for b in (0, 1)]
I2 = [(("I", 0, a), ("I", 1, b)) for a in (0, 1) for b in (0, 1)]
I2R = [p + (("R",),) for p in I2]
IRI = [(("I", 0, a), ("R",), ("I", 1, b)) for a in (0, 1) for b in (0, 1)]
I3R = [p + (("I", 2, b), ("R",)) for p in I2 for b in (0, 1)]


def cases(tier):
    out = []
    t = tier == "thorough"

    def add(fam, dx, dz, prefixes, quick, thorough, parts=1, **kw):
        """All continuations of the given initial histories with the given number of
        further operations (plus the final read-out)."""
        depth = thorough if t else quick
        if depth is None:
            return
        nlay = 1 + max(op[1] for op in prefixes[0] if op[0] == "I")
        for frame in ("post-gate", "pre-gate"):
            for reset in (True, False):
                if fam == "google" and not reset:
                    continue
                for prefix in prefixes:
                    n = parts * (4 if t else 1)
                    for part in range(n):
                        out.append(
                            (fam, dx, dz, nlay, frame, reset, depth)
                            + (tuple(sorted(kw.items())), prefix, part, n)
                        )

    nog = dict(gates=False)
    # two layouts
    add("unrot", 2, 2, I2R, 2, 3, parts=2)
    add("css", 2, 3, I2R, 2, 3, parts=2)
    add("css", 3, 3, I2R, 2, 3, parts=2)
    add("unrot", 2, 2, I2, 2, 3)
    add("css", 2, 3, I2, 2, 3)
    add("css", 2, 3, IRI, 1, 3)
    add("unrot", 2, 2, IRI, 1, 3)
    add("css_pip", 2, 3, I2R, 1, 2)
    add("xzzx_pip", 2, 2, I2R, 2, 3, **nog)
    add("xzzx", 2, 2, I2R, 1, 2, **nog)
    add("unrot", 3, 3, I2R, None, 2, parts=2)
    add("css", 2, 3, I3R, None, 2)
    add("unrot", 2, 2, I3R, None, 2)
    # one layout
    add("css", 2, 3, I00, 4, 5, parts=2)
    add("css", 3, 4, I00, 3, 4)
    add("css_pip", 2, 3, I00, 3, 4)
    add("unrot", 2, 2, I00, 3, 5)
    add("unrot", 3, 3, I00, 2, 4)
    add("xzzx", 3, 3, I00, 3, 4, **nog)
    add("xzzx", 2, 4, I00, 2, 4, **nog)
    add("xzzx_pip", 3, 3, I00, 3, 4, **nog)
    add("google", 3, 3, I00, 3, 4, **nog)
    # one layout through the merge functions
    add("css", 2, 3, I00, 3, 4, merge1=True)
    add("unrot", 2, 2, I00, 3, 4, merge1=True)
    add("xzzx_pip", 2, 3, I00, 2, 3, merge1=True, **nog)
    # codes with X and Z exchanged, other orders of the qubits
    for v in ("exchanged", "shuffled"):
        add("css", 2, 3, I00, 2, 3, variant=v)
        add("css", 4, 3, I00, 1, 2, variant=v)
        add("css_pip", 3, 2, I00, 1, 3, variant=v)
        add("unrot", 2, 2, I00, 2, 3, variant=v)
        add("unrot", 2, 3, I00, 1, 3, variant=v)
        add("css", 2, 2, I2R, 1, 2, variant=v)
        add("unrot", 2, 2, I2R, 1, 2, variant=v)
        for fam in ("xzzx", "xzzx_pip", "google"):
            add(fam, 2, 3, I00, 2, 3, variant=v, **nog)
            add(fam, 3, 3, I00, 1, 2, variant=v, **nog)
    # long periodic histories
    for fam, dx, dz, nlay, quick, thorough in (
        ("css", 2, 3, 1, 3, 4),
        ("unrot", 2, 2, 1, 3, 4),
        ("css_pip", 3, 4, 1, 2, 3),
        ("xzzx", 2, 3, 1, 2, 4),
        ("xzzx_pip", 3, 2, 1, 2, 4),
        ("google", 3, 2, 1, 2, 4),
        ("css", 2, 3, 2, 2, 3),
        ("unrot", 2, 2, 2, 2, 3),
        ("css_pip", 2, 2, 2, 2, 3),
        ("xzzx", 2, 2, 2, 2, 3),
        ("css", 2, 2, 3, 1, 2),
    ):
        for frame in ("post-gate", "pre-gate"):
            for reset in (True, False):
                if fam == "google" and not reset:
                    continue
                w = (fam, dx, dz, nlay, frame, reset)
                for part in range(4):
                    out.append(
                        ("long", w, thorough if t else quick, 24 if t else 10, part)
                    )
    for f in FINDINGS:
        out.append(("finding", f))
    return out


def words(w, size):
    """All words of operations up to a size, the first ones of them not illegal."""
    n = len(w.layouts)
    al = [("R",)] + [(g, k) for k in range(n) for g in ("X", *w.gates) if g != "CX"]
    if "CX" in w.gates:
        al += [("CX", a, b) for a in range(n) for b in range(n) if a != b]
    al += [("M", (k,), (b,)) for k in range(n) for b in (0, 1) if k == 0 or not b]
    al += [("I", 0, 0), ("I", 0, 1)]
    if n > 1:
        al.append(("M", tuple(range(n)), tuple(k % 2 for k in range(n))))
        al.append(("I", 1, 1))
    return [x for k in range(1, size + 1) for x in product(al, repeat=k)]


def run_long(case, res):
    """Words of operations repeated again and again (operations that are not possible are
    left out), then everything is read out."""
    _, (fam, dx, dz, nlay, frame, reset), size, length, part = case
    gates = fam in ("css", "css_pip", "unrot") and (dx, dz, nlay) != (2, 2, 3)
    w = World(fam, dx, dz, nlay, frame, reset, gates=gates)
    seen = set()
    for word in words(w, size)[part::4]:
        n = w.start()
        for k in range(nlay):
            n = n and advance(n, ("I", k, k % 2), res, case)
        n = n and advance(n, ("R",), res, case)
        i, idle = 0, 0
        while n and i < length and idle < len(word):
            op = word[(i + idle) % len(word)]
            if op not in n.legal():
                idle += 1
                continue
            n = advance(n, op, res, case)
            i, idle = i + 1 + idle, 0
        if not n:
            return
        if n.hist in seen:
            continue
        seen.add(n.hist)
        for k in range(nlay):
            if k not in n.active:
                n = n and advance(n, ("I", k, 0), res, case)
        for op in n.measurements() if n else ():
            if len(op[1]) == nlay and advance(n, op, res, case) is None:
                return


# Histories of the known finding (data read-out of one layout forgets the pending gate
# of another one): key -> (world, operations)
FINDINGS = (
    "readout-forgets-gate:css:S",
    "readout-forgets-gate:css:CX",
    "readout-forgets-gate:unrot:S",
    "readout-forgets-gate:unrot:H",
    "readout-forgets-gate:unrot:CX",
)


def run_finding(key, res):
    _, fam, g = key.split(":")
    w = World(fam, 2, 3 if fam == "css" else 2, 2, "post-gate", True)
    gate = ("CX", 0, 1) if g == "CX" else (g, 1)
    n = w.start()
    for op in (
        ("I", 0, 1),
        ("I", 1, 0 if g == "H" else 1),
        ("R",),
        gate,
        ("M", (0,), (1,) if g == "CX" else (0,)),
        ("R",),
    ):
        n = n.step(op)
        res.count("transitions")
        bad = n.nondeterministic()
        if bad:
            res.fail(key, f"random detectors {bad[:3]} after {n.hist}")
            return


def run_case(case, res, tier):
    if case[0] == "finding":
        run_finding(case[1], res)
        return
    if case[0] == "long":
        run_long(case, res)
        return
    fam, dx, dz, nlay, frame, reset, depth, kw, prefix, part, parts = case
    w = World(fam, dx, dz, nlay, frame, reset, **dict(kw))
    n = w.start()
    for op in prefix:
        n = advance(n, op, res, case)
        if n is None:
            return
    dfs(n, depth, res, case, part, parts)


def advance(n, op, res, case):
    try:
        m = n.step(op)
    except Exception as e:
        res.fail(
            f"raises:{case[:7]}:{n.hist + (op,)}",
            f"legal program {n.hist + (op,)} raised {type(e).__name__}: {e}",
        )
        return None
    res.count("states")
    res.count("transitions")
    res.count("detectors_evaluated", len(m.new_dets))
    bad = m.nondeterministic()
    if bad:
        res.fail(
            f"random:{case[:7]}:{m.hist}",
            f"{case[:7]} program {m.hist}: {len(bad)} detectors without a fixed "
            f"noiseless value, e.g. at {bad[0][0]}",
        )
        return None
    if not m.active and op[0] == "M":
        res.count("programs")
        res.count("traces_validated_against_impl")
        # (not claimed for layouts that are read out before their first QEC round)
        k = 0 if m.product else m.missing()
        if not m.product:
            res.count("programs_checked_for_completeness")
        if k:
            res.fail(
                f"missing:{case[:7]}:{m.hist}",
                f"{case[:7]} program {m.hist}: {k} independent deterministic outcome "
                "parities are no product of detectors and observables",
            )
            return None
        res.sample(dict(config=str(case[:7]), program=str(m.hist)))
    return m


def paulis_ok(hist, op, nlay):
    """Logical Paulis: one per program for several layouts, and not two in a row."""
    if op[0] not in "XZ":
        return True
    if nlay > 1:
        return not any(h[0] in "XZ" for h in hist)
    return hist[-1][0] not in "XZ"


def dfs(n, left, res, case, part=0, parts=1):
    """Explores all programs with ``left`` more operations; read-outs that end the
    program come on top of the depth."""
    if len(res.viol) > 5:
        return
    if left == 0:
        for op in n.measurements():
            if len(op[1]) == len(n.active):
                advance(n, op, res, case)
        return
    ops = [op for op in n.legal() if paulis_ok(n.hist, op, len(n.w.layouts))]
    for op in ops[part::parts]:
        m = advance(n, op, res, case)
        if m is not None:
            dfs(m, left - 1, res, case)
