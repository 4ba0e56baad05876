"""Exhaustive exploration of detector selections.  (1) Every experiment function x sizes x
bases x reset policies x frames x numbers of rounds and gates x all subsets of the ancillas
(all of them up to 8 ancillas; singletons, complements, types and layouts above) x with and
without gauge detectors x list, tuple and set.  (2) Programs of building blocks (single and
merged) with an own selection in every round and read-out, in all combinations of a
selection alphabet.  The circuit must equal the one with all detectors except that exactly
the deselected detectors are empty; the detectors dropped as gauge detectors are compared
with the random ones found exactly by Pauli frames over all coins of the noiseless
circuit."""

from itertools import combinations, product

from surface_sim.util import merge_log_meas, merge_qec_rounds

from .exper import EXPS, Setting
from .frames import Frame
from .lib import Canon, diff_canon, inv_names, strip_noise

LEVEL = "exploration"
RULE = (
    "one evaluation = one circuit with a selection of detectors compared with the "
    "circuit with all detectors; non-trivial = the selection drops some but not all "
    "detectors"
)


def cases(tier):
    t = tier == "thorough"
    out = []
    frames = ("post-gate", "pre-gate", "gate-independent")
    for exp, fam in EXPS:
        if exp == "mem":
            sizes = [(2, 2), (2, 3), (3, 2)] if fam != "unrot" else [(2, 2), (2, 3)]
            sizes += [(3, 3)] if fam != "unrot" else []
            counts = [(0,), (1,), (2,), (3,)]
            if fam == "google":
                counts = counts[1:]
        elif exp == "cnot":
            sizes = [(2, 2)] + ([(2, 3)] if t else [])
            counts = [(0, 1), (1, 0), (1, 1), (2, 1), (3, 0)]
        else:
            sizes = [(2, 3)] if fam != "unrot" else [(2, 2)]
            if t:
                sizes += [(3, 4)] if fam != "unrot" else [(3, 3)]
            counts = [(0, 0), (0, 2), (2, 0), (2, 1)]
            if exp == "h":
                counts += [(1, 0), (1, 1), (3, 1)]
        for dx, dz in sizes:
            for rot in (False, True):
                for reset in (True, False):
                    if fam == "google" and not reset:
                        continue
                    for frame in frames:
                        if (
                            (dx, dz) in ((3, 3), (3, 4))
                            and frame != frames[0]
                            and not t
                        ):
                            continue
                        for c in counts:
                            if frame == frames[2] and exp != "mem" and c[0] > 1:
                                continue
                            out.append(("exp", exp, fam, dx, dz, rot, reset, frame, c))
    for fam in ("css", "css_pip", "xzzx", "xzzx_pip", "google", "unrot"):
        for reset in (True, False):
            if fam == "google" and not reset:
                continue
            for frame in frames[:2]:
                for rot in (False, True):
                    out.append(("blocks", fam, reset, frame, rot))
    return out


def subsets(s, tier):
    anc = s.anc
    n = len(anc)
    if n <= (5 if tier == "quick" else 8):
        out = [c for r in range(n + 1) for c in combinations(anc, r)]
    else:
        out = [tuple(anc), ()]
        out += [(a,) for a in anc]
        out += [tuple(b for b in anc if b != a) for a in anc]
        for t in ("x_type", "z_type"):
            out.append(tuple(a for a in anc if s.stab_type[a] == t))
        for l in s.layouts if len(s.layouts) > 1 else []:
            out.append(tuple(l.get_qubits(role="anc")))
        out.append(tuple(anc[::2]))
    return out


def blank(s, dets, keep):
    """Detectors in which only those selected by ``keep(index, ancilla)`` are kept."""
    out = []
    for i, (c, t) in enumerate(dets):
        out.append((c, t if keep(i, s.coord[tuple(c[:2])]) else frozenset()))
    return out


def same(full, other, dets, obs=True):
    e = diff_canon(other, full, ("layers", "obs"))
    if e:
        return e
    if full.meas != other.meas:
        return "order of measurements differs"
    if full.coords != other.coords:
        return "qubit coordinates differ"
    if len(dets) != len(other.dets):
        return f"{len(other.dets)} detectors instead of {len(dets)}"
    for i, (x, y) in enumerate(zip(dets, other.dets)):
        if x != y:
            return f"detector {i}: {show(y)} instead of {show(x)}"
    if other.det_layer != full.det_layer:
        return "detectors are in different time steps"
    return None


def show(d):
    return (d[0], sorted(d[1]))


def random_dets(circ):
    """Indices of the detectors whose noiseless value is random."""
    fr = Frame()
    fr.apply(strip_noise(circ))
    cnt, out, i = 0, set(), 0
    for ins in strip_noise(circ):
        if ins.name == "DETECTOR":
            m = 0
            for t in ins.targets_copy():
                m ^= fr.meas[cnt + t.value]
            if m:
                out.add(i)
            i += 1
        elif ins.name.startswith("M"):
            cnt += len(ins.targets_copy())
    return out


def run_case(case, res, tier):
    if case[0] == "exp":
        run_exp(case, res, tier)
    else:
        run_blocks(case, res, tier)


FORMS = [list, tuple, set, lambda x: list(reversed(x)), frozenset]


def run_exp(case, res, tier):
    _, exp, fam, dx, dz, rot, reset, frame, counts = case
    s = Setting(exp, fam, dx, dz)
    names = inv_names(s.inds)

    def build(**kw):
        return s.call(s.model(), s.detectors(frame), counts, None, rot, reset, **kw)

    def canon(c):
        return Canon(c, names)

    c0 = build()
    full = canon(c0)
    res.sample(dict(config=str(case), detectors=len(full.dets)))
    e = same(full, canon(build(anc_detectors=None, gauge_detectors=True)), full.dets)
    if e:
        return res.fail(str(case), f"{case}: defaults: {e}")
    # gauge detectors: those of the first round that are random without noise
    no_gauge_type = "x_type" if rot else "z_type"
    nfirst = len(s.anc)
    has_round = counts != (0,)
    rnd = random_dets(c0)
    drop = set()
    if has_round:
        drop = {
            i
            for i in range(nfirst)
            if s.stab_type[s.coord[tuple(full.dets[i][0][:2])]] != no_gauge_type
        }
        first = {i for i in rnd if i < nfirst}
        if first != drop:
            return res.fail(
                str(case),
                f"{case}: random first-round detectors {first}, expected {drop}",
            )
    if frame != "gate-independent" or exp == "mem":
        if rnd - drop:
            return res.fail(str(case), f"{case}: random detectors {rnd - drop}")
    small = len(s.anc) <= (5 if exp == "mem" else 4) or tier == "thorough"
    for k, sub in enumerate(subsets(s, tier)):
        for gauge in (True, False):
            if not small and k >= 2 and bool((k + sum(counts)) % 2) == gauge:
                continue  # quick: one of the two for the singletons etc.
            form = FORMS[(k + gauge) % len(FORMS)]
            keep = set(sub)
            want = blank(
                s, full.dets, lambda i, a: a in keep and (gauge or i not in drop)
            )
            circ = build(anc_detectors=form(sub), gauge_detectors=gauge)
            res.count("evaluations")
            res.count("distinct_nontrivial", int(0 < len(keep) < len(s.anc)))
            e = same(full, canon(circ), want)
            if e:
                return res.fail(
                    f"{case}:{k}:{gauge}", f"{case} selecting {sub}, gauge={gauge}: {e}"
                )
    # gauge alone
    e = same(
        full,
        canon(build(gauge_detectors=False)),
        blank(s, full.dets, lambda i, a: i not in drop),
    )
    if e:
        return res.fail(f"{case}:gauge", f"{case} without gauge detectors: {e}")
    # selections that name something that is not an ancilla
    for bad in ([s.data[0]], ["nope"], [s.anc[0], "nope"], list(s.anc) + [s.data[-1]]):
        for gauge in (True, False):
            if fam == "google" and counts == (1,) and not gauge:
                continue  # intersected with the stabilizers of the first round
            res.count("rejections")
            try:
                build(anc_detectors=bad, gauge_detectors=gauge)
            except Exception:
                continue
            return res.fail(
                f"{case}:bad:{bad}:{gauge}", f"{case}: selection {bad} is accepted"
            )


# ------------------------------------------------------------------ blocks
def run_blocks(case, res, tier):
    _, fam, reset, frame, rot = case
    exp = {"css": "s", "css_pip": "s", "unrot": "h"}.get(fam, "mem")
    size = (2, 3) if fam != "unrot" else (2, 2)
    s = Setting(exp, fam, *size)
    mod, L = s.mod, s.layouts[0]
    names = inv_names(s.inds)
    z = [a for a in s.anc if s.stab_type[a] == "z_type"]
    sels = [None, [], z, [a for a in s.anc if a not in z], [s.anc[-1]], s.anc[1:]]
    if tier == "thorough":
        sels += [list(reversed(s.anc))]
    kw = {} if fam == "google" else dict(anc_reset=reset)
    gate = {"s": "log_trans_s", "h": "log_trans_h"}.get(exp)
    mrot = rot if exp != "h" else not rot

    def prog(sel, merged):
        m, d = s.model(), s.detectors(frame)
        m.new_circuit()
        d.new_circuit()
        parts = [mod.init_qubits(m, L, d, {q: 0 for q in s.data}, rot_basis=rot)]

        def qec(x):
            if merged:
                return merge_qec_rounds(
                    mod.qec_round_iterator, m, [L], d, anc_detectors=x, **kw
                )
            return mod.qec_round(m, L, d, anc_detectors=x, **kw)

        parts.append(qec(sel[0]))
        if gate:
            parts.append(getattr(mod, gate)(m, L, d))
        parts.append(qec(sel[1]))
        if fam == "google":
            parts.append(
                mod.qec_round_with_log_meas(
                    m, L, d, anc_detectors=sel[2], rot_basis=mrot
                )
            )
        elif merged:
            parts.append(
                merge_log_meas(
                    mod.log_meas_iterator,
                    m,
                    [L],
                    d,
                    rot_bases=[mrot],
                    anc_detectors=sel[2],
                    **kw,
                )
            )
        else:
            parts.append(mod.log_meas(m, L, d, mrot, anc_detectors=sel[2], **kw))
        c = parts[0]
        for p in parts[1:]:
            c = c + p
        sizes, tot = [], 0
        for p in parts:
            tot += p.num_detectors
            sizes.append(tot)
        return Canon(c, names), sizes

    full, ends = prog((None, None, None), False)
    n = len(s.anc)
    for merged in (False, True) if fam != "google" else (False,):
        for k, sel in enumerate(product(sels, repeat=3)):
            if merged and tier == "quick" and len({str(x) for x in sel}) == 3:
                continue
            forms = [
                x if x is None else FORMS[(k + j) % len(FORMS)](x)
                for j, x in enumerate(sel)
            ]
            got, _ = prog(forms, merged)
            res.count("evaluations")
            res.count("distinct_nontrivial", int(any(x is not None for x in sel)))

            def keep(i, a):
                j = 0 if i < n else (1 if i < 2 * n else 2)
                return sel[j] is None or a in sel[j]

            e = same(full, got, blank(s, full.dets, keep))
            if e:
                return res.fail(
                    f"{case}:{merged}:{k}", f"{case} merged={merged} {sel}: {e}"
                )
    res.sample(dict(config=str(case), selections=len(sels) ** 3))
