"""Depth-bounded exhaustive exploration of all operation sequences on the real
``Detectors`` class (activation, deactivation, new_circuit, all generator updates of
GL(n,2) as dictionaries and as labelled matrices in permuted label and dimension orders,
ancilla rounds and data read-outs with all requested subsets).  After every operation the
emitted DETECTOR instructions, resolved to individual measurement outcomes, are compared
with an independent reference state machine that only knows the outcomes measured since
the activation of each ancilla and the generator map since the last round."""

from copy import deepcopy
from itertools import combinations, permutations, product

import numpy as np
import stim
import xarray as xr

from surface_sim import Detectors

LEVEL = "model_checking"
ASSUMPTIONS = [
    "updates act trivially on inactive ancillas; ancillas are deactivated when no "
    "pending update links them with the remaining ones; a data read-out closes the "
    "pending update of all ancillas (histories in which a pending update of ancillas "
    "that are not read out survives a read-out are a listed finding of C01)",
    "the reset policy does not change within one history",
]

FRAMES = ("post-gate", "pre-gate", "gate-independent")


def cases(tier):
    t = tier == "thorough"
    out = []
    for frame in FRAMES:
        for reset in (True, False):
            # all operation sequences on two ancillas
            for pre in (0, 1, 2):
                for part in range(4):
                    d = 4 + t
                    out.append(("seq", frame, reset, 2, pre, d, part, 4))
            # three ancillas, all of GL(3,2)
            n = 16 if t else 4
            for part in range(n):
                out.append(("gl3", frame, reset, part, n))
            for part in range(2):
                out.append(("seq", frame, reset, 3, 3, 2 + t, part, 2))
            out.append(("forms", frame, reset))
            # four ancillas in two groups
            out.append(("groups", frame, reset, 3 if t else 2))
            # long histories and many ancillas
            for pre in range(3):
                out.append(("long", frame, reset, pre, 3 if t else 2, 24 if t else 12))
            for n in (5, 8, 12) + ((20,) if t else ()):
                out.append(("wide", frame, reset, n))
    return out


# ------------------------------------------------------------------ linear algebra
def gl(n):
    """All invertible matrices as tuples of row masks."""
    out = []

    def rec(rows, span):
        if len(rows) == n:
            out.append(tuple(rows))
            return
        for v in range(1, 2**n):
            if v not in span:
                rec(rows + [v], span | {s ^ v for s in span})

    rec([], {0})
    return out


def eye(n):
    return tuple(1 << i for i in range(n))


def mul(a, b):
    """(a b) as row masks."""
    out = []
    for r in a:
        v = 0
        for j in range(len(b)):
            if r >> j & 1:
                v ^= b[j]
        out.append(v)
    return tuple(out)


def inv(a):
    n = len(a)
    rows = [(a[i], 1 << i) for i in range(n)]
    for c in range(n):
        p = next(i for i in range(c, n) if rows[i][0] >> c & 1)
        rows[c], rows[p] = rows[p], rows[c]
        for i in range(n):
            if i != c and rows[i][0] >> c & 1:
                rows[i] = (rows[i][0] ^ rows[c][0], rows[i][1] ^ rows[c][1])
    return tuple(r[1] for r in rows)


# ------------------------------------------------------------------ reference
class Ref:
    """Specification of the detectors."""

    def __init__(self, labels, frame, reset, coords):
        self.labels, self.frame, self.reset, self.coords = labels, frame, reset, coords
        self.n = len(labels)
        self.active = frozenset()
        self.out = {}  # label -> tuple of outcome ids since the activation
        self.u = eye(self.n)
        self.rounds = 0

    def copy(self):
        r = Ref(self.labels, self.frame, self.reset, self.coords)
        r.active, r.out, r.u, r.rounds = (
            self.active,
            dict(self.out),
            self.u,
            self.rounds,
        )
        return r

    def activate(self, s):
        self.active |= set(s)
        for a in s:
            self.out[a] = ()

    def linked(self, s):
        """Does the pending update link the ancillas in ``s`` with other ones?"""
        ins = {self.labels.index(a) for a in s}
        for i in range(self.n):
            for j in range(self.n):
                if (self.u[i] >> j & 1) and ((i in ins) != (j in ins)):
                    return True
        return False

    def deactivate(self, s):
        self.active -= set(s)
        u = list(self.u)
        for a in s:
            i = self.labels.index(a)
            u = [r & ~(1 << i) for r in u]
            u[i] = 1 << i
        self.u = tuple(u)

    def update(self, m):
        self.u = mul(m, self.u)

    def syn(self, a, k=-1):
        """Outcomes that give the k-th last syndrome of an ancilla, empty if it
        has not been measured."""
        o = self.out.get(a, ())
        if len(o) < -k:
            return frozenset()
        s = frozenset([o[k]])
        if not self.reset and len(o) >= 1 - k:
            s ^= frozenset([o[k - 1]])
        return s

    def round(self, new, requested):
        """``new``: outcome id of every active ancilla.  Returns the multiset of
        detectors {(coords, outcomes)}."""
        old = {a: self.syn(a) for a in self.active}
        for a in self.active:
            self.out[a] = self.out[a] + (new[a],)
        cur = {a: self.syn(a) for a in self.active}
        ui = inv(self.u)
        dets = []
        for i, a in enumerate(self.labels):
            v = frozenset()
            if a in self.active and (requested is None or a in requested):
                if self.frame == "gate-independent":
                    v = cur[a] ^ old[a]
                elif self.frame == "post-gate":
                    v = cur[a]
                    for j, b in enumerate(self.labels):
                        if self.u[i] >> j & 1:
                            v ^= old[b]
                else:
                    v = old[a]
                    for j, b in enumerate(self.labels):
                        if ui[i] >> j & 1:
                            v ^= cur[b]
            dets.append(((*map(float, self.coords[a]), float(self.rounds)), v))
        self.rounds += 1
        self.u = eye(self.n)
        return dets

    def readout(self, parity, requested):
        """``parity``: outcome ids whose parity is the stabilizer, for all stabilizers
        that can be reconstructed."""
        dets = []
        for a, p in parity.items():
            i = self.labels.index(a)
            v = frozenset()
            if a in self.active and (requested is None or a in requested):
                v = frozenset(p)
                if self.frame == "gate-independent":
                    v ^= self.syn(a)
                else:
                    for j, b in enumerate(self.labels):
                        if self.u[i] >> j & 1 and b in self.active:
                            v ^= self.syn(b)
            dets.append(((*map(float, self.coords[a]), self.rounds - 0.5), v))
        self.u = eye(self.n)
        return dets


class Pair:
    """Real object and reference in lockstep."""

    def __init__(self, labels, frame, reset, coords, seq=list):
        self.labels = list(labels)
        self.reset = reset
        self.coords = coords
        self.frame = frame
        self.det = Detectors(
            seq(labels), frame, anc_coords=None if coords is None else dict(coords)
        )
        self.ref = Ref(
            self.labels, frame, reset, coords or {a: () for a in self.labels}
        )
        self.meas = []
        self.hist = ()

    def copy(self):
        p = Pair.__new__(Pair)
        p.labels, p.reset, p.coords, p.frame = (
            self.labels,
            self.reset,
            self.coords,
            self.frame,
        )
        p.det = deepcopy(self.det)
        p.ref = self.ref.copy()
        p.meas = list(self.meas)
        p.hist = self.hist
        return p

    def get_rec(self, q, rel):
        k = 0
        for pos in range(len(self.meas) - 1, -1, -1):
            if self.meas[pos] == q:
                k += 1
                if k == -rel:
                    return stim.target_rec(pos - len(self.meas))
        raise KeyError(f"measurement {rel} of {q} does not exist")

    def parse(self, circ):
        out = []
        for ins in circ:
            if ins.name != "DETECTOR":
                raise AssertionError(f"{ins.name} in the detectors")
            v = frozenset()
            for t in ins.targets_copy():
                v ^= frozenset([len(self.meas) + t.value])
            out.append((tuple(ins.gate_args_copy()), v))
        return out

    def do(self, op):
        """Applies the operation, returns an error message or None."""
        self.hist += (op,)
        o = op[0]
        got = want = None
        if o == "A":
            self.det.activate_detectors(op[1])
            self.ref.activate(op[1])
        elif o == "D":
            self.det.deactivate_detectors(op[1])
            self.ref.deactivate(op[1])
        elif o == "N":
            self.det.new_circuit()
            self.ref = Ref(self.labels, self.frame, self.reset, self.ref.coords)
        elif o == "U":
            self.update(op[1], op[2])
            self.ref.update(op[1])
        elif o == "R":
            # ancillas are measured in an order unrelated to the one of the object
            new = {}
            for a in sorted(self.ref.active, reverse=True):
                new[a] = len(self.meas)
                self.meas.append(a)
            c = self.det.build_from_anc(self.get_rec, self.reset, *op[1:2])
            got = self.parse(c)
            want = self.ref.round(new, op[1] if len(op) > 1 else None)
        elif o == "M":
            _, group, recon, req = op
            sup, par = {}, {}
            base = len(self.meas)
            data = [f"D{k}" for k in range(self.ref.n + 1)]
            self.meas += data
            for i, a in enumerate(self.labels):
                sup[a] = [data[i], data[i + 1]]
                if a in recon:
                    par[a] = (base + i, base + i + 1)
            sup = {a: sup[a] for a in self.labels if a in group}
            c = self.det.build_from_data(
                self.get_rec,
                sup,
                self.reset,
                reconstructable_stabs=list(recon),
                anc_qubits=req,
            )
            got = self.parse(c)
            want = self.ref.readout(par, req)
            act = [a for a in group if a in self.ref.active]
            self.det.deactivate_detectors(act)
            self.ref.deactivate(act)
        if got is not None:
            key = lambda d: (d[0], sorted(d[1]))
            g, w = sorted(got, key=key), sorted(want, key=key)
            if g != w:
                return f"detectors {_show(g, self)} instead of {_show(w, self)}"
        return None

    def update(self, m, form):
        n = len(self.labels)
        rows = {
            self.labels[i]: [self.labels[j] for j in range(n) if m[i] >> j & 1]
            for i in range(n)
        }
        if form == 0:  # dictionary without the unchanged generators
            self.det.update_from_dict({a: r for a, r in rows.items() if r != [a]})
        elif form == 1:  # full dictionary, other orders
            self.det.update_from_dict(
                {a: tuple(reversed(rows[a])) for a in reversed(self.labels)}
            )
        else:  # matrix; form = ("m", row order, column order, transposed)
            _, ro, co, tr = form
            rl = [self.labels[i] for i in ro]
            cl = [self.labels[i] for i in co]
            arr = np.array([[int(c in rows[r]) for c in cl] for r in rl])
            da = xr.DataArray(
                arr,
                dims=["new_stab_gen", "stab_gen"],
                coords=dict(new_stab_gen=rl, stab_gen=cl),
            )
            self.det.update(da.transpose() if tr else da)


def _show(dets, p):
    return [
        (c, sorted(f"{p.meas[i]}#{p.meas[:i + 1].count(p.meas[i])}" for i in v))
        for c, v in dets
    ]


# ------------------------------------------------------------------ exploration
def step(p, op, res, case, copy=True):
    q = p.copy() if copy else p
    try:
        err = q.do(op)
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    res.count("transitions")
    res.count("states")
    if err:
        res.fail(f"{case[:4]}:{q.hist}", f"{case[:4]} history {q.hist}: {err}")
        return None
    return q


def subsets(s, nonempty=True):
    s = sorted(s)
    return [c for r in range(nonempty, len(s) + 1) for c in combinations(s, r)]


COORDS = {"Z2": (0, -1.5), "X1": (2.0, 3), "A10": (2.0, 3.5), "B": (7, 0)}


def names(n):
    # not in lexicographic order
    L = ["Z2", "X1", "A10", "B"]
    return (L + [f"{'ZX'[k % 2]}{(7 * k) % 23}" for k in range(4, n)])[:n]


def embed(mats, labels, active):
    """Matrices of GL(|active|,2) on the active ancillas, identity elsewhere."""
    idx = [labels.index(a) for a in active]
    out = []
    for m in mats:
        full = list(eye(len(labels)))
        for i, r in zip(idx, m):
            v = 0
            for k, j in enumerate(idx):
                if r >> k & 1:
                    v |= 1 << j
            full[i] = v
        out.append(tuple(full))
    return out


GL = {}


def alphabet(p, last):
    ref = p.ref
    act = sorted(ref.active, key=ref.labels.index)
    inact = [a for a in ref.labels if a not in ref.active]
    n = len(act)
    ops = [("A", s) for s in subsets(inact)]
    if n:
        if last:
            ops += [("R", list(s)) for s in subsets(ref.labels, False)]
        ops += [("R", None)]
        if not last:
            ops.append(("R", [act[0]]))
        if not last:
            if n not in GL:
                GL[n] = [m for m in gl(n) if m != eye(n)]
            mats = GL[n] if n < 3 else [GL[3][k] for k in (3, 40, 77, 120, 160)]
            ops += [
                ("U", m, (len(p.hist) + i) % 2)
                for i, m in enumerate(embed(mats, ref.labels, act))
            ]
            for s in subsets(act):
                if not ref.linked(s):
                    ops.append(("D", s))
            ops.append(("N",))
        for g in subsets(act):
            closed = ref.u == eye(ref.n) or set(g) == ref.active
            if not (last or closed):
                continue
            for recon in [g] if not last else subsets(g):
                ops.append(("M", g, recon, None))
                if last:
                    ops.append(("M", g, recon, list(g[1:])))
    else:
        ops.append(("R", None))
    return ops


def dfs(p, left, res, case, part=0, parts=1):
    if len(res.viol) > 5:
        return
    for op in alphabet(p, left == 1)[part::parts]:
        q = step(p, op, res, case)
        if q is None:
            continue
        if op[0] in "RM":
            res.count("traces_validated_against_impl")
        if left > 1:
            # a history with an unmeasured update left behind by a read-out ends
            dfs(q, left - 1, res, case)


def run_case(case, res, tier):
    kind, frame, reset = case[:3]
    if kind == "seq":
        _, _, _, n, pre, depth, part, parts = case
        p = Pair(names(n), frame, reset, COORDS_OF(n))
        hist = {
            0: [],
            1: [("A", names(n)), ("R", None)],
            2: [("A", names(n)[:1]), ("R", None), ("R", None), ("A", names(n)[1:])],
            3: [("A", names(n)), ("R", None), ("R", None)],
        }[pre]
        for op in hist:
            p = step(p, op, res, case)
            if p is None:
                return
        dfs(p, depth, res, case, part, parts)
        res.sample(dict(config=str(case), first=str(alphabet(p, False)[:3])))
    elif kind == "gl3":
        gl3(case, res, tier)
    elif kind == "forms":
        forms(case, res)
    elif kind == "long":
        long(case, res)
    elif kind == "wide":
        wide(case, res)
    else:
        groups(case, res)


def COORDS_OF(n):
    return {a: COORDS.get(a, (k, 2.5 * k)) for k, a in enumerate(names(n))}


def chain(p, ops, res, case):
    if p is None:
        return None
    p = p.copy()
    for op in ops:
        p = step(p, op, res, case, copy=False)
        if p is None:
            return None
    res.count("traces_validated_against_impl")
    return p


def gl3(case, res, tier):
    """Every matrix of GL(3,2) before the first, the second and the last comparison,
    composed with a second update."""
    _, frame, reset, part, parts = case
    L = names(3)
    mats = gl(3)
    gens = [mats[3], mats[100]] if tier == "quick" else mats[::12]
    p0 = chain(Pair(L, frame, reset, COORDS_OF(3)), [("A", L)], res, case)
    p1 = p0 and chain(p0, [("R", None)], res, case)
    p2 = p1 and chain(p1, [("U", mats[50], 0), ("R", None)], res, case)
    if not p2:
        return
    for k, m in list(enumerate(mats))[part::parts]:
        if len(res.viol) > 5:
            return
        for p in (p0, p1, p2):
            q = chain(p, [("U", m, k % 2)], res, case)
            if q is None:
                continue
            r = chain(q, [("R", None)], res, case)
            chain(q, [("M", L, L[:2], None)], res, case)
            if r is not None:
                chain(r, [("R", None), ("M", L, L[1:], None)], res, case)
        for g in gens:
            chain(p1, [("U", m, 1), ("U", g, 0), ("R", None), ("R", None)], res, case)
    res.sample(dict(config=str(case), matrices=len(mats[part::parts])))


def forms(case, res):
    """Labelled matrices in every order of rows, columns and dimensions, labels in any
    order and container, without coordinates."""
    _, frame, reset = case
    mats = gl(3)
    for k, lab in enumerate(permutations(names(3))):
        for coords in (None, {a: COORDS[a] for a in reversed(lab)}):
            p = Pair(lab, frame, reset, coords, tuple if k % 2 else list)
            p = chain(p, [("A", lab), ("R", None)], res, case)
            if p is None:
                return
            for i, (ro, co, tr) in enumerate(
                product(permutations(range(3)), permutations(range(3)), (0, 1))
            ):
                m = mats[(7 * i + 31 * k) % len(mats)]
                m2 = mats[(11 * i + 5 * k) % len(mats)]
                chain(
                    p,
                    [
                        ("U", m, ("m", ro, co, tr)),
                        ("U", m2, ("m", co, ro, 1 - tr)),
                        ("R", None),
                        ("R", None),
                    ],
                    res,
                    case,
                )
                if len(res.viol) > 5:
                    return
    res.sample(dict(config=str(case)))


def long(case, res):
    """Every word over a small alphabet, repeated up to a large number of steps."""
    _, frame, reset, pre, width, length = case
    L = names(3)
    e = eye(3)
    cyc = (2, 4, 1)
    cx = (1 | 2, 2, 4)
    back = [("A", (L[0],)), ("A", (L[1],))]
    macro = {
        "r": [("R", None)],
        "q": [("R", [L[1]])],
        "c": [("U", cyc, 0), ("R", None)],
        "x": [("U", cx, 1), ("R", None)],
        "u": [("U", cx, 0)],
        "m": [("R", None), ("M", tuple(L[:2]), (L[0],), None)] + back,
        "d": [("R", None), ("D", (L[2],)), ("R", None), ("A", (L[2],))],
        "n": [("N",), ("A", tuple(L))],
    }
    start = [
        [("A", tuple(L))],
        [("A", tuple(L))] + [("R", None)] * 7,
        [("A", (L[2],)), ("R", None), ("R", None), ("A", (L[0], L[1]))],
    ][pre]
    for w in range(1, width + 1):
        for word in product(macro, repeat=w):
            if len(res.viol) > 5:
                return
            if "r" not in word and "u" in word and ("m" in word or "d" in word):
                continue
            p = chain(Pair(L, frame, reset, COORDS_OF(3)), start, res, case)
            if p is None:
                return
            for k in range(length):
                m = word[k % w]
                if m in "md" and p.ref.u != e:
                    p = chain(p, [("R", None)], res, case)
                p = p and chain(p, macro[m], res, case)
                if p is None or len(p.hist) > 3 * length:
                    break
            if p is not None:
                chain(p, [("R", None), ("M", tuple(L), tuple(L), None)], res, case)
    res.sample(dict(config=str(case)))


def wide(case, res):
    """Many ancillas: every elementary update, and updates on every part of them."""
    _, frame, reset, n = case
    L = names(n)
    e = eye(n)
    up = [
        tuple(r ^ (1 << j if k == i else 0) for k, r in enumerate(e))
        for i in range(n)
        for j in range(n)
        if i != j
    ]
    tri = tuple((1 << (i + 1)) - 1 for i in range(n))
    rot = tuple(1 << (i + 3) % n for i in range(n))
    up += [tri, rot, mul(tri, rot), mul(rot, inv(tri)), mul(inv(tri), tri[::-1])]
    p0 = chain(Pair(L, frame, reset, COORDS_OF(n)), [("A", L), ("R", None)], res, case)
    if p0 is None:
        return
    for k, m in enumerate(up):
        if len(res.viol) > 5:
            return
        q = chain(p0, [("U", m, k % 2), ("R", None)], res, case)
        if q is None:
            continue
        chain(q, [("U", tri, 0), ("M", L, L[k % n :], None)], res, case)
        if k % 7 == 0:
            chain(q, [("U", m, 1), ("R", L[: k % n])] + [("R", None)] * 3, res, case)
    for k in range(1, n):
        on, off = L[:k], L[k:]
        p = chain(Pair(L, frame, reset, COORDS_OF(n)), [("A", on)], res, case)
        m = tuple((1 << (i + 1)) - 1 if i < k else 1 << i for i in range(n))
        chain(
            p,
            [("R", None), ("U", m, 1), ("R", None), ("A", off), ("U", m, 0)]
            + [("R", on), ("U", tri, 0), ("R", None), ("D", on), ("R", None)]
            + [("A", on[::-1]), ("R", None), ("U", rot, 0), ("R", None)]
            + [("M", off, off, None)],
            res,
            case,
        )
    res.sample(dict(config=str(case)))


def groups(case, res):
    """Two groups of two ancillas: gates inside and between the groups, groups that
    come and go."""
    _, frame, reset, depth = case
    L = names(4)
    g = [L[:2], L[2:]]
    e = eye(4)

    def cx(i, j):
        m = list(e)
        m[i] ^= 1 << j
        return tuple(m)

    swap = (2, 1, 4, 8)
    ups = {
        (0,): [cx(0, 1), swap],
        (1,): [cx(3, 2)],
        (0, 1): [mul(cx(0, 2), cx(3, 1)), mul(cx(2, 0), cx(1, 3))],
    }

    def rec(p, left):
        if len(res.viol) > 5:
            return
        on = tuple(k for k in (0, 1) if g[k][0] in p.ref.active)
        ops = [("A", tuple(g[k])) for k in (0, 1) if k not in on]
        if on:
            ops.append(("R", None))
            for ks, ms in ups.items():
                if set(ks) <= set(on):
                    ops += [("U", m, 0) for m in ms]
            for k in on:
                other = [a for a in p.ref.active if a not in g[k]]
                clean = all(
                    p.ref.u[i] == 1 << i for i in range(4) if L[i] in other
                ) and not p.ref.linked(g[k])
                if clean or not other:
                    ops.append(("M", tuple(g[k]), tuple(g[k][:1]), None))
                if not p.ref.linked(g[k]):
                    ops.append(("D", tuple(g[k])))
            if len(on) == 2:
                ops.append(("M", tuple(L), (L[1], L[2]), None))
        for op in ops:
            q = step(p, op, res, case)
            if q is None:
                continue
            if op[0] in "RM":
                res.count("traces_validated_against_impl")
            if left > 1:
                rec(q, left - 1)

    for pre in (
        [("A", tuple(g[0])), ("R", None)],
        [("A", tuple(L)), ("R", None)],
        [("A", tuple(g[1])), ("R", None), ("A", tuple(g[0])), ("R", None)],
    ):
        p = Pair(L, frame, reset, COORDS_OF(4))
        p = chain(p, pre, res, case)
        if p is not None:
            rec(p, depth + 1)
