"""Enumeration of all single faults of memory experiments.  For every family, size (also
with the qubits of the layout in all or many orders), basis, reset policy and number of
rounds and shots, the real memory circuit is sampled with ``sample_memory_experiment`` after
making exactly one fault certain: (1) the outcome of one measurement is flipped (all
measurements), (2) a Pauli error acts on one qubit at one time step (all qubits, time steps,
X and Z).  Which outcomes the fault flips and which outcomes are determined at all is
computed exactly by Pauli frames over all coins; the dataset must show it under the labels
of the qubits, in all shots.  All noise is certain, so nothing is sampled: outcomes that are
random are not compared, except that a purely measuring circuit with the same measurement
record makes all of them determined."""

from copy import deepcopy
from itertools import permutations

import numpy as np
import stim

from surface_sim import Layout
from surface_sim.util import sample_memory_experiment

from .exper import Setting
from .frames import ANNOT, MEAS, Frame
from .lib import inv_names, make_detectors, make_model

LEVEL = "fault_enumeration"
RULE = (
    "one evaluation = one dataset of a memory circuit with one certain fault, all "
    "entries compared; non-trivial = the fault flips at least one determined outcome"
)
FAMS = ("css", "css_pip", "xzzx", "xzzx_pip", "google", "unrot")


def cases(tier):
    t = tier == "thorough"
    out = []
    for fam in FAMS:
        sizes = [(2, 2), (2, 3), (3, 2), (3, 3)]
        if fam == "unrot":
            sizes = [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if t else [])
        elif t:
            sizes += [(3, 4), (4, 3)]
        for dx, dz in sizes:
            big = dx * dz > 6 or (fam == "unrot" and dx * dz > 4)
            for order in ("plain", "reversed", "mixed", "ancfirst"):
                if big and order in ("reversed", "ancfirst"):
                    continue
                for rot in (False, True):
                    for reset in (True, False):
                        if fam == "google" and not reset:
                            continue
                        for n in (0, 1, 2, 3) if not big else (2,):
                            if fam == "google" and n == 0:
                                continue
                            out.append(("mem", fam, dx, dz, order, rot, reset, n))
        for p in range(6):
            out.append(("perm", fam, p))
        out.append(("shape", fam))
        # many rounds, shots and qubits
        size = (2, 3) if fam != "unrot" else (2, 2)
        large = (5, 5) if fam != "unrot" else (4, 4)
        for order in ("plain", "mixed"):
            for rot in (False, True):
                out.append(("large", fam, *size, order, rot, 14, (1, 300)))
                out.append(("large", fam, *large, order, rot, 1, (2, 11)))
                if t:
                    out.append(("large", fam, *large, order, rot, 4, (3, 1)))
    return out


def shuffled(layout, order):
    d = layout.to_dict()
    q = d["layout"]
    if order == "reversed":
        q = q[::-1]
    elif order == "mixed":
        q = q[1::2] + q[::-2] if len(q) % 2 == 0 else q[1::2][::-1] + q[0::2]
    elif order == "ancfirst":
        q = [x for x in q if x["role"] == "anc"][::-1] + [
            x for x in q if x["role"] == "data"
        ][::-1]
    elif isinstance(order, tuple):
        anc = [x for x in q if x["role"] == "anc"]
        data = [x for x in q if x["role"] == "data"]
        q = [anc[i] for i in order]
        # data qubits in between
        k = len(data) // 2
        q = data[k:][::-1] + q[:2] + data[:k] + q[2:]
    assert sorted(x["qubit"] for x in q) == sorted(x["qubit"] for x in d["layout"])
    d["layout"] = q
    return Layout(d)


class Exp:
    def __init__(self, fam, dx, dz, order, rot, reset, n, model="noiseless"):
        s = Setting("mem", fam, dx, dz)
        self.layout = shuffled(s.layouts[0], order)
        l = self.layout
        self.inds = l.qubit_inds()
        m = make_model(model, dict(self.inds))
        d = make_detectors([l], "post-gate")
        init = {q: 0 for q in l.get_qubits(role="data")}
        s.inds = self.inds
        self.circ = s.call(m, d, (n,), init, rot, reset, layouts=[l])
        self.n = n
        self.names = inv_names(self.inds)
        self.anc = l.get_qubits(role="anc")
        self.data = l.get_qubits(role="data")
        # label of every measurement, from the circuit itself
        self.labels = []
        cnt = {}
        for ins in self.circ.flattened():
            if ins.name in MEAS:
                for t in ins.targets_copy():
                    q = self.names[t.value]
                    cnt[q] = cnt.get(q, 0) + 1
                    self.labels.append((q, cnt[q]))


class Table:
    """Entries of a variable by the labels of the dataset."""

    def __init__(self, ds, var):
        order = [d for d in ("shot", "qec_round", "anc_qubit", "data_qubit")]
        dims = [d for d in order if d in ds[var].dims]
        self.a = ds[var].transpose(*dims).values
        self.pos = [
            {x: i for i, x in enumerate(ds[d].values.tolist())}
            for d in dims
            if d != "shot"
        ]

    def __call__(self, *labels):
        return self.a[(..., *(p[x] for p, x in zip(self.pos, labels)))]


def sample(e, circ, shots, seed=7):
    return sample_memory_experiment(e.layout, circ, shots, e.n, seed)


def check_dataset(e, circ, flips, value, determined, shots, ideal=None):
    """``value[k]`` is the noiseless outcome, ``flips`` the set of flipped outcomes."""
    ds = sample(e, circ, shots)
    data = set(e.data)
    bad = shape(ds, e, shots)
    if bad:
        return bad
    anc, dat = Table(ds, "anc_meas"), Table(ds, "data_meas")
    ianc, idat = Table(ds, "ideal_anc_meas"), Table(ds, "ideal_data_meas")
    for k, lab in enumerate(e.labels):
        if not determined[k]:
            continue
        q, r = lab
        got = dat(q) if q in data else anc(r, q)
        want = bool(value[k]) ^ (k in flips)
        if got.shape != (shots,) or not (got == want).all():
            return f"outcome of {lab} is {got}, not {want}"
        iv = idat(q) if q in data else ianc(r, q)
        if iv.shape != () or bool(iv) != bool(value[k]):
            return f"ideal outcome of {lab} is {iv}, not {bool(value[k])}"
    return None


def shape(ds, e, shots):
    want = dict(
        anc_meas=("shot", "qec_round", "anc_qubit"),
        data_meas=("shot", "data_qubit"),
        ideal_anc_meas=("qec_round", "anc_qubit"),
        ideal_data_meas=("data_qubit",),
    )
    if set(ds.data_vars) != set(want):
        return f"variables {sorted(ds.data_vars)}"
    for v, dims in want.items():
        if set(ds[v].dims) != set(dims):
            return f"dimensions of {v}: {ds[v].dims}"
    co = dict(
        shot=list(range(shots)),
        qec_round=list(range(1, e.n + 1)),
        anc_qubit=list(e.anc),
        data_qubit=list(e.data),
    )
    for c, v in co.items():
        if list(ds[c].values) != v:
            return f"coordinate {c}: {list(ds[c].values)} instead of {v}"
    return None


def determined_outcomes(circ):
    fr = Frame()
    fr.apply(circ)
    return [m == 0 for m in fr.meas]


def flip_one(circ, k):
    """Circuit in which outcome k is reported flipped with certainty."""
    out = stim.Circuit()
    cnt = 0
    for ins in circ.flattened():
        if ins.name in MEAS:
            for t in ins.targets_copy():
                if cnt == k:
                    out.append(ins.name, [t], 1.0)
                else:
                    out.append(ins.name, [t])
                cnt += 1
        elif ins.name not in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            out.append(ins)
    return out


def measuring_only(circ):
    """Circuit with the same measurement record in which every qubit stays in |0>."""
    out = stim.Circuit()
    for ins in circ.flattened():
        if ins.name in MEAS:
            out.append("M", ins.targets_copy())
        elif ins.name == "TICK":
            out.append(ins)
    return out


def steps(circ):
    """Instructions by time step, without detectors."""
    out = [[]]
    for ins in circ.flattened():
        if ins.name == "TICK":
            out.append([])
        elif ins.name not in ANNOT:
            out[-1].append(ins)
    return out


def faulty(st, at, q, pauli):
    c = stim.Circuit()
    for i, s in enumerate(st):
        if i:
            c.append("TICK", [])
        if i == at:
            c.append(f"{pauli}_ERROR", [q], 1.0)
        for ins in s:
            c.append(ins)
    return c


def propagate(st, at, q, pauli):
    fr = Frame()
    b = None
    for i, s in enumerate(st):
        if i == at:
            b = fr.inject(q, pauli)
        c = stim.Circuit()
        for ins in s:
            c.append(ins)
        fr.apply(c)
    return {k for k, m in enumerate(fr.meas) if m & b}


def run_case(case, res, tier):
    if case[0] == "shape":
        return run_shape(case, res)
    if case[0] == "large":
        _, fam, dx, dz, order, rot, n, shots = case
        e = Exp(fam, dx, dz, order, rot, True, n)
        measurement_flips(e, str(case), res, shots)
        return
    if case[0] == "perm":
        _, fam, p = case
        dx, dz = 2, 2
        na = 3 if fam != "unrot" else 4
        orders = list(permutations(range(na)))[p::6]
        for o in orders:
            for rot in (False, True):
                e = Exp(fam, dx, dz, o, rot, True, 2)
                if not measurement_flips(e, f"{case}:{o}:{rot}", res, (2,)):
                    return
        return
    _, fam, dx, dz, order, rot, reset, n = case
    e = Exp(fam, dx, dz, order, rot, reset, n)
    if not measurement_flips(e, str(case), res, (1, 3)):
        return
    # Pauli faults in every time step
    if tier == "quick" and (order in ("reversed", "ancfirst") or n in (0, 3)):
        return
    st = steps(e.circ)
    base = stim.Circuit()
    for i, s in enumerate(st):
        if i:
            base.append("TICK", [])
        for ins in s:
            base.append(ins)
    det = determined_outcomes(base)
    ref = base.reference_sample()
    big = dx * dz > 6
    for at in range(len(st)):
        if big and tier == "quick" and at % 2:
            continue
        for q in sorted(e.names):
            for p in "XZ":
                fl = propagate(st, at, q, p)
                err = check_dataset(e, faulty(st, at, q, p), fl, ref, det, 2)
                res.count("evaluations")
                res.count("faults")
                res.count("distinct_nontrivial", int(any(det[k] for k in fl)))
                if err:
                    res.fail(
                        f"{case}:{at}:{q}:{p}",
                        f"{case} with {p} on {e.names[q]} in step {at}: {err}",
                    )
                    return
    res.sample(dict(config=str(case), steps=len(st), outcomes=len(ref)))


def measurement_flips(e, key, res, shots):
    mo = measuring_only(e.circ)
    for real in (False, True):
        circ = flip_one(e.circ, -1) if real else mo
        det = determined_outcomes(circ) if real else [True] * len(e.labels)
        ref = circ.reference_sample() if real else [False] * len(e.labels)
        for k in range(-1, len(e.labels)):
            c = flip_one(circ, k)
            if not real and k < 0:
                c = circ
            err = check_dataset(
                e, c, {k} if k >= 0 else set(), ref, det, shots[(k + 1) % len(shots)]
            )
            res.count("evaluations")
            res.count("faults", int(k >= 0))
            res.count("distinct_nontrivial", int(k >= 0 and det[k]))
            if err:
                lab = e.labels[k] if k >= 0 else None
                res.fail(f"{key}:{real}:{k}", f"{key}: flip of {lab}: {err}")
                return False
    return True


def run_shape(case, res):
    """Numbers of shots and rounds, seeds."""
    fam = case[1]
    for n in range(0 if fam != "google" else 1, 6):
        e = Exp(fam, 2, 3, "plain", False, True, n, model="circuit")
        for shots in (1, 2, 3, 7):
            for seed in (None, 0, 1, 12345):
                ds = sample_memory_experiment(e.layout, e.circ, shots, n, seed)
                res.count("evaluations")
                err = shape(ds, e, shots)
                got = ds["seed"].values.item()
                if not err and got != seed:
                    err = f"seed {got} instead of {seed}"
                if not err and seed is not None:
                    d2 = sample_memory_experiment(
                        e.layout, e.circ, num_shots=shots, num_rounds=n, seed=seed
                    )
                    if not ds.equals(d2):
                        err = "the same seed gives different data"
                if err:
                    return res.fail(f"{case}:{n}:{shots}:{seed}", f"{case} {n}: {err}")
    res.sample(dict(config=str(case)))
