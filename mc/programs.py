"""Logical programs executed on the real code, with exact tracking of the noiseless
outcomes.

A state of the exploration is (model, detectors, frame, active layouts, ...); an
operation of the logical alphabet applies the real building block to (copies of) the
real ``Model`` and ``Detectors`` objects and propagates the frames through the returned
circuit."""

from copy import copy, deepcopy

import stim

from surface_sim.log_gates import rot_surface_code_css, unrot_surface_code_css
from surface_sim.util import merge_log_meas, merge_qec_rounds

from .frames import Frame, MEAS, Span
from .lib import (
    FAM,
    corners,
    exchanged,
    logical,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
    rotated_data,
    shuffled,
    stabilizer,
    to_inds,
)

VARIANT = dict(exchanged=exchanged, shuffled=shuffled)
LOG_GATES = {"rot": rot_surface_code_css, "unrot": unrot_surface_code_css}


class World:
    """Fixed part of an exploration."""

    def __init__(
        self,
        fam,
        dx,
        dz,
        nlay,
        frame,
        reset,
        gates=True,
        merge1=False,
        model="noiseless",
        variant=None,
    ):
        self.fam = fam
        self.code, self.mod = FAM[fam]
        self.reset = reset
        self.frame = frame
        self.merge1, self.variant = merge1, variant
        self.layouts = [make_layout(self.code, dx, dz, k) for k in range(nlay)]
        if variant:
            self.layouts = [VARIANT[variant](l) for l in self.layouts]
        self.gates = set()
        if gates:
            g = LOG_GATES[self.code]
            if self.code == "rot" and dz == dx + 1 and variant != "exchanged":
                for l in self.layouts:
                    g.set_trans_s(l, "D1" if l is self.layouts[0] else corners(l)[0])
                self.gates.add("S")
            if self.code == "unrot" and dx == dz:
                for l in self.layouts:
                    c = corners(l)[0]
                    g.set_trans_s(l, c)
                    g.set_trans_h(l, c)
                self.gates |= {"S", "H"}
            for a in range(nlay):
                for b in range(nlay):
                    if a != b:
                        g.set_trans_cnot(self.layouts[a], self.layouts[b])
                        self.gates.add("CX")
        self.inds = qubit_inds(*self.layouts)
        self.model_kind = model
        self.rot = [rotated_data(l, fam) for l in self.layouts]
        self.stabs = [
            {
                a: to_inds(stabilizer(l, a, r), self.inds)
                for a in l.get_qubits(role="anc")
            }
            for l, r in zip(self.layouts, self.rot)
        ]
        self.log = [
            {p: to_inds(logical(l, p, r), self.inds) for p in "XZ"}
            for l, r in zip(self.layouts, self.rot)
        ]
        self.data = [l.get_qubits(role="data") for l in self.layouts]

    def start(self, keep_circuit=False):
        n = Node()
        n.keep_circuit = keep_circuit
        n.circ = stim.Circuit()
        n.w = self
        n.model = make_model(self.model_kind, dict(self.inds))
        n.model.new_circuit()
        n.det = make_detectors(
            self.layouts, self.frame, reverse=self.variant == "shuffled"
        )
        n.det.new_circuit()
        n.fr = Frame()
        n.active = ()
        n.unknown = {}
        n.pending = frozenset()
        n.dets = []
        n.vecs = []
        n.obs = {}
        n.hist = ()
        n.fresh = frozenset()
        n.product = False
        return n


class Node:
    keep_circuit = False

    def child(self):
        n = copy(self)
        n.model = deepcopy(self.model)
        n.det = deepcopy(self.det)
        n.fr = self.fr.copy()
        n.unknown = dict(self.unknown)
        n.vecs = list(self.vecs)
        n.obs = dict(self.obs)
        n.dets = list(self.dets)
        return n

    # ------------------------------------------------------------------ alphabet
    def legal(self, multi=True):
        """Operations that a user may apply next."""
        w = self.w
        ops = []
        for k in range(len(w.layouts)):
            if k not in self.active:
                ops += [("I", k, 0), ("I", k, 1)]
        if self.active:
            ops.append(("R",))
        for k in self.active:
            ops += [("X", k), ("Z", k)]
            if "S" in w.gates:
                ops.append(("S", k))
            if "H" in w.gates:
                ops.append(("H", k))
        if "CX" in w.gates:
            ops += [("CX", a, b) for a in self.active for b in self.active if a != b]
        ops += self.measurements()
        return ops

    def measurements(self):
        ops = []
        for k in self.active:
            # reading out one layout while a gate on another layout has not been
            # followed by a QEC round is a listed finding, see known_findings.json
            if not (self.pending - {k}):
                ops += [("M", (k,), (0,)), ("M", (k,), (1,))]
        if len(self.active) > 1:
            ks = tuple(self.active)
            for bits in range(2 ** len(ks)):
                ops.append(("M", ks, tuple((bits >> i) & 1 for i in range(len(ks)))))
        return ops

    # ------------------------------------------------------------------ execution
    def build(self, op, data_init=None):
        """Circuit of the operation from the real code."""
        w, mod, m, d = self.w, self.w.mod, self.model, self.det
        L = w.layouts
        o = op[0]
        if o == "I":
            k = op[1]
            init = data_init if data_init is not None else {q: 0 for q in w.data[k]}
            return mod.init_qubits(m, L[k], d, init, rot_basis=bool(op[2]))
        if o == "R":
            if w.fam == "google":
                return mod.qec_round(m, L[self.active[0]], d)
            if len(self.active) == 1 and not w.merge1:
                return mod.qec_round(m, L[self.active[0]], d, anc_reset=w.reset)
            return merge_qec_rounds(
                mod.qec_round_iterator,
                m,
                [L[k] for k in self.active],
                d,
                anc_reset=w.reset,
            )
        if o == "X":
            return mod.log_x(m, L[op[1]], d)
        if o == "Z":
            return mod.log_z(m, L[op[1]], d)
        if o == "S":
            return mod.log_trans_s(m, L[op[1]], d)
        if o == "H":
            return mod.log_trans_h(m, L[op[1]], d)
        if o == "CX":
            return mod.log_trans_cnot(m, L[op[1]], L[op[2]], d)
        if o == "M":
            ks, rb = op[1], op[2]
            if w.fam == "google":
                return mod.qec_round_with_log_meas(
                    m, L[ks[0]], d, rot_basis=bool(rb[0])
                )
            if len(ks) == 1 and not w.merge1:
                return mod.log_meas(
                    m, L[ks[0]], d, rot_basis=bool(rb[0]), anc_reset=w.reset
                )
            return merge_log_meas(
                mod.log_meas_iterator,
                m,
                [L[k] for k in ks],
                d,
                rot_bases=[bool(b) for b in rb],
                anc_reset=w.reset,
            )
        raise ValueError(op)

    def step(self, op, data_init=None):
        """New node after the operation; ``new_dets`` holds the detectors it emitted as
        (coords, measurement vector, coin mask, span of unknown values)."""
        n = self.child()
        w = self.w
        circ = n.build(op, data_init)
        base = len(n.fr.meas)
        n.fr.apply(circ)
        if n.keep_circuit:
            n.circ = self.circ + circ
        n.hist = self.hist + (op,)
        n.new_circ = circ
        o = op[0]

        if o == "I":
            k = op[1]
            n.active = tuple(sorted(self.active + (k,)))
            for a, s in w.stabs[k].items():
                mask = n.fr.anticommuting(s)
                if mask:
                    n.unknown[a] = mask
        unknown = Span(n.unknown.values())
        n.new_dets = []
        n.new_obs = {}
        cnt = base
        for ins in circ.flattened():
            if ins.name in MEAS:
                cnt += len(ins.targets_copy())
            elif ins.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
                vec = 0
                for t in ins.targets_copy():
                    vec ^= 1 << (cnt + t.value)
                mask = n.mask(vec)
                args = ins.gate_args_copy()
                if ins.name == "DETECTOR":
                    n.new_dets.append((tuple(args), vec, mask, unknown))
                    n.vecs.append(vec)
                    n.dets.append((tuple(args), vec))
                else:
                    k = int(args[0])
                    n.new_obs[k] = n.new_obs.get(k, 0) ^ vec
        for k, v in n.new_obs.items():
            n.obs[(len(n.hist), k)] = v
            n.vecs.append(v)
        # bookkeeping of the exploration (not of the code)
        if o == "R":
            n.unknown = {}
            n.pending = frozenset()
            n.fresh = frozenset()
        elif o == "I":
            n.fresh = self.fresh | {op[1]}
        elif o in "SH":
            n.pending = self.pending | {op[1]}
        elif o == "CX":
            n.pending = self.pending | {op[1], op[2]}
        elif o == "M":
            n.active = tuple(k for k in self.active if k not in op[1])
            n.pending = self.pending - set(op[1])
            # a product state that has never been projected on the code has more
            # deterministic parities than those of the code
            n.product = self.product or bool(self.fresh & set(op[1]))
            n.fresh = self.fresh - set(op[1])
            for k in op[1]:
                for a in w.stabs[k]:
                    n.unknown.pop(a, None)
        return n

    def mask(self, vec):
        m, k = 0, 0
        while vec:
            low = vec & -vec
            m ^= self.fr.meas[low.bit_length() - 1]
            vec ^= low
        return m

    # ------------------------------------------------------------------ oracles
    def nondeterministic(self):
        """Emitted detectors whose value is random although it must not be."""
        return [(c, v) for c, v, m, unk in self.new_dets if m != 0 and m not in unk]

    def missing(self):
        """Number of independent deterministic outcome parities that are no product of
        detectors and observables."""
        fr = self.fr
        kernel = len(fr.meas) - Span(fr.meas).rank
        # dim(span(vecs) cap kernel) = rank(vecs) - rank(image of vecs)
        rv = Span(self.vecs).rank
        ri = Span(self.mask(v) for v in self.vecs).rank
        return kernel - (rv - ri)
