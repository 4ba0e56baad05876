"""Uniform access to all experiment functions."""

from .lib import (
    FAM,
    corners,
    experiments,
    gates_module,
    make_detectors,
    make_layout,
    make_model,
    qubit_inds,
)

EXPS = [("mem", f) for f in ("css", "css_pip", "xzzx", "xzzx_pip", "google", "unrot")]
EXPS += [("s", f) for f in ("css", "css_pip", "unrot")]
EXPS += [("h", "unrot")]
EXPS += [("cnot", f) for f in ("css", "unrot")]


class Setting:
    """Layouts and qubits of one experiment."""

    def __init__(self, exp, fam, dx, dz, order=None, **kw):
        self.exp, self.fam = exp, fam
        self.code, self.mod = FAM[fam]
        self.exps = experiments()[fam]
        g = gates_module(self.code)
        n = 2 if exp == "cnot" else 1
        self.layouts = [make_layout(self.code, dx, dz, k, **kw) for k in range(n)]
        for l in self.layouts:
            if exp == "s":
                g.set_trans_s(l, corners(l)[0])
            if exp == "h":
                g.set_trans_h(l, corners(l)[0])
        if exp == "cnot":
            g.set_trans_cnot(self.layouts[0], self.layouts[1])
            g.set_trans_cnot(self.layouts[1], self.layouts[0])
        self.inds = qubit_inds(*self.layouts)
        self.data = [q for l in self.layouts for q in l.get_qubits(role="data")]
        self.anc = [q for l in self.layouts for q in l.get_qubits(role="anc")]
        self.coord = {
            tuple(c): a for l in self.layouts for a, c in l.anc_coords().items()
        }
        self.stab_type = {
            a: l.param("stab_type", a)
            for l in self.layouts
            for a in l.get_qubits(role="anc")
        }

    def model(self, kind="circuit"):
        return make_model(kind, dict(self.inds))

    def detectors(self, frame="post-gate"):
        return make_detectors(self.layouts, frame)

    def call(
        self,
        model,
        det,
        counts,
        init=None,
        rot=False,
        reset=True,
        layouts=None,
        **kw,
    ):
        """``counts`` is (rounds,) for a memory, (gates, rounds per gate) otherwise.
        Only arguments that are given are passed."""
        init = {q: 0 for q in self.data} if init is None else init
        layouts = self.layouts if layouts is None else layouts
        if reset is not None and self.fam != "google":
            kw["anc_reset"] = reset
        if rot is not None:
            kw["rot_basis"] = rot
        if self.exp == "mem":
            f = self.exps.memory_experiment
            return f(model, layouts[0], det, num_rounds=counts[0], data_init=init, **kw)
        f = getattr(self.exps, f"repeated_{self.exp}_experiment")
        kw[f"num_{self.exp}_gates"] = counts[0]
        return f(
            model,
            *layouts,
            detectors=det,
            num_rounds_per_gate=counts[1],
            data_init=init,
            **kw,
        )
