"""Helpers shared by the checks: construction of layouts, models and detectors through
the public API, and a canonical form of circuits that abstracts from everything that is
not behaviour (order of simultaneous operations, splitting of instructions)."""

import os

import stim

from surface_sim import Detectors, Layout, Setup
from surface_sim.layouts import rot_surface_code_rectangle, unrot_surface_code_rectangle
from surface_sim.models import (
    BiasedCircuitNoiseModel,
    CircuitNoiseModel,
    DecoherenceNoiseModel,
    ExperimentalNoiseModel,
    IncomingNoiseModel,
    NoiselessModel,
    PhenomenologicalNoiseModel,
)
from surface_sim.setup import CircuitNoiseSetup

from .frames import ANNOT, MEAS, NOISE, RESET

SIZE1 = {}


# ------------------------------------------------------------------ layouts
def make_layout(code, dx, dz, k=0, shift=None, **kw):
    """k-th layout of a family of disjoint layouts."""
    f = {"rot": rot_surface_code_rectangle, "unrot": unrot_surface_code_rectangle}[code]
    if k:
        base = dict(
            logical_qubit_label=f"L{k}",
            init_point=(1 + 40 * k, 1) if shift is None else shift,
            init_data_qubit_id=1 + 200 * k,
            init_zanc_qubit_id=1 + 200 * k,
            init_xanc_qubit_id=1 + 200 * k,
            init_ind=400 * k,
        )
    else:
        base = {} if shift is None else dict(init_point=shift)
    base.update(kw)
    return f(distance_x=dx, distance_z=dz, **base)


def exchanged(layout):
    """The same code with the roles of X and Z exchanged."""
    d = layout.to_dict()
    for q in d["layout"]:
        if q["stab_type"]:
            q["stab_type"] = "xz"[q["stab_type"][0] == "x"] + "_type"
    for name in ("log_{}", "distance_{}"):
        x, z = name.format("x"), name.format("z")
        d[x], d[z] = d[z], d[x]
    return Layout(d)


def shuffled(layout):
    """The same code with its qubits and directions in another order and other indices."""
    d = layout.to_dict()
    inds = sorted(q["ind"] for q in d["layout"])
    d["layout"] = d["layout"][1::2] + d["layout"][::2][::-1]
    for k, q in enumerate(d["layout"]):
        q["ind"] = inds[k]
        q["neighbors"] = dict(reversed(q["neighbors"].items()))
    d["interaction_order"] = dict(reversed(d["interaction_order"].items()))
    return Layout(d)


def interleaved(layouts):
    """The same layouts with indices that alternate between the layouts."""
    out = []
    for k, l in enumerate(layouts):
        d = l.to_dict()
        order = d["layout"][::3] + d["layout"][1::3] + d["layout"][2::3]
        for j, q in enumerate(order):
            q["ind"] = j * len(layouts) + k
        out.append(Layout(d))
    return out


def qubit_inds(*layouts):
    d = {}
    for l in layouts:
        d.update(l.qubit_inds())
    return d


def anc_coords(*layouts):
    d = {}
    for l in layouts:
        d.update(l.anc_coords())
    return d


def ancs(*layouts):
    return [a for l in layouts for a in l.get_qubits(role="anc")]


def make_detectors(layouts, frame, coords=True, reverse=False):
    """The order of the ancillas in ``Detectors`` does not have to be that of the layouts."""
    labels = ancs(*layouts)
    if reverse:
        labels = labels[::-2] + labels[-2::-2]
    return Detectors(labels, frame, anc_coords=anc_coords(*layouts) if coords else None)


SQ = ["x", "z", "h", "s", "sdag", "reset", "meas", "idle"]
TQ = ["cz", "cnot", "swap"]


def uniform_setup(p=1e-3, **extra):
    d = dict(
        sq_error_prob=p,
        tq_error_prob=p,
        assign_error_flag=True,
        assign_error_prob=p,
        biased_factor=1.0,
    )
    d.update(extra)
    s = Setup(dict(setup=[d]))
    return s


BLOCK_MODELS = ["noiseless", "circuit", "biased", "incoming", "phenom"]


def make_model(kind, inds, p=1e-3, setup=None):
    if kind == "noiseless":
        return NoiselessModel(inds)
    if kind == "biased":
        if setup is None:
            setup = Setup(
                dict(
                    setup=[
                        dict(
                            sq_error_prob=p,
                            tq_error_prob=p,
                            assign_error_flag=True,
                            assign_error_prob=p,
                            biased_factor=2.0,
                            biased_pauli="bias",
                        )
                    ]
                )
            )
            setup.set_var_param("bias", "Z")
        return BiasedCircuitNoiseModel(setup, inds)
    cls = {
        "circuit": CircuitNoiseModel,
        "incoming": IncomingNoiseModel,
        "phenom": PhenomenologicalNoiseModel,
    }[kind]
    return cls(setup if setup is not None else uniform_setup(p), inds)


# ------------------------------------------------------------------ circuits
class Canon:
    """Canonical form of a circuit."""

    def __init__(self, circuit, names=None, annotations=True):
        """``names`` maps qubit index -> label (default: identity)."""
        self.layers = [{}]
        self.meas = []  # (qubit, occurrence)
        self.dets = []  # (coords, frozenset of (qubit, occurrence))
        self.obs = {}
        self.coords = {}
        self.det_layer = []
        nq = {}
        nm = (lambda i: names.get(i, i)) if names else (lambda i: i)
        for ins in circuit.flattened():
            name = ins.name
            args = tuple(ins.gate_args_copy())
            if name == "TICK":
                self.layers.append({})
            elif name in ("DETECTOR", "OBSERVABLE_INCLUDE") and not annotations:
                pass
            elif name == "DETECTOR":
                self.dets.append((args, self._targets(ins)))
                self.det_layer.append(len(self.layers) - 1)
            elif name == "OBSERVABLE_INCLUDE":
                k = int(args[0])
                self.obs[k] = self.obs.get(k, frozenset()) ^ self._targets(ins)
            elif name == "QUBIT_COORDS":
                for t in ins.targets_copy():
                    self.coords.setdefault(nm(t.value), []).append(args)
            elif name == "SHIFT_COORDS":
                raise ValueError("SHIFT_COORDS after flattening")
            else:
                for grp in ins.target_groups():
                    qs = tuple(nm(t.value) for t in grp)
                    inv = tuple(t.is_inverted_result_target for t in grp)
                    ent = (name, args, qs) + ((inv,) if any(inv) else ())
                    if name in MEAS:
                        q = qs[0]
                        nq[q] = nq.get(q, 0)
                        self.meas.append((q, nq[q]))
                        nq[q] += 1
                    for q in qs:
                        self.layers[-1].setdefault(q, []).append(ent)
        self.layers = [{q: tuple(v) for q, v in l.items()} for l in self.layers]

    def _targets(self, ins):
        s = frozenset()
        n = len(self.meas)
        for t in ins.targets_copy():
            s ^= frozenset([self.meas[n + t.value]])
        return s

    def key(self, det_order=False):
        return (
            self.layers,
            self.dets if det_order else sorted(self.dets, key=_skey),
            self.obs,
            self.coords,
        )


def _skey(d):
    return (d[0], sorted(map(str, d[1])))


def inv_names(inds):
    return {i: q for q, i in inds.items()}


def is_noise(ent):
    return ent[0] in NOISE


def is_op(ent):
    """Physical operation other than noise and explicit identity."""
    return ent[0] not in NOISE and ent[0] != "I"


def ideal_layers(canon, keep_empty=True):
    """Layers without noise channels, explicit identities and measurement flip
    probabilities."""
    out = []
    for l in canon.layers:
        d = {}
        for q, ents in l.items():
            e = tuple((x[0], x[2]) for x in ents if is_op(x))
            if e:
                d[q] = e
        out.append(d)
    return out


def strip_noise(circuit):
    """Circuit without noise channels and without measurement flip probabilities."""
    out = stim.Circuit()
    for ins in circuit.flattened():
        if ins.name in NOISE:
            continue
        if ins.name in MEAS:
            out.append(ins.name, ins.targets_copy())
            continue
        out.append(ins)
    return out


def diff_canon(a, b, what=("layers", "dets", "obs")):
    """First difference between two canonical circuits, or None."""
    if "layers" in what:
        if len(a.layers) != len(b.layers):
            return f"number of layers {len(a.layers)} != {len(b.layers)}"
        for k, (x, y) in enumerate(zip(a.layers, b.layers)):
            for q in sorted(set(x) | set(y), key=str):
                if x.get(q) != y.get(q):
                    return f"layer {k} qubit {q}: {x.get(q)} != {y.get(q)}"
    if "dets" in what:
        x, y = sorted(a.dets, key=_skey), sorted(b.dets, key=_skey)
        if len(x) != len(y):
            return f"number of detectors {len(x)} != {len(y)}"
        for d, e in zip(x, y):
            if d != e:
                return f"detector {d} != {e}"
    if "obs" in what and a.obs != b.obs:
        return f"observables {a.obs} != {b.obs}"
    return None


def reference(circuit):
    """One noiseless outcome vector (list of bool)."""
    return strip_noise(circuit).reference_sample()


def scratch():
    return os.environ["MC_SCRATCH"]


# ------------------------------------------------------------------ code families
def _fam():
    from surface_sim.circuit_blocks import (
        rot_surface_code_css,
        rot_surface_code_css_pipelined,
        rot_surface_code_xzzx,
        rot_surface_code_xzzx_google,
        rot_surface_code_xzzx_pipelined,
        unrot_surface_code_css,
    )

    return dict(
        css=("rot", rot_surface_code_css),
        css_pip=("rot", rot_surface_code_css_pipelined),
        xzzx=("rot", rot_surface_code_xzzx),
        xzzx_pip=("rot", rot_surface_code_xzzx_pipelined),
        google=("rot", rot_surface_code_xzzx_google),
        unrot=("unrot", unrot_surface_code_css),
    )


FAM = _fam()


def experiments():
    from surface_sim.experiments import (
        rot_surface_code_css,
        rot_surface_code_css_pipelined,
        rot_surface_code_xzzx,
        rot_surface_code_xzzx_google,
        rot_surface_code_xzzx_pipelined,
        unrot_surface_code_css,
    )

    return dict(
        css=rot_surface_code_css,
        css_pip=rot_surface_code_css_pipelined,
        xzzx=rot_surface_code_xzzx,
        xzzx_pip=rot_surface_code_xzzx_pipelined,
        google=rot_surface_code_xzzx_google,
        unrot=unrot_surface_code_css,
    )


def gates_module(code):
    from surface_sim.log_gates import rot_surface_code_css, unrot_surface_code_css

    return {"rot": rot_surface_code_css, "unrot": unrot_surface_code_css}[code]


def rotated_data(layout, fam):
    """Data qubits on which the code is stored with X and Z exchanged (XZZX codes):
    the upper-left and lower-right data qubits of the Z-type plaquettes, found from
    the coordinates."""
    if not fam.startswith(("xzzx", "google")):
        return set()
    out = set()
    cz = {q: layout.get_coords([q])[0] for q in layout.get_qubits()}
    for a in layout.get_qubits(role="anc", stab_type="z_type"):
        for d in layout.get_neighbors([a]):
            dx, dy = cz[d][0] - cz[a][0], cz[d][1] - cz[a][1]
            if dx * dy < 0:
                out.add(d)
    return out


def stabilizer(layout, anc, rot=()):
    """Stabilizer of an ancilla as {data qubit label: 'X'|'Z'}."""
    t = "X" if layout.param("stab_type", anc) == "x_type" else "Z"
    sw = {"X": "Z", "Z": "X"}
    return {d: (sw[t] if d in rot else t) for d in layout.get_neighbors([anc])}


def logical(layout, which, rot=()):
    """Logical operator 'X' or 'Z' of the first logical qubit."""
    lab = layout.get_logical_qubits()[0]
    qs = (layout.log_x if which == "X" else layout.log_z)[lab]
    sw = {"X": "Z", "Z": "X"}
    return {d: (sw[which] if d in rot else which) for d in qs}


def to_inds(op, inds):
    return {inds[q]: p for q, p in op.items()}


def corners(layout):
    """Data qubits at the four corners of the bounding box of the data qubits."""
    data = layout.get_qubits(role="data")
    c = dict(zip(data, layout.get_coords(data)))
    xs = [v[0] for v in c.values()]
    ys = [v[1] for v in c.values()]
    want = [(a, b) for a in (min(xs), max(xs)) for b in (min(ys), max(ys))]
    return [q for w in want for q in data if tuple(c[q]) == w]
