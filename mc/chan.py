"""What the operations of a noise model do, independent of how it is written: a circuit is
reduced to a list of events, ideal operations and Pauli channels given by their probability
vectors."""

from itertools import product

from surface_sim import Setup
from surface_sim.models import (
    BiasedCircuitNoiseModel,
    CircuitNoiseModel,
    DecoherenceNoiseModel,
    ExperimentalNoiseModel,
    IncomingNoiseModel,
    NoiselessModel,
    PhenomenologicalNoiseModel,
)

from .frames import ANNOT, MEAS

P1 = ("X", "Y", "Z")
P2 = tuple(a + b for a, b in product("IXYZ", repeat=2))[1:]

# method -> (stim name, parameter)
GATES1 = dict(
    x_gate=("X", "x_error_prob"),
    z_gate=("Z", "z_error_prob"),
    hadamard=("H", "h_error_prob"),
    s_gate=("S", "s_error_prob"),
    s_dag_gate=("S_DAG", "sdag_error_prob"),
)
GATES2 = dict(
    cphase=("CZ", "cz_error_prob"),
    cnot=("CX", "cnot_error_prob"),
    swap=("SWAP", "swap_error_prob"),
)
RESETS = dict(reset="Z", reset_x="X", reset_y="Y", reset_z="Z")
MEASURES = dict(measure="Z", measure_x="X", measure_y="Y", measure_z="Z")
RNAME = dict(Z="R", X="RX", Y="RY")
MNAME = dict(Z="M", X="MX", Y="MY")
ONE = list(GATES1) + list(RESETS) + list(MEASURES) + ["idle"]
TWO = list(GATES2)
PARENT = dict(cz="tq", cnot="tq", swap="tq")

KINDS = (
    "noiseless",
    "circuit",
    "biased",
    "decoh_sym",
    "decoh_asym",
    "experimental",
    "incoming",
    "phenom",
)
TIMED = ("decoh_sym", "decoh_asym", "experimental")


def stim_name(op):
    """Name of the ideal operation (None: idling)."""
    if op in GATES1:
        return GATES1[op][0]
    if op in GATES2:
        return GATES2[op][0]
    if op in RESETS:
        return RNAME[RESETS[op]]
    if op in MEASURES:
        return MNAME[MEASURES[op]]
    return None


def has_op(kind, op):
    return not (kind == "experimental" and op in ("s_gate", "s_dag_gate"))


def build(kind, setup, inds):
    if kind == "noiseless":
        return NoiselessModel(dict(inds))
    if kind.startswith("decoh"):
        return DecoherenceNoiseModel(
            setup, dict(inds), symmetric_noise=kind.endswith("_sym")
        )
    cls = dict(
        circuit=CircuitNoiseModel,
        biased=BiasedCircuitNoiseModel,
        experimental=ExperimentalNoiseModel,
        incoming=IncomingNoiseModel,
        phenom=PhenomenologicalNoiseModel,
    )[kind]
    return cls(setup, dict(inds))


def call(model, kind, op, qubits, duration):
    if op == "idle" and kind in TIMED:
        return model.idle(qubits, duration)
    return getattr(model, op)(qubits)


def events(circuit):
    """List of ("op", name, targets), ("noise", targets, {pauli: p}) and
    ("flip", qubit, p) (classical flip of the preceding outcome)."""
    out = []
    for ins in circuit.flattened():
        name = ins.name
        a = ins.gate_args_copy()
        groups = [tuple(t.value for t in g) for g in ins.target_groups()]
        if name in ANNOT:
            out += [("annotation", name)]
        elif name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            out += [("noise", g, {name[0]: a[0]}) for g in groups]
        elif name == "DEPOLARIZE1":
            out += [("noise", g, {p: a[0] / 3 for p in P1}) for g in groups]
        elif name == "PAULI_CHANNEL_1":
            out += [("noise", g, dict(zip(P1, a))) for g in groups]
        elif name == "DEPOLARIZE2":
            out += [("noise", g, {p: a[0] / 15 for p in P2}) for g in groups]
        elif name == "PAULI_CHANNEL_2":
            out += [("noise", g, dict(zip(P2, a))) for g in groups]
        elif name in MEAS:
            for g in groups:
                out.append(("op", name, g))
                if a and a[0] > 0:
                    out.append(("flip", g, a[0]))
            if any(t.is_inverted_result_target for t in ins.targets_copy()):
                out.append(("inverted", name))
        else:
            if a:
                out.append(("unknown", name, tuple(a)))
            out += [("op", name, g) for g in groups]
    # channels without effect are no channels
    res = []
    for e in out:
        if e[0] == "noise":
            v = {p: x for p, x in e[2].items() if x > 0}
            if v:
                res.append(("noise", e[1], v))
        else:
            res.append(e)
    return res


def same(v, w, tol=1e-9):
    return set(v) == set(w) and all(abs(v[p] - w[p]) < tol * w[p] + 1e-15 for p in v)
