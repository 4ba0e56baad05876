"""Exact Pauli-frame propagation.

A frame bit is either a *coin* (the random stabilizer phase introduced by every reset and
every measurement: the set of all noiseless outcome vectors of a Clifford circuit is
``reference + span(coins)``, so propagating one bit per coin represents every noiseless
run at once) or an *injected Pauli* (an elementary fault or an arbitrary input error).
``x[q]`` and ``z[q]`` are bit masks (python integers) over all frame bits: the bits whose
frame has an X (Z) component on qubit ``q``.  ``meas`` is the list of masks of the outcomes:
bit b of ``meas[k]`` says that frame bit b flips outcome k.
"""

import stim

_CACHE = {}

MEAS = {"M": "Z", "MX": "X", "MY": "Y", "MR": "Z", "MRX": "X", "MRY": "Y"}
RESET = {"R": "Z", "RX": "X", "RY": "Y", "MR": "Z", "MRX": "X", "MRY": "Y"}
ANNOT = {"TICK", "DETECTOR", "OBSERVABLE_INCLUDE", "QUBIT_COORDS", "SHIFT_COORDS"}
NOISE = {
    "X_ERROR",
    "Y_ERROR",
    "Z_ERROR",
    "DEPOLARIZE1",
    "DEPOLARIZE2",
    "PAULI_CHANNEL_1",
    "PAULI_CHANNEL_2",
    "E",
    "CORRELATED_ERROR",
    "ELSE_CORRELATED_ERROR",
}
PAULI_NAMES = {"I", "X", "Y", "Z"}


def symplectic(name):
    """Images of the Pauli generators under a gate, in terms of generators."""
    if name not in _CACHE:
        t = stim.gate_data(name).tableau
        n = len(t)
        rows = []  # input generator -> list of (output qubit, has_x, has_z)
        for k in range(n):
            for p in (t.x_output(k), t.z_output(k)):
                rows.append(
                    [(j, p[j] in (1, 2), p[j] in (2, 3)) for j in range(n) if p[j]]
                )
        _CACHE[name] = (n, rows)
    return _CACHE[name]


class Frame:
    def __init__(self):
        self.x = {}
        self.z = {}
        self.meas = []
        self.nbits = 0

    def copy(self):
        f = Frame()
        f.x = dict(self.x)
        f.z = dict(self.z)
        f.meas = list(self.meas)
        f.nbits = self.nbits
        return f

    def new_bit(self):
        b = 1 << self.nbits
        self.nbits += 1
        return b

    def inject(self, q, pauli):
        """Adds a frame bit with the given Pauli on qubit q and returns its mask."""
        b = self.new_bit()
        if pauli in "XY":
            self.x[q] = self.x.get(q, 0) ^ b
        if pauli in "ZY":
            self.z[q] = self.z.get(q, 0) ^ b
        return b

    def anticommuting(self, paulis):
        """Mask of the frame bits that anticommute with the product of Paulis
        ``{qubit: 'X'|'Y'|'Z'}``, i.e. that flip the value of that operator."""
        m = 0
        for q, p in paulis.items():
            if p in "XY":
                m ^= self.z.get(q, 0)
            if p in "ZY":
                m ^= self.x.get(q, 0)
        return m

    def _measure(self, q, basis):
        x, z = self.x.get(q, 0), self.z.get(q, 0)
        m = {"Z": x, "X": z, "Y": x ^ z}[basis]
        self.meas.append(m)
        c = self.new_bit()
        if basis in "ZY":
            self.z[q] = self.z.get(q, 0) ^ c
        if basis in "XY":
            self.x[q] = self.x.get(q, 0) ^ c

    def _reset(self, q, basis):
        c = self.new_bit()
        self.x[q] = c if basis in "XY" else 0
        self.z[q] = c if basis in "ZY" else 0

    def apply(self, circuit, on_noise=None):
        """Propagates through the circuit.  ``on_noise(instruction)`` is called for
        every noise channel (it may inject bits); noise is ignored otherwise.
        ``on_noise`` is also called before every noisy measurement target."""
        x, z = self.x, self.z
        for ins in circuit:
            name = ins.name
            if name == "REPEAT":
                for _ in range(ins.repeat_count):
                    self.apply(ins.body_copy(), on_noise)
                continue
            if name in ANNOT or name in PAULI_NAMES:
                continue
            if name in NOISE:
                if on_noise is not None:
                    on_noise(ins)
                continue
            if name in MEAS or name in RESET:
                args = ins.gate_args_copy()
                for t in ins.targets_copy():
                    q = t.value
                    if name in MEAS:
                        self._measure(q, MEAS[name])
                        if on_noise is not None and args:
                            on_noise(ins)
                    if name in RESET:
                        self._reset(q, RESET[name])
                continue
            qs = [t.value for t in ins.targets_copy()]
            if name == "H":
                for q in qs:
                    x[q], z[q] = z.get(q, 0), x.get(q, 0)
                continue
            if name in ("S", "S_DAG"):
                for q in qs:
                    z[q] = z.get(q, 0) ^ x.get(q, 0)
                continue
            if name == "CX":
                for c, t in zip(qs[::2], qs[1::2]):
                    x[t] = x.get(t, 0) ^ x.get(c, 0)
                    z[c] = z.get(c, 0) ^ z.get(t, 0)
                continue
            if name == "CZ":
                for c, t in zip(qs[::2], qs[1::2]):
                    xc, xt = x.get(c, 0), x.get(t, 0)
                    z[t] = z.get(t, 0) ^ xc
                    z[c] = z.get(c, 0) ^ xt
                continue
            n, rows = symplectic(name)
            for i in range(0, len(qs), n):
                grp = qs[i : i + n]
                ox = [0] * n
                oz = [0] * n
                for k in range(n):
                    for inp, row in (
                        (x.get(grp[k], 0), rows[2 * k]),
                        (z.get(grp[k], 0), rows[2 * k + 1]),
                    ):
                        for j, hx, hz in row:
                            if hx:
                                ox[j] ^= inp
                            if hz:
                                oz[j] ^= inp
                for k in range(n):
                    x[grp[k]], z[grp[k]] = ox[k], oz[k]
        return self


# ---------------------------------------------------------------- GF(2) helpers
class Span:
    """Incremental GF(2) span of python-int vectors."""

    def __init__(self, vecs=()):
        self.piv = {}
        for v in vecs:
            self.add(v)

    def reduce(self, v):
        while v:
            h = v.bit_length() - 1
            p = self.piv.get(h)
            if p is None:
                return v
            v ^= p
        return 0

    def add(self, v):
        v = self.reduce(v)
        if v:
            self.piv[v.bit_length() - 1] = v
            return True
        return False

    def __contains__(self, v):
        return self.reduce(v) == 0

    @property
    def rank(self):
        return len(self.piv)


def rank(vecs):
    return Span(vecs).rank
