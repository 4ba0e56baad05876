"""Explicit-state exploration of configuration histories of ``Setup``.  Initial states: every
combination of (absent, zero, number, free parameter) for a parameter and its parent in the
local, reversed, single-qubit and global scopes; every parameter with a parent; the example
files of the documentation.  Operations: set_param in every scope (numbers, flags, registered
free parameters), set_var_param, dictionary and YAML round trips, manipulation of the
dictionaries passed in and returned.  The reference state is (scope -> parameter -> value,
free values).  In every state every parameter is queried for every scope, together with
free_params, var_param and the gate durations, on the current setup and on all setups the
history left behind, which must not have changed."""

import os
from copy import deepcopy
from itertools import product

from surface_sim import Setup
from surface_sim.setup import CircuitNoiseSetup

from .lib import scratch

LEVEL = "model_checking"

PARENT = dict(
    cz_error_prob="tq_error_prob",
    cnot_error_prob="tq_error_prob",
    swap_error_prob="tq_error_prob",
)
for _p in "h s sdag x z reset meas idle".split():
    PARENT[_p + "_error_prob"] = "sq_error_prob"
PARAMS = sorted(set(PARENT) | set(PARENT.values()) | {"T1", "assign_error_flag"})
SCOPES = [(), ("A",), ("B",), ("A", "B"), ("B", "A")]
DUR = {"CZ": 0.5, "M": 2}


class Unset(Exception):
    pass


class Ref:
    def __init__(self):
        self.p = {}
        self.free = {}

    def copy(self):
        r = Ref()
        r.p = {s: dict(d) for s, d in self.p.items()}
        r.free = dict(self.free)
        return r

    def put(self, scope, param, val, register=True):
        self.p.setdefault(scope, {})[param] = val
        if register and isinstance(val, str):
            self.free.setdefault(val, None)

    def query(self, param, scope):
        """Value; raises Unset if the query has to be rejected; KeyError if the answer is
        not specified (a string that nobody declared)."""
        while True:
            for s in (scope, ()):
                d = self.p.get(s, {})
                if param in d:
                    v = d[param]
                    if isinstance(v, str):
                        v = self.free[v]
                        if v is None:
                            raise Unset
                    return v
            if param not in PARENT:
                raise Unset
            param = PARENT[param]

    def blocks(self, perm=0):
        out = []
        items = [(s, d) for s, d in self.p.items() if d]
        if perm:
            items = items[::-1]
        for s, d in items:
            b = dict(d)
            if len(s) == 1:
                b["qubit"] = s[0]
            elif s:
                b["qubits"] = list(s) if perm == 0 else tuple(s)
            out.append(b)
        return out


def same(a, b):
    return (
        type(a) is type(b)
        and a == b
        or (
            not isinstance(a, (bool, str)) and not isinstance(b, (bool, str)) and a == b
        )
    )


def compare(s, r, params, res, scopes=SCOPES, dur=DUR, names=("nm", None)):
    """Difference between the setup and the reference, or None."""
    res.count("states")
    for scope in scopes:
        for param in params:
            res.count("queries")
            try:
                want, bad = r.query(param, scope), False
            except Unset:
                want, bad = None, True
            except KeyError:
                continue
            try:
                got = s.param(param, *scope)
            except Exception as e:
                if bad:
                    continue
                return f"{param}{scope} raised {type(e).__name__}: {e}, expected {want}"
            if bad:
                return f"{param}{scope} gives {got!r} but is not defined"
            if not same(got, want):
                return f"{param}{scope} gives {got!r}, expected {want!r}"
    want = {n for n, v in r.free.items() if v is None}
    if set(s.free_params) != want or len(s.free_params) != len(want):
        return f"free_params {s.free_params}, expected {want}"
    for n, v in r.free.items():
        if n in PARENT:
            continue
        try:
            got = s.var_param(n)
        except Exception as e:
            if v is not None:
                return f"var_param({n}) raised {type(e).__name__}"
            continue
        if v is None or not same(got, v):
            return f"var_param({n}) gives {got!r}, expected {v!r}"
    for n in ("CZ", "M", "H"):
        try:
            got = s.gate_duration(n)
        except Exception:
            got = None
        if got != dur.get(n):
            return f"gate_duration({n}) gives {got}"
    if (s.name, s.description) != names:
        return f"name and description {s.name}, {s.description}"
    return None


def construct(r, perm=0):
    d = dict(setup=r.blocks(perm), gate_durations=dict(DUR), name="nm")
    before = deepcopy(d)
    s = Setup(d)
    if d != before:
        raise AssertionError("the constructor changed its argument")
    # changing the dictionary afterwards must not matter
    for b in d["setup"]:
        for k in list(b):
            if k not in ("qubit", "qubits"):
                b[k] = 0.987
        b["cz_error_prob"] = 0.986
    d["gate_durations"]["CZ"] = 99
    return s


def scramble(d):
    """Changes everything in a dictionary."""
    for b in d["setup"]:
        for k in list(b):
            if k not in ("qubit", "qubits"):
                b[k] = 0.876
        b["T1"] = 1234.5
        if "qubits" in b:
            b["qubits"][0] = "Q"
    d.setdefault("gate_durations", {})["CZ"] = 77
    d["name"] = "other"


COUNT = [0]


def apply(s, r, op):
    """(setup, reference, setup left behind or None) after the operation."""
    o = op[0]
    if o == "set":
        _, param, val, scope = op
        s.set_param(param, val, *scope)
        r.put(scope, param, val, register=False)
        return s, r, None
    if o == "var":
        s.set_var_param(op[1], op[2])
        r.free[op[1]] = op[2]
        return s, r, None
    if o == "dictmod":
        scramble(s.to_dict())
        return s, r, None
    old, oldr = s, r.copy()
    if o == "dict":
        d = s.to_dict()
        new = Setup(d)
        scramble(d)
    elif o == "yaml":
        COUNT[0] += 1
        path = os.path.join(scratch(), f"s{os.getpid()}_{COUNT[0]}.yaml")
        s.to_yaml(path)
        new = Setup.from_yaml(path)
        os.remove(path)
    r = r.copy()
    # the values of free parameters are not part of the file: give them again
    names = {v for d in r.p.values() for v in d.values() if isinstance(v, str)}
    vals = r.free
    r.free = {n: None for n in names}
    for n in names:
        if vals.get(n) is not None:
            new.set_var_param(n, vals[n])
            r.free[n] = vals[n]
    return new, r, (old, oldr)


# ------------------------------------------------------------------ cases
def cases(tier):
    out = []
    for k in range(16):
        out.append(("grid2", k))
        out.append(("grid1", k))
    for p in sorted(PARENT):
        out.append(("param", p))
    menu = alphabet()
    for k in range(len(menu)):
        out.append(("seq", k, 4 if tier == "quick" else 5))
    for k in range(len(LIBRARY_OPS)):
        out.append(("library", k, 3 if tier == "quick" else 4))
    out += [("names",), ("malformed",), ("examples",)]
    return out


VALUES = (None, 0.0, 0.25, "p")


def ops_for(P, Q, local, other):
    ops = []
    for param in (P, Q):
        for scope in ((), local, other):
            for v in (0, 0.5, "p"):
                ops.append(("set", param, v, scope))
    ops += [("var", "p", 0.125), ("var", "p", 0), ("var", "new", 0.3)]
    ops += [("dict",), ("dictmod",)]
    return ops


def alphabet():
    return [
        ("set", "cz_error_prob", 0.5, ()),
        ("set", "cz_error_prob", "p", ("A", "B")),
        ("set", "cz_error_prob", 0.75, ("A", "B")),
        ("set", "tq_error_prob", 0.0, ("A", "B")),
        ("set", "tq_error_prob", "q", ()),
        ("set", "assign_error_flag", False, ("A",)),
        ("set", "assign_error_flag", True, ()),
        ("set", "sq_error_prob", 1, ("A",)),
        ("var", "p", 0.125),
        ("var", "p", 0),
        ("var", "q", 0.2),
        ("dict",),
        ("dictmod",),
    ]


def run_case(case, res, tier):
    what = case[0]
    f = dict(
        grid2=run_grid,
        grid1=run_grid,
        param=run_param,
        seq=run_seq,
        names=run_names,
        malformed=run_malformed,
        examples=run_examples,
        library=run_library,
    )[what]
    f(case, res, tier)
    res.sample(dict(case=str(case)))


def explore(case, r, seqs, params, res, perm=0):
    """All sequences from one initial state."""
    for seq in seqs:
        s, q = construct(r, perm), r.copy()
        left = []
        e = compare(s, q, params, res)
        for i, op in enumerate(seq):
            if e:
                break
            res.count("transitions")
            s, q, old = apply(s, q, op)
            if old:
                left.append(old)
            e = compare(s, q, params, res)
            for o, oq in left:
                e = e or compare(o, oq, params, res)
        res.count("traces_validated_against_impl")
        if e:
            res.fail(f"{case}:{r.p}:{seq}", f"setup {r.blocks(perm)} after {seq}: {e}")
            return False
    return True


def run_grid(case, res, tier):
    if case[0] == "grid2":
        P, Q = "cz_error_prob", "tq_error_prob"
        slots = [((), P), (("A", "B"), P), ((), Q), (("A", "B"), Q)]
        extra = [(("B", "A"), P), (("A",), Q)]
        local, other = ("A", "B"), ("B", "A")
        params = (P, Q, "swap_error_prob", "h_error_prob")
    else:
        P, Q = "h_error_prob", "sq_error_prob"
        slots = [((), P), (("A",), P), ((), Q), (("A",), Q)]
        extra = [(("B",), P), (("A", "B"), Q)]
        local, other = ("A",), ("B",)
        params = (P, Q, "idle_error_prob", "T1")
    ops = ops_for(P, Q, local, other)
    for k, vals in enumerate(product(VALUES, repeat=len(slots))):
        if k % 16 != case[1]:
            continue
        for evals in product((None, 0.4), repeat=len(extra)):
            r = Ref()
            r.p[()] = {"T2": 5.0}
            for (scope, param), v in list(zip(slots, vals)) + list(zip(extra, evals)):
                if v is not None:
                    r.put(scope, param, v)
            usable = [o for o in ops if o[0] != "set" or o[2] != "p" or "p" in r.free]
            if evals[0] is not None and evals[1] is None and tier == "quick":
                usable = usable[::2]
            seqs = [()] + [(o,) for o in usable]
            if evals == (None, None):
                seqs += [(("var", "p", 0.125), o) for o in usable]
                seqs += [(("yaml",),), (("var", "p", 0.1), ("yaml",))]
            if tier == "thorough":
                seqs += list(product(usable, repeat=2))
            if not explore(case, r, seqs, params, res, perm=k % 2):
                return


def run_param(case, res, tier):
    P = case[1]
    Q = PARENT[P]
    two = Q.startswith("tq")
    local = ("A", "B") if two else ("A",)
    other = ("B", "A") if two else ("B",)
    siblings = [p for p in PARENT if p != P]
    for vals in product((None, 0.25, "p"), repeat=4):
        r = Ref()
        r.p[()] = {"T1": 5.0}
        slots = [((), P), (local, P), ((), Q), (local, Q)]
        for (scope, param), v in zip(slots, vals):
            if v is not None:
                r.put(scope, param, v)
        usable = [("set", P, 0.5, other), ("set", Q, 0.6, ()), ("set", P, 0, local)]
        usable += [("var", "p", 0.125), ("dict",)]
        seqs = [()] + list(product(usable, repeat=2))
        if not explore(case, r, seqs, [P, Q] + siblings, res):
            return


def run_seq(case, res, tier):
    menu = alphabet()
    first, depth = menu[case[1]], case[2]
    r = Ref()
    r.put((), "tq_error_prob", "p")
    r.put((), "sq_error_prob", 0.01)
    r.put(("A",), "idle_error_prob", "q")
    r.put(("B", "A"), "cz_error_prob", 0.03)
    params = ["cz_error_prob", "tq_error_prob", "idle_error_prob", "assign_error_flag"]
    seqs = ((first,) + rest for rest in product(menu, repeat=depth - 1))
    explore(case, r, seqs, params, res)


def run_names(case, res, tier):
    """Free parameters called like parameters (their own, their parent, others)."""
    names = ("sq_error_prob", "h_error_prob", "T1", "p")
    slots = [((), "sq_error_prob"), (("A",), "sq_error_prob"), ((), "T1")]
    slots += [(("A",), "h_error_prob"), (("B",), "T1")]
    for vals in product((None,) + names, repeat=len(slots)):
        if tier == "quick" and vals[4] is not None and vals[3] is not None:
            continue
        r = Ref()
        r.p[()] = {"T2": 5.0}
        for (scope, param), v in zip(slots, vals):
            if v is not None:
                r.put(scope, param, v)
        seqs = [()] + [(("var", n, 0.3),) for n in names] + [(("dict",),)]
        seqs += [(("var", "p", 0.2), ("var", "sq_error_prob", 0.4), ("dict",))]
        params = ("sq_error_prob", "h_error_prob", "z_error_prob", "T1")
        for perm in (0, 1):
            if not explore(case, r, seqs, params, res, perm):
                return


def run_malformed(case, res, tier):
    g = {"sq_error_prob": 0.1}
    bad = [
        {},
        dict(setup=[]),
        dict(setup=None),
        dict(setup=[g, dict(qubit="A", T1=1.0), dict(qubit="A", T1=2.0)]),
        dict(setup=[g, dict(qubit="A", T1=1.0), dict(qubit="A", T2=2.0)]),
        dict(
            setup=[g, dict(qubits=["A", "B"], T1=1.0), dict(qubits=["A", "B"], T1=2.0)]
        ),
        dict(
            setup=[
                dict(qubits=["A", "B"], T1=1.0),
                g,
                dict(qubit="A", T1=1.0),
                dict(qubits=("A", "B"), T2=2.0),
            ]
        ),
    ]
    for d in bad:
        res.count("states")
        res.count("transitions")
        res.count("traces_validated_against_impl")
        try:
            Setup(d)
        except Exception:
            continue
        res.fail(f"malformed:{d}", f"the setup {d} was accepted")
    good = [
        dict(setup=[g, dict(qubit="A", T1=1.0), dict(qubit="B", T1=2.0)]),
        dict(
            setup=[g, dict(qubits=["A", "B"], T1=1.0), dict(qubits=["B", "A"], T1=2.0)]
        ),
        dict(setup=[g, dict(T1=3.0)]),
        dict(setup=[dict(qubit=7, T1=3.0), dict(qubit="8", T1=4.0)]),
    ]
    want = [("T1", ("B",), 2.0), ("T1", ("B", "A"), 2.0), ("T1", ("Q",), 3.0)]
    want += [("T1", ("7",), 3.0)]
    for d, (p, s, v) in zip(good, want):
        res.count("states")
        got = Setup(d).param(p, *s)
        res.expect(got == v, f"good:{d}", f"{d}: {p}{s} gives {got} instead of {v}")
    # requests of the wrong type change nothing
    s = Setup(dict(setup=[dict(g)]))
    for call in (
        lambda: s.set_param(1, 0.2),
        lambda: s.set_param("sq_error_prob", None),
        lambda: s.set_param("sq_error_prob", [0.2]),
        lambda: s.set_param("sq_error_prob", 0.2, 3),
        lambda: s.set_param("sq_error_prob", 0.2, "A", 3),
        lambda: s.set_var_param(3, 0.2),
        lambda: s.param(3),
        lambda: s.param("sq_error_prob", 3),
    ):
        res.count("transitions")
        try:
            call()
            res.fail("type", "a request of the wrong type was accepted")
        except Exception:
            pass
        res.expect(s.param("sq_error_prob") == 0.1, "type", "a rejected request acted")
        res.expect(
            s.param("sq_error_prob", "A") == 0.1, "type", "a rejected request acted"
        )
        res.expect(s.free_params == [], "type", "a rejected request acted")


LIBRARY_OPS = [
    (k, o)
    for o in (
        ("var", "prob", 0.125),
        ("var", "prob", 0),
        ("set", "sq_error_prob", 0.25, ("A",)),
        ("set", "tq_error_prob", 0.5, ()),
        ("set", "cz_error_prob", "prob", ("A", "B")),
        ("dict",),
        ("dictmod",),
    )
    for k in (0, 1)
]


def run_library(case, res, tier):
    """Histories of two instances of the library setup, alternating in every way."""
    first = LIBRARY_OPS[case[1]]
    params = ["cz_error_prob", "tq_error_prob", "h_error_prob", "sq_error_prob"]
    params += ["assign_error_flag", "assign_error_prob"]
    scopes = [(), ("A",), ("A", "B")]
    for rest in product(LIBRARY_OPS, repeat=case[2] - 1):
        pair, refs, left = [], [], []
        for _ in range(2):
            s, r = CircuitNoiseSetup(), Ref()
            for p in ("sq", "tq", "meas", "reset", "idle", "assign"):
                r.put((), p + "_error_prob", "prob")
            r.put((), "assign_error_flag", True)
            pair.append(s)
            refs.append(r)
        names = (pair[0].name, pair[0].description)
        hist = (first,) + rest
        for i, (k, op) in enumerate(hist):
            res.count("transitions")
            pair[k], refs[k], old = apply(pair[k], refs[k], op)
            if old:
                left.append(old)
            for s, r in list(zip(pair, refs)) + left:
                e = compare(s, r, params, res, scopes, {}, names)
                if e:
                    res.fail(
                        f"library:{hist[: i + 1]}",
                        f"two library setups after {hist[: i + 1]} (instance, "
                        f"operation): {e}",
                    )
                    return
        res.count("traces_validated_against_impl")


def run_examples(case, res, tier):
    """The library setup behaves like its description: one free parameter for all."""
    for hist in product(((), (0.1,), (0, 0.2)), ("none", "dict", "local")):
        s = CircuitNoiseSetup()
        cur = None
        for v in hist[0]:
            s.set_var_param("prob", v)
            cur = v
        if hist[1] == "dict":
            s = Setup(s.to_dict())
            if cur is not None:
                s.set_var_param("prob", cur)
        if hist[1] == "local":
            s.set_param("idle_error_prob", 0.77, "A")
        res.count("states")
        res.count("transitions", len(hist[0]) + 1)
        res.count("traces_validated_against_impl")
        for p in sorted(PARENT) + ["assign_error_prob"]:
            for q in ((), ("A",), ("A", "B")):
                want = cur
                if hist[1] == "local" and p == "idle_error_prob" and q == ("A",):
                    want = 0.77
                try:
                    got = s.param(p, *q)
                except Exception:
                    got = None
                res.expect(
                    got == want,
                    f"CircuitNoiseSetup:{hist}:{p}:{q}",
                    f"CircuitNoiseSetup after {hist}: {p}{q} gives {got}, not {want}",
                )
        res.expect(s.param("assign_error_flag", "A") is True, "flag", "no flag")
        # an independent instance
        res.expect(
            CircuitNoiseSetup().free_params == ["prob"], "fresh", "state is shared"
        )
