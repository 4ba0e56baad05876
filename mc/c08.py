"""Exhaustive exploration of the library layouts: both codes x all rectangular sizes x all
combinations of offsets, starting labels and starting indices (and the square shorthands).
Every layout is checked as a stabilizer code: number of qubits, commutation and rank of the
stabilizers over GF(2), commutation of the logical operators, and their minimum weight
by breadth-first search over the complete space of (syndrome vertex, parity with the
conjugate logical operator), i.e. over all error chains."""

from itertools import product

from surface_sim.layouts import (
    rot_surface_code,
    rot_surface_code_rectangle,
    unrot_surface_code,
    unrot_surface_code_rectangle,
)

from .frames import Span

LEVEL = "exploration"
RULE = (
    "one evaluation = one layout (function, size, offset, labels, indices) checked "
    "completely; non-trivial = layouts with at least one stabilizer"
)
RECT = dict(rot=rot_surface_code_rectangle, unrot=unrot_surface_code_rectangle)
SQUARE = dict(rot=rot_surface_code, unrot=unrot_surface_code)
POINTS = (None, (0, 0), (1, 1), (-5, 8), (2.5, -0.25), (100, 3), (0, -4))
IDS = (None, (4, 1, 9), (0, 30, 2), (200, 0, 7), (1, 5, 0), (0, 0, 0), (1, 3, 12))
INDS = (None, 0, 13, 500)
LABELS = (None, "L0", "logical")
VEC = dict(
    rot=dict(
        north_east=(1, 1), north_west=(1, -1), south_east=(-1, 1), south_west=(-1, -1)
    ),
    unrot=dict(north=(0, 1), south=(0, -1), east=(1, 0), west=(-1, 0)),
)


def cases(tier):
    m = 15 if tier == "thorough" else 9
    out = []
    for code in RECT:
        for dx, dz in product(range(1, m + 1), repeat=2):
            out.append((code, dx, dz))
    return out


def run_case(case, res, tier):
    code, dx, dz = case
    small = dx * dz <= (25 if tier == "thorough" else 12)
    combos = list(product(POINTS, IDS, INDS, LABELS))
    if not small:
        # all values of every argument, in pairs with the others
        combos = [c for k, c in enumerate(combos) if k % 17 == 0]
        combos += [(p, None, None, None) for p in POINTS]
        combos += [(None, i, None, None) for i in IDS]
        combos += [(None, None, i, None) for i in INDS]
    for point, ids, ind, lab in combos:
        kw = {}
        if point is not None:
            kw["init_point"] = point
        if ids is not None:
            kw["init_data_qubit_id"] = ids[0]
            kw["init_zanc_qubit_id"] = ids[1]
            kw["init_xanc_qubit_id"] = ids[2]
        if ind is not None:
            kw["init_ind"] = ind
        if lab is not None:
            kw["logical_qubit_label"] = lab
        fs = [lambda: RECT[code](distance_x=dx, distance_z=dz, **kw)]
        if dx == dz:
            fs.append(lambda: SQUARE[code](distance=dx, **kw))
        for k, f in enumerate(fs):
            key = f"{code}:{dx}:{dz}:{kw}:{'square' if k else ''}"
            err = check(f(), code, dx, dz, kw)
            res.count("evaluations")
            res.count("distinct_nontrivial", int(dx * dz > 1))
            if err:
                res.fail(key, f"{code} {dx}x{dz} {kw}: {err}")
                return
    res.sample(dict(case=str(case), arguments=len(combos)))


def check(l, code, dx, dz, kw):
    qubits = l.get_qubits()
    data = l.get_qubits(role="data")
    anc = l.get_qubits(role="anc")
    xa = l.get_qubits(role="anc", stab_type="x_type")
    za = l.get_qubits(role="anc", stab_type="z_type")
    n = dx * dz + (0 if code == "rot" else (dx - 1) * (dz - 1))
    if len(data) != n or len(set(data)) != n:
        return f"{len(data)} data qubits instead of {n}"
    if len(anc) != n - 1 or len(set(qubits)) != 2 * n - 1 or len(qubits) != 2 * n - 1:
        return f"{len(anc)} ancillas, {len(qubits)} qubits"
    if set(data) & set(anc) or set(data) | set(anc) != set(qubits):
        return "data and ancilla qubits are no partition of the qubits"
    if set(xa) & set(za) or set(xa) | set(za) != set(anc):
        return "the stabilizer types are no partition of the ancillas"
    # the declared size
    if (l.distance_x, l.distance_z) != (dx, dz) or (dx == dz and l.distance != dx):
        return f"distances {l.distance_x}, {l.distance_z}, {l.distance}"
    # labels
    d0 = kw.get("init_data_qubit_id", 1)
    z0 = kw.get("init_zanc_qubit_id", 1)
    x0 = kw.get("init_xanc_qubit_id", 1)
    for qs, p, s in ((data, "D", d0), (za, "Z", z0), (xa, "X", x0)):
        if set(qs) != {f"{p}{s + k}" for k in range(len(qs))}:
            return f"labels {sorted(qs)} do not start at {p}{s}"
    # indices
    i0 = kw.get("init_ind", 0)
    inds = l.qubit_inds()
    if sorted(inds.values()) != list(range(i0, i0 + 2 * n - 1)) or set(inds) != set(
        qubits
    ):
        return f"indices {sorted(inds.values())} do not start at {i0}"
    # coordinates
    co = l.qubit_coords()
    if set(co) != set(qubits) or len({tuple(c) for c in co.values()}) != len(qubits):
        return "coordinates are missing or repeated"
    p0 = kw.get("init_point", (1, 1) if code == "rot" else (0, 0))
    first = f"D{d0}"
    if tuple(co[first]) != tuple(p0):
        return f"{first} is at {co[first]}"
    if min(co[d][0] for d in data) != p0[0] or min(co[d][1] for d in data) != p0[1]:
        return f"{first} is not the bottom left data qubit"
    for qs, p, s in ((za, "Z", z0), (xa, "X", x0)):
        if qs and min(qs, key=lambda q: tuple(co[q])) != f"{p}{s}":
            return f"{p}{s} is not the bottom left one"
    # neighbours
    vec = VEC[code]
    nb = {}
    at = {tuple(c): q for q, c in co.items()}
    for q in qubits:
        rel = {d: r for d, r in l.param("neighbors", q).items() if r is not None}
        if sorted(rel.values()) != sorted(l.get_neighbors([q])):
            return f"neighbours of {q}: {rel} and {l.get_neighbors([q])}"
        for d in rel:
            if d not in vec:
                return f"unknown direction {d}"
        for d, v in vec.items():
            there = at.get((co[q][0] + v[0], co[q][1] + v[1]))
            if there is not None and (there in data) == (q in data):
                return f"{q} and {there} are next to each other"
            if rel.get(d) != there:
                return f"{q} has {rel.get(d)} to the {d} but {there} is there"
            got = l.get_neighbors([q], direction=d)
            if got != ([there] if there is not None else []):
                return f"get_neighbors({q}, {d}) = {got}"
        nb[q] = rel
    # stabilizers
    pos = {q: k for k, q in enumerate(data)}
    sx = {a: sum(1 << pos[d] for d in nb[a].values()) for a in xa}
    sz = {a: sum(1 << pos[d] for d in nb[a].values()) for a in za}
    for a, s in sx.items():
        for b, t in sz.items():
            if bin(s & t).count("1") % 2:
                return f"{a} and {b} do not commute"
    if Span(sx.values()).rank + Span(sz.values()).rank != n - 1:
        return "the stabilizers are dependent"
    # logical operators
    lab = kw.get("logical_qubit_label", "L0")
    if list(l.get_logical_qubits()) != [lab] or set(l.log_x) != {lab} != set(l.log_z):
        return f"logical qubits {l.get_logical_qubits()}"
    if set(l.log_z) != {lab}:
        return "log_z"
    ops = []
    for qs in (l.log_x[lab], l.log_z[lab]):
        if len(set(qs)) != len(qs) or not set(qs) <= set(data):
            return f"logical operator {qs}"
        ops.append(sum(1 << pos[q] for q in qs))
    lx, lz = ops
    if any(bin(lx & t).count("1") % 2 for t in sz.values()):
        return "the logical X does not commute with the stabilizers"
    if any(bin(lz & t).count("1") % 2 for t in sx.values()):
        return "the logical Z does not commute with the stabilizers"
    if bin(lx & lz).count("1") % 2 == 0:
        return "the logical operators commute"
    if (len(l.log_x[lab]), len(l.log_z[lab])) != (dx, dz):
        return f"weights {len(l.log_x[lab])}, {len(l.log_z[lab])}"
    for what, checks, conj, w in (("X", sz, lz, dx), ("Z", sx, lx, dz)):
        got = shortest(data, pos, checks, conj)
        if got != w:
            return f"the shortest logical {what} has weight {got} instead of {w}"
    # frequency groups, where a layout has them
    freq = {q: l.param("freq_group", q) for q in l.get_qubits()}
    if set(freq.values()) != {None}:
        for a in anc:
            for d in nb[a].values():
                if None in (freq[a], freq[d]) or freq[a] == freq[d]:
                    return f"frequency groups of {a} and {d}: {freq[a]}, {freq[d]}"
    # interaction order
    io = l.interaction_order
    if set(io) != {"x_type", "z_type"}:
        return f"interaction order for {set(io)}"
    for t, o in io.items():
        if sorted(o) != sorted(vec):
            return f"interaction order {o} for {t}"
    for k in range(4):
        used = []
        for t, qs in (("x_type", xa), ("z_type", za)):
            used += [nb[a][io[t][k]] for a in qs if io[t][k] in nb[a]]
        if len(set(used)) != len(used):
            return f"collision in step {k} of the interaction order"
    return None


def shortest(data, pos, checks, conj):
    """Minimum weight of an error chain without syndrome that anticommutes with the
    conjugate logical operator; every data qubit is in at most two checks."""
    adj = {}
    for d in data:
        b = 1 << pos[d]
        ends = [a for a, s in checks.items() if s & b]
        if len(ends) > 2:
            return None
        u, v = (ends + ["boundary", "boundary"])[:2]
        par = bool(conj & b)
        adj.setdefault(u, []).append((v, par))
        adj.setdefault(v, []).append((u, par))
    best = None
    for start in ["boundary"] + list(checks):
        seen = {(start, False)}
        frontier, dist = [(start, False)], 0
        while frontier and (best is None or dist < best):
            dist += 1
            nxt = []
            for v, p in frontier:
                for w, q in adj.get(v, []):
                    k = (w, p ^ q)
                    if k not in seen:
                        seen.add(k)
                        nxt.append(k)
            frontier = nxt
            if (start, True) in seen:
                best = dist if best is None else min(best, dist)
                break
    return best
