"""C10: generated layouts are valid codes of the requested size, anywhere.

Only the queries of the layout are observed. The oracle is code theory over GF(2):
ranks, commutation, exact minimum weights by shortest paths in the matching graph,
and the algebraic condition for an interleaved extraction schedule to be valid.
"""

import itertools
import random
from collections import deque

from surface_sim import layouts as lays

from vlib import gen

PROPERTY = "C10"
RULE = (
    "All pairs of distances up to a bound and random larger ones, for both lattices, "
    "each at random positions, labels, first identifiers and indices. Non-trivial: both "
    "distances >= 2."
)
ASSUMPTIONS = [
    "each data qubit is in at most two stabilizers of a type (checked), so that exact "
    "minimum weights of logical operators are shortest paths",
    "interleaved extraction is valid iff, for each pair of an X and a Z stabilizer, the "
    "X one acts first on an even number of the shared data qubits",
]
MIN_EVENTS = {
    "size": 300,
    "unique labels, indices, coordinates": 150,
    "stabilizer": 4000,
    "commutation": 20000,
    "logical": 300,
    "minimum weight": 200,
    "interaction order": 4000,
    "schedule pair": 4000,
}


def cases(tier, rng):
    big = 7 if tier == "quick" else 11
    out = []
    for lat in (gen.ROT, gen.UNROT):
        for dx, dz in itertools.product(range(1, big + 1), repeat=2):
            reps = 2 if tier == "quick" else 4
            for k in range(reps):
                out.append(case(rng, lat, dx, dz, plain=(k == 0), square=dx == dz and rng.random() < 0.7))
        for _ in range(4 if tier == "quick" else 16):
            d = [rng.randint(2, 15), rng.randint(2, 15)]
            out.append(case(rng, lat, *d, plain=False, square=False))
    return out


def case(rng, lat, dx, dz, plain, square):
    return dict(
        lat=lat, dx=dx, dz=dz, plain=plain, square=square,
        label=rng.choice(["L0", "q", "Logical-7"]),
        point=[rng.choice([0, 1, -7, 40, 2.5, -0.25]), rng.choice([0, 1, 13, -100, 0.5])],
        ids=[rng.choice([0, 1, 1, 5, 100]) for _ in range(3)],
        ind=rng.choice([0, 0, 1, 37]),
    )  # fmt: skip


def build(c):
    rect = lays.rot_surface_code_rectangle if c["lat"] == gen.ROT else lays.unrot_surface_code_rectangle
    sq = lays.rot_surface_code if c["lat"] == gen.ROT else lays.unrot_surface_code
    if c["plain"]:
        kw = {}
    else:
        kw = dict(
            logical_qubit_label=c["label"],
            init_point=tuple(c["point"]),
            init_data_qubit_id=c["ids"][0],
            init_zanc_qubit_id=c["ids"][1],
            init_xanc_qubit_id=c["ids"][2],
            init_ind=c["ind"],
        )
    if c["square"]:
        return sq(c["dx"], **kw)
    return rect(distance_x=c["dx"], distance_z=c["dz"], **kw)


def rank(rows):
    rows, r = [x for x in rows if x], 0
    while rows:
        p = rows.pop()
        r += 1
        low = p & -p
        rows = [x ^ p if x & low else x for x in rows]
        rows = [x for x in rows if x]
    return r


def min_weight(data, checks, cross):
    """Minimum weight of an operator that commutes with the stabilizers ``checks``
    (sets of data qubits) and anticommutes with the operator ``cross``."""
    of = {q: [] for q in data}
    for k, s in enumerate(checks):
        for q in s:
            of[q].append(k)
    adj = {}
    for q, ks in of.items():
        a, b = (ks + ["out"] * 2)[:2]
        adj.setdefault(a, []).append((b, q in cross))
        adj.setdefault(b, []).append((a, q in cross))
    best = None
    for start in list(adj):
        dist = {(start, False): 0}
        todo = deque([(start, False)])
        while todo:
            n, par = todo.popleft()
            for m, w in adj[n]:
                nxt = (m, par ^ w)
                if nxt not in dist:
                    dist[nxt] = dist[(n, par)] + 1
                    todo.append(nxt)
        d = dist.get((start, True))
        if d is not None and (best is None or d < best):
            best = d
    return best


def run(c, mon):
    L = build(c)
    dx, dz = c["dx"], c["dz"]
    data, anc = L.get_qubits(role="data"), L.get_qubits(role="anc")
    qubits = L.get_qubits()
    xs, zs = (L.get_qubits(role="anc", stab_type=t) for t in ("x_type", "z_type"))
    nd = dx * dz if c["lat"] == gen.ROT else dx * dz + (dx - 1) * (dz - 1)
    mon.equal("size", (len(data), len(anc), len(qubits)), (nd, nd - 1, 2 * nd - 1), "data, ancillas, qubits")
    mon.equal("size", sorted(xs + zs), sorted(anc), "X-type and Z-type ancillas")
    if c["lat"] == gen.UNROT:
        mon.equal("size", (len(xs), len(zs)), (dx * (dz - 1), dz * (dx - 1)), "ancillas of each type")
    mon.equal("size", (L.distance_x, L.distance_z), (dx, dz), "distances of the layout")
    if dx == dz:
        mon.equal("size", L.distance, dx, "distance of the layout")
    code = {gen.ROT: "rotated_surface_code", gen.UNROT: "unrotated_surface_code"}[c["lat"]]
    mon.equal("size", L.code, code, "name of the code")

    # labels, indices and coordinates start where requested
    first = [1, 1, 1] if c["plain"] else c["ids"]
    for group, letter, f in ((data, "D", first[0]), (zs, "Z", first[1]), (xs, "X", first[2])):
        mon.equal("unique labels, indices, coordinates", sorted(group),
                  sorted(f"{letter}{k + f}" for k in range(len(group))), f"labels {letter}")  # fmt: skip
    inds = L.qubit_inds()
    ind0 = 0 if c["plain"] else c["ind"]
    mon.equal("unique labels, indices, coordinates", sorted(inds.values()),
              list(range(ind0, ind0 + len(qubits))), "indices")  # fmt: skip
    mon.equal("unique labels, indices, coordinates",
              (L.get_min_ind(), L.get_max_ind()), (ind0, ind0 + len(qubits) - 1), "range of indices")
    coords = {q: tuple(L.param("coords", q)) for q in qubits}
    mon.equal("unique labels, indices, coordinates", len(set(coords.values())), len(qubits), "distinct places")
    if c["plain"]:
        p0 = (1, 1) if c["lat"] == gen.ROT else (0, 0)
    else:
        p0 = tuple(c["point"])
    low = tuple(min(coords[q][k] for q in data) for k in range(2))
    mon.check("unique labels, indices, coordinates", close(low, p0), f"first data qubit at {low}, requested {p0}")
    mon.check("unique labels, indices, coordinates", close(coords[f"D{first[0]}"], p0),
              f"data qubit D{first[0]} at {coords[f'D{first[0]}']}, requested {p0}")  # fmt: skip
    label = "L0" if c["plain"] else c["label"]
    mon.equal("logical", L.get_logical_qubits(), [label], "logical qubits")

    # stabilizers: the neighbours, that are those at the right places
    near = 2 if c["lat"] == gen.ROT else 1  # squared distance to a neighbour
    sup, where = {}, {}
    for a in anc:
        nb = L.get_neighbors([a])
        mon.check("stabilizer", 2 <= len(nb) <= 4 and len(set(nb)) == len(nb) and set(nb) <= set(data),
                  f"stabilizer of {a} on {nb}")  # fmt: skip
        geo = {q for q in data if abs(sqdist(coords[a], coords[q]) - near) < 1e-6}
        mon.equal("stabilizer", set(nb), geo, f"data qubits of {a} versus those next to it")
        sup[a] = set(nb)
        for q in nb:
            mon.check("stabilizer", a in L.get_neighbors([q]), f"{q} is not connected back to {a}")
    for q in data:
        mon.equal("stabilizer", set(L.get_neighbors([q])), {a for a in anc if q in sup[a]},
                  f"ancillas next to {q}")  # fmt: skip
    directions(mon, L, anc, data, coords)
    bit = {q: 1 << k for k, q in enumerate(data)}
    vec = lambda s: sum(bit[q] for q in s)
    for x in xs:
        for z in zs:
            mon.check("commutation", len(sup[x] & sup[z]) % 2 == 0, f"{x} and {z} anticommute")
    mon.equal("stabilizer", rank([vec(sup[a]) for a in xs]), len(xs), "independent X stabilizers")
    mon.equal("stabilizer", rank([vec(sup[a]) for a in zs]), len(zs), "independent Z stabilizers")

    # logical operators
    lx, lz = set(L.log_x[label]), set(L.log_z[label])
    mon.equal("logical", (len(L.log_x[label]), len(L.log_z[label])), (dx, dz), "lengths of the logical operators")
    mon.check("logical", len(lx) == dx and len(lz) == dz and lx | lz <= set(data), "logical operators")
    for a in zs:
        mon.check("commutation", len(lx & sup[a]) % 2 == 0, f"logical X anticommutes with {a}")
    for a in xs:
        mon.check("commutation", len(lz & sup[a]) % 2 == 0, f"logical Z anticommutes with {a}")
    mon.check("logical", len(lx & lz) % 2 == 1, "the logical operators commute")
    mon.equal("minimum weight", min_weight(data, [sup[a] for a in zs], lz), dx, "minimum weight of logical X")
    mon.equal("minimum weight", min_weight(data, [sup[a] for a in xs], lx), dz, "minimum weight of logical Z")

    schedule(mon, L, xs, zs, sup)
    mon.sig(c["lat"], dx, dz, c["plain"], c["square"], c["point"], c["ids"], c["ind"])


def close(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def sqdist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def directions(mon, L, anc, data, coords):
    """A direction is one displacement, the same everywhere and for every role; the
    connection back has the opposite displacement."""
    shift = {}
    names = sorted({d for n in L.to_dict()["layout"] for d in n["neighbors"]})
    words = ("north", "south", "east", "west")
    words += tuple(f"{v}_{h}" for v in words[:2] for h in words[2:])
    mon.check("stabilizer", set(names) <= set(words), f"unknown directions in {names}")
    pairs = set()
    for d in names:
        for a, b in L.get_neighbors(anc + data, direction=d, as_pairs=True):
            s = tuple(round(y - x, 6) for x, y in zip(coords[a], coords[b]))
            mon.equal("stabilizer", shift.setdefault(d, s), s, f"displacement along {d} from {a} to {b}")
            pairs.add((a, b))
    mon.equal("stabilizer", len(set(shift.values())), len(shift), "different directions")
    allp = set(L.get_neighbors(anc + data, as_pairs=True))
    mon.equal("stabilizer", pairs, allp, "connections along the directions")
    for a, b in pairs:
        mon.check("stabilizer", (b, a) in pairs, f"connection {b}, {a}")


def schedule(mon, L, xs, zs, sup):
    order = L.interaction_order
    when = {}
    for typ, group in (("x_type", xs), ("z_type", zs)):
        for step, d in enumerate(order[typ]):
            for a, q in L.get_neighbors(group, direction=d, as_pairs=True):
                mon.check("interaction order", (a, q) not in when, f"{a} and {q} interact twice")
                when[(a, q)] = step
    for a in xs + zs:
        mon.equal("interaction order", {q for b, q in when if b == a}, sup[a], f"interactions of {a}")
    mon.equal("interaction order", len(order["x_type"]), len(order["z_type"]), "number of steps")
    busy = set()
    for (a, q), step in when.items():
        mon.check("interaction order", (step, q) not in busy, f"{q} interacts twice in step {step}")
        busy.add((step, q))
        mon.check("interaction order", (step, a, "a") not in busy, f"{a} interacts twice in step {step}")
        busy.add((step, a, "a"))
    for x in xs:
        for z in zs:
            shared = sup[x] & sup[z]
            if shared:
                first = sum(when[(x, q)] < when[(z, q)] for q in shared)
                mon.check("schedule pair", first % 2 == 0, f"{x} and {z} are measured inconsistently")
