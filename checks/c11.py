"""C11: layout queries and copies agree with the description they came from.

The reference model is the description itself (a plain dictionary kept aside): every
query is recomputed from it with elementary loops.
"""

import copy
import os
import random
import tempfile

import numpy as np
import yaml

from surface_sim import Layout
from surface_sim.detectors import get_support_from_adj_matrix
from surface_sim.layouts import check_overlap_layouts

from vlib import gen

PROPERTY = "C11"
RULE = (
    "A case is a random description (arbitrary graphs, labels, directions, parameters, "
    "indices given or not, several logical qubits) or a generated code with logical gates, "
    "and a history of queries, parameter changes, copies, exports, reloads and mutations. "
    "Non-trivial: a layout with at least four qubits that was copied or reloaded and then "
    "changed."
)
ASSUMPTIONS = ["descriptions connect two qubits along at most one direction each way"]
MIN_EVENTS = {
    "filter": 8000,
    "neighbours": 8000,
    "indices and coordinates": 3000,
    "matrices": 1500,
    "parameters": 5000,
    "copied or reloaded": 300,
    "mutated a copy, an export or an input": 300,
    "overlap": 100,
    "supports": 300,
}
DIRS = ["north", "south", "east", "west", "north_east", "north_west", "south_east",
        "south_west", "up", "d7"]  # fmt: skip


def cases(tier, rng):
    n = 160 if tier == "quick" else 2500
    out = []
    for k in range(n):
        out.append(dict(what="random", seed=rng.randint(0, 10**9), steps=rng.randint(3, 8)))
    for k in range(n // 2):
        lat = rng.choice([gen.ROT, gen.UNROT])
        dx = rng.randint(2, 4)
        dz = rng.choice([dx + 1 if lat == gen.ROT else dx, rng.randint(2, 4)])
        out.append(dict(what="code", spec=gen.layout_spec(rng, lat, dx, dz),
                        seed=rng.randint(0, 10**9), steps=rng.randint(2, 6)))  # fmt: skip
    for _ in range(n):
        out.append(dict(what="overlap", seed=rng.randint(0, 10**9)))
    return out


# -------------------------------------------------------------- descriptions
def random_description(rng):
    n = rng.randint(1, 14)
    labels = [f"{rng.choice(['D', 'X', 'Z', 'q', 'node-'])}{k}" for k in range(n)]
    rng.shuffle(labels)
    use_ind = rng.random() < 0.7
    inds = rng.sample(range(60), n)
    places = rng.sample([(x, y) for x in range(-6, 7) for y in range(-6, 7)], n)
    scale = rng.choice([1, 1, 0.5])
    nodes = []
    for k, q in enumerate(labels):
        role = rng.choice(["data", "anc", "anc"])
        node = dict(
            qubit=q,
            role=role,
            coords=[places[k][0] * scale, places[k][1] * scale],
            stab_type=rng.choice(["x_type", "z_type"]) if role == "anc" else None,
            colour=rng.choice(["red", "blue", 3, None]),
            flag=rng.choice([True, False, 0, 0.0, "", None, 2]),
            meta={"deep": [1, {"deeper": rng.random()}]},
        )
        if use_ind:
            node["ind"] = inds[k]
        if rng.random() < 0.3:
            node["only_some"] = rng.random()
        nbr, free = {}, [x for x in labels if x != q]
        for d in rng.sample(DIRS, rng.randint(0, 5)):
            if free and rng.random() < 0.8:
                nbr[d] = free.pop(rng.randrange(len(free)))
            else:
                nbr[d] = None
        node["neighbors"] = nbr
        items = list(node.items())
        rng.shuffle(items)
        nodes.append(dict(items))
    logs = rng.sample(["L0", "L1", "b", "q"], rng.randint(0, 3))
    out = dict(layout=nodes)
    if logs or rng.random() < 0.5:
        out["logical_qubit_labels"] = logs
        out["log_x"] = {l: rng.sample(labels, rng.randint(0, n)) for l in rng.sample(logs, len(logs))}
        out["log_z"] = {l: rng.sample(labels, rng.randint(0, n)) for l in logs}
    if rng.random() < 0.7:
        out["interaction_order"] = {"x_type": rng.sample(DIRS, 4), "z_type": rng.sample(DIRS, 4)}
    for key, val in (("name", "some name"), ("code", "mycode"), ("description", "words"),
                     ("distance", 3), ("distance_x", 4), ("distance_z", 5)):  # fmt: skip
        if rng.random() < 0.6:
            out[key] = val
    return out


class Ref:
    """The description, indexed in the most naive way."""

    def __init__(self, desc):
        desc = copy.deepcopy(desc)
        self.desc = desc
        self.order = [n["qubit"] for n in desc["layout"]]
        self.attrs = {n["qubit"]: {k: v for k, v in n.items() if k != "qubit"} for n in desc["layout"]}
        given = any("ind" in a for a in self.attrs.values())
        self.inds = {q: (self.attrs[q]["ind"] if given else k) for k, q in enumerate(self.order)}
        self.nbrs = {q: [(d, b) for d, b in self.attrs[q]["neighbors"].items() if b is not None]
                     for q in self.order}  # fmt: skip

    def get(self, key, default):
        return self.desc.get(key, default)


def queries(mon, L, ref, rng, few=False):
    order = ref.order
    mon.equal("filter", L.get_qubits(), order, "all qubits")
    for key in ("role", "stab_type", "colour", "flag", "ind"):
        vals = {repr(ref.attrs[q].get(key)): ref.attrs[q].get(key) for q in order}
        for v in list(vals.values()) + ["nothing"]:
            if all(key in ref.attrs[q] for q in order):
                want = [q for q in order if ref.attrs[q][key] is not None and ref.attrs[q][key] == v]
                mon.equal("filter", L.get_qubits(**{key: v}), want, f"qubits with {key}={v}")
    for _ in range(3):
        r, t = rng.choice(["data", "anc"]), rng.choice(["x_type", "z_type"])
        want = [q for q in order if ref.attrs[q].get("role") == r and ref.attrs[q].get("stab_type") == t]
        mon.equal("filter", L.get_qubits(role=r, stab_type=t), want, f"{r} {t}")

    dirs = sorted({d for q in order for d, _ in ref.nbrs[q]}) + ["nowhere"]
    for _ in range(6):
        sub = rng.sample(order, rng.randint(0, len(order)))
        d = rng.choice([None] + dirs)
        want = [(a, b) for a in sub for e, b in ref.nbrs[a] if d in (None, e)]
        arg = rng.choice([list, tuple])(sub)
        mon.equal("neighbours", L.get_neighbors(arg, direction=d, as_pairs=True), want,
                  f"connections of {sub} along {d}")  # fmt: skip
        mon.equal("neighbours", L.get_neighbors(arg, direction=d), [b for _, b in want], f"neighbours of {sub}")
        mon.equal("neighbours", sorted(L.get_neighbors(set(sub), direction=d)), sorted(b for _, b in want),
                  f"neighbours of set {sub}")  # fmt: skip
    sub = rng.sample(order, rng.randint(0, len(order)))
    mon.equal("indices and coordinates", L.get_inds(sub), [ref.inds[q] for q in sub], f"indices of {sub}")
    mon.equal("indices and coordinates", L.qubit_inds(), ref.inds, "all indices")
    mon.equal("indices and coordinates", (L.get_min_ind(), L.get_max_ind()),
              (min(ref.inds.values()), max(ref.inds.values())), "range of indices")  # fmt: skip
    co = {q: list(ref.attrs[q]["coords"]) for q in order}
    mon.equal("indices and coordinates", [list(c) for c in L.get_coords(sub)], [co[q] for q in sub], "coordinates")
    mon.equal("indices and coordinates", {q: list(c) for q, c in L.qubit_coords().items()}, co, "all coordinates")
    anc = [q for q in order if ref.attrs[q]["role"] == "anc"]
    data = [q for q in order if ref.attrs[q]["role"] == "data"]
    mon.equal("indices and coordinates", {q: list(c) for q, c in L.anc_coords().items()},
              {q: co[q] for q in anc}, "coordinates of the ancillas")  # fmt: skip
    mon.equal("indices and coordinates", list(L.anc_coords()), anc, "order of the ancillas")

    for q in rng.sample(order, min(4, len(order))):
        for key in list(ref.attrs[q]) + ["missing", "only_some"]:
            if key == "neighbors":
                continue
            got, want = L.param(key, q), ref.attrs[q].get(key)
            mon.check("parameters", got == want, lambda: f"{key} of {q} is {got!r}, set {want!r}")

    for key, attr, dflt in (("name", "name", ""), ("code", "code", ""), ("description", "description", None),
                            ("distance", "distance", -1), ("distance_x", "distance_x", -1),
                            ("distance_z", "distance_z", -1), ("log_x", "log_x", {}),
                            ("log_z", "log_z", {}), ("interaction_order", "interaction_order", {})):  # fmt: skip
        mon.equal("parameters", getattr(L, attr), ref.get(key, dflt), key)
    got = L.get_logical_qubits()
    mon.equal("parameters", got, ref.get("logical_qubit_labels", []), "logical qubits")
    got.append("garbage")

    if few:
        return
    adj = L.adjacency_matrix()
    mon.equal("matrices", (list(adj.from_qubit.values), list(adj.to_qubit.values), adj.dims),
              (order, order, ("from_qubit", "to_qubit")), "labels of the adjacency matrix")  # fmt: skip
    want = np.zeros((len(order), len(order)), dtype=int)
    for a in order:
        for _, b in ref.nbrs[a]:
            want[order.index(a), order.index(b)] = 1
    mon.check("matrices", (adj.values == want).all(), "adjacency matrix")
    for t in ("x_type", "z_type"):
        proj = L.projection_matrix(t)
        ancs = [q for q in anc if ref.attrs[q]["stab_type"] == t]
        mon.equal("matrices", (list(proj.data_qubit.values), list(proj.anc_qubit.values), proj.dims),
                  (data, ancs, ("data_qubit", "anc_qubit")), "labels of the projection matrix")  # fmt: skip
        for d in data:
            for a in ancs:
                w = int(any(b == a for _, b in ref.nbrs[d]))
                mon.check("matrices", int(proj.sel(data_qubit=d, anc_qubit=a)) == w, f"projection of {d} on {a}")
    if anc:
        exp = L.expansion_matrix()
        rows = sorted({co[a][0] for a in anc}, reverse=True)
        cols = sorted({co[a][1] for a in anc})
        mon.equal("matrices", (exp.dims, exp.shape, list(exp.anc_qubit.values)),
                  (("anc_qubit", "channel", "row", "col"), (len(anc), 1, len(rows), len(cols)), anc),
                  "expansion matrix")  # fmt: skip
        want = np.zeros(exp.shape, dtype=bool)
        for k, a in enumerate(anc):
            want[k, 0, rows.index(co[a][0]), cols.index(co[a][1])] = True
        mon.check("matrices", (exp.values == want).all(), "cells of the expansion matrix")
        sub = rng.sample(anc, rng.randint(1, len(anc)))
        sup = get_support_from_adj_matrix(adj, rng.choice([list, tuple])(sub))
        want = {a: sorted(b for _, b in ref.nbrs[a]) for a in sub}
        mon.equal("supports", {a: sorted(s) for a, s in sup.items()}, want, "supports")


def garble(obj):
    if isinstance(obj, dict):
        for k in list(obj):
            if isinstance(obj[k], (dict, list)):
                garble(obj[k])
            else:
                obj[k] = "garbled"
        obj["garbage"] = 1
    elif isinstance(obj, list):
        for k, o in enumerate(obj):
            if isinstance(o, (dict, list)):
                garble(o)
            else:
                obj[k] = "garbled"
        obj.append("garbage")


def vandalise(rng, L):
    """Changes all that can be changed of a layout through its public interface."""
    for q in L.get_qubits():
        for key in ("coords", "meta", "role", "colour", "neighbors", "trans-s_L0", "stab_type"):
            v = L.param(key, q)
            if isinstance(v, (list, dict)):
                garble(v)
        L.set_param("role", q, "garbled")
        L.set_param("fresh", q, 1)
    garble(L.log_x)
    garble(L.log_z)
    garble(L.interaction_order)
    L.qubit_inds().clear()


def random_change(rng, L, ref):
    q = rng.choice(ref.order)
    key = rng.choice(["colour", "new", "coords", "role_like", "meta"])
    val = {"coords": [rng.randint(-30, 30) + 0.25, rng.randint(-30, 30) + 0.25], "meta": {"k": [1, 2]}}.get(
        key, rng.choice(["red", 12, [1, 2], True])
    )
    L.set_param(key, q, copy.deepcopy(val))
    ref.attrs[q][key] = val


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["what"] == "overlap":
        return run_overlap(mon, rng)
    with tempfile.TemporaryDirectory() as tmp:
        if case["what"] == "random":
            desc = random_description(rng)
            before = copy.deepcopy(desc)
            ref = Ref(desc)
            if rng.random() < 0.3:
                path = os.path.join(tmp, "in.yaml")
                with open(path, "w") as f:
                    yaml.dump(desc, f, sort_keys=False)
                L = Layout.from_yaml(path)
            else:
                L = Layout(desc)
                mon.equal("mutated a copy, an export or an input", desc, before, "input after the construction")
                garble(desc)
        else:
            L = gen.make_layout(case["spec"])
            lg = gen.log_gates(case["spec"]["lat"])
            lg.set_x(L) if hasattr(lg, "set_x") else None
            lg.set_z(L) if hasattr(lg, "set_z") else None
            rot = case["spec"]["lat"] == gen.ROT
            if L.distance_z == L.distance_x + (1 if rot else 0):
                lg.set_trans_s(L, gen.corner(L))
                if not rot:
                    lg.set_trans_h(L, gen.corner(L))
            ref = Ref(L.to_dict())
        queries(mon, L, ref, rng)
        for _ in range(case["steps"]):
            r = rng.random()
            if r < 0.35:
                random_change(rng, L, ref)
            elif r < 0.5:
                mon.see("mutated a copy, an export or an input")
                garble(L.to_dict())
            else:
                mon.see("copied or reloaded")
                how = rng.choice(["copy", "dict", "yaml", "deepcopy"])
                if how == "copy":
                    new = copy.copy(L)
                elif how == "deepcopy":
                    new = copy.deepcopy(L)
                elif how == "dict":
                    exported = L.to_dict()
                    new = Layout(exported)
                    garble(exported)
                else:
                    path = os.path.join(tmp, "out.yaml")
                    L.to_yaml(path)
                    new = Layout.from_yaml(path)
                queries(mon, new, ref, rng)
                mon.equal("parameters", plain(new.to_dict()), plain(L.to_dict()), f"{how} of the layout")
                mon.see("mutated a copy, an export or an input")
                if len(ref.order) >= 4:
                    mon.sig(how, case["seed"])
                if rng.random() < 0.5:
                    vandalise(rng, new)
                else:
                    vandalise(rng, L)
                    L = new
            queries(mon, L, ref, rng, few=True)
        queries(mon, L, ref, rng)


def plain(d):
    """Export without the directions that lead nowhere (tuples as lists)."""
    out = copy.deepcopy(d)
    for n in out["layout"]:
        n["neighbors"] = [(k, v) for k, v in n["neighbors"].items() if v is not None]

    def conv(x):
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        return x

    return conv(out)


def run_overlap(mon, rng):
    n = rng.randint(1, 4)
    clash = rng.choice([None, None, "label", "ind", "coords", "logical"])
    i, j = (rng.sample(range(n), 2) if n > 1 else (0, 0))
    if n == 1:
        clash = None
    descs = []
    for k in range(n):
        m = rng.randint(1, 5)
        nodes = [dict(qubit=f"q{k}_{a}", ind=100 * k + a, coords=[100.0 * k, a], role="data",
                      neighbors={}) for a in range(m)]  # fmt: skip
        descs.append(dict(layout=nodes, logical_qubit_labels=[f"L{k}"], log_x={f"L{k}": []}, log_z={f"L{k}": []}))
    if clash in ("label", "ind", "coords"):
        key = {"label": "qubit"}.get(clash, clash)
        a, b = rng.choice(descs[i]["layout"]), rng.choice(descs[j]["layout"])
        b[key] = copy.deepcopy(a[key])
        if key == "coords" and rng.random() < 0.5:
            b[key] = [int(x) for x in b[key]]
    if clash == "logical":
        lab = descs[i]["logical_qubit_labels"][0]
        descs[j].update(logical_qubit_labels=[lab], log_x={lab: []}, log_z={lab: []})
    layouts = [Layout(d) for d in descs]
    rng.shuffle(layouts)
    if clash is None:
        mon.see("overlap")
        check_overlap_layouts(*layouts)
    else:
        mon.raises("overlap", lambda: check_overlap_layouts(*layouts), (ValueError,), f"layouts that share a {clash}")
    mon.sig("overlap", clash, n)
