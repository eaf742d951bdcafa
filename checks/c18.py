"""C18: invalid requests are refused instead of giving a wrong circuit.

Arguments are corrupted one at a time (argument fault injection) on top of valid,
randomly generated calls and histories.  The monitor requires an exception from the
library and compares the state of the objects involved, and what they build next, with
the ones of twins that did not see the refused call.
"""

import copy
import os
import random
import tempfile

import numpy as np
import xarray as xr

from surface_sim import Detectors, Layout, Setup
from surface_sim import layouts as lays
from surface_sim.detectors import get_new_stab_dict_from_layout, get_support_from_adj_matrix
from surface_sim.layouts import check_overlap_layouts
from surface_sim.util import (
    merge_circuits,
    merge_log_meas,
    merge_qec_rounds,
    sample_memory_experiment,
)

from vlib import gen
from vlib.canon import Canon, diff

PROPERTY = "C18"
RULE = (
    "a case is a valid object or call with a history and a list of corruptions of its "
    "arguments; non-trivial if at least one corrupted call was refused and the state of the "
    "objects was compared afterwards; distinct by corruption and target"
)
ASSUMPTIONS = [
    "any exception of the library counts as a refusal",
    "the twin comparison covers refused queries, assignments, updates and builds; activations "
    "and deactivations of several ancillas at once may be done in part before they are refused",
]
MIN_EVENTS = {
    "setup_refused": 400,
    "layout_refused": 300,
    "generator_refused": 200,
    "log_gate_refused": 150,
    "block_refused": 80,
    "experiment_refused": 200,
    "model_refused": 300,
    "detectors_refused": 300,
    "merge_refused": 100,
    "state_kept": 800,
}


def cases(tier, rng):
    out = []
    n = 24 if tier == "quick" else 500
    kinds = ["setup", "layout", "generator", "log_gate", "block", "experiment", "model",
             "detectors", "merge"]  # fmt: skip
    for kind in kinds:
        for k in range(2 * n if kind in ("experiment", "block") else n):
            out.append(dict(kind=kind, seed=rng.randint(0, 10**9), cell=k))
    return out


def run(case, mon):
    rng = random.Random(case["seed"])
    run_kind = globals()["run_" + case["kind"]]
    if case["kind"] in ("experiment", "block"):
        run_kind(rng, mon, case["cell"])
    else:
        run_kind(rng, mon)


def refuse(mon, kind, name, func, keep=None):
    """``func`` must raise; ``keep()`` must give the same before and after."""
    before = keep() if keep else None
    mon.raises(f"{kind}_refused", func, Exception, f"{kind}: {name}")
    mon.sig(kind, name)
    if keep:
        mon.check("state_kept", same(keep(), before), f"{kind}: {name} changed the object")


def same(a, b):
    return repr(a) == repr(b)


# ------------------------------------------------------------------- setups
def run_setup(rng, mon):
    qubits = ["D1", "D2", "X1"]
    sdict = gen.setup_dict(rng, qubits, [("D1", "X1"), ("X1", "D2")])
    sdict["setup"].append(dict(qubit="Q9", own_param="unset_var"))
    setup = Setup(sdict)
    unset = list(setup.free_params)
    for p in unset:
        if p != "unset_var":
            setup.set_var_param(p, gen.var_value(p))

    def keep():
        return (setup.to_dict(), setup.free_params, [setup.param("h_error_prob", q) for q in qubits])

    def bad(change):
        d = copy.deepcopy(sdict)
        change(d)
        return lambda: Setup(d)

    def put(key, val):
        def change(d):
            d[key] = val

        return change

    refuse(mon, "setup", "no setup key", bad(lambda d: d.pop("setup")))
    refuse(mon, "setup", "empty setup", bad(put("setup", [])))
    refuse(mon, "setup", "empty setup None", bad(put("setup", None)))
    one = dict(qubit="Q9", x=1)
    refuse(mon, "setup", "repeated qubit", bad(lambda d: d["setup"].append(one)))
    pair = dict(qubits=["D1", "zz"], x=1)

    def twice(d):
        d["setup"] += [dict(pair), dict(pair)]

    refuse(mon, "setup", "repeated pair", bad(twice))
    for q in [(), ("D1",), ("D1", "X1")]:
        refuse(mon, "setup", "unknown param", lambda q=q: setup.param("nothing", *q), keep)
        refuse(mon, "setup", "param not str", lambda q=q: setup.param(3, *q), keep)
        refuse(mon, "setup", "set param not str", lambda q=q: setup.set_param(3, 0.1, *q), keep)
        for val in (None, [0.1], {"a": 1}, 1j):
            refuse(mon, "setup", f"set param to {type(val)}",
                   lambda q=q, v=val: setup.set_param("h_error_prob", v, *q), keep)  # fmt: skip
    refuse(mon, "setup", "qubit not str", lambda: setup.param("h_error_prob", 3), keep)
    refuse(mon, "setup", "qubits tuple", lambda: setup.param("h_error_prob", ("D1", "X1")), keep)
    refuse(mon, "setup", "set qubit not str", lambda: setup.set_param("p", 0.1, 3), keep)
    refuse(mon, "setup", "unset variable", lambda: setup.param("own_param", "Q9"), keep)
    refuse(mon, "setup", "variable not str", lambda: setup.set_var_param(3, 0.1), keep)
    refuse(mon, "setup", "unset variable value", lambda: setup.var_param("unset_var"), keep)
    refuse(mon, "setup", "unknown variable value", lambda: setup.var_param("never"), keep)
    refuse(mon, "setup", "unknown duration", lambda: setup.gate_duration("FOO"), keep)
    setup.set_var_param("unset_var", 0.5)
    mon.equal("valid_after", setup.param("own_param", "Q9"), 0.5, "value after refused calls")
    # parameters that a noise model needs and the setup does not have
    lay = gen.make_layout(gen.layout_spec(rng, gen.ROT, 2, 2))
    poor = Setup(dict(setup=[dict(other_prob=0.1)]))
    for kind in ("circuit", "biased", "incoming", "phenom"):
        model = gen.make_model(kind, poor, lay.qubit_inds())
        q = lay.get_qubits()[:2]
        for op in ("hadamard", "cphase", "measure", "idle", "reset", "incoming_noise"):
            silent = kind in ("incoming", "phenom") and op not in ("incoming_noise",)
            silent = silent or (kind in ("circuit", "biased") and op == "incoming_noise")
            if not silent:
                refuse(mon, "setup", f"{kind} {op} without strength",
                       lambda m=model, op=op: getattr(m, op)(q))  # fmt: skip


# ------------------------------------------------------------------ layouts
def run_layout(rng, mon):
    lat = rng.choice([gen.ROT, gen.UNROT])
    spec = gen.layout_spec(rng, lat, rng.randint(2, 3), rng.randint(2, 3))
    good = gen.make_layout(spec)
    desc = good.to_dict()
    layout = Layout(desc)

    def keep():
        return (layout.to_dict(), layout.qubit_inds(), layout.adjacency_matrix().values.tolist())

    def bad(name, change):
        d = copy.deepcopy(desc)
        change(d)
        refuse(mon, "layout", name, lambda: Layout(d))

    n = len(desc["layout"])
    i = rng.randrange(n)
    j = (i + rng.randint(1, n - 1)) % n
    bad("no layout", lambda d: d.pop("layout"))
    bad("no label", lambda d: d["layout"][i].pop("qubit"))
    bad("repeated label", lambda d: d["layout"][i].update(qubit=d["layout"][j]["qubit"]))
    bad("no neighbours", lambda d: d["layout"][i].pop("neighbors"))
    bad("one index missing", lambda d: d["layout"][i].pop("ind"))
    bad("repeated index", lambda d: d["layout"][i].update(ind=d["layout"][j]["ind"]))
    bad("no logical X", lambda d: d.update(log_x={}))
    bad("no logical Z", lambda d: d.update(log_z={}))
    bad("other logical", lambda d: d.update(log_x={"other": list(d["log_x"].values())[0]}))
    bad("more logicals", lambda d: d["logical_qubit_labels"].append("another"))
    for obj in (None, [desc], "layout", 3):
        refuse(mon, "layout", f"not a dict {type(obj)}", lambda o=obj: Layout(o))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "missing.yaml")
        refuse(mon, "layout", "missing file", lambda: Layout.from_yaml(path))
    for q in ("nothing", 3, None):
        refuse(mon, "layout", "index of unknown", lambda q=q: layout.get_inds([q]), keep)
        refuse(mon, "layout", "coords of unknown", lambda q=q: layout.get_coords([q]), keep)
        refuse(mon, "layout", "param of unknown", lambda q=q: layout.param("coords", q), keep)
        refuse(mon, "layout", "set param of unknown", lambda q=q: layout.set_param("a", q, 1), keep)
    refuse(mon, "layout", "support of unknown",
           lambda: get_support_from_adj_matrix(layout.adjacency_matrix(), ["nothing"]), keep)  # fmt: skip
    refuse(mon, "layout", "support, no matrix",
           lambda: get_support_from_adj_matrix(layout.adjacency_matrix().values, []), keep)  # fmt: skip
    refuse(mon, "layout", "support, no list",
           lambda: get_support_from_adj_matrix(layout.adjacency_matrix(), 3), keep)  # fmt: skip
    refuse(mon, "layout", "gate not set",
           lambda: get_new_stab_dict_from_layout(layout, "trans-s_nothing"), keep)  # fmt: skip
    refuse(mon, "layout", "gate not str", lambda: get_new_stab_dict_from_layout(layout, 3), keep)
    refuse(mon, "layout", "gate of dict", lambda: get_new_stab_dict_from_layout(desc, "s"), keep)
    # overlaps
    other_spec = gen.layout_spec(rng, lat, 2, 2, k=1)
    other = gen.make_layout(other_spec)
    check_overlap_layouts(layout, other)
    more = [gen.make_layout(gen.layout_spec(rng, lat, 2, 2, k=i + 2)) for i in range(2)]
    check_overlap_layouts(layout, other, *more)
    q1 = rng.choice(layout.get_qubits())

    def overlapping(change):
        d = other.to_dict()
        change(d)
        new = Layout(d)
        rest = rng.sample(more, rng.choice([0, 0, 1, 2]))
        group = [layout, new] + rest
        rng.shuffle(group)
        return lambda: check_overlap_layouts(*group)

    k = rng.randrange(len(other.to_dict()["layout"]))

    def relabel(d):
        old = d["layout"][k]["qubit"]
        for node in d["layout"]:
            node["neighbors"] = {a: q1 if b == old else b for a, b in node["neighbors"].items()}
        d["layout"][k]["qubit"] = q1
        for log in ("log_x", "log_z"):
            d[log] = {a: [q1 if b == old else b for b in c] for a, c in d[log].items()}

    ind1 = layout.get_inds([q1])[0]
    c1 = layout.param("coords", q1)
    lab1 = layout.get_logical_qubits()[0]

    def relog(d):
        lab = d["logical_qubit_labels"][0]
        d["logical_qubit_labels"] = [lab1]
        d["log_x"] = {lab1: d["log_x"][lab]}
        d["log_z"] = {lab1: d["log_z"][lab]}

    refuse(mon, "layout", "same label", overlapping(relabel), keep)
    refuse(mon, "layout", "same index", overlapping(lambda d: d["layout"][k].update(ind=ind1)), keep)
    refuse(mon, "layout", "same coords",
           overlapping(lambda d: d["layout"][k].update(coords=list(c1))), keep)  # fmt: skip
    refuse(mon, "layout", "same logical", overlapping(relog), keep)
    refuse(mon, "layout", "same layout", lambda: check_overlap_layouts(layout, layout), keep)


# --------------------------------------------------------------- generators
def run_generator(rng, mon):
    funcs = [
        ("rot", lays.rot_surface_code_rectangle, True),
        ("rot square", lays.rot_surface_code, False),
        ("unrot", lays.unrot_surface_code_rectangle, True),
        ("unrot square", lays.unrot_surface_code, False),
    ]
    name, func, rect = rng.choice(funcs)
    if rect:
        base = dict(distance_x=rng.randint(1, 3), distance_z=rng.randint(1, 3))
    else:
        base = dict(distance=rng.randint(1, 3))
    func(**base)
    for key in base:
        for val in (-1, -3, 2.0, 2.5, "3", None, [3]):
            refuse(mon, "generator", f"{name} {key}={val!r}", lambda v=val, k=key: func(**{**base, k: v}))
    if rect:
        for val in ([1, 1], (1,), (1, 2, 3), ("a", 1), 3, None, (1, None)):
            refuse(mon, "generator", f"{name} init_point={val!r}", lambda v=val: func(**base, init_point=v))
        for val in (3, None, ("L",), ["L"]):
            refuse(mon, "generator", f"{name} label={val!r}",
                   lambda v=val: func(**base, logical_qubit_label=v))  # fmt: skip
        for key in ("init_data_qubit_id", "init_zanc_qubit_id", "init_xanc_qubit_id"):
            for val in (1.0, "1", None):
                refuse(mon, "generator", f"{name} {key}={val!r}", lambda v=val, k=key: func(**base, **{k: v}))


# ---------------------------------------------------------------- log gates
def run_log_gate(rng, mon):
    lat = rng.choice([gen.ROT, gen.UNROT])
    other_lat = gen.UNROT if lat == gen.ROT else gen.ROT
    lg, olg = gen.log_gates(lat), gen.log_gates(other_lat)
    d = rng.randint(2, 3)
    dz = d + 1 if lat == gen.ROT else d
    spec, other_spec = gen.alike([gen.layout_spec(rng, lat, d, dz, k) for k in range(2)])
    layout = gen.make_layout(spec)
    bad_dz = rng.choice([x for x in range(2, 5) if x != dz])
    wrong = gen.make_layout(gen.layout_spec(rng, lat, d, bad_dz))
    other = gen.make_layout(other_spec)
    small = gen.make_layout(gen.layout_spec(rng, lat, d, bad_dz, k=1))

    def keep():
        return [l.to_dict() for l in (layout, wrong, other, small)]

    folds = ["set_trans_s"] + (["set_trans_h"] if lat == gen.UNROT else [])
    for name in folds:
        f = getattr(lg, name)
        refuse(mon, "log_gate", f"{lat} {name} size", lambda: f(wrong, gen.corner(wrong)), keep)
        anc = rng.choice(layout.get_qubits(role="anc"))
        refuse(mon, "log_gate", f"{lat} {name} ancilla", lambda: f(layout, anc), keep)
        refuse(mon, "log_gate", f"{lat} {name} unknown", lambda: f(layout, "nothing"), keep)
        desc = layout.to_dict()
        for node in desc["layout"]:
            node["coords"] = [*node["coords"], 0]
        deep = Layout(desc)
        refuse(mon, "log_gate", f"{lat} {name} 3D", lambda: f(deep, gen.corner(deep)))
        desc = layout.to_dict()
        lab = layout.get_logical_qubits()[0]
        desc["logical_qubit_labels"].append("second")
        desc["log_x"]["second"] = desc["log_x"][lab]
        desc["log_z"]["second"] = desc["log_z"][lab]
        two = Layout(desc)
        refuse(mon, "log_gate", f"{lat} {name} two logicals", lambda: f(two, gen.corner(two)))
        g = getattr(olg, name, None)
        if g is not None:
            refuse(mon, "log_gate", f"{lat} {name} code", lambda: g(layout, gen.corner(layout)), keep)
    refuse(mon, "log_gate", f"{lat} cnot size", lambda: lg.set_trans_cnot(layout, small), keep)
    refuse(mon, "log_gate", f"{lat} cnot size", lambda: lg.set_trans_cnot(small, layout), keep)
    refuse(mon, "log_gate", f"{lat} cnot code", lambda: olg.set_trans_cnot(layout, other), keep)
    mixed = gen.make_layout(gen.layout_spec(rng, other_lat, d, dz, k=2))
    refuse(mon, "log_gate", f"{lat} cnot codes", lambda: lg.set_trans_cnot(layout, mixed), keep)
    refuse(mon, "log_gate", f"{lat} cnot codes", lambda: lg.set_trans_cnot(mixed, layout), keep)
    refuse(mon, "log_gate", f"{lat} cnot itself", lambda: lg.set_trans_cnot(layout, layout), keep)
    twin = gen.make_layout(spec)
    refuse(mon, "log_gate", f"{lat} cnot overlap", lambda: lg.set_trans_cnot(layout, twin), keep)


# ------------------------------------------------------------------- blocks
def run_block(rng, mon, cell):
    family = list(gen.FAMILIES)[cell % len(gen.FAMILIES)]
    lat, mod, _ = gen.fam(family)
    other_lat = gen.UNROT if lat == gen.ROT else gen.ROT
    d = rng.randint(2, 3)
    dz = d + 1 if lat == gen.ROT else d
    specs = gen.alike([gen.layout_spec(rng, lat, d, dz, k=k) for k in (0, 2)])
    layout, second = [gen.make_layout(s) for s in specs]
    alien = gen.make_layout(gen.layout_spec(rng, other_lat, d, dz, k=1))
    every = [layout, alien, second]
    setup = gen.uniform_setup(0.001)
    kind = rng.choice(gen.CIRCUIT_MODELS)
    model = gen.make_model(kind, setup, gen.inds_of(*every))
    twin = gen.make_model(kind, setup, gen.inds_of(*every))
    det, tdet = (gen.make_detectors("post-gate", *every) for _ in range(2))
    for m, dd in ((model, det), (twin, tdet)):
        mod.init_qubits(m, layout, dd, {}, False)
        mod.init_qubits(m, second, dd, {}, False)

    def block(name, *args):
        return lambda: getattr(mod, name)(model, *args)

    refuse(mon, "block", f"{family} round of another code", block("qec_round", alien, det))
    refuse(mon, "block", f"{family} double init", block("init_qubits", layout, det, {}, False))
    anc = layout.get_qubits(role="anc")
    for bad in (["nothing"], [anc[0], "nothing"], [*anc, "nothing"], ["nothing", *anc]):
        tail = (det, bad) if family == "rot_google" else (det, True, bad)
        refuse(mon, "block", f"{family} unknown ancilla", block("qec_round", layout, *tail))
        if family != "rot_google":
            refuse(mon, "block", f"{family} meas, unknown ancilla",
                   block("log_meas", layout, det, False, True, bad))  # fmt: skip
    for name in ("log_trans_s", "log_trans_h"):
        if hasattr(mod, name):
            refuse(mon, "block", f"{family} {name} not set", block(name, layout, det))
    if hasattr(mod, "log_trans_cnot"):
        refuse(mon, "block", f"{family} cnot not set", block("log_trans_cnot", layout, second, det))
        gen.log_gates(lat).set_trans_cnot(layout, second)
        refuse(mon, "block", f"{family} cnot other way", block("log_trans_cnot", second, layout, det))
    foreign_code(rng, mon, family, mod, lat, d, dz, kind)
    if hasattr(mod, "log_trans_h"):
        rot = alien
        refuse(mon, "block", f"{family} h of another code", block("log_trans_h", rot, det))


def foreign_code(rng, mon, family, mod, lat, d, dz, kind):
    """The same patches with all their attributes, but declared as another code."""
    lg = gen.log_gates(lat)
    specs = gen.alike([gen.layout_spec(rng, lat, d, dz, k) for k in (4, 5)])
    pair = [gen.make_layout(s) for s in specs]
    for l in pair:
        for name in ("set_trans_s", "set_trans_h"):
            if hasattr(lg, name):
                getattr(lg, name)(l, gen.corner(l))
    lg.set_trans_cnot(*pair)
    fakes = []
    for l in pair:
        desc = l.to_dict()
        desc["code"] = rng.choice(["repetition_code", "color_code", "", "Rotated_surface_code"])
        fakes.append(Layout(desc))
    fake = fakes[0]
    model = gen.make_model(kind, gen.uniform_setup(0.001), gen.inds_of(*pair))
    det = gen.make_detectors("post-gate", *pair)
    if hasattr(mod, "log_trans_cnot_iterator"):
        list(mod.log_trans_cnot_iterator(model, *pair))

    def run_it(name, *args):
        def call():
            out = getattr(mod, name)(model, *args)
            return out if hasattr(out, "num_ticks") else list(out)

        return call

    calls = [("qec_round", fake, det)]
    for name in ("log_trans_s", "log_trans_h"):
        if hasattr(mod, name):
            calls += [(name, fake, det), (name + "_iterator", fake)]
    if hasattr(mod, "log_trans_cnot"):
        for c, t in ((fake, pair[1]), (pair[0], fakes[1]), fakes):
            calls += [("log_trans_cnot", c, t, det), ("log_trans_cnot_iterator", c, t)]
    calls.append(("qec_round_iterator", fake))
    if family == "rot_google":
        calls += [("qec_round_with_log_meas", fake, det, rng.random() < 0.5)]
    if family.startswith("rot_xzzx") or family == "rot_google":
        basis = rng.random() < 0.5
        calls += [("log_meas", fake, det, basis), ("init_qubits", fake, det, {}, basis)]
    for name, *args in calls:
        if name == "log_meas":
            det.activate_detectors(fake.get_qubits(role="anc"))
        if hasattr(mod, name):
            refuse(mon, "block", f"{family} {name} of a foreign code", run_it(name, *args))
        if name == "log_meas":
            det.new_circuit()


# -------------------------------------------------------------- experiments
def run_experiment(rng, mon, cell):
    spec = gen.experiment_spec(rng, dmax=3, max_rounds=2, cell=cell)
    spec["gates"] = min(spec["gates"], 2)
    built, twin = gen.Built(spec), gen.Built(spec)
    module = gen.fam(spec["family"])[2]
    kind = spec["kind"]
    names = dict(
        memory="memory_experiment",
        s="repeated_s_experiment",
        h="repeated_h_experiment",
        cnot="repeated_cnot_experiment",
    )
    args = dict(model=built.model, detectors=built.detectors, data_init=built.init,
                rot_basis=spec["rot_basis"], gauge_detectors=spec["gauge"])  # fmt: skip
    if kind == "cnot":
        args.update(layout_c=built.layouts[0], layout_t=built.layouts[1], num_cnot_gates=1,
                    num_rounds_per_gate=1)  # fmt: skip
    else:
        args["layout"] = built.layouts[0]
        if kind == "memory":
            args["num_rounds"] = 2
        else:
            args["num_rounds_per_gate"] = 1
            args[f"num_{kind}_gates"] = 2
    func = getattr(module, names[kind])
    func(**args)

    def keep():
        return [l.to_dict() for l in built.layouts] + [built.init, built.setup.to_dict()]

    def bad(key, val, name=None):
        label = f"{spec['family']} {kind} {key}={name or repr(val)}"
        refuse(mon, "experiment", label, lambda: func(**{**args, key: val}), keep)

    for key in [k for k in args if k.startswith("num_")]:
        for val in (-1, -2, 1.5, "2", None, [1]):
            bad(key, val)
        if key == "num_s_gates":
            for val in (1, 3):
                bad(key, val)
    if spec["family"] == "rot_google":
        bad("num_rounds", 0)
    data = built.layouts[0].get_qubits(role="data")
    for val in ([0] * len(data), None, "0101", 3, [(q, 0) for q in data]):
        bad("data_init", val, type(val).__name__)
    for key in [k for k in args if k.startswith("layout")]:
        for val in (None, built.layouts[0].to_dict(), "layout"):
            bad(key, val, type(val).__name__)
    other_lat = gen.UNROT if gen.lattice(spec["family"]) == gen.ROT else gen.ROT
    alien = gen.make_layout(gen.layout_spec(rng, other_lat, 2, 2, k=3))
    for key in [k for k in args if k.startswith("layout")]:
        bad(key, alien, "another code")
    bad("anc_detectors", ["nothing"])
    if kind == "cnot":
        for val in ("sometimes", None, 3):
            bad("cnot_orientation", val)
    if kind != "memory":
        plain = gen.Built(spec, prepare=False)
        over = dict(layout=plain.layouts[0]) if kind != "cnot" else dict(
            layout_c=plain.layouts[0], layout_t=plain.layouts[1])  # fmt: skip
        refuse(mon, "experiment", f"{spec['family']} {kind} gate not set",
               lambda: func(**{**args, **over}))  # fmt: skip
    poor = gen.Built(spec)
    some = dict(list(gen.inds_of(*poor.layouts).items())[1:])
    refuse(mon, "experiment", f"{spec['family']} {kind} model without a qubit",
           lambda: func(**{**args, "model": gen.make_model(built.model_kind, built.setup, some)}))  # fmt: skip
    # the objects can still be used
    got, want = Canon(built.circuit()), Canon(twin.circuit())
    mon.check("state_kept", not diff(got, want), lambda: f"after refusals: {diff(got, want)}")


# ------------------------------------------------------------------- models
def run_model(rng, mon):
    qubits = [f"q{k}" for k in range(6)]
    inds = {q: 3 * k for k, q in enumerate(qubits)}
    setup = gen.make_setup(gen.setup_dict(rng, qubits))
    kind = rng.choice(gen.CIRCUIT_MODELS + ["decoherence", "experimental"])
    model, twin = (gen.make_model(kind, setup, inds) for _ in range(2))
    for _ in range(rng.randint(0, 3)):
        sub = rng.sample(qubits[:4], rng.randint(1, 4))
        model.measure(sub)
        twin.measure(sub)

    def keep():
        out = []
        for q in qubits:
            for k in range(-4, 4):
                try:
                    out.append(model.meas_target(q, k).value)
                except Exception:  # pylint: disable=broad-except
                    out.append(None)
        return out

    def refused(name, f):
        refuse(mon, "model", f"{kind} {name}", f, keep)

    unknown = ["nothing"]
    for op in ("x_gate", "z_gate", "hadamard", "s_gate", "s_dag_gate", "measure", "measure_x",
               "measure_y", "reset", "reset_x", "reset_y"):  # fmt: skip
        f = getattr(model, op)
        refused(f"{op} unknown", lambda f=f: f(unknown))
    if kind in gen.CIRCUIT_MODELS:
        refused("idle unknown", lambda: model.idle(unknown))
    for op in ("cphase", "cnot", "swap"):
        f = getattr(model, op)
        refused(f"{op} odd", lambda f=f: f(qubits[:3]))
        refused(f"{op} one", lambda f=f: f(qubits[:1]))
        refused(f"{op} unknown", lambda f=f: f(["q0", "nothing"]))
    refused("indices of unknown", lambda: model.get_inds(["q0", "nothing"]))
    refused("coordinates of unknown", lambda: model.qubit_coords({"nothing": [0, 0]}))
    all_bad = {**{q: [0, 0] for q in qubits}, "nothing": [1, 1]}
    refused("coordinates of more", lambda: model.qubit_coords(all_bad))
    refused("record of unknown", lambda: model.meas_target("nothing", -1))
    for q in qubits[4:]:
        for k in (-1, 0, -2, 5):
            refused("record never measured", lambda q=q, k=k: model.meas_target(q, k))
    for q in qubits[:4]:
        for k in (-9, 9, 4):
            refused("record too far", lambda q=q, k=k: model.meas_target(q, k))
        for k in ("1", None, 1.5):
            refused("record of no integer", lambda q=q, k=k: model.meas_target(q, k))
    if kind in ("decoherence", "experimental"):
        t1, t2 = setup.param("T1", "q1"), setup.param("T2", "q1")
        for x, y, t in ((0, t2, 1), (-t1, t2, 1), (t1, 0, 1), (t1, -t2, 1), (t1, -0.3, 1),
                        (-0.3, -0.6, 1), (t1, 2.5 * t1, 1), (t1, t2, 0), (t1, t2, -0.01), (t1, t2, -2)):  # fmt: skip
            setup.set_param("T1", x, "q1")
            setup.set_param("T2", y, "q1")
            refused(f"idling with {x}, {y}, {t}", lambda t=t: model.idle(["q0", "q1"], t))
        setup.set_param("T1", t1, "q1")
        setup.set_param("T2", t2, "q1")
        mon.see("valid_after", len(model.idle(["q0", "q1"], 1)) > 0)
    else:
        flag = setup.param("assign_error_flag", "q1")
        old = {}
        ops = dict(x="x_gate", z="z_gate", h="hadamard", s="s_gate", sdag="s_dag_gate", reset="reset",
                   idle="idle", meas="measure")  # fmt: skip
        if kind in ("circuit", "biased"):
            for name, op in ops.items():
                if name == "meas":
                    continue
                old[name] = setup.param(f"{name}_error_prob", "q1")
                for x in (-0.1, 1.2, 7):
                    setup.set_param(f"{name}_error_prob", x, "q1")
                    refused(f"{op} with probability {x}", lambda op=op: getattr(model, op)(["q1"]))
                setup.set_param(f"{name}_error_prob", old[name], "q1")
        mon.equal("valid_after", setup.param("assign_error_flag", "q1"), flag, "flag after refusals")
    a = model.measure(["q5", "q0"]), model.meas_target("q0", -1).value, model.meas_target("q5", 0).value
    b = twin.measure(["q5", "q0"]), twin.meas_target("q0", -1).value, twin.meas_target("q5", 0).value
    mon.equal("valid_after", a, b, "measurement after refused calls")
    if kind in ("circuit", "biased"):
        other = setup.to_dict()
        refuse(mon, "model", f"{kind} no setup", lambda: gen.make_model(kind, None, inds).hadamard(["q0"]))
        refuse(mon, "model", f"{kind} dict as setup",
               lambda: gen.make_model(kind, other, inds).hadamard(["q0"]))  # fmt: skip


# ---------------------------------------------------------------- detectors
def run_detectors(rng, mon):
    anc = [f"a{k}" for k in range(rng.randint(2, 6))]
    coords = {a: [k, 2 * k] for k, a in enumerate(anc)}
    frame = rng.choice(gen.FRAMES)
    for bad in ("post", "", None, 3, "POST-GATE"):
        refuse(mon, "detectors", f"frame {bad!r}", lambda b=bad: Detectors(anc, b, coords))
    for bad in (None, 3, set(anc), {a: 0 for a in anc}):
        refuse(mon, "detectors", f"ancillas {type(bad)}", lambda b=bad: Detectors(b, frame))
    c = dict(coords)
    c.pop(anc[0])
    refuse(mon, "detectors", "coords missing", lambda: Detectors(anc, frame, c))
    refuse(mon, "detectors", "coords extra", lambda: Detectors(anc, frame, {**coords, "zz": [0, 0]}))
    refuse(mon, "detectors", "coords list", lambda: Detectors(anc, frame, list(coords.values())))
    refuse(mon, "detectors", "coords number", lambda: Detectors(anc, frame, {a: 1 for a in anc}))
    refuse(mon, "detectors", "coords length",
           lambda: Detectors(anc, frame, {**coords, anc[0]: [1, 2, 3]}))  # fmt: skip

    det, twin = (Detectors(list(anc), frame, anc_coords=dict(coords)) for _ in range(2))
    inds = {a: k for k, a in enumerate(anc)}
    setup = gen.uniform_setup(0.01)
    models = [gen.make_model("noiseless", setup, inds) for _ in range(2)]
    active = rng.sample(anc, rng.randint(1, len(anc)))
    for d in (det, twin):
        d.activate_detectors(active)

    def advance(gate):
        """The same valid operations on both; they must give the same."""
        out = []
        for d, m in zip((det, twin), models):
            if gate is not None:
                d.update_from_dict(gate)
            m.measure(active)
            out.append(str(d.build_from_anc(m.meas_target, True)))
        mon.check("state_kept", out[0] == out[1], lambda: f"after a refusal: {out}")

    def refused(name, f):
        refuse(mon, "detectors", name, f)
        gate = None
        if len(active) > 1 and rng.random() < 0.5:
            a, b = rng.sample(active, 2)
            gate = {a: [a, b]}
        advance(gate)

    advance(None)
    off = [a for a in anc if a not in active]
    refused("activate twice", lambda: det.activate_detectors([rng.choice(active)]))
    refused("activate unknown", lambda: det.activate_detectors(["nothing"]))
    refused("activate number", lambda: det.activate_detectors(3))
    refused("activate more", lambda: det.activate_detectors(["nothing", *anc]))
    refused("deactivate unknown", lambda: det.deactivate_detectors(["nothing"]))
    refused("deactivate number", lambda: det.deactivate_detectors(None))
    if off:
        refused("deactivate inactive", lambda: det.deactivate_detectors([rng.choice(off)]))
    for bad in (None, [("a0", ["a0"])], "a0"):
        refused(f"update {type(bad)}", lambda b=bad: det.update_from_dict(b))
    refused("update unknown", lambda: det.update_from_dict({"nothing": ["nothing"]}))
    refused("update to unknown", lambda: det.update_from_dict({anc[0]: ["nothing"]}))
    refused("update to number", lambda: det.update_from_dict({anc[0]: 3}))
    refused("update to nothing", lambda: det.update_from_dict({anc[0]: []}))
    x, y = rng.sample(anc, 2)
    refused("singular update", lambda: det.update_from_dict({x: [y], y: [y]}))
    n = len(anc)

    def matrix(m, dims=("stab_gen", "new_stab_gen"), labels=(None, None)):
        return xr.DataArray(
            m, dims=dims, coords={d: l or anc for d, l in zip(dims, labels, strict=True)}
        )

    sing = gen.random_gl(rng, n).astype(int)
    a, b = rng.sample(range(n), 2)
    sing[a] = sing[b]
    refused("singular matrix", lambda: det.update(matrix(sing)))
    if n >= 3:
        # invertible over the reals (determinant two), not over the bits
        odd = np.eye(n, dtype=int)
        rows = rng.sample(range(n), 3)
        odd[np.ix_(rows, rows)] = [[1, 1, 0], [0, 1, 1], [1, 0, 1]]
        refused("even determinant", lambda: det.update(matrix(odd)))
    refused("zero matrix", lambda: det.update(matrix(np.zeros((n, n), dtype=int))))
    refused("matrix dims", lambda: det.update(matrix(np.eye(n, dtype=int), ("a", "b"))))
    refused("matrix array", lambda: det.update(np.eye(n, dtype=int)))
    names = ["nothing", *anc[1:]]
    refused("matrix labels", lambda: det.update(matrix(np.eye(n, dtype=int), labels=(names, names))))
    m = models[0]
    refused("record no function", lambda: det.build_from_anc(3, True))
    refused("build of number", lambda: det.build_from_anc(m.meas_target, True, 3))
    refused("build of unknown", lambda: det.build_from_anc(m.meas_target, True, ["nothing"]))
    sup = {a: ["d0"] for a in anc}
    refused("data, no function", lambda: det.build_from_data(3, sup, True, []))
    refused("data, support list", lambda: det.build_from_data(m.meas_target, list(sup), True, []))
    refused("data, stabs", lambda: det.build_from_data(m.meas_target, sup, True, 3))
    refused("data, stab without support",
            lambda: det.build_from_data(m.meas_target, {}, True, [active[0]]))  # fmt: skip


# -------------------------------------------------------------------- merge
def run_merge(rng, mon):
    family = rng.choice([f for f in gen.FAMILIES if f != "rot_google"])
    lat, mod, _ = gen.fam(family)
    layouts = [gen.make_layout(gen.layout_spec(rng, lat, 2, rng.randint(2, 3), k)) for k in range(2)]
    setup = gen.uniform_setup(0.01)
    kind = rng.choice(gen.CIRCUIT_MODELS)
    model = gen.make_model(kind, setup, gen.inds_of(*layouts))
    det = gen.make_detectors("post-gate", *layouts)
    for l in layouts:
        mod.init_qubits(model, l, det, {}, False)
    it, lm = mod.qec_round_iterator, mod.log_meas_iterator

    def refused(name, f):
        refuse(mon, "merge", f"{family} {name}", f)

    refused("no layouts", lambda: merge_qec_rounds(it, model, layouts[0], det))
    refused("set of layouts", lambda: merge_qec_rounds(it, model, set(layouts), det))
    refused("dicts", lambda: merge_qec_rounds(it, model, [l.to_dict() for l in layouts], det))
    refused("no iterator", lambda: merge_qec_rounds(None, model, layouts, det))
    anc = [a for l in layouts for a in l.get_qubits(role="anc")]
    refused("unknown ancilla", lambda: merge_qec_rounds(it, model, layouts, det, True, ["nothing"]))
    refused("more ancillas", lambda: merge_qec_rounds(it, model, layouts, det, True, [*anc, "no"]))
    refused("meas no layouts", lambda: merge_log_meas(lm, model, layouts[0], det, [True]))
    refused("meas dicts", lambda: merge_log_meas(lm, model, ["a", "b"], det, [True, False]))
    refused("meas no iterator", lambda: merge_log_meas("it", model, layouts, det, [True, False]))
    refused("meas one basis", lambda: merge_log_meas(lm, model, layouts, det, [True]))
    refused("meas three bases", lambda: merge_log_meas(lm, model, layouts, det, [True] * 3))
    refused("meas no bases", lambda: merge_log_meas(lm, model, layouts, det, True))
    refused("meas set of bases", lambda: merge_log_meas(lm, model, layouts, det, {True, False}))
    refused("meas more ancillas",
            lambda: merge_log_meas(lm, model, layouts, det, [True, False], True, [*anc, "no"]))  # fmt: skip
    q = rng.sample(model.qubits, 4)
    one = model.hadamard(q[:2]) + model.tick() + model.measure(q[:2])
    two = model.measure(q[2:]) + model.tick() + model.hadamard(q[2:])
    three = model.measure(q[:1]) + model.tick() + model.measure(q[:1])
    refused("circuits as text", lambda: merge_circuits(one, str(one)))
    refused("other ticks", lambda: merge_circuits(one, two + model.tick()))
    refused("measurements apart", lambda: merge_circuits(*rng.sample([one, two], 2)))
    refused("two measurement layers", lambda: merge_circuits(three))
    refused("two measurement layers", lambda: merge_circuits(one, three))
    built = gen.Built(gen.experiment_spec(rng, ["memory"], dmax=2, max_rounds=2))
    circ, rounds = built.circuit(), built.spec["rounds"]
    lay = built.layouts[0]
    refused("sample rounds", lambda: sample_memory_experiment(lay, circ, 3, rounds + 1))
    if rounds:
        refused("sample rounds", lambda: sample_memory_experiment(lay, circ, 3, rounds - 1))
    refused("sample text", lambda: sample_memory_experiment(lay, str(circ), 3, rounds))
    refused("sample shots", lambda: sample_memory_experiment(lay, circ, -1, rounds))
