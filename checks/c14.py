"""C14: building is pure: no dependence on history, order or hash seed.

The same circuit is built along different histories of the same process and in
other processes, and the descriptions of the emitted circuits are compared; the
arguments are photographed before and after.
"""

import copy
import json
import os
import random
import subprocess
import sys

import numpy as np
import stim

from vlib import core, gen, pure
from vlib.canon import Canon, diff
from vlib.program import Program, program_spec

PROPERTY = "C14"
RULE = (
    "a case is a set of experiments or block programs built with fresh objects, repeatedly, "
    "after other circuits, after builds aborted at a random operation, interleaved with other "
    "builds on the same layouts and setup, with reordered arguments, and in interpreters with "
    "other hash seeds; non-trivial if the circuits have at least one record"
)
ASSUMPTIONS = [
    "equivalent circuits: same operations and noise per qubit and layer, same order of records "
    "and detectors for the same arguments (the listing of commuting operations may differ)",
    "lists given in another order may change the order of the detectors, not the detectors",
    "arguments are lists, tuples, sets or dictionaries (one-shot iterators are not supported "
    "by the library)",
]
MIN_EVENTS = {
    "other_process": 70,
    "same_objects": 80,
    "after_other": 10,
    "after_abort": 60,
    "aborted": 40,
    "interleaved": 20,
    "reordered": 60,
    "arguments_kept": 80,
    "changed_setup": 20,
    "gate_order": 8,
    "block_arguments": 500,
}
HASH_SEEDS = [0, 7, 12345, 99991]


def spec_of(rng):
    if rng.random() < 0.6:
        return dict(what="exp", spec=gen.experiment_spec(rng, cell=rng.randrange(48)))
    return dict(what="prog", spec=program_spec(rng))


def cases(tier, rng):
    big = tier == "thorough"
    out = []
    for k in range(24 if big else 4):
        specs = [spec_of(rng) for _ in range(16)]
        for s in rng.sample(range(1, 2**31), 4) if big else rng.sample(HASH_SEEDS, 2):
            out.append(dict(kind="process", specs=specs, hash=s))
    n = 600 if big else 50
    for _ in range(n):
        a = spec_of(rng)
        out.append(dict(kind="history", a=a, b=spec_of(rng), seed=rng.randint(0, 10**9)))
    for _ in range(n // 2):
        out.append(dict(kind="interleave", specs=shared(rng), seed=rng.randint(0, 10**9)))
    for k in range(n):
        spec = gen.experiment_spec(rng, cell=k)
        out.append(dict(kind="reorder", spec=spec, seed=rng.randint(0, 10**9)))
    for k in range(2 * n):
        family = list(gen.FAMILIES)[k % len(gen.FAMILIES)]
        spec = program_spec(rng, families=[family], steps=12, model=gen.CIRCUIT_MODELS[k % 5])
        out.append(dict(kind="blocks", spec=spec))
    for _ in range(n // 3):
        lat = rng.choice([gen.ROT, gen.UNROT])
        d = rng.randint(2, 3)
        out.append(
            dict(
                kind="gates",
                lat=lat,
                layouts=gen.alike(
                    [
                        gen.layout_spec(rng, lat, d, d + 1 if lat == gen.ROT else d, k)
                        for k in range(2)
                    ]
                ),
                seed=rng.randint(0, 10**9),
            )
        )
    return out


def shared(rng):
    """Programs that use the same patches."""
    first = program_spec(rng)
    second = dict(first, frame=rng.choice(gen.FRAMES[:2]), reset=rng.random() < 0.5)
    other = program_spec(rng, families=[first["family"]])
    if len(other["layouts"]) <= len(first["layouts"]):
        gates = set(first["gates"])
        second["ops"] = [
            o
            for o in other["ops"]
            if o[0] in ("coords", "init", "round", "meas") or o[0] in gates - {"cnot"}
        ]
    second["model"] = rng.choice(gen.CIRCUIT_MODELS)
    return [first, second]


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)


def same(mon, event, got, want, what):
    a, b = pure.describe(got), pure.describe(want)
    d = pure.differ(a, b)
    mon.check(event, not d, lambda: f"{what}: different {d}; {diff(Canon(got), Canon(want))}")


# ------------------------------------------------------------ block by block
def run_blocks(case, mon):
    """No block changes the layouts, the setup or the lists that it is given."""
    prog = Program(case["spec"])
    prog.model.new_circuit()
    prog.det.new_circuit()
    before = photo(prog)
    for op in case["spec"]["ops"]:
        prog.step(op)
        mon.check("block_arguments", not prog.changed, lambda: "; ".join(prog.changed))
        mon.check(
            "block_arguments",
            photo(prog) == before,
            lambda: f"block {op} of {case['spec']['family']} changed the layouts or the setup",
        )
    mon.sig("blocks", case["spec"]["family"], case["spec"]["ops"])


# ------------------------------------------------------------ other processes
def run_process(case, mon):
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
    child = os.path.join(core.VERIF, "vlib", "child.py")
    res = subprocess.run(
        [sys.executable, child, core.VERIF, core.REPO],
        input=json.dumps(case["specs"]),
        capture_output=True,
        text=True,
        env=env,
        check=False,
    )
    mine = [pure.describe(pure.build(s)) for s in case["specs"]]
    try:
        ans = json.loads(res.stdout.strip().splitlines()[-1])
        assert ans["done"]
    except Exception as e:  # pylint: disable=broad-except
        if core.REPO + "/" in res.stderr:
            raise core.Violation(f"another process fails: {res.stderr[-400:]}") from e
        raise RuntimeError(f"child process: {res.stderr[-400:]}") from e
    for spec, got, want in zip(case["specs"], ans["out"], mine, strict=True):
        d = pure.differ(got, want)
        mon.check(
            "other_process",
            not d,
            f"hash seed {case['hash']} gives different {d} for {core.short(spec, 300)}",
        )
        mon.sig("process", case["hash"], want)


# ------------------------------------------------------------------ histories
def photo(obj):
    """Everything that the arguments of a build hold."""
    out = [l.to_dict() for l in obj.layouts]
    out += [l.adjacency_matrix().values.tolist() for l in obj.layouts]
    out += [l.get_neighbors(l.get_qubits(), as_pairs=True) for l in obj.layouts]
    out.append(obj.setup.to_dict())
    out.append(list(obj.setup.free_params))
    for q in obj.model.qubits[:6]:
        for p in ("h_error_prob", "x_error_prob", "idle_error_prob", "biased_pauli"):
            out.append(obj.setup.param(p, q))
    if hasattr(obj, "init"):
        out += [obj.init, obj.anc_detectors]
    return copy.deepcopy(out)


class Abort(Exception):
    pass


OPS = ["cphase", "hadamard", "measure", "reset", "idle", "tick", "x_gate", "cnot", "meas_target",
       "swap", "s_gate", "incoming_noise", "reset_x", "measure_x"]  # fmt: skip


def aborted(obj, rng):
    """Builds while the model fails at a random call; returns whether it failed."""
    model, left = obj.model, [rng.randint(0, 60)]
    hooked = []

    def hook(func):
        def wrapped(*args, **kargs):
            left[0] -= 1
            if left[0] < 0:
                raise Abort()
            return func(*args, **kargs)

        return wrapped

    for name in OPS:
        func = getattr(model, name, None)
        if func is not None:
            setattr(model, name, hook(func))
            hooked.append(name)
    try:
        obj.circuit()
        return False
    except Abort:
        return True
    finally:
        for name in hooked:
            delattr(model, name)


def run_history(case, mon):
    rng = random.Random(case["seed"])
    ref = pure.build(case["a"])
    obj = pure.make(case["a"])
    before = photo(obj)
    same(mon, "same_objects", obj.circuit(), ref, "first build")
    mon.check("arguments_kept", photo(obj) == before, "the build changed its arguments")
    same(mon, "same_objects", obj.circuit(), ref, "second build")
    if hasattr(obj, "changed"):
        mon.check("arguments_kept", not obj.changed, lambda: "; ".join(obj.changed))
    # after other circuits with the same objects
    if case["a"]["what"] == "exp":
        kind = case["a"]["spec"]["kind"]
        for _ in range(2):
            over = dict(
                rounds=rng.randint(1, 3),
                rot_basis=rng.random() < 0.5,
                anc_reset=rng.random() < 0.5,
                gauge=rng.random() < 0.5,
                gates=2 if kind == "s" else rng.randint(0, 3),
                anc_detectors=gen.anc_subset(rng, obj.layouts),
                init=gen.data_init(rng, obj.layouts),
            )
            obj.circuit(**over)
        same(mon, "after_other", obj.circuit(), ref, "build after other circuits")
    # after other operations on the model and the detectors
    qs = rng.sample(obj.model.qubits, min(4, len(obj.model.qubits)))
    obj.model.measure(qs)
    obj.model.measure_x(qs[:2])
    det = obj.det if hasattr(obj, "det") else obj.detectors
    anc = [a for l in obj.layouts for a in l.get_qubits(role="anc")]
    try:
        det.activate_detectors(rng.sample(anc, 3))
    except ValueError:
        mon.see("already_active")
    same(mon, "after_operations", obj.circuit(), ref, "build after loose operations")
    for _ in range(2):
        if aborted(obj, rng):
            mon.see("aborted")
        same(mon, "after_abort", obj.circuit(), ref, "build after an aborted build")
    # other objects have been used in this process
    pure.build(case["b"])
    same(mon, "fresh_again", pure.build(case["a"]), ref, "fresh build after another one")
    same(mon, "same_objects", obj.circuit(), ref, "build after one of other objects")
    mon.check("arguments_kept", photo(obj) == before, "the builds changed their arguments")
    # what is built follows the setup that the model was given
    if obj.model.__class__.__name__ != "NoiselessModel":
        sdict = obj.setup.to_dict()
        values = [("idle_error_prob", 0.0071), ("cz_error_prob", 0.0123), ("h_error_prob", 0.0057)]
        setup = gen.make_setup(sdict)
        for p, v in values:
            obj.setup.set_param(p, v)
            setup.set_param(p, v)
        got = obj.circuit()
        fresh = pure.make(case["a"])
        kind = fresh.model_kind if hasattr(fresh, "model_kind") else fresh.spec["model"]
        fresh.model = gen.make_model(kind, setup, gen.inds_of(*fresh.layouts))
        same(mon, "changed_setup", got, fresh.circuit(), "build after changing the setup")
    mon.sig("history", pure.describe(ref))


# ----------------------------------------------------------------- interleaved
def run_interleave(case, mon):
    rng = random.Random(case["seed"])
    first, second = case["specs"]
    base = Program(first)
    refs = [Program(s, setup=base.setup, layouts=base.layouts).circuit() for s in (first, second)]
    progs = [Program(s, setup=base.setup, layouts=base.layouts) for s in (first, second)]
    todo = [list(p.spec["ops"]) for p in progs]
    circs = [stim.Circuit(), stim.Circuit()]
    for p in progs:
        p.model.new_circuit()
        p.det.new_circuit()
    while any(todo):
        i = rng.choice([k for k in range(2) if todo[k]])
        circs[i] += progs[i].step(todo[i].pop(0)) + progs[i].model.tick()
    for c, r in zip(circs, refs):
        same(mon, "interleaved", c, r, "build interleaved with another one")
        mon.sig("interleave", pure.describe(r))


# -------------------------------------------------------------------- reorder
def shuffled(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def run_reorder(case, mon):
    rng = random.Random(case["seed"])
    spec = case["spec"]
    obj = gen.Built(spec)
    ref = Canon(obj.circuit())
    ancs = [a for l in obj.layouts for a in l.get_qubits(role="anc")]
    variants = []
    init = shuffled(rng, obj.init)
    for sel in (rng.sample(ancs, rng.randint(1, len(ancs))), list(ancs)):
        forms = [list(reversed(sel)), tuple(sel), set(sel)]
        variants += [dict(anc_detectors=f) for f in forms]
    variants.append(dict(init=init))
    variants.append(dict(init={q: bool(v) for q, v in init.items()}))
    variants.append(dict(init={q: np.int64(v) for q, v in init.items()}))
    refs = {}
    for over in variants:
        keep = copy.deepcopy(over)
        got = Canon(obj.circuit(**over))
        want = ref
        if "anc_detectors" in over:
            key = frozenset(keep["anc_detectors"])
            if key not in refs:
                refs[key] = Canon(obj.circuit(anc_detectors=sorted(key)))
            want = refs[key]
        mon.check("reordered", not diff(got, want), lambda: f"{over}: {diff(got, want)}")
        mon.equal("arguments_kept", over, keep, "arguments after the build")
        for k in over:
            if isinstance(over[k], (list, tuple, dict)):
                mon.equal("arguments_kept", list(over[k]), list(keep[k]), "order after the build")
    # objects made from reordered arguments
    inds = shuffled(rng, gen.inds_of(*obj.layouts))
    keep = list(inds.items())
    model = gen.make_model(obj.model_kind, obj.setup, inds)
    anc = list(gen.ancs_of(*obj.layouts).items())
    rng.shuffle(anc)
    names, coords = [a for a, _ in anc], dict(anc) if spec["coords"] else None
    det = type(obj.detectors)(
        rng.choice([list, tuple])(names), spec["frame"], anc_coords=coords
    )
    other = gen.Built(spec)
    other.model, other.detectors = model, det
    got = Canon(other.circuit())
    mon.check("reordered", not diff(got, ref), lambda: f"reordered objects: {diff(got, ref)}")
    mon.equal("arguments_kept", list(inds.items()), keep, "indices after the build")
    mon.equal("arguments_kept", names, [a for a, _ in anc], "ancillas after the build")
    mon.sig("reorder", ref.ops(), ref.det_multiset())




# --------------------------------------------------------------- order of gates
def run_gates(case, mon):
    """The attributes that the logical gates store do not depend on the order."""
    rng = random.Random(case["seed"])
    lg = gen.log_gates(case["lat"])

    def actions(ls):
        out = [lambda l=l: lg.set_trans_s(l, gen.corner(l)) for l in ls]
        if case["lat"] == gen.UNROT:
            out += [lambda l=l: lg.set_trans_h(l, gen.corner(l)) for l in ls]
        out += [lambda: lg.set_trans_cnot(ls[0], ls[1]), lambda: lg.set_trans_cnot(ls[1], ls[0])]
        return out

    results = []
    for order in range(3):
        layouts = [gen.make_layout(s) for s in case["layouts"]]
        acts = actions(layouts)
        if order:
            rng.shuffle(acts)
        for a in acts:
            a()
        results.append([l.to_dict() for l in layouts])
    for r in results[1:]:
        mon.check("gate_order", r == results[0], "logical gates depend on the order they were set")
    mon.sig("gates", case["layouts"])
