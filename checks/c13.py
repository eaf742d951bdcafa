"""C13: merging blocks is their parallel composition, nothing more.

Two workloads:

- ``lockstep``: one to four patches run the same number of rounds, logical gates of
  their own and a logical measurement in their own basis, merged with the functions
  of the library, and the same patches each on their own, with their own model and
  detectors.  The trace of every qubit (ordered operations and noise of its
  layers), the detectors and the observables of the merged circuit must be the
  union of the individual ones; where a patch has fewer layers, the only thing
  that may be added is idling.  Some of the patches are also given as one layout
  with several logical qubits.
- ``merge``: random circuits of a noise model on disjoint qubits are merged with
  ``merge_circuits`` and must keep every layer, operation, noise and coordinate,
  and the model must still address every record of the merged circuit.
"""

import random

import stim

from surface_sim import Layout, Setup
from surface_sim.util import merge_circuits, merge_log_meas, merge_qec_rounds
from surface_sim.util.circuit_operations import merge_tick_blocks

from vlib import gen
from vlib.canon import Canon

PROPERTY = "C13"
RULE = (
    "a case merges the blocks of one to four patches through a whole history, or random "
    "circuits on disjoint qubits; non-trivial if at least two non-empty circuits are "
    "merged; distinct by family, sizes, history and model"
)
ASSUMPTIONS = [
    "operations on different qubits inside a layer can be listed in any order",
    "the merged circuits act on disjoint qubits and, for merge_circuits, have at most one "
    "layer with measurements, the same in all of them (what the function accepts by "
    "default), or are merged in the order in which they were built",
    "merge_circuits is for circuits without detectors",
]
MIN_EVENTS = {
    "qubit_trace": 1000,
    "round_layer": 300,
    "merged_ticks": 60,
    "detectors": 60,
    "observable": 80,
    "padded_patch": 8,
    "merged_layers": 60,
    "record_target": 200,
    "repeat_block": 25,
    "joined_patches": 20,
}


def cases(tier, rng):
    out = []
    n = 90 if tier == "quick" else 1500
    for _ in range(n):
        out.append(lockstep_spec(rng))
    for _ in range(n // 3):
        out.append(joined_spec(rng))
    for _ in range(2 * n):
        out.append(
            dict(
                kind="merge",
                seed=rng.randint(0, 10**9),
                model=rng.choice(gen.CIRCUIT_MODELS),
                n=rng.choice([1, 2, 2, 3, 4]),
                layers=rng.randint(1, 5),
            )
        )
    for k in range(n // 2):
        out.append(dict(kind="measures", seed=rng.randint(0, 10**9), basis=k % 3, n=2 + k % 3))
    return out


FAMS = [f for f in gen.FAMILIES if f != "rot_google"]


def lockstep_spec(rng):
    family = rng.choice(FAMS)
    lat = gen.lattice(family)
    n = rng.choice([1, 2, 2, 3, 3, 4])
    layouts = []
    square = rng.random() < 0.5
    for k in range(n):
        dx = rng.randint(2, 3)
        dz = rng.randint(2, 3)
        if square:
            dz = dx + 1 if lat == gen.ROT else dx
        layouts.append(gen.layout_spec(rng, lat, dx, dz, k))
    gates = ["log_x", "log_z"]
    if family in gen.CSS and square:
        gates.append("log_trans_s")
        if lat == gen.UNROT:
            gates.append("log_trans_h")
    steps = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.6:
            steps.append(["round", rng.randint(0, 10**9)])
        else:
            g = rng.choice(gates) if rng.random() < 0.5 else None
            steps.append(
                ["gate", [(g or rng.choice(gates)) if rng.random() < 0.8 else None for _ in range(n)]]
            )
    order = list(range(n))
    rng.shuffle(order)
    return dict(
        kind="lockstep",
        family=family,
        layouts=layouts,
        order=order,
        steps=steps,
        gates=gates,
        init=[[rng.randint(0, 10**9), rng.random() < 0.5] for _ in range(n)],
        meas=[[rng.random() < 0.5 for _ in range(n)], rng.randint(0, 10**9)],
        frame=rng.choice(gen.FRAMES),
        coords=rng.random() < 0.85,
        reset=rng.random() < 0.5,
        model=rng.choice(gen.CIRCUIT_MODELS),
        setup_seed=rng.randint(0, 10**9),
    )


def joined_spec(rng):
    """Some of the patches are given as one layout with two logical qubits."""
    case = lockstep_spec(rng)
    while len(case["order"]) < 2:
        case = lockstep_spec(rng)
    order = case["order"]
    case["steps"] = [s for s in case["steps"] if s[0] == "round"] + [["round", rng.randint(0, 10**9)]]
    groups, k = [], 0
    while k < len(order):
        size = 2 if not groups and rng.random() < 0.5 else rng.choice([1, 2, 3])
        groups.append(order[k : k + size])
        k += size
    for group in groups:
        for q in group:
            case["init"][q][1] = case["init"][group[0]][1]
            case["meas"][0][q] = case["meas"][0][group[0]]
    return dict(case, groups=groups)


def join(layouts, rng):
    """One layout with the qubits of the given ones."""
    if len(layouts) == 1:
        return layouts[0]
    descs = [l.to_dict() for l in layouts]
    out = dict(descs[0])
    for key in ("log_x", "log_z"):
        items = [i for d in descs for i in d[key].items()]
        rng.shuffle(items)
        out[key] = dict(items)
    out["logical_qubit_labels"] = [q for d in descs for q in d["logical_qubit_labels"]]
    out["layout"] = [n for d in descs for n in d["layout"]]
    rng.shuffle(out["layout"])
    return Layout(out)


def run(case, mon):
    if case["kind"] == "merge":
        run_merge(case, mon)
    elif case["kind"] == "measures":
        run_measures(case, mon)
    else:
        run_lockstep(case, mon)


# ---------------------------------------------------------------- lockstep
def merged_or_joined(circuits):
    circuits = [c for c in circuits if c is not None]
    if not circuits:
        return stim.Circuit(), False
    if len({c.num_ticks for c in circuits}) == 1:
        return merge_circuits(*circuits), True
    out = stim.Circuit()
    for c in circuits:
        out += c + stim.Circuit("TICK")
    return out, False


def prepare(case):
    layouts = [gen.make_layout(s) for s in case["layouts"]]
    lg = gen.log_gates(case["layouts"][0]["lat"])
    for l in layouts:
        if "log_trans_s" in case["gates"]:
            lg.set_trans_s(l, gen.corner(l))
        if "log_trans_h" in case["gates"]:
            lg.set_trans_h(l, gen.corner(l))
    return layouts


def setup_of(case, layouts):
    qubits = [q for l in layouts for q in l.get_qubits()]
    pairs = []
    for l in layouts:
        pairs += l.get_neighbors(l.get_qubits(role="anc"), as_pairs=True)
    pairs += [(b, a) for a, b in pairs]
    rs = random.Random(case["setup_seed"])
    return gen.make_setup(gen.setup_dict(rs, qubits, pairs))


def subset(seed, layouts):
    """A selection of ancillas that does not depend on how they are merged."""
    rng = random.Random(seed)
    mode = rng.random()
    if mode < 0.4:
        return None
    return [
        a
        for l in layouts
        for a in l.get_qubits(role="anc")
        if random.Random(f"{seed}-{a}").random() < 0.5
    ]


def run_lockstep(case, mon):
    layouts = prepare(case)
    setup = setup_of(case, layouts)
    mod = gen.fam(case["family"])[1]
    order = case["order"]
    groups = case.get("groups") or [[k] for k in order]
    rj = random.Random(case["setup_seed"])
    for group in groups:
        for k in group[1:]:  # a layout has one schedule
            layouts[k].interaction_order = layouts[group[0]].to_dict()["interaction_order"]
    sel = [join([layouts[k] for k in g], rj) for g in groups]
    tick = stim.Circuit("TICK")

    # merged
    model = gen.make_model(case["model"], setup, gen.inds_of(*layouts))
    det = gen.make_detectors(case["frame"], *layouts, coords=case["coords"])
    model.new_circuit()
    det.new_circuit()
    inits = []
    for l, group in zip(sel, groups):
        init = {}
        for k in group:
            seed, rot = case["init"][k]
            init.update(gen.data_init(random.Random(seed), [layouts[k]]))
        inits.append(mod.init_qubits(model, l, det, init, rot))
        if len(group) > 1:
            mon.see("joined_patches")
    total, merged_any = merged_or_joined(inits)
    total += tick
    rounds = []
    for step in case["steps"]:
        if step[0] == "round":
            block = merge_qec_rounds(
                mod.qec_round_iterator, model, sel, det, case["reset"], subset(step[1], layouts)
            )
            rounds.append(Canon(operations(block)))
            total += block
        else:
            blocks = []
            for k in order:
                g = step[1][k]
                blocks.append(None if g is None else getattr(mod, g)(model, layouts[k], det))
            block, m = merged_or_joined(blocks)
            if m:
                want = next(b for b in blocks if b is not None).num_ticks
                mon.equal("merged_ticks", block.num_ticks, want, "layers of merged gates")
            total += block
        total += tick
    bases, anc_seed = case["meas"]
    last = merge_log_meas(
        mod.log_meas_iterator,
        model,
        sel,
        det,
        [bases[g[0]] for g in groups],
        case["reset"],
        subset(anc_seed, layouts),
    )
    total += last
    merged = Canon(total)

    # one by one
    traces, dets, obs = {}, [], []
    nlayers = []
    nmeas = 0
    idles = {}
    singles = {k: [] for k in order}
    for k in order:
        l = layouts[k]
        model = gen.make_model(case["model"], setup, gen.inds_of(l))
        det = gen.make_detectors(case["frame"], l, coords=case["coords"])
        model.new_circuit()
        det.new_circuit()
        seed, rot = case["init"][k]
        circ = mod.init_qubits(model, l, det, gen.data_init(random.Random(seed), [l]), rot)
        circ += tick
        for step in case["steps"]:
            if step[0] == "round":
                block = mod.qec_round(model, l, det, case["reset"], subset(step[1], [l]))
                singles[k].append(Canon(operations(block)))
                circ += block
            elif step[1][k] is not None:
                circ += getattr(mod, step[1][k])(model, l, det)
            circ += tick
        meas = mod.log_meas(model, l, det, bases[k], case["reset"], subset(anc_seed, [l]))
        nlayers.append(meas.num_ticks)
        single = Canon(circ + meas)
        nmeas += len(single.records)
        for q in l.qubit_inds().values():
            traces[q] = (k, trace(single, q))
        dets += single.det_multiset()
        obs.append(single.observables.get(0))
        # what idling emits for the qubits of the patch
        idle = Canon(model.idle(l.get_qubits()))
        idles.update({q: tuple(v) for q, v in idle.layers[0].items()})

    mon.equal("records", len(merged.records), nmeas, "number of records")
    seen = {q for layer in merged.layers for q in layer}
    mon.check("qubits", seen <= set(traces), f"operations on unknown qubits {seen - set(traces)}")
    depth = max(nlayers)
    mon.equal("merged_ticks", last.num_ticks, depth, "layers of the merged measurement")
    for r, got in enumerate(rounds):
        # layer by layer: the patches advance together
        want = [singles[k][r].layers for k in order]
        n = max(map(len, want))
        mon.equal("merged_ticks", len(got.layers), n, f"layers of merged round {r}")
        for t in range(n):
            both = {q: tuple(v) for w in want if t < len(w) for q, v in w[t].items() if v}
            has = {q: tuple(v) for q, v in got.layers[t].items() if v}
            mon.equal("round_layer", has, both, f"layer {t} of merged round {r}")
    for q, (k, want) in traces.items():
        got = trace(merged, q)
        pad = (depth - nlayers[order.index(k)]) if q in idles else 0
        mon.check(
            "qubit_trace",
            with_idling(got, want, idles.get(q), pad),
            lambda: f"qubit {q} of patch {k} undergoes {got}, on its own {want}, "
            f"waiting layers {pad}",
        )
        if pad:
            mon.see("padded_qubit")
    if any(n != depth for n in nlayers):
        mon.see("padded_patch")
    mon.equal("detectors", merged.det_multiset(), sorted(dets), "detectors")
    mon.equal("observables", sorted(merged.observables), list(range(len(order))), "observables")
    for i, o in enumerate(obs):
        mon.equal("observable", merged.observables[i], o, f"observable {i}")
    if len(order) > 1:
        mon.sig(case["family"], case["model"], case["frame"], case["steps"], order, nlayers)


def operations(block):
    """The block without its detectors, which refer to earlier blocks."""
    out = stim.Circuit()
    for instr in block:
        if instr.name != "DETECTOR":
            out.append(instr)
    return out


def trace(canon, q):
    return [tuple(layer[q]) for layer in canon.layers if layer.get(q)]


def with_idling(got, want, idle, pad):
    """``got`` is ``want`` with ``pad`` layers of idling inserted."""
    if not pad:
        return got == want
    if len(got) != len(want) + pad:
        return False
    k, extra = 0, 0
    # greedy matching: idle layers are all equal
    for ops in got:
        if k < len(want) and ops == want[k]:
            k += 1
        elif ops == idle and extra < pad:
            extra += 1
        else:
            return False
    return k == len(want)


# ------------------------------------------------------------------- merge
SQ = ["x_gate", "z_gate", "hadamard", "s_gate", "s_dag_gate", "reset", "reset_x", "reset_y", "idle"]
TQ = ["cphase", "cnot", "swap"]
MEAS = ["measure", "measure_x", "measure_y"]


def run_merge(case, mon):
    rng = random.Random(case["seed"])
    n, nlayers = case["n"], case["layers"]
    qubits = [f"q{i}" for i in range(rng.randint(2 * n, 5 * n))]
    inds = dict(zip(qubits, rng.sample(range(100), len(qubits))))
    pairs = [(a, b) for a in qubits for b in qubits if a != b]
    setup = gen.make_setup(gen.setup_dict(rng, qubits, rng.sample(pairs, len(pairs) // 2)))
    model = gen.make_model(case["model"], setup, inds)
    model.new_circuit()
    rng.shuffle(qubits)
    groups = [qubits[i::n] for i in range(n)]
    meas_layer = rng.randrange(nlayers)
    same_ops = rng.random() < 0.5
    ordered = rng.random() < 0.25  # measurements anywhere, one after the other
    check_meas = True
    circuits = []
    first = stim.Circuit()
    if rng.random() < 0.5:  # something has been measured before
        first = model.measure(rng.sample(qubits, rng.randint(1, len(qubits))))
    plan_seed = rng.randint(0, 10**9)
    for i, group in enumerate(groups):
        prng = random.Random(plan_seed if same_ops else f"{plan_seed}-{i}")
        circ = stim.Circuit()
        if rng.random() < 0.2:
            circ += model.qubit_coords({q: [inds[q], 2 * i] for q in group})
        for lay in range(nlayers):
            if lay:
                circ += model.tick()
            rest = list(group)
            for _ in range(prng.randint(0, 3)):
                # the plan of the operations can be the same in all the circuits
                kind = prng.random()
                name = prng.choice(SQ), prng.choice(TQ), prng.choice(MEAS)
                r = random.Random(rng.random())
                m = r.randint(1, len(rest)) if rest else 0
                take = rest[:m]
                if not take:
                    continue
                if kind < 0.3 and lay == meas_layer:
                    circ += getattr(model, name[2])(take)
                elif kind < 0.6 and m >= 2:
                    take = take[: m // 2 * 2]
                    circ += getattr(model, name[1])(take)
                else:
                    circ += getattr(model, name[0])(take)
                rest = rest[len(take) :]
            if rest and prng.random() < 0.5:
                circ += model.idle(rest)
        circuits.append(circ)
    ordered = ordered and nlayers > 1 and n > 1
    if not ordered and rng.random() < 0.4:
        # layers that are repeated, as a REPEAT block in some of the circuits
        reps = rng.randint(1, 3)
        nlayers += reps
        for i, group in enumerate(groups):
            body = getattr(model, rng.choice(SQ))(rng.sample(group, rng.randint(1, len(group))))
            body += model.tick()
            pre = stim.Circuit()
            if rng.random() < 0.6:
                pre.append(stim.CircuitRepeatBlock(reps, body))
                mon.see("repeat_block")
            else:
                pre = body * reps
                pre = pre.flattened()
            circuits[i] = pre + circuits[i]
    if ordered:
        # measurements at different layers: refused unless asked not to check;
        # each qubit still keeps all its operations
        q = groups[0][0]
        extra = stim.Circuit()
        for k in range(nlayers):
            extra += model.measure([q]) if k != meas_layer else stim.Circuit()
            if k < nlayers - 1:
                extra += model.tick()
        if any(num_meas(c) for c in circuits[1:]):
            mon.raises(
                "late_measurement_refused",
                lambda: merge_circuits(extra, *circuits[1:]),
                ValueError,
                "measurements in different layers",
            )
        circuits[0] = extra
        check_meas = False
    before = [str(c) for c in circuits]
    merged = merge_circuits(*circuits, check_meas=check_meas)
    mon.equal("inputs", [str(c) for c in circuits], before, "circuits that were merged")
    got = Canon(merged)
    parts = [Canon(c) for c in circuits]
    mon.equal("merged_layers", len(got.layers), nlayers, "number of layers")
    want_coords = {}
    for p in parts:
        want_coords.update(p.coords)
    mon.equal("coords", got.coords, want_coords, "coordinates")
    for lay in range(nlayers):
        want = {}
        for p in parts:
            want.update(p.ops()[lay])
        mon.equal("merged_layer", got.ops()[lay], dict(sorted(want.items())), f"layer {lay}")
    mon.equal("num_records", len(got.records), sum(len(p.records) for p in parts), "records")
    if check_meas:
        whole = Canon(first + merged)
        last = {}
        for pos, (q, k, _, _) in enumerate(whole.records):
            last[q] = pos - len(whole.records)
        for q, ind in inds.items():
            if ind in last:
                mon.equal(
                    "record_target",
                    model.meas_target(q, -1).value,
                    last[ind],
                    f"record of the last measurement of {q}",
                )
    # a single block
    block = merge_tick_blocks(*[split(c)[0] for c in circuits])
    mon.equal("tick_block", Canon(block).ops()[0], got.ops()[0], "merged first block")
    if sum(len(c) > 0 for c in circuits) > 1:
        mon.sig(case["model"], n, nlayers, same_ops, check_meas, got.ops())


def run_measures(case, mon):
    """All the patches measure in the same basis, in one or several instructions."""
    rng = random.Random(case["seed"])
    n, m = case["n"], rng.randint(1, 4)
    qubits = [f"q{i}" for i in range(n * m)]
    inds = dict(zip(qubits, rng.sample(range(100), len(qubits))))
    glob = dict(sq_error_prob=0.01, tq_error_prob=0.02, assign_error_flag=True)
    glob.update(assign_error_prob=0.003, biased_pauli="free", biased_factor=2)
    local = [dict(qubit=q, assign_error_prob=0.001 * (i + 1)) for i, q in enumerate(qubits)]
    setup = Setup(dict(setup=[glob] + [x for x in local if rng.random() < 0.8]))
    setup.set_var_param("free", "X")
    model = gen.make_model(rng.choice(["circuit", "biased", "phenom", "incoming"]), setup, inds)
    model.new_circuit()
    rng.shuffle(qubits)
    circuits = []
    for i in range(n):
        group = qubits[i * m : (i + 1) * m]
        circ = rng.choice([model.hadamard, model.idle])(group) + model.tick()
        circuits.append(circ + getattr(model, MEAS[case["basis"]])(group))
    whole = Canon(merge_circuits(*circuits))
    want = {q: v for c in circuits for q, v in Canon(c).ops()[1].items()}
    mon.equal("merged_layer", whole.ops()[1], dict(sorted(want.items())), "layer of measurements")
    mon.equal("num_records", len(whole.records), n * m, "records")
    place = {q: pos - n * m for pos, (q, _, _, _) in enumerate(whole.records)}
    for q in qubits:
        mon.equal("record_target", model.meas_target(q, -1).value, place[inds[q]], f"record of {q}")
    mon.sig("measures", n, m, case["basis"])


def num_meas(circ):
    return circ.num_measurements


def split(circ):
    blocks = [stim.Circuit()]
    for instr in circ.flattened():
        if instr.name == "TICK":
            blocks.append(stim.Circuit())
        else:
            blocks[-1].append(instr)
    return blocks
