"""C12: circuits keep the protection that their code promises under noise.

The emitted noisy circuits are handed to the error analysis of the simulator,
which propagates *every* fault mechanism of the circuit, one by one, to the
detectors and observables that it flips.  The oracle on those mechanisms:

- no single mechanism flips an observable without flipping a detector (all
  experiments),
- no two mechanisms flip the same detectors and different observables if the
  distance is at least three (all experiments),
- the shortest chain of mechanisms that flips the observable of a memory
  experiment and no detector has at least the length of the shortest logical
  operator of the opposite type, which is computed from the coordinates.
"""

import itertools

from vlib import gen

PROPERTY = "C12"
RULE = (
    "a case is a noisy experiment with all detectors; non-trivial if its circuit has "
    "fault mechanisms; the shortest undetected logical fault is searched in memory "
    "experiments, single faults and pairs of faults are enumerated in all experiments"
)
ASSUMPTIONS = [
    "the error analysis of stim (fault propagation and shortest-path search) is right",
    "mechanisms that flip more than two detectors of the same type are only part of "
    "the single-fault and fault-pair oracles, not of the shortest-path search",
    "noise of equal strength on all operations (the strength does not matter, only "
    "that each declared fault location exists)",
]
MODELS = ["circuit", "biased", "incoming", "phenom"]
MIN_EVENTS = {
    "mechanism": 10000,
    "distance_search": 45,
    "fault_pairs": 40,
    "gate_experiment": 20,
}


def cases(tier, rng):
    out = []
    big = tier == "thorough"
    sizes = [(3, 3), (3, 4), (4, 3), (2, 3), (5, 3), (3, 5)]
    combos = list(itertools.product(gen.FAMILIES, [False, True], [False, True]))
    for family, rot, reset in combos:
        for _ in range(8 if big else 2):
            dx, dz = rng.choice(sizes)
            if rng.random() < (0.4 if big else 0.1):
                dx, dz = rng.choice([(5, 5), (4, 5), (5, 4)])
            out.append(
                dict(
                    gen.experiment_spec(rng, ["memory"]),
                    family=family,
                    layouts=[gen.layout_spec(rng, gen.lattice(family), dx, dz)],
                    rot_basis=rot,
                    anc_reset=reset,
                    model=rng.choice(MODELS),
                    rounds=rng.choice([1, 2, 3, dx, dx + 1]),
                )
            )
    for _ in range(300 if big else 24):
        out.append(dict(gen.experiment_spec(rng, ["memory"], 4), model=rng.choice(MODELS)))
    for kind in ["s", "h", "cnot"]:
        for _ in range(160 if big else 18):
            spec = gen.experiment_spec(rng, [kind], 4 if big else 3)
            out.append(dict(spec, model=rng.choice(MODELS)))
    for spec in out:
        spec["gauge"] = False
        for layout in spec["layouts"]:
            if layout["via"]:
                # (across the diagonal, the hooks would be along the logical operators)
                layout["via"]["mirror"] = layout["via"]["mirror"].replace("t", "")
    return out


def mechanisms(circuit):
    dem = circuit.detector_error_model(
        flatten_loops=True, approximate_disjoint_errors=True
    )
    out = {}
    n = 0
    for inst in dem:
        if inst.type != "error":
            continue
        n += 1
        dets, obs = [], []
        for t in inst.targets_copy():
            if t.is_relative_detector_id():
                dets.append(t.val)
            elif t.is_logical_observable_id():
                obs.append(t.val)
        out.setdefault(frozenset(dets), set()).add(frozenset(obs))
    return out, n


def run(case, mon):
    built = gen.Built(case, anc_detectors=None)
    built.model = gen.make_model(
        case["model"], gen.uniform_setup(0.001), gen.inds_of(*built.layouts)
    )
    circuit = built.circuit()
    mech, num = mechanisms(circuit)
    mon.see("mechanism", num)
    mon.check(
        "single_fault",
        not any(o for o in mech.get(frozenset(), ())),
        "a single fault flips an observable and no detector",
    )
    mon.sig(case["kind"], case["family"], case["model"], num, len(mech))
    if case["kind"] != "memory":
        mon.see("gate_experiment")
    sizes = [(s["dx"], s["dz"]) for s in case["layouts"]]
    if case["kind"] == "memory":
        dist = sizes[0][1] if case["rot_basis"] else sizes[0][0]
    else:
        dist = min(min(s) for s in sizes)
    if dist >= 3:
        for dets, obs in mech.items():
            if len(obs) > 1:
                mon.check("fault_pair", False, f"two faults flip the observables {obs} "
                          f"and both flip the detectors {sorted(dets)}")  # fmt: skip
        mon.see("fault_pairs")
    if case["kind"] != "memory":
        return
    dem = circuit.detector_error_model(
        decompose_errors=True,
        approximate_disjoint_errors=True,
        ignore_decomposition_failures=True,
        flatten_loops=True,
    )
    if not any(frozenset({0}) in o for o in mech.values()):
        return  # no fault flips the observable
    length = len(dem.shortest_graphlike_error())
    mon.check(
        "distance_search",
        length >= dist,
        f"{length} faults flip the observable and no detector, the distance is {dist}",
    )
    if length == dist:
        mon.see("distance_reached")
