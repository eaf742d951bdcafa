"""C15: sampled datasets agree with the circuit they were sampled from.

The dataset is compared record by record with an execution of the same circuit with
the same seed, in which the place of each outcome is found by walking the emitted
instructions, and the detection events and logical flips derived from the dataset
(using the detectors of the circuit expressed as outcomes of named qubits) are compared
with those that the simulator computes from the circuit; faults are injected with
certainty at random places so that the events to see are known.
"""

import random

import numpy as np
import stim

from surface_sim.util import sample_memory_experiment

from vlib import gen
from vlib.canon import Canon

PROPERTY = "C15"
RULE = (
    "a case is a memory experiment of a family, size, placement, basis and noise model, "
    "sampled with several seeds and with injected faults; non-trivial if at least one "
    "record differs between qubits or shots"
)
ASSUMPTIONS = [
    "the sampler of stim is reproducible for a given seed in the same process",
    "at least one shot, and the number of rounds of the experiment",
]
MIN_EVENTS = {
    "anc_column": 1500,
    "data_column": 800,
    "same_seed": 60,
    "event_column": 1500,
    "flip_column": 60,
    "ideal_detector": 1500,
    "triggered": 25,
}


def cases(tier, rng):
    out = []
    n = 150 if tier == "quick" else 2000
    for k in range(n):
        spec = gen.experiment_spec(rng, ["memory"], dmax=4 if k % 5 == 0 else 3)
        spec["family"] = list(gen.FAMILIES)[k % len(gen.FAMILIES)]
        spec["layouts"] = [
            gen.layout_spec(
                rng, gen.lattice(spec["family"]), spec["layouts"][0]["dx"], spec["layouts"][0]["dz"]
            )
        ]
        spec["rounds"] = max(spec["rounds"], 1 if spec["family"] == "rot_google" else 0)
        out.append(dict(spec=spec, seed=rng.randint(0, 10**9), shots=rng.choice([1, 2, 17, 64])))
    return out


def inject(circ, rng, inds):
    """The circuit without noise and with some Pauli faults that always happen."""
    out = stim.Circuit()
    plan = rng.choice([1, 1, 2, 4])
    ticks = [rng.randrange(circ.num_ticks + 1) for _ in range(plan)]
    t = 0
    for instr in circ.without_noise().flattened():
        out.append(instr)
        if instr.name == "TICK":
            for _ in range(ticks.count(t)):
                out.append(rng.choice(["X_ERROR", "Y_ERROR", "Z_ERROR"]), [rng.choice(inds)], 1)
            t += 1
    return out


def columns(canon, layout, rounds):
    """(kind, round, label) of each record of the circuit, in order."""
    lab = {i: q for q, i in layout.qubit_inds().items()}
    data = set(layout.get_qubits(role="data"))
    out = []
    for q, k, _, _ in canon.records:
        name = lab[q]
        out.append(("data", None, name) if name in data else ("anc", k + 1, name))
    return out


def outcome(ds, key, ideal=False):
    kind, rnd, name = key
    pre = "ideal_" if ideal else ""
    if kind == "data":
        return ds[pre + "data_meas"].sel(data_qubit=name).values
    return ds[pre + "anc_meas"].sel(qec_round=rnd, anc_qubit=name).values


def parity(ds, recs, cols, ideal=False):
    vals = [np.asarray(outcome(ds, cols[r], ideal)).astype(np.uint8) for r in recs]
    if not vals:
        return np.zeros(1 if ideal else ds.sizes["shot"], dtype=np.uint8)
    return np.atleast_1d(sum(vals) % 2)


def run(case, mon):
    spec = dict(case["spec"], gauge=False)
    rng = random.Random(case["seed"])
    built = gen.Built(spec)
    layout, rounds, shots = built.layouts[0], spec["rounds"], case["shots"]
    anc, data = layout.get_qubits(role="anc"), layout.get_qubits(role="data")
    noisy = built.circuit()
    faulty = inject(noisy, rng, layout.get_inds(anc + data))
    text = str(noisy)
    seed = rng.choice([0, 1, rng.randint(0, 100), rng.randint(0, 2**31), 2**63 - 1])
    before = layout.to_dict()

    for name, circ in (("noisy", noisy), ("faulty", faulty)):
        ds = sample_memory_experiment(layout, circ, shots, rounds, seed)
        shape = dict(ds.sizes)
        want = dict(shot=shots, qec_round=rounds, anc_qubit=len(anc), data_qubit=len(data))
        mon.equal("sizes", shape, want, "sizes of the dataset")
        mon.equal("coords", list(ds.anc_qubit.values), anc, "ancillas")
        mon.equal("coords", list(ds.data_qubit.values), data, "data qubits")
        mon.equal("coords", list(ds.qec_round.values), list(range(1, rounds + 1)), "rounds")
        mon.equal("coords", len(set(ds.shot.values.tolist())), shots, "shots")
        mon.equal("coords", int(ds.seed), seed, "seed")
        mon.equal("dims", set(ds.anc_meas.dims), {"shot", "qec_round", "anc_qubit"}, "anc_meas")
        mon.equal("dims", set(ds.data_meas.dims), {"shot", "data_qubit"}, "data_meas")
        mon.equal("dims", set(ds.ideal_anc_meas.dims), {"qec_round", "anc_qubit"}, "ideal anc")
        mon.equal("dims", set(ds.ideal_data_meas.dims), {"data_qubit"}, "ideal data")

        # every record of the circuit is in its place
        canon = Canon(circ)
        cols = columns(canon, layout, rounds)
        mon.equal("num_records", len(set(cols)), rounds * len(anc) + len(data), "records")
        raw = circ.compile_sampler(seed=seed).sample(shots).astype(np.uint8)
        for i, key in enumerate(cols):
            got = np.asarray(outcome(ds, key)).astype(np.uint8)
            mon.check(
                f"{key[0]}_column",
                np.array_equal(got, raw[:, i]),
                lambda: f"{name}: outcomes of {key} are {got[:8]}, the circuit gave {raw[:8, i]}",
            )
        # the ideal outcomes are possible ones of the circuit without noise
        recs = {r[:2]: i for i, r in enumerate(canon.records)}
        dets = [[recs[r] for r in d] for _, d in canon.detectors]
        obs = {k: [recs[r] for r in v] for k, v in canon.observables.items()}
        ideal = circ.without_noise()
        ref = ideal.compile_sampler(seed=5).sample(2).astype(np.uint8)
        wanted = []
        for d in dets:
            wanted.append(ref[0, d].sum() % 2 if d else 0)
            got = parity(ds, d, cols, ideal=True)[0]
            mon.equal("ideal_detector", int(got), int(wanted[-1]), f"ideal parity of {d}")
        for k, o in obs.items():
            got = parity(ds, o, cols, ideal=True)[0]
            mon.equal("ideal_observable", int(got), int(ref[0, o].sum() % 2), f"observable {k}")

        # events of the circuit, shot by shot
        conv = circ.compile_m2d_converter()
        ev, fl = conv.convert(measurements=raw.astype(bool), separate_observables=True)
        if name == "faulty":
            # deterministic: the same in any simulation
            ev2, fl2 = circ.compile_detector_sampler(seed=1).sample(1, separate_observables=True)
            mon.check(
                "faults_seen",
                all((ev == ev2[0]).all(axis=0)) and all((fl == fl2[0]).all(axis=0)),
                "the simulator does not agree with itself",
            )
            mon.see("triggered", int(ev2.sum() > 0))
        base = [parity(ds, d, cols, ideal=True)[0] for d in dets]
        for i, d in enumerate(dets):
            got = parity(ds, d, cols) ^ base[i]
            mon.check(
                "event_column",
                np.array_equal(got.astype(bool), ev[:, i]),
                lambda: f"{name}: events of detector {i} are {got[:8]}, of the circuit {ev[:8, i]}",
            )
        for k, o in obs.items():
            got = parity(ds, o, cols) ^ parity(ds, o, cols, ideal=True)[0]
            mon.check(
                "flip_column",
                np.array_equal(got.astype(bool), fl[:, k]),
                lambda: f"{name}: flips of observable {k} differ",
            )
        again = sample_memory_experiment(layout, circ, shots, rounds, seed)
        mon.check("same_seed", again.equals(ds), "the same seed gives other data")
        none = sample_memory_experiment(layout, circ, shots, rounds)
        mon.equal("sizes", dict(none.sizes), want, "sizes without a seed")
        if raw.any():
            mon.sig(spec["family"], rounds, shots, raw.sum(), len(cols))
    mon.check("inputs", str(noisy) == text, "sampling changed the circuit")
    mon.check("inputs", layout.to_dict() == before, "sampling changed the layout")
    mon.raises(
        "wrong_rounds",
        lambda: sample_memory_experiment(layout, noisy, shots, rounds + 1, seed),
        Exception,
        "a number of rounds that the circuit does not have",
    )
