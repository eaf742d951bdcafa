"""C09: noise models only add noise.

The same construction is driven with a noise model and with the noiseless one; the
emitted circuits, stripped of noise, must describe the same operations on each qubit
in each layer, the same sequence of records, detectors and observables. Their
executions are also compared: all detectors and observables have the same value.
"""

import random

from vlib import gen
from vlib.canon import Canon, diff, sample_parities
from vlib.program import Program, program_spec

PROPERTY = "C09"
RULE = (
    "A case is a complete experiment or a random program of circuit blocks on one to three "
    "patches, with all options random, built with each of the noise models. Non-trivial: "
    "the noisy circuit contains at least 20 noise instructions."
)
ASSUMPTIONS = [
    "idling is noise only: the identities that the noiseless model emits for idling are ignored",
    "the models whose idling takes a duration cannot drive the circuit blocks (they are "
    "compared operation by operation, here and in C07)",
]
MIN_EVENTS = {
    "noise stripped equals noiseless": 500,
    "record sequence": 350,
    "detector sequence": 350,
    "executed parities": 35,
    "operation history": 40,
}
NOISY = ["circuit", "biased", "incoming", "phenom"]


def cases(tier, rng):
    n = 75 if tier == "quick" else 900
    out = []
    for k in range(n):
        out.append(dict(what="exp", spec=gen.experiment_spec(rng, cell=k)))
        out.append(dict(what="prog", spec=program_spec(rng)))
    for kind in ("decoherence", "decoherence_asym", "experimental", "circuit", "biased"):
        for _ in range(n // 5):
            out.append(dict(what="ops", model=kind, seed=rng.randint(0, 10**9)))
    return out


def strip(circ):
    return Canon(circ, noise=False, idle=False)


def compare(mon, ref, noisy, where):
    a, b = strip(ref), strip(noisy)
    d = diff(a, b)
    mon.check("noise stripped equals noiseless", not d, f"{where}: noiseless versus stripped: {d}")
    ra = [(q, k, basis) for q, k, _, basis in a.records]
    rb = [(q, k, basis) for q, k, _, basis in b.records]
    mon.equal("record sequence", rb, ra, f"{where}: measured qubits in order")
    mon.equal("detector sequence", b.detectors, a.detectors, f"{where}: detectors in order")


def noise_count(circ):
    return len(circ.flattened()) - len(circ.without_noise().flattened())


def run(case, mon):
    if case["what"] == "ops":
        return run_ops(case, mon)
    spec = case["spec"]
    if case["what"] == "exp":
        make = gen.Built
        ref = make(spec, model="noiseless").circuit()
    else:
        first = Program(spec, model="noiseless")
        make = lambda spec, model: Program(spec, model=model, layouts=first.layouts)
        ref = first.circuit()
    mon.check("noise stripped equals noiseless", ref == ref.without_noise(),
              "the noiseless circuit has noise")  # fmt: skip
    for kind in NOISY:
        circ = make(spec, model=kind).circuit()
        compare(mon, ref, circ, f"{kind}")
        if noise_count(circ) >= 20:
            mon.sig(kind, str(spec))
        if kind in ("incoming", "phenom"):
            d = diff(Canon(ref, noise=False), Canon(circ, noise=False))
            mon.check("noise stripped equals noiseless", not d, f"{kind} (with idling): {d}")
    rng = random.Random(str(spec))
    if rng.random() < 0.4:
        circ = make(spec, model=rng.choice(NOISY)).circuit()
        _, d1, o1 = sample_parities(ref, 32, 5)
        _, d2, o2 = sample_parities(circ, 32, 5)
        det = [k for k in range(len(d1)) if len(set(d1[k])) == 1]
        mon.check("executed parities", all((d1[k] == d2[k]).all() for k in det) and
                  all((o1[k] == o2[k]).all() for k in o1 if len(set(o1[k])) == 1),
                  "values of detectors or observables differ")  # fmt: skip


def run_ops(case, mon):
    rng = random.Random(case["seed"])
    names = [f"q{k}" for k in range(rng.randint(2, 8))]
    inds = dict(zip(names, rng.sample(range(30), len(names))))
    setup = gen.make_setup(gen.setup_dict(rng, names))
    noisy = gen.make_model(case["model"], setup, dict(inds))
    ref = gen.make_model("noiseless", None, dict(inds))
    timed = case["model"].startswith("deco") or case["model"] == "experimental"
    ops = ["x_gate", "z_gate", "hadamard", "reset", "reset_x", "reset_y", "measure",
           "measure_x", "measure_y", "idle", "cnot", "cphase", "swap", "tick"]  # fmt: skip
    if case["model"] != "experimental":
        ops += ["s_gate", "s_dag_gate"]
    ca, cb = ref.tick(), noisy.tick()
    measured = {}
    for _ in range(rng.randint(5, 40)):
        op = rng.choice(ops)
        if op == "tick":
            ca += ref.tick()
            cb += noisy.tick()
            continue
        n = 2 * rng.randint(1, len(names) // 2) if op in ("cnot", "cphase", "swap") else rng.randint(1, len(names))
        qs = rng.sample(names, n)
        ca += getattr(ref, op)(qs)
        cb += noisy.idle(qs, 0.4) if op == "idle" and timed else getattr(noisy, op)(qs)
        if op.startswith("measure"):
            for q in qs:
                measured[q] = measured.get(q, 0) + 1
        q = rng.choice(names)
        if measured.get(q):
            k = -rng.randint(1, measured[q])
            ca.append("DETECTOR", [ref.meas_target(q, k)], [1.0])
            cb.append("DETECTOR", [noisy.meas_target(q, k)], [1.0])
    mon.see("operation history")
    compare(mon, ca, cb, case["model"])
    mon.sig(case["model"], case["seed"])
