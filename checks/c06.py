"""C06: relative measurement addressing resolves to the right record.

Random histories of operations are sent to each noise model. A log of what the
*emitted circuit* measures (read from the stim instructions, never from the model)
is the reference: qubit -> positions of its records. After every operation the
monitor asks the model for outcomes of each qubit, with negative and non-negative
indices, and compares the absolute record that the returned ``rec[...]`` denotes.
"""

import random

import stim

from vlib import gen
from vlib.canon import MEAS, TWO_QUBIT

PROPERTY = "C06"
RULE = (
    "A case is a noise model and a seeded history of measurements (three bases, in "
    "lists, tuples, sets, dictionary keys, groups of any size incl. empty), other "
    "operations, whole circuit blocks and new circuits; non-trivial: >= 3 measured "
    "qubits with different numbers of outcomes when addressed."
)
ASSUMPTIONS = [
    "records are numbered by stim in the order in which targets of measurement "
    "instructions appear in the emitted circuit"
]
MIN_EVENTS = {
    "target resolved (negative index)": 8000,
    "target resolved (non-negative index)": 8000,
    "executed outcome equals the addressed one": 700,
    "missing outcome refused": 1500,
    "unknown qubit refused": 300,
    "new circuit": 60,
}
KINDS = ["noiseless", "circuit", "biased", "incoming", "phenom",
         "decoherence", "decoherence_asym", "experimental"]  # fmt: skip


def cases(tier, rng):
    n = 20 if tier == "quick" else 260
    out = []
    for kind in KINDS:
        out.append(dict(model=kind, seed=rng.randint(0, 10**9), nq=rng.randint(10, 36),
                        steps=rng.randint(60, 250), what="ops"))  # fmt: skip
        for _ in range(n):
            out.append(dict(model=kind, seed=rng.randint(0, 10**9), nq=rng.randint(2, 9),
                            steps=rng.randint(5, 28), what="ops"))  # fmt: skip
    for _ in range(3 * n):
        spec = gen.experiment_spec(rng, ["memory"])
        out.append(dict(what="blocks", spec=spec, seed=rng.randint(0, 10**9)))
    return out


class Log:
    """Records of the emitted circuit, read from its instructions."""

    def __init__(self):
        self.circuit = stim.Circuit()
        self.recs = {}
        self.n = 0

    def add(self, circ):
        self.circuit += circ
        for instr in circ.flattened():
            if instr.name in MEAS:
                assert instr.name not in TWO_QUBIT and instr.name != "MPP"
                for t in instr.targets_copy():
                    self.recs.setdefault(t.value, []).append(self.n)
                    self.n += 1


def probe(mon, model, log, inds, rng, shots=None):
    for q, i in inds.items():
        recs = log.recs.get(i, [])
        m = len(recs)
        for k in set([1, m, rng.randint(1, m)] if m else []):
            mon.equal("target resolved (negative index)",
                      model.meas_target(q, -k).value, recs[-k] - log.n,
                      f"outcome {-k} of {q} ({m} outcomes)")  # fmt: skip
        for k in set([0, m - 1, rng.randrange(m)] if m else []):
            mon.equal("target resolved (non-negative index)",
                      model.meas_target(q, k).value, recs[k] - log.n,
                      f"outcome {k} of {q} ({m} outcomes)")  # fmt: skip
        if rng.random() < 0.3:
            bad = rng.choice([m, m + 1, -m - 1, -m - 2, m + 50, -m - 50])
            mon.raises("missing outcome refused", lambda: model.meas_target(q, bad),
                       (ValueError, IndexError), f"outcome {bad} of {q} that has {m}")  # fmt: skip
    if rng.random() < 0.3:
        mon.raises("unknown qubit refused", lambda: model.meas_target("nobody", -1),
                   (KeyError, ValueError), "outcome of an unknown qubit")  # fmt: skip
    counts = {len(v) for v in log.recs.values()}
    if len(log.recs) >= 3 and len(counts) >= 2:
        mon.sig(type(model).__name__, tuple(sorted((k, tuple(v)) for k, v in log.recs.items())))


def group(rng, qubits):
    n = rng.choice([0, 1, 1, 2, 3, len(qubits)])
    g = rng.sample(qubits, min(n, len(qubits)))
    form = rng.choice([list, list, tuple, set, frozenset, dict.fromkeys])
    return form(g), len(g)


def run(case, mon):
    if case["what"] == "blocks":
        return run_blocks(case, mon)
    rng = random.Random(case["seed"])
    names = [f"q{k}" for k in range(case["nq"])]
    rng.shuffle(names)
    pos = rng.sample(range(40), len(names))
    inds = dict(zip(names, pos))
    setup = gen.make_setup(gen.setup_dict(rng, names, [], scale=0.3))
    model = gen.make_model(case["model"], setup, dict(inds))
    if case["model"].startswith("deco") or case["model"] == "experimental":
        idle = lambda q: model.idle(q, 0.3)
    else:
        idle = model.idle
    others = [model.x_gate, model.z_gate, model.hadamard, model.reset, model.reset_x,
              model.reset_y, model.reset_z, idle]  # fmt: skip
    if case["model"] not in ("experimental",):
        others += [model.s_gate, model.s_dag_gate]
    log = Log()
    for _ in range(case["steps"]):
        r = rng.random()
        if r < 0.6:
            meas = rng.choice(
                [model.measure, model.measure_x, model.measure_y, model.measure_z]
            )
            g, n = group(rng, names)
            before = log.n
            log.add(meas(g))
            mon.equal("records emitted", log.n - before, n, f"records of measuring {g}")
            got = sorted(i for i in inds.values() for r in log.recs.get(i, []) if r >= before)
            mon.equal("records emitted", got, sorted(inds[q] for q in g), "measured qubits")
        elif r < 0.85:
            f = rng.choice(others)
            log.add(f(list(rng.sample(names, rng.randint(1, len(names))))))
        elif r < 0.93 and len(names) > 1:
            f = rng.choice([model.cnot, model.cphase, model.swap])
            log.add(f(rng.sample(names, 2)))
        elif r < 0.96:
            log.add(model.tick())
        else:
            mon.see("new circuit")
            model.new_circuit()
            log = Log()
        probe(mon, model, log, inds, rng)
    execute(mon, model, log, inds, rng, case)


def execute(mon, model, log, inds, rng, case):
    """Appends, as parity, the addressed outcome with the one known to be right:
    in every execution their values agree (also with noise)."""
    if not log.n:
        return
    circ = log.circuit.copy()
    pairs = []
    for q, i in inds.items():
        recs = log.recs.get(i, [])
        for k in range(len(recs)):
            target = model.meas_target(q, k - len(recs))
            pairs.append((target.value + log.n, recs[k]))
    samples = circ.compile_sampler(seed=case["seed"] % 2**31).sample(16)
    for a, b in pairs:
        mon.check("executed outcome equals the addressed one",
                  0 <= a < log.n and (samples[:, a] == samples[:, b]).all(),
                  f"record {a} is not {b}")  # fmt: skip


def run_blocks(case, mon):
    """The same through circuit blocks and whole experiments."""
    spec = case["spec"]
    rng = random.Random(case["seed"])
    built = gen.Built(spec)
    layout = built.layouts[0]
    inds = gen.inds_of(layout)
    module = gen.fam(spec["family"])[1]
    # an experiment leaves the model addressing the records of that experiment
    log = Log()
    log.add(built.circuit())
    probe(mon, built.model, log, inds, rng)
    # blocks by hand on top of a new circuit
    mon.see("new circuit")
    built.model.new_circuit()
    built.detectors.new_circuit()
    log = Log()
    model, det = built.model, built.detectors
    log.add(module.init_qubits(model, layout, det, built.init, rot_basis=spec["rot_basis"]))
    probe(mon, model, log, inds, rng)
    kw = {} if spec["family"] == "rot_google" else dict(anc_reset=spec["anc_reset"])
    for _ in range(rng.randint(1, 3)):
        log.add(module.qec_round(model, layout, det, **kw))
        probe(mon, model, log, inds, rng)
        log.add(model.tick())
    if spec["family"] == "rot_google":
        log.add(module.qec_round_with_log_meas(model, layout, det, rot_basis=spec["rot_basis"]))
    else:
        log.add(module.log_meas(model, layout, det, rot_basis=spec["rot_basis"], **kw))
    probe(mon, model, log, inds, rng)
