"""QEC rounds: every stabilizer measured by its ancilla, everything else untouched."""

import random

import stim

from surface_sim import Detectors
from surface_sim.util import merge_qec_rounds
from vlib import gen
from vlib.canon import Canon
from vlib.flows import Flows, mul, record_index

PROPERTY = "C03"
RULE = (
    "random patches (family, rectangular size, placement, labels, index offsets) on which "
    "1-3 rounds are emitted, alone or merged with the rounds of up to 4 patches of mixed "
    "sizes; stim decides the stabilizer flows S_a -> record of a, S_a -> S_a, L -> L, against "
    "the stabilizers recomputed from the coordinates. Distinct by family, sizes, reset, "
    "number of rounds and patches."
)
ASSUMPTIONS = [
    "stim's flow check is the trusted oracle of what a Clifford circuit does",
    "the echo pulses of the XZZX Google round may flip signs (unsigned flows there; the "
    "values of its detectors are decided by C01)",
]
MIN_EVENTS = {"flow": 3000, "records": 100, "detector": 500}


def cases(tier, rng):
    out = []
    n, dmax = (110, 6) if tier == "quick" else (1200, 9)
    fams = list(gen.FAMILIES)
    for i in range(n):
        fam = fams[i % len(fams)]
        k = 1 if fam == "rot_google" else rng.choice([1, 1, 1, 2, 2, 3, 4])
        top = dmax if k == 1 else 4
        out.append(dict(
            family=fam, d=[[rng.randint(2, top), rng.randint(2, top)] for _ in range(k)],
            reset=rng.random() < 0.5, rounds=rng.randint(1, 3), merge=k > 1 or rng.random() < 0.3,
            model=rng.choice(gen.CIRCUIT_MODELS), seed=rng.randint(0, 10**9)))  # fmt: skip
    return out


def run(case, mon):
    rng = random.Random(case["seed"])
    fam = case["family"]
    google, xzzx = fam == "rot_google", fam in gen.XZZX
    lat = gen.lattice(fam)
    block = gen.FAMILIES[fam][1]
    scale = gen.scale_of(rng)
    lays = [gen.make_layout(gen.layout_spec(rng, lat, *d, k, scale=scale)) for k, d in enumerate(case["d"])]
    order = lays[:]
    rng.shuffle(order)
    inds = gen.inds_of(*lays)
    data = [q for l in lays for q in l.get_qubits()]
    model = gen.make_model(case["model"], gen.make_setup(gen.setup_dict(rng, data)), inds)
    det = gen.make_detectors(rng.choice(gen.FRAMES), *lays)
    anc = [a for l in lays for a in l.get_qubits(role="anc")]
    det.activate_detectors(anc)
    model.new_circuit()

    rounds = []
    for _ in range(case["rounds"]):
        if google:
            c = block.qec_round(model, lays[0], det)
        elif case["merge"]:
            c = merge_qec_rounds(block.qec_round_iterator, model, order, det, anc_reset=case["reset"])
        else:
            c = block.qec_round(model, lays[0], det, case["reset"])
        rounds.append(c)

    # detectors refer to earlier rounds, they are looked at on the whole history
    full = sum(rounds, start=stim.Circuit())
    can = Canon(full)
    back = 1 if (google or case["reset"]) else 2
    coords = gen.ancs_of(*lays)
    want = {}
    for a in anc:
        for r in range(case["rounds"]):
            t = {(inds[a], r)} ^ ({(inds[a], r - back)} if r >= back else set())
            want[(*map(float, coords[a]), float(r))] = frozenset(t)
    mon.equal("detector list", sorted(c for c, _ in can.detectors), sorted(want), "detectors of the rounds")  # fmt: skip
    for c, recs in can.detectors:
        mon.equal("detector", recs, want[c], f"records of detector {c}")

    for rnd, circ in enumerate(rounds):
        circ = strip(circ)
        rec = record_index(circ)
        mon.equal("records", sorted(rec), sorted((inds[a], 0) for a in anc), "measurements of a round")
        flows = Flows(circ, inds)
        for l in lays:
            stabs = gen.stabilizers(l, xzzx)
            for a, s in stabs.items():
                m = [rec[inds[a], 0]]
                if google:
                    flows.add(f"{a} not measured by its ancilla", mul(s, {a: "Z"}), {}, m, unsigned=True)
                    flows.add(f"{a} not preserved", s, s, unsigned=True)
                    flows.add(f"ancilla {a} not reset", {}, {a: "Z"})
                elif case["reset"]:
                    flows.add(f"{a} not measured by its ancilla", s, {}, m)
                    flows.add(f"{a} not preserved", s, s)
                    flows.add(f"ancilla {a} does not hold its outcome", {}, {a: "Z"}, m)
                else:
                    flows.add(f"{a} not measured by its ancilla", mul(s, {a: "Z"}), {}, m)
                    flows.add(f"{a} not preserved", s, s)
                    flows.add(f"ancilla {a} does not hold its outcome", {}, {a: "Z"}, m)
            for w in "XZ":
                lg = gen.logical(l, w, xzzx)
                flows.add(f"logical {w} not preserved", lg, lg, unsigned=google)
        bad = flows.failing()
        mon.check("flows of a round", bad is None, f"round {rnd}: stabilizer/logical {bad}")
        mon.see("flow", len(flows.items))
    mon.sig(fam, case["d"], case["reset"], case["rounds"], case["merge"])


def strip(circ):
    """The operations of a round without annotations."""
    out = stim.Circuit()
    for i in circ:
        if i.name not in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            out.append(i)
    return out
