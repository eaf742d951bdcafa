"""Memory experiments: complete, deterministic and correct detectors/observable."""

import random

from vlib import gen
from vlib.canon import Canon, sample_parities

PROPERTY = "C01"
RULE = (
    "random memory experiments over family x (dx,dz) x rounds x basis x ancilla reset x "
    "frame x gauge flag x ancilla selection x initial bitstring x patch placement x noise "
    "model; the emitted circuit is executed 192 times (stim, exact measurement sampling) "
    "and its raw parities, records and detectors are compared with an independent "
    "closed-form description. Non-trivial: at least one detector with targets; distinct "
    "by (family, dx, dz, rounds, basis, reset, frame, gauge, selection size, model)."
)
ASSUMPTIONS = [
    "stim's measurement sampling is the trusted executor; a random outcome looks "
    "constant over 192 shots with probability 2^-191",
    "distances >= 2 in both directions (distance-1 strips are degenerate codes)",
]
MIN_EVENTS = {
    "detector content": 2000,
    "deterministic detector": 1500,
    "gauge detector random": 100,
    "observable": 100,
}


def cases(tier, rng):
    out = []
    fams = list(gen.FAMILIES)
    # every family with every basis/reset/gauge/frame at least once, then random
    for f in fams:
        for i in range(8):
            out.append(
                dict(family=f, basis=bool(i & 1), reset=bool(i & 2), gauge=bool(i & 4),
                     frame=rng.choice(gen.FRAMES), d=[rng.randint(2, 4), rng.randint(2, 4)],
                     rounds=rng.randint(1, 4))
            )  # fmt: skip
        for basis in (False, True):
            out.append(dict(family=f, basis=basis, reset=rng.random() < 0.5, gauge=False,
                            frame=rng.choice(gen.FRAMES), d=[3, 3], rounds=0))  # fmt: skip
    n, dmax = (150, 4) if tier == "quick" else (1500, 7)
    for _ in range(n):
        out.append(
            dict(family=rng.choice(fams), basis=rng.random() < 0.5, reset=rng.random() < 0.5,
                 gauge=rng.random() < 0.4, frame=rng.choice(gen.FRAMES),
                 d=[rng.randint(2, dmax), rng.randint(2, dmax)],
                 rounds=rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6] + ([9, 15] if tier != "quick" else [])))
        )  # fmt: skip
    # long experiments and large or elongated patches
    for i in range(18 if tier == "quick" else 120):
        d = rng.choice([[2, 8], [8, 2], [3, 7], [6, 3], [5, 5], [6, 6]])
        rounds = rng.choice([0, 1, 2, 3])
        if i % 2:
            d, rounds = [rng.randint(2, 3), rng.randint(2, 3)], rng.choice([7, 8, 10, 13, 17, 24])
        out.append(
            dict(family=fams[(i // 2) % len(fams)], basis=rng.random() < 0.5,
                 reset=rng.random() < 0.5, gauge=rng.random() < 0.4,
                 frame=rng.choice(gen.FRAMES), d=d, rounds=rounds)
        )  # fmt: skip
    for c in out:
        if c["family"] == "rot_google":
            c["rounds"] = max(1, c["rounds"])
            c["reset"] = True
        c["model"] = rng.choice(gen.CIRCUIT_MODELS + ["noiseless"])
        c["seed"] = rng.randint(0, 10**9)
        c["plain"] = rng.random() < 0.3
    return out


def run(case, mon):
    rng = random.Random(case["seed"])
    fam, basis, reset, R = case["family"], case["basis"], case["reset"], case["rounds"]
    spec = gen.layout_spec(rng, gen.lattice(fam), *case["d"], plain=case["plain"],
                           scale=1 if case["plain"] else gen.scale_of(rng))  # fmt: skip
    lay = gen.make_layout(spec)
    inds = lay.qubit_inds()
    setup = gen.make_setup(gen.setup_dict(rng, lay.get_qubits()))
    model = gen.make_model(case["model"], setup, inds)
    det = gen.make_detectors(case["frame"], lay)
    init = gen.data_init(rng, [lay])
    sel = gen.anc_subset(rng, [lay])
    circ = gen.memory(fam, model, lay, det, R, init, basis, reset, sel, case["gauge"])

    anc = lay.get_qubits(role="anc")
    data = lay.get_qubits(role="data")
    typ = "x_type" if basis else "z_type"
    stabs = gen.stabilizers(lay)
    selset = set(anc if sel is None else sel)
    coords = {a: tuple(float(x) for x in lay.param("coords", a)) for a in anc}

    # ---- expected records, detectors and observable
    want, raw = {}, {}
    for a in anc:
        A = inds[a]
        is_det = lay.param("stab_type", a) == typ
        par = sum(init.get(q, 0) for q in stabs[a]) % 2
        back = 1 if reset else 2
        for r in range(R):
            t = {(A, r)}
            if r >= back:
                t ^= {(A, r - back)}
            if a not in selset or (r == 0 and not is_det and not case["gauge"]):
                t = set()
            key = (*coords[a], float(r))
            want[key] = frozenset(t)
            if not t:
                raw[key] = 0
            elif not is_det:
                # the first two (without reset) outcomes are m_0 = s, m_1 = 0
                raw[key] = "random" if r == 0 else 0
            else:
                raw[key] = par if r == 0 else 0
        if is_det:
            t = {(inds[q], 0) for q in stabs[a]}
            for b in range(1, (1 if reset else 2) + 1):
                if R - b >= 0:
                    t ^= {(A, R - b)}
            key = (*coords[a], R - 0.5)
            if a not in selset:
                t = set()
            want[key] = frozenset(t)
            raw[key] = (par if R == 0 else 0) if t else 0
    logq = (lay.log_x if basis else lay.log_z)[lay.get_logical_qubits()[0]]

    can = Canon(circ)
    mon.equal("detector list", sorted(c for c, _ in can.detectors), sorted(want), "detector coordinates")  # fmt: skip
    for c, recs in can.detectors:
        mon.equal("detector content", recs, want[c], f"records of detector {c}")
    mon.equal("observable content", can.obs(), {0: tuple(sorted((inds[q], 0) for q in logq))}, "observables")  # fmt: skip
    count = {}
    for q, _, _, _ in can.records:
        count[q] = count.get(q, 0) + 1
    exp = {inds[a]: R for a in anc if R}
    exp.update({inds[q]: 1 for q in data})
    mon.equal("records", count, exp, "number of measurements per qubit")

    # ---- execution
    _, dets, obs = sample_parities(circ, seed=case["seed"] % 2**31)
    google = fam == "rot_google"
    for (c, _), vals in zip(can.detectors, dets):
        const = vals.min() == vals.max()
        if raw[c] == "random":
            mon.check("gauge detector random", not const, f"gauge detector {c} is constant")
            continue
        mon.check("deterministic detector", const, f"detector {c} is random without noise")
        if not google:
            mon.check("detector value", vals[0] == raw[c],
                      f"detector {c} has value {vals[0]} without noise, expected {raw[c]}")  # fmt: skip
    par = sum(init.get(q, 0) for q in logq) % 2
    mon.check("observable", obs[0].min() == obs[0].max(), "observable is random without noise")
    val = int(obs[0][0])
    if google:
        # the echo pulses leave a Pauli frame that depends on the number of rounds
        det0 = gen.make_detectors(case["frame"], lay)
        model0 = gen.make_model("noiseless", None, inds)
        ref = gen.memory(fam, model0, lay, det0, R, {}, basis, True, None, False)
        _, _, obs0 = sample_parities(ref, shots=8)
        val ^= int(obs0[0][0])
    mon.check("observable value", val == par, f"observable is {val}, initialised to {par}")
    mon.sig(fam, case["d"], R, basis, reset, case["frame"], case["gauge"], len(selset), case["model"])  # fmt: skip
