"""Repeated logical-gate experiments: determinism, structure and logical values."""

import random

from vlib import gen
from vlib.canon import Canon, TWO_QUBIT, sample_parities

PROPERTY = "C02"
RULE = (
    "random repeated S / H / CNOT experiments over family x size x number of gates x rounds "
    "per gate x orientation x basis x reset x frame x gauge flag x selection x bitstring x "
    "placement x noise model; each emitted circuit is executed (stim sampling of all "
    "measurements) and compared with the Heisenberg pull-back of the logical operators "
    "computed from the coordinates. Distinct by those options."
)
ASSUMPTIONS = [
    "stim's measurement sampling is the trusted executor (192 shots)",
    "the gate-independent frame does not follow gates (documented), so only its structure is checked",
]
MIN_EVENTS = {
    "deterministic detector": 3000,
    "observable value": 150,
    "gate layers": 60,
    "gauge detector random": 50,
    "gate set again": 8,
}


def cases(tier, rng):
    out = []
    base = [("s", f) for f in gen.CSS] + [("h", "unrot_css")]
    base += [("cnot", f) for f in ("rot_css", "unrot_css")]
    n = 30 if tier == "quick" else 300
    for kind, fam in base:
        for i in range(n):
            dmax = 4 if tier == "quick" or kind == "cnot" else 5
            if kind == "s":
                dx = rng.randint(2, dmax)
                dz = dx + 1 if gen.lattice(fam) == gen.ROT else dx
            elif kind == "h":
                dx = dz = rng.randint(2, dmax)
            else:
                dx, dz = rng.randint(2, 3), rng.randint(2, 3)
                if rng.random() < 0.12:
                    dx, dz = rng.choice([(2, 4), (4, 2), (5, 2)])
            if kind != "cnot" and rng.random() < 0.1:
                dx = rng.randint(5, 6)
                dz = dx + 1 if kind == "s" and gen.lattice(fam) == gen.ROT else dx
            frame = rng.choice(gen.FRAMES[:2]) if rng.random() < 0.9 else gen.FRAMES[2]
            gates = 2 * rng.randint(0, 4) if kind == "s" else rng.randint(0, 6)
            out.append(
                dict(kind=kind, family=fam, d=[dx, dz], gates=gates, rounds=rng.choice([0, 1, 1, 2, 3]),
                     basis=bool(i & 1), reset=bool(i & 2), frame=frame, gauge=rng.random() < 0.4,
                     orientation=rng.choice(["alternating", "alternating", "constant"]),
                     model=rng.choice(gen.CIRCUIT_MODELS), seed=rng.randint(0, 10**9))
            )  # fmt: skip
            if i % 10 == 9:
                # many gates on a small patch, or few gates with many rounds
                big = dict(out[-1], d=[2, 3 if kind == "s" and gen.lattice(fam) == gen.ROT else 2])
                gates, rounds = rng.choice([(8, 1), (10, 1), (12, 1), (17, 0), (2, 7), (3, 5)])
                big.update(gates=gates + (kind == "s" and gates % 2), rounds=rounds)
                out.append(dict(big, seed=rng.randint(0, 10**9)))
    return out


def fold_map(layout):
    """Reflection of the data qubits that exchanges the two logical operators."""
    data = {q: [round(x, 4) for x in layout.param("coords", q)] for q in layout.get_qubits(role="data")}
    inv = {tuple(c): q for q, c in data.items()}
    x0 = min(c[0] for c in data.values())
    y0 = min(c[1] for c in data.values())
    # the square patch is symmetric, the corner is at the first data qubit
    ref = data[gen.corner(layout)]
    sx = 1 if ref[0] == x0 else -1
    sy = 1 if ref[1] == y0 else -1
    out = {}
    for q, c in data.items():
        u, v = (c[0] - ref[0]) * sx, (c[1] - ref[1]) * sy
        out[q] = inv[(round(ref[0] + sx * v, 4), round(ref[1] + sy * u, 4))]
    return out


def used_before(mon, rng, kind, fam, layout):
    """The gate has been used on this layout with another folding."""
    qs = layout.get_qubits(role="data")
    corner = rng.choice([q for q in qs if len(layout.get_neighbors([q])) == 2])
    lg = gen.log_gates(gen.UNROT)
    (lg.set_trans_s if kind == "s" else lg.set_trans_h)(layout, corner)
    model = gen.make_model("noiseless", None, gen.inds_of(layout))
    block = getattr(gen.FAMILIES[fam][1], f"log_trans_{kind}")
    block(model, layout, gen.make_detectors("post-gate", layout))
    mon.see("gate set again")


def run(case, mon):
    rng = random.Random(case["seed"])
    kind, fam, basis, frame = case["kind"], case["family"], case["basis"], case["frame"]
    lat = gen.lattice(fam)
    npatch = 2 if kind == "cnot" else 1
    scale = gen.scale_of(rng)
    specs = [gen.layout_spec(rng, lat, *case["d"], k, scale=scale) for k in range(npatch)]
    if npatch > 1:
        gen.alike(specs)
    lays = [gen.make_layout(s) for s in specs]
    if kind != "cnot" and lat == gen.UNROT and rng.random() < 0.4:
        used_before(mon, rng, kind, fam, lays[0])
    gen.prepare_layouts(kind, lays)
    inds = gen.inds_of(*lays)
    data = [q for l in lays for q in l.get_qubits(role="data")]
    anc = [q for l in lays for q in l.get_qubits(role="anc")]
    setup = gen.make_setup(gen.setup_dict(rng, data))
    model = gen.make_model(case["model"], setup, inds)
    det = gen.make_detectors(frame, *lays)
    init = gen.data_init(rng, lays)
    sel = gen.anc_subset(rng, lays)
    module = gen.FAMILIES[fam][2]
    kw = dict(model=model, detectors=det, num_rounds_per_gate=case["rounds"], data_init=init,
              rot_basis=basis, anc_reset=case["reset"], anc_detectors=sel,
              gauge_detectors=case["gauge"])  # fmt: skip
    n = case["gates"]
    if kind == "s":
        circ = module.repeated_s_experiment(layout=lays[0], num_s_gates=n, **kw)
    elif kind == "h":
        circ = module.repeated_h_experiment(layout=lays[0], num_h_gates=n, **kw)
    else:
        circ = module.repeated_cnot_experiment(
            layout_c=lays[0], layout_t=lays[1], num_cnot_gates=n,
            cnot_orientation=case["orientation"], **kw)  # fmt: skip

    # ------------------------------------------------------------- structure
    can = Canon(circ)
    R = 1 + n * case["rounds"]
    typ = "x_type" if basis else "z_type"
    mbasis = basis ^ (kind == "h" and n % 2 == 1)
    mtyp = "x_type" if mbasis else "z_type"
    par = {q: l for l in lays for q in l.get_qubits()}
    coords = {a: tuple(float(x) for x in par[a].param("coords", a)) for a in anc}
    want = [(*coords[a], float(r)) for a in anc for r in range(R)]
    want += [(*coords[a], R - 0.5) for a in anc if par[a].param("stab_type", a) == mtyp]
    mon.equal("detector list", sorted(c for c, _ in can.detectors), sorted(want), "detector coordinates")  # fmt: skip
    count = {}
    for q, _, _, _ in can.records:
        count[q] = count.get(q, 0) + 1
    exp = {inds[a]: R for a in anc}
    exp.update({inds[q]: 1 for q in data})
    mon.equal("records", count, exp, "number of measurements per qubit")
    dind = {inds[q] for q in data}
    layers = []
    for layer in can.layers:
        pairs = {(q, o[3], o[2]) for q, ops in layer.items() for o in ops
                 if o[0] in TWO_QUBIT and not o[0].startswith(("DEP", "PAULI")) and q in dind and o[3] in dind}  # fmt: skip
        if pairs:
            layers.append(pairs)
    mon.equal("gate layers", len(layers), n, "number of layers with gates among data qubits")
    if kind == "cnot":
        first = {inds[q] for q in lays[0].get_qubits(role="data")}
        for k, pairs in enumerate(layers):
            ctrl = {q for q, _, role in pairs if role == "0"}
            swap = case["orientation"] == "alternating" and k % 2 == 1
            mon.equal("orientation", ctrl, dind - first if swap else first, f"controls of CNOT {k}")

    # ------------------------------------------------------------- execution
    _, dets, obs = sample_parities(circ, seed=case["seed"] % 2**31)
    ancof = {c: a for a, c in coords.items()}
    selset = set(anc if sel is None else sel)
    if frame != "gate-independent":
        for (c, recs), vals in zip(can.detectors, dets):
            a = ancof[c[:-1]]
            const = vals.min() == vals.max()
            if c[-1] == 0 and case["gauge"] and par[a].param("stab_type", a) != typ and a in selset:
                mon.check("gauge detector random", not const, f"gauge detector {c} is constant")
                continue
            mon.check("deterministic detector", const, f"detector {c} of {a} is random without noise")
    for c, recs in can.detectors:
        a = ancof[c[:-1]]
        if a not in selset:
            mon.check("unselected detector", not recs, f"unselected detector {c} has targets")
        elif not (c[-1] == 0 and not case["gauge"] and par[a].param("stab_type", a) != typ):
            mon.check("selected detector", recs, f"selected detector {c} is empty")

    # pull the measured logical operators back to the initial data qubits
    mon.equal("number of observables", sorted(obs), list(range(npatch)), "observables")
    for k, l in enumerate(lays):
        lab = l.get_logical_qubits()[0]
        sup = set((l.log_x if mbasis else l.log_z)[lab])
        mon.equal("observable content", can.obs()[k], tuple(sorted((inds[q], 0) for q in sup)),
                  f"records of observable {k}")  # fmt: skip
        flip = 0
        if kind == "s":
            flip = (n // 2) % 2 if basis else 0
        elif kind == "h":
            fmap = fold_map(l)
            for _ in range(n):
                sup = {fmap[q] for q in sup}
        else:
            other = lays[1 - k]
            o, t = l.param("coords", gen.corner(l)), other.param("coords", gen.corner(other))
            pos = {tuple(round(x - y, 3) for x, y in zip(other.param("coords", q), t)): q
                   for q in other.get_qubits(role="data")}  # fmt: skip
            mate = {q: pos[tuple(round(x - y, 3) for x, y in zip(l.param("coords", q), o))]
                    for q in l.get_qubits(role="data")}  # fmt: skip
            mate.update({v: q for q, v in mate.items()})
            mine = set(l.get_qubits(role="data"))
            for g in reversed(range(n)):
                ctrl0 = not (case["orientation"] == "alternating" and g % 2 == 1)
                ctrl = set(lays[0 if ctrl0 else 1].get_qubits(role="data"))
                # Z spreads from target to control, X from control to target
                src = {q for q in sup if (q in ctrl) == basis}
                sup = sup ^ {mate[q] for q in src}
        val = (sum(init.get(q, 0) for q in sup) + flip) % 2
        mon.check("observable", obs[k].min() == obs[k].max(), f"observable {k} is random without noise")
        mon.check("observable value", obs[k][0] == val,
                  f"observable {k} is {obs[k][0]}, the ideal logical circuit gives {val}")  # fmt: skip
    mon.sig(kind, fam, case["d"], n, case["rounds"], basis, case["reset"], frame, case["gauge"],
            case["orientation"] if kind == "cnot" else "", len(selset))  # fmt: skip
