"""Logical blocks: exact action on stabilizers and logicals, published generators."""

import random

import stim

from vlib import gen
from vlib.canon import Canon
from vlib.flows import Flows, pauli, record_index

PROPERTY = "C04"
RULE = (
    "random block x family x size x placement x folding corner (all the valid ones) x pair "
    "of patches among up to three, alone and in sequences; stim decides the flows of the "
    "emitted block on every stabilizer and logical operator, and compares them with the "
    "generators that the layout publishes. Distinct by block, family, size and corner."
)
ASSUMPTIONS = [
    "stim's flow check / tableau are the trusted oracle of what a Clifford circuit does",
    "the folding of the rotated transversal S starts at the first data qubit (its only "
    "valid corner), that of unrotated gates at any of the four corners",
]
MIN_EVENTS = {
    "flow": 800,
    "published generator": 250,
    "logical image": 80,
    "init/meas flow": 300,
    "gate set again": 15,
}
BLOCKS = ["x", "z", "s", "h", "cnot", "init", "meas"]


def cases(tier, rng):
    out = []
    n, dmax = (260, 4) if tier == "quick" else (1800, 6)
    for i in range(n):
        block = BLOCKS[i % len(BLOCKS)]
        fams = list(gen.FAMILIES)
        if block == "s":
            fams = gen.CSS
        elif block == "h":
            fams = ["unrot_css"]
        elif block == "cnot":
            fams = ["rot_css", "unrot_css", "rot_css_pipe"]
        elif block == "meas":
            fams = [f for f in fams if f != "rot_google"]
        fam = rng.choice(fams)
        dx, dz = rng.randint(2, dmax), rng.randint(2, dmax)
        if block == "cnot":
            dx, dz = rng.randint(2, 3), rng.randint(2, 3)
            if rng.random() < 0.12:
                dx, dz = rng.choice([(2, 4), (4, 2), (5, 2)])
        elif rng.random() < 0.1:
            dx, dz = rng.randint(2, 6), 5
        if block == "s":
            dz = dx + 1 if gen.lattice(fam) == gen.ROT else dx
        if block == "h":
            dz = dx
        out.append(dict(block=block, family=fam, d=[dx, dz], corner=rng.randint(0, 3),
                        basis=rng.random() < 0.5, model=rng.choice(gen.CIRCUIT_MODELS),
                        extra=rng.random() < 0.4, seed=rng.randint(0, 10**9)))  # fmt: skip
    return out


def corners(layout):
    qs = layout.get_qubits(role="data")
    if layout.code == "rotated_surface_code":
        return [gen.corner(layout)]
    return [q for q in qs if len(layout.get_neighbors([q])) == 2]


def conj(circ, ops, inds):
    n = max([*inds.values(), circ.num_qubits - 1]) + 1
    return pauli(ops, inds, n).after(strip(circ))


def strip(circ):
    out = stim.Circuit()
    for i in circ.without_noise():
        if i.name not in ("DETECTOR", "OBSERVABLE_INCLUDE", "TICK", "QUBIT_COORDS"):
            out.append(i)
    return out


def in_group(target, gens):
    """Sign with which ``target`` is a product of the commuting ``gens``, or None."""
    import numpy as np

    gens = list(gens)
    n = len(target)

    def vec(p):
        x, z = p.to_numpy()
        return np.concatenate([x, z])

    rows, prods, pivs = [], [], []
    for g in gens:
        v, p = vec(g).copy(), g.copy()
        for r, q, c in zip(rows, prods, pivs):
            if v[c]:
                v ^= r
                p = p * q
        if v.any():
            c = int(np.flatnonzero(v)[0])
            rows.append(v)
            prods.append(p)
            pivs.append(c)
    v, p = vec(target).copy(), stim.PauliString(n)
    for r, q, c in zip(rows, prods, pivs):
        if v[c]:
            v ^= r
            p = p * q
    if v.any():
        return None
    ratio = target.sign / p.sign
    return int(round(ratio.real)) if abs(ratio.imag) < 1e-9 else None


def run(case, mon):
    rng = random.Random(case["seed"])
    block, fam = case["block"], case["family"]
    lat, mod, xzzx = gen.lattice(fam), gen.FAMILIES[fam][1], fam in gen.XZZX
    npatch = 2 if block == "cnot" else 1
    scale = gen.scale_of(rng)
    specs = [gen.layout_spec(rng, lat, *case["d"], k, scale=scale) for k in range(npatch)]
    if rng.random() < 0.3:
        # far from the origin and from each other
        far = specs[rng.randrange(npatch)]["point"]
        far[rng.randrange(2)] += rng.choice([-1, 1]) * rng.choice([10**5, 10**6, 10**7, 2**24])
    if npatch > 1:
        gen.alike(specs)
    for spec in specs:
        if spec["via"] and block == "s" and lat == gen.ROT:
            # an operator that contains the stabilizer of the known finding has its sign
            spec["via"]["logrep"] = False
    lays = [gen.make_layout(spec) for spec in specs]
    ks = list(range(npatch))
    rng.shuffle(ks)
    lays = [lays[k] for k in ks]
    others = [gen.make_layout(gen.layout_spec(rng, lat, 2, 3, 7))] if case["extra"] else []
    alll = lays + others
    inds = gen.inds_of(*alll)
    qs = [q for l in alll for q in l.get_qubits()]
    model = gen.make_model(case["model"], gen.make_setup(gen.setup_dict(rng, qs)), inds)
    det = gen.make_detectors(rng.choice(gen.FRAMES[:2]), *alll)
    model.new_circuit()
    L = lays[0]
    lg = gen.log_gates(lat)
    label = None
    if block in ("s", "h"):
        cs = corners(L)
        corner = cs[case["corner"] % len(cs)]
        set_gate = lg.set_trans_s if block == "s" else lg.set_trans_h
        if rng.random() < 0.5:
            # the gate has been used with another folding before
            set_gate(L, rng.choice(cs))
            getattr(mod, f"log_trans_{block}")(model, L, det)
            mon.see("gate set again")
        set_gate(L, corner)
        label = f"trans-{block}_{L.get_logical_qubits()[0]}"
    if block == "cnot":
        if rng.random() < 0.3:
            # the gate has been used with another patch that had the same name
            spec = dict(specs[ks[1]], point=[5000, 3000], ids=[7000, 7000, 7000], ind=7000)
            spec["via"] = spec["via"] and dict(spec["via"], names=False)
            old = gen.make_layout(spec)
            lg.set_trans_cnot(lays[0], old)
            throwaway = gen.make_model("noiseless", None, gen.inds_of(lays[0], old))
            cnot_block(fam)(throwaway, lays[0], old, gen.make_detectors("post-gate", lays[0], old))
            mon.see("gate set again")
        # both orientations are prepared, only one is used
        if rng.random() < 0.5:
            lg.set_trans_cnot(lays[1], lays[0])
        lg.set_trans_cnot(lays[0], lays[1])
        if rng.random() < 0.5:
            lg.set_trans_cnot(lays[1], lays[0])
        label = f"trans-cnot_{L.get_logical_qubits()[0]}_{lays[1].get_logical_qubits()[0]}"

    if block == "init":
        for mode in ("full", "partial", "empty", "ones"):
            det.new_circuit()
            init = gen.data_init(rng, [L], mode)
            circ = mod.init_qubits(model, L, det, init, case["basis"])
            check_init(case, mon, L, circ, inds, init, xzzx)
    elif block == "meas":
        det.activate_detectors(L.get_qubits(role="anc"))
        circ = mod.log_meas(model, L, det, case["basis"])
        check_meas(case, mon, L, circ, inds, xzzx)
    else:
        if block == "cnot":
            circ = cnot_block(fam)(model, lays[0], lays[1], det)
        elif block in ("x", "z"):
            circ = getattr(mod, f"log_{block}")(model, L, det)
        else:
            circ = getattr(mod, f"log_trans_{block}")(model, L, det)
        mon.equal("no measurement", circ.num_measurements, 0, "measurements in a unitary block")
        check_gate(case, mon, block, lays, circ, inds, label, xzzx)

    # other patches are not touched
    can = Canon(circ, noise=False, idle=False)
    mine = {inds[q] for l in lays for q in l.get_qubits()}
    touched = {q for layer in can.layers for q in layer}
    mon.check("other patches", touched <= mine, f"qubits of other patches touched: {touched - mine}")
    mon.sig(block, fam, case["d"], case["corner"], case["basis"] if block in ("init", "meas") else "")


def cnot_block(fam):
    from surface_sim.circuit_blocks import util

    return getattr(gen.FAMILIES[fam][1], "log_trans_cnot", util.log_trans_cnot)


def check_gate(case, mon, block, lays, circ, inds, label, xzzx):
    stabs = {}
    for l in lays:
        stabs.update(gen.stabilizers(l, xzzx))
    n = max([*inds.values(), circ.num_qubits - 1]) + 1
    if label is not None:
        flows = Flows(circ, inds)
        for l in lays:
            for a in l.get_qubits(role="anc"):
                gens = l.param(label, a)["new_stab_gen"]
                before = [stabs[b] for b in gens]
                # U^dag S_a U is the product of the published old generators
                flows.add(f"published generator of {a}: {gens}", before, stabs[a])
                mon.see("published generator")
        if block == "s" and lays[0].code == "rotated_surface_code":
            finding(mon, lays[0], flows)
        bad = flows.failing()
        mon.check("published generators", bad is None, f"{label}: {bad} does not match the circuit")
        mon.see("flow", len(flows.items))
    else:
        flows = Flows(circ, inds)
        for a, s in stabs.items():
            flows.add(f"stabilizer {a}", s, s)
        bad = flows.failing()
        mon.check("stabilizers", bad is None, f"log_{block}: {bad} is not preserved")
        mon.see("flow", len(flows.items))

    group = [pauli(s, inds, n) for s in stabs.values()]
    X = [pauli(gen.logical(l, "X", xzzx), inds, n) for l in lays]
    Z = [pauli(gen.logical(l, "Z", xzzx), inds, n) for l in lays]
    Y = [x * z * 1j for x, z in zip(X, Z)]
    want = {
        "x": [(X[0], X[0]), (Z[0], -1 * Z[0])],
        "z": [(X[0], -1 * X[0]), (Z[0], Z[0])],
        "s": [(X[0], Y[0]), (Z[0], Z[0])],
        "h": [(X[0], Z[0]), (Z[0], X[0])],
    }.get(block)
    if block == "cnot":
        want = [(X[0], X[0] * X[1]), (Z[0], Z[0]), (X[1], X[1]), (Z[1], Z[0] * Z[1])]
    body = strip(circ)
    for k, (src, dst) in enumerate(want):
        img = src.after(body)
        sign = in_group(img * dst, group)
        mon.check("logical image", sign == 1,
                  f"{block}: logical operator {k} is mapped to {img}, not to {dst} "
                  f"up to stabilizers (sign {sign})")  # fmt: skip


def finding(mon, layout, flows):
    """Known: the sign of the X stabilizer in the corner opposite to the folding one."""
    c = {q: layout.param("coords", q) for q in layout.get_qubits(role="data")}
    far = max(c, key=lambda q: sum((a - b) ** 2 for a, b in zip(c[q], c[gen.corner(layout)])))
    anc = [a for a in layout.get_neighbors([far]) if layout.param("stab_type", a) == "x_type"]
    for k, (name, flow, _) in enumerate(flows.items):
        if name.startswith(f"published generator of {anc[0]}:"):
            if not flows.circuit.has_flow(flow) and flows.circuit.has_flow(flow, unsigned=True):
                mon.known_finding("rot-trans-s-corner-sign", name)
                flows.items[k] = (name, flow, True)


def basis_of(layout, basis, xzzx):
    """Pauli in which each data qubit is prepared or measured."""
    rot_q = gen.xzzx_rotated(layout) if xzzx else set()
    return {q: "X" if (q in rot_q) != basis else "Z" for q in layout.get_qubits(role="data")}


def check_init(case, mon, L, circ, inds, init, xzzx):
    flows = Flows(circ, inds)
    for q, p in basis_of(L, case["basis"], xzzx).items():
        flows.add(f"data {q} in {p} = {init.get(q, 0)}", {}, {q: p}, sign=-1 if init.get(q, 0) else 1)
    for a in L.get_qubits(role="anc"):
        flows.add(f"ancilla {a} in 0", {}, {a: "Z"})
    bad = flows.failing()
    mon.check("initialisation", bad is None, f"initialisation: {bad} does not hold")
    mon.see("init/meas flow", len(flows.items))
    mon.equal("no measurement", circ.num_measurements, 0, "measurements in the initialisation")


def check_meas(case, mon, L, circ, inds, xzzx):
    can = Canon(circ)
    want = sorted((inds[q], 0) for q in L.get_qubits(role="data"))
    mon.equal("measured qubits", sorted(r[:2] for r in can.records), want, "records of the measurement")
    clean = stim.Circuit()
    for i in circ:
        if i.name not in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            clean.append(i)
    rec = record_index(clean)
    flows = Flows(clean, inds)
    for q, p in basis_of(L, case["basis"], xzzx).items():
        flows.add(f"{p} of data {q} read out", {q: p}, {}, [rec[inds[q], 0]])
    bad = flows.failing()
    mon.check("measurement", bad is None, f"logical measurement: {bad} does not hold")
    mon.see("init/meas flow", len(flows.items))
    lab = L.get_logical_qubits()[0]
    qs = (L.log_x if case["basis"] else L.log_z)[lab]
    mon.equal("observable", can.obs(), {0: tuple(sorted((inds[q], 0) for q in qs))}, "observable")
