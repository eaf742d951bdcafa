"""Detectors over arbitrary histories of gates, rounds, activations and measurements."""

import random

import numpy as np
import stim
import xarray as xr

from surface_sim import Detectors
from surface_sim import models as mods
from surface_sim.util import merge_log_meas, merge_qec_rounds
from vlib import gen
from vlib.canon import Canon, sample_parities
from vlib.refdet import RefDet

PROPERTY = "C05"
RULE = (
    "(a) random histories of 1-8 ancillas: random invertible GF(2) transformations (given as "
    "matrix with permuted axes or as dictionary), rounds, activations, deactivations, data "
    "measurements of random subsets, compared record by record with a first-principles "
    "reference model, and value by value with a simulated world; (b) circuit histories of "
    "init / S / H / CNOT / X / Z / rounds / logical measurements on 1-3 patches, executed "
    "with stim. Distinct by the sequence of operation kinds."
)
ASSUMPTIONS = [
    "gates act on active ancillas; a group of ancillas coupled to others by a gate since the "
    "last round is not deactivated on its own in the random histories (recorded as a known "
    "finding, exercised by a dedicated history)",
    "stim's measurement sampling is the trusted executor",
]
MIN_EVENTS = {
    "detector content": 5000,
    "world value": 500,
    "deterministic detector": 1500,
    "gate": 500,
    "deactivation with pending gates on others": 15,
    "deactivation": 100,
    "data measurement": 200,
}


def cases(tier, rng):
    out = [dict(kind="known", frame=f, reset=r, seed=1) for f in gen.FRAMES[:2] for r in (True, False)]
    n, m = (450, 160) if tier == "quick" else (3000, 1200)
    for i in range(n):
        out.append(dict(kind="abstract", n=rng.randint(1, 8), frame=gen.FRAMES[i % 3],
                        steps=rng.randint(4, 25), coords=rng.random() < 0.8,
                        seed=rng.randint(0, 10**9)))  # fmt: skip
    fams = ["rot_css", "rot_css_pipe", "unrot_css", "unrot_css", "rot_css", "rot_xzzx", "rot_xzzx_pipe"]
    for i in range(m):
        fam = fams[i % len(fams)]
        out.append(dict(kind="circuit", family=fam, patches=rng.randint(1, 3),
                        frame=rng.choice(gen.FRAMES[:2]), steps=rng.randint(5, 14),
                        reset=rng.random() < 0.5, seed=rng.randint(0, 10**9)))  # fmt: skip
    return out


def run(case, mon):
    {"abstract": abstract, "circuit": circuit, "known": known}[case["kind"]](case, mon)


def compare(mon, circ, ref, inds, what):
    can = Canon(circ)
    want = sorted((c, tuple(sorted((inds[q], k) for q, k in r))) for c, r in ref.expected)
    got = can.det_multiset()
    mon.equal("number of detectors", len(got), len(want), f"{what}: number of detectors")
    for g, w in zip(got, want):
        mon.equal("detector content", g, w, f"{what}: detector")


# ------------------------------------------------------------------- abstract
def abstract(case, mon):
    rng = random.Random(case["seed"])
    n = case["n"]
    anc = [f"A{i}" for i in range(n)]
    rng.shuffle(anc)
    data = [f"D{i}" for i in range(2 * n)]
    support = {a: rng.sample(data, rng.randint(1, min(4, 2 * n))) for a in anc}
    inds = {q: i for i, q in enumerate(rng.sample(anc + data, 3 * n))}
    coords = {a: [rng.choice([0.5, 3, 7]), i] for i, a in enumerate(anc)} if case["coords"] else {}
    model = mods.NoiselessModel(inds)
    det = Detectors(anc, case["frame"], coords or None)
    if rng.random() < 0.3:  # a previous circuit must leave no trace
        det.activate_detectors(anc)
        det.update_from_dict({anc[0]: [anc[0], anc[-1]]} if n > 1 else {})
        det.build_from_anc(lambda q, i: stim.target_rec(-1), True)
        det.new_circuit()
    ref = RefDet(anc, case["frame"], coords)
    out = stim.Circuit()
    # hidden world: value of every stabilizer, outcome log
    value = {a: rng.randint(0, 1) for a in anc}
    state = {a: 0 for a in anc}  # physical state of the ancilla (no reset)
    log = {}
    fuzzy = set(anc)  # detectors that involve never measured values are not deterministic
    kinds = []
    reset = rng.random() < 0.5
    nexp = 0

    # gates inside of groups of ancillas, which can then be deactivated on their own
    cut = rng.randint(1, n)
    groups = [anc[:cut], anc[cut:]] if rng.random() < 0.6 else [anc]

    def sub(pool):
        pool = list(pool)
        rng.shuffle(pool)
        return pool[: rng.randint(1, len(pool))] if pool else []

    for _ in range(case["steps"]):
        active = [a for a in anc if ref.active[a]]
        idle = [a for a in anc if not ref.active[a]]
        op = rng.choice(["act", "gate", "gate", "round", "round", "round", "data", "deact"])
        if kinds and kinds[-1] == "gate" and rng.random() < 0.25:
            op = "deact"
        if not active:
            op = "act"
        kinds.append(op)
        if op == "act" and idle:
            new = sub(idle)
            det.activate_detectors(new if rng.random() < 0.5 else tuple(new))
            ref.activate(new)
            for a in new:
                value[a], state[a] = rng.randint(0, 1), 0
        elif op == "gate":
            d = {}
            for group in groups:
                part = [a for a in active if a in group]
                u = gen.random_gl(rng, len(part))
                for i, a in enumerate(part):
                    d[a] = [b for j, b in enumerate(part) if u[i, j]]
            if rng.random() < 0.5:
                full = {a: d.get(a, [a]) for a in anc}
                # dictionaries may omit the unchanged generators
                keep = {a: v for a, v in full.items() if v != [a] or rng.random() < 0.5}
                keys = list(keep)
                rng.shuffle(keys)
                det.update_from_dict({a: rng.sample(keep[a], len(keep[a])) for a in keys})
            else:
                o1, o2 = rng.sample(anc, n), rng.sample(anc, n)
                mat = np.array([[int(b in d.get(a, [a])) for b in o2] for a in o1])
                arr = xr.DataArray(mat, dims=["new_stab_gen", "stab_gen"],
                                   coords=dict(new_stab_gen=o1, stab_gen=o2))  # fmt: skip
                if rng.random() < 0.5:
                    arr = arr.transpose("stab_gen", "new_stab_gen")
                det.update(arr)
            ref.gate(d)
            old = dict(value)
            for a, bs in d.items():
                value[a] = sum(old[b] for b in bs) % 2
            mon.see("gate")
        elif op == "round":
            order = rng.sample(active, len(active))
            out += model.measure(order)
            for a in order:
                ref.measured(a)
                m = value[a] if reset else value[a] ^ state[a]
                state[a] = m
                log[a, ref.count[a] - 1] = m
            sel = None if rng.random() < 0.5 else sub(anc) if rng.random() < 0.8 else []
            before = dict(ref.since)
            pend = ref.pend.copy()
            out += det.build_from_anc(model.meas_target, reset, sel)
            ref.round(reset, sel)
            check_world(mon, ref, nexp, log, before, pend, case["frame"])
            nexp = len(ref.expected)
        elif op == "data":
            stabs = sub(anc)
            if rng.random() < 0.5:
                stabs = list(dict.fromkeys(stabs + active))
            # data qubits that are compatible with the values of the stabilizers
            sup = support if rng.random() < 0.5 else {a: support[a] for a in stabs}
            qs = sorted({q for a in stabs for q in support[a]})
            rng.shuffle(qs)
            out += model.measure(qs)
            for q in qs:
                ref.measured(q)
            sel = None if rng.random() < 0.6 else sub(anc)
            out += det.build_from_data(model.meas_target, sup, reset, stabs, sel)
            pending = (ref.pend != np.eye(n, dtype=np.uint8)).any()
            ref.data(reset, support, stabs, sel)
            nexp = len(ref.expected)
            mon.see("data measurement")
            if set(active) <= set(stabs) and (pending or rng.random() < 0.5):
                # everything has been measured out
                det.deactivate_detectors(active)
                ref.deactivate(active)
                mon.see("deactivation")
        elif op == "deact":
            group = rng.choice(groups)
            tries = [[a for a in active if a in group], sub(active), active]
            old = next((t for t in tries if t and not ref.coupled(t)), None)
            if old is None:
                continue
            rest = [ref.pos[a] for a in active if a not in old]
            if (ref.pend[np.ix_(rest, rest)] != np.eye(len(rest), dtype=np.uint8)).any():
                mon.see("deactivation with pending gates on others")
            det.deactivate_detectors(old if rng.random() < 0.5 else set(old))
            ref.deactivate(old)
            mon.see("deactivation")
    compare(mon, out, ref, inds, f"{case['frame']} history {kinds}")
    mon.sig(case["n"], case["frame"], reset, tuple(kinds))


def check_world(mon, ref, start, log, before, pend, frame):
    """In a round, detectors that compare two measured values must be 0."""
    if frame == "gate-independent":
        return
    inv = gen.gf2_inv(pend)
    for a, (_, recs) in zip(ref.labels, ref.expected[start:]):
        if not recs:
            continue
        if frame == "post-gate":
            need = [a] + [ref.labels[i] for i in np.flatnonzero(pend[ref.pos[a]])]
        else:
            need = [a] + [ref.labels[i] for i in np.flatnonzero(inv[ref.pos[a]])]
        if all(ref.active[b] for b in need) and all(before[b] >= 1 for b in need):
            val = sum(log[r] for r in recs) % 2
            # the reference model itself is validated against the simulated world
            if val:
                raise AssertionError("reference model disagrees with the simulated world")
            mon.see("world value")


# -------------------------------------------------------------------- circuit
def make_patches(rng, fam, n):
    lat = gen.lattice(fam)
    if fam in gen.XZZX:
        return [gen.make_layout(gen.layout_spec(rng, lat, rng.randint(2, 3), rng.randint(2, 3), k)) for k in range(n)]
    d = (2, 3) if lat == gen.ROT else rng.choice([(2, 2), (2, 2), (3, 3)])
    if n == 1 and lat == gen.ROT and rng.random() < 0.4:
        d = (3, 4)
    specs = [gen.layout_spec(rng, lat, *d, k) for k in range(n)]
    lays = [gen.make_layout(s) for s in (gen.alike(specs) if n > 1 else specs)]
    lg = gen.log_gates(lat)
    for a in lays:
        lg.set_trans_s(a, gen.corner(a))
        if lat == gen.UNROT:
            lg.set_trans_h(a, gen.corner(a))
        for b in lays:
            if a is not b:
                lg.set_trans_cnot(a, b)
    return lays


def published(layouts, label):
    out = {}
    for l in layouts:
        for a in l.get_qubits(role="anc"):
            out[a] = list(l.param(label, a)["new_stab_gen"])
    return out


def circuit(case, mon):
    from surface_sim.circuit_blocks import util as cbu

    rng = random.Random(case["seed"])
    fam, reset = case["family"], case["reset"]
    xzzx = fam in gen.XZZX
    mod = gen.FAMILIES[fam][1]
    lays = make_patches(rng, fam, case["patches"])
    inds = gen.inds_of(*lays)
    model = mods.NoiselessModel(inds)
    det = gen.make_detectors(case["frame"], *lays)
    coords = gen.ancs_of(*lays)
    ref = RefDet(list(coords), case["frame"], coords)
    out = stim.Circuit()
    active, hist = [], []
    ops = ["init", "init", "round", "round", "x", "z", "meas", "meas"]
    if not xzzx:
        ops += ["s", "s", "cnot", "cnot", "cnot", "gates"]
        if fam == "unrot_css":
            ops += ["h", "h"]
    lab = lambda l: l.get_logical_qubits()[0]

    def qround(exclude=()):
        nonlocal out
        sel = None
        if exclude:
            sel = [a for l in active for a in l.get_qubits(role="anc") if a not in exclude]
        if len(active) == 1 and rng.random() < 0.5:
            out += mod.qec_round(model, active[0], det, reset, sel)
        else:
            order = rng.sample(active, len(active))
            out += merge_qec_rounds(mod.qec_round_iterator, model, order, det,
                                    anc_reset=reset, anc_detectors=sel)  # fmt: skip
        for l in active:
            for a in l.get_qubits(role="anc"):
                ref.measured(a)
        ref.round(reset, sel)

    def gate(name):
        nonlocal out
        if name in ("x", "z"):
            l = rng.choice(active)
            out += getattr(mod, f"log_{name}")(model, l, det)
            hist.append((name, lays.index(l)))
        elif name in ("s", "h"):
            l = rng.choice(active)
            out += getattr(mod, f"log_trans_{name}")(model, l, det)
            ref.gate(published([l], f"trans-{name}_{lab(l)}"))
            hist.append((name, lays.index(l)))
        elif len(active) > 1:
            a, b = rng.sample(active, 2)
            out += cbu.log_trans_cnot(model, a, b, det)
            ref.gate(published([a, b], f"trans-cnot_{lab(a)}_{lab(b)}"))
            hist.append(("cnot", lays.index(a), lays.index(b)))
        mon.see("gate")

    for step in range(case["steps"]):
        op = rng.choice(ops) if active else "init"
        if op == "init":
            new = [l for l in lays if l not in active]
            if not new:
                continue
            l, rot = rng.choice(new), rng.random() < 0.5
            out += mod.init_qubits(model, l, det, gen.data_init(rng, [l]), rot)
            ref.activate(l.get_qubits(role="anc"))
            active.append(l)
            hist.append(("init", lays.index(l), rot))
            fresh = l.get_qubits(role="anc", stab_type="z_type" if rot else "x_type")
            qround(fresh)
        elif op == "round":
            qround()
            hist.append("round")
        elif op == "meas":
            group = rng.sample(active, rng.randint(1, len(active)))
            ancs = [a for l in group for a in l.get_qubits(role="anc")]
            if ref.coupled(ancs):
                continue
            rots = [rng.random() < 0.5 for _ in group]
            if len(group) == 1 and rng.random() < 0.5:
                new = mod.log_meas(model, group[0], det, rots[0], reset)
            else:
                new = merge_log_meas(mod.log_meas_iterator, model, group, det, rots, anc_reset=reset)
            out += strip_obs(new)
            stabs, sup = [], {}
            for l, r in zip(group, rots):
                for q in l.get_qubits(role="data"):
                    ref.measured(q)
                ss = l.get_qubits(role="anc", stab_type="x_type" if r else "z_type")
                stabs += ss
                sup.update({a: list(s) for a, s in gen.stabilizers(l).items() if a in ss})
            ref.data(reset, sup, stabs)
            ref.deactivate(ancs)
            active = [l for l in active if l not in group]
            hist.append(("meas", [lays.index(l) for l in group], rots))
            mon.see("data measurement")
            mon.see("deactivation")
        elif op == "gates":
            for _ in range(rng.randint(2, 5)):
                gate(rng.choice(["s", "cnot", "cnot"] + (["h"] if fam == "unrot_css" else [])))
        else:
            gate(op)
    compare(mon, out, ref, inds, f"{fam} {case['frame']} history {hist}")
    _, dets, _ = sample_parities(out, shots=96, seed=case["seed"] % 2**31)
    for vals, (c, _) in zip(dets, Canon(out).detectors):
        mon.check("deterministic detector", vals.min() == vals.max(),
                  lambda: f"{fam} {case['frame']} reset={reset}: detector {c} is random after {hist}")  # fmt: skip
    mon.sig(fam, case["frame"], reset, str(hist))


def strip_obs(circ):
    out = stim.Circuit()
    for i in circ:
        if i.name != "OBSERVABLE_INCLUDE":
            out.append(i)
    return out


def known(case, mon):
    """Patch B is measured on its own right after a CNOT that couples it with A."""
    from surface_sim.circuit_blocks import rot_surface_code_css as mod

    rng = random.Random(case["seed"])
    lays = [gen.make_layout(gen.layout_spec(rng, gen.ROT, 2, 3, k, plain=True)) for k in range(2)]
    gen.prepare_layouts("cnot", lays)
    inds = gen.inds_of(*lays)
    model = mods.NoiselessModel(inds)
    det = gen.make_detectors(case["frame"], *lays)
    out = stim.Circuit()
    for l in lays:
        out += mod.init_qubits(model, l, det, {}, False)
    rnd = lambda ls, sel: merge_qec_rounds(mod.qec_round_iterator, model, ls, det,
                                           anc_reset=case["reset"], anc_detectors=sel)  # fmt: skip
    out += rnd(lays, [])
    out += mod.log_trans_cnot(model, lays[0], lays[1], det)
    out += strip_obs(mod.log_meas(model, lays[1], det, False, case["reset"]))
    out += rnd(lays[:1], None)
    _, dets, _ = sample_parities(out, shots=96, seed=5)
    rand = [c for vals, (c, _) in zip(dets, Canon(out).detectors) if vals.min() != vals.max()]
    mon.see("known history")
    if rand:
        # only the detectors of A right after the measurement of B can be affected
        a_ancs = {tuple(map(float, lays[0].param("coords", a))) for a in lays[0].get_qubits(role="anc")}
        mon.check("known history is limited", all(c[:-1] in a_ancs and c[-1] == 1 for c in rand),
                  f"other detectors are random: {rand}")  # fmt: skip
        mon.known_finding("deactivation-drops-pending-coupling", f"random detectors {rand}")
