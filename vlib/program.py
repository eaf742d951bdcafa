"""Random programs of circuit blocks: initialisations, rounds (of one or several
patches at once), logical gates and measurements, as JSON-able specs."""

import random

import stim

from surface_sim.util import merge_circuits, merge_log_meas, merge_qec_rounds

from . import gen


def program_spec(rng, families=None, steps=None, model=None):
    family = rng.choice(families or list(gen.FAMILIES))
    lat = gen.lattice(family)
    npatch = 1 if family == "rot_google" else rng.choice([1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4])
    square = rng.random() < 0.5
    gates = ["x", "z"]
    if family == "rot_google":
        gates = []
    top = 5 if npatch == 1 and rng.random() < 0.15 else 3
    dx, dz = rng.randint(2, top), rng.randint(2, top)
    if family in gen.CSS:
        if square:
            dz = dx + 1 if lat == gen.ROT else dx
            gates.append("s")
            if lat == gen.UNROT:
                gates.append("h")
        if npatch > 1:
            gates.append("cnot")
    scale = gen.scale_of(rng)
    layouts = [gen.layout_spec(rng, lat, dx, dz, k, scale=scale) for k in range(npatch)]
    if npatch > 1:
        gen.alike(layouts)
    active, ops = set(), [["coords"]]
    n = steps or rng.randint(4, 12)
    for _ in range(n):
        idle = [k for k in range(npatch) if k not in active]
        r = rng.random()
        if idle and (not active or r < 0.25):
            k = rng.choice(idle)
            ops.append(["init", k, rng.randint(0, 10**9), rng.random() < 0.5])
            active.add(k)
        elif active and r < 0.65:
            ops.append(["round", sorted(active, key=lambda _: rng.random()), rng.randint(0, 10**9)])
        elif active and r < 0.88 and gates:
            g = rng.choice(gates)
            if g == "cnot":
                if len(active) < 2:
                    continue
                ops.append([g, *rng.sample(sorted(active), 2)])
            else:
                ops.append([g, rng.choice(sorted(active))])
        elif active:
            k = rng.sample(sorted(active), rng.randint(1, len(active)))
            ops.append(["meas", k, [rng.random() < 0.5 for _ in k], rng.randint(0, 10**9)])
            active -= set(k)
    if active:
        k = sorted(active)
        ops.append(["meas", k, [rng.random() < 0.5 for _ in k], rng.randint(0, 10**9)])
    return dict(
        family=family,
        layouts=layouts,
        gates=gates,
        ops=ops,
        frame=rng.choice(gen.FRAMES[:2]),
        coords=rng.random() < 0.85,
        reset=rng.random() < 0.5,
        model=model or rng.choice(gen.CIRCUIT_MODELS),
        setup_seed=rng.randint(0, 10**9),
    )


class Program:
    def __init__(self, spec, model=None, setup=None, layouts=None):
        self.spec = spec
        self.layouts = layouts or [gen.make_layout(s) for s in spec["layouts"]]
        if layouts is None:
            lg = gen.log_gates(spec["layouts"][0]["lat"])
            for l in self.layouts:
                if "s" in spec["gates"]:
                    lg.set_trans_s(l, gen.corner(l))
                if "h" in spec["gates"]:
                    lg.set_trans_h(l, gen.corner(l))
            # (finding the isomorphism of the patches is slow, only if needed)
            for c, t in sorted({tuple(o[1:]) for o in spec["ops"] if o[0] == "cnot"}):
                lg.set_trans_cnot(self.layouts[c], self.layouts[t])
        qubits = [q for l in self.layouts for q in l.get_qubits()]
        pairs = []
        for l in self.layouts:
            pairs += l.get_neighbors(l.get_qubits(role="anc"), as_pairs=True)
        pairs += [(b, a) for a, b in pairs]
        if setup is None:
            rs = random.Random(spec["setup_seed"])
            setup = gen.make_setup(gen.setup_dict(rs, qubits, pairs))
        self.setup = setup
        self.model = gen.make_model(model or spec["model"], setup, gen.inds_of(*self.layouts))
        self.det = gen.make_detectors(spec["frame"], *self.layouts, coords=spec["coords"])
        self.mod = gen.fam(spec["family"])[1]
        self.changed = []  # arguments that the blocks have modified

    def call(self, func, *args):
        """Calls a function and notes the lists and dictionaries that it modifies."""
        kept = [(a, type(a)(a)) for a in args if isinstance(a, (list, dict))]
        out = func(*args)
        for a, was in kept:
            if a != was or list(a) != list(was):
                self.changed.append(f"{func.__name__} changed {was} into {a}")
        return out

    def step(self, op):
        s, mod, model, det = self.spec, self.mod, self.model, self.det
        L = self.layouts
        google = s["family"] == "rot_google"
        name = op[0]
        if name == "coords":
            return mod.qubit_coords(model, *L)
        if name == "init":
            l = L[op[1]]
            rng = random.Random(op[2])
            return self.call(mod.init_qubits, model, l, det, gen.data_init(rng, [l]), op[3])
        if name == "round":
            group = [L[k] for k in op[1]]
            anc = gen.anc_subset(random.Random(op[2]), group)
            if google:
                return self.call(mod.qec_round, model, group[0], det, anc)
            if len(group) == 1:
                return self.call(mod.qec_round, model, group[0], det, s["reset"], anc)
            return self.call(merge_qec_rounds, mod.qec_round_iterator, model, group, det, s["reset"], anc)
        if name == "meas":
            group = [L[k] for k in op[1]]
            anc = gen.anc_subset(random.Random(op[3]), group)
            if google:
                return self.call(mod.qec_round_with_log_meas, model, group[0], det, anc, op[2][0])
            if len(group) == 1:
                return self.call(mod.log_meas, model, group[0], det, op[2][0], s["reset"], anc)
            return self.call(
                merge_log_meas, mod.log_meas_iterator, model, group, det, op[2], s["reset"], anc
            )
        if name == "cnot":
            return mod.log_trans_cnot(model, L[op[1]], L[op[2]], det)
        func = {"x": "log_x", "z": "log_z", "s": "log_trans_s", "h": "log_trans_h"}[name]
        return getattr(mod, func)(model, L[op[1]], det)

    def circuit(self):
        self.model.new_circuit()
        self.det.new_circuit()
        out = stim.Circuit()
        for op in self.spec["ops"]:
            out += self.step(op)
            out += self.model.tick()
        return out
