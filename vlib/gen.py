"""Seeded generators of realistic and hostile inputs, as JSON-able specs."""

import random

import numpy as np

import surface_sim
from surface_sim import Detectors, Layout, Setup
from surface_sim import circuit_blocks as cbs
from surface_sim import experiments as exps
from surface_sim import layouts as lays
from surface_sim import log_gates as lgs
from surface_sim import models as mods
import surface_sim.experiments.unrot_surface_code_css as exp_unrot
import surface_sim.circuit_blocks.unrot_surface_code_css as cb_unrot
import surface_sim.circuit_blocks.rot_surface_code_xzzx as cb_xzzx
import surface_sim.log_gates.rot_surface_code_css as lg_rot
import surface_sim.log_gates.unrot_surface_code_css as lg_unrot

ROT, UNROT = "rot", "unrot"

# family -> (lattice, circuit blocks, experiments, has ancilla reset option)
FAMILIES = {
    "rot_css": (ROT, cbs.rot_surface_code_css, exps.rot_surface_code_css),
    "rot_css_pipe": (
        ROT,
        cbs.rot_surface_code_css_pipelined,
        exps.rot_surface_code_css_pipelined,
    ),
    "rot_xzzx": (ROT, cb_xzzx, exps.rot_surface_code_xzzx),
    "rot_xzzx_pipe": (
        ROT,
        cbs.rot_surface_code_xzzx_pipelined,
        exps.rot_surface_code_xzzx_pipelined,
    ),
    "rot_google": (
        ROT,
        cbs.rot_surface_code_xzzx_google,
        exps.rot_surface_code_xzzx_google,
    ),
    "unrot_css": (UNROT, cb_unrot, exp_unrot),
}
CSS = ("rot_css", "rot_css_pipe", "unrot_css")
XZZX = ("rot_xzzx", "rot_xzzx_pipe", "rot_google")
FRAMES = ("post-gate", "pre-gate", "gate-independent")
POINTS = [(1, 1), (0, 0), (-4, 7), (0.5, 2.5), (0.1, 0.2), (1 / 3, 20.7), (100, 3), (-7, 2 * 10**6)]


def fam(name):
    return FAMILIES[name]


def lattice(family):
    return FAMILIES[family][0]


def log_gates(lat):
    return lg_rot if lat == ROT else lg_unrot


# ----------------------------------------------------------------- layouts
def scale_of(rng):
    """Unit of length of a set of patches."""
    return rng.choice([1, 1, 1, 0.5, 3])


def layout_spec(rng, lat, dx, dz, k=0, plain=False, scale=1):
    """Spec of a patch; patches with different ``k`` do not overlap."""
    if plain:
        point, off, ind = (1, 1), (1, 1, 1), 0
    else:
        point = rng.choice(POINTS)
        off = tuple(rng.choice([0, 1, 5, 17]) for _ in range(3))
        ind = rng.choice([0, 0, 1, 13])
    label = f"L{k}" if plain or rng.random() < 0.7 else f"patch{k}"
    # the same patch can also be described by hand: qubits in another order, other
    # names, other indices, another unit of length
    via = None
    if not plain and (scale != 1 or rng.random() < 0.4):
        via = dict(
            seed=rng.randint(0, 10**9),
            order=rng.random() < 0.7,
            names=rng.random() < 0.5,
            inds=rng.random() < 0.5,
            scale=scale,
            mirror=rng.choice(["", "", "ew", "ns", "ewns"]) + rng.choice(["", "t"]),
            logrep=rng.random() < 0.4,
        )
    return dict(
        lat=lat,
        dx=dx,
        dz=dz,
        label=label,
        point=[point[0] + 1000 * k, point[1]],
        ids=[o + 1000 * k for o in off],
        ind=ind + 500 * k,
        via=via,
    )


def alike(specs):
    """Patches between which the isomorphism is found in seconds (the search of the
    library takes minutes for large patches with the qubits in another order)."""
    for s in specs:
        if s["via"] and s["dx"] * s["dz"] >= (9 if s["lat"] == UNROT else 15):
            s["via"]["order"] = False
    return specs


def make_layout(spec):
    func = (
        lays.rot_surface_code_rectangle
        if spec["lat"] == ROT
        else lays.unrot_surface_code_rectangle
    )
    layout = func(
        distance_x=spec["dx"],
        distance_z=spec["dz"],
        logical_qubit_label=spec["label"],
        init_point=tuple(spec["point"]),
        init_data_qubit_id=spec["ids"][0],
        init_zanc_qubit_id=spec["ids"][1],
        init_xanc_qubit_id=spec["ids"][2],
        init_ind=spec["ind"],
    )
    if spec.get("via"):
        layout = Layout(redescribe(layout.to_dict(), **spec["via"]))
    return layout


OPPOSITE = dict(north="south", south="north", east="west", west="east")
ACROSS = dict(north="east", east="north", south="west", west="south")


def redescribe(desc, seed=0, order=False, names=False, inds=False, scale=1, mirror="", logrep=False):
    """Other description of the same patch. ``mirror`` reflects the schedule of the
    interactions (``t``: across the diagonal), which leaves it valid. ``logrep`` writes the logical operators with
    other representatives: they can be bent, longer and in any order."""
    rng = random.Random(seed)
    nodes = desc["layout"]
    if logrep:
        for op, kind in (("log_x", "x_type"), ("log_z", "z_type")):
            stabs = [
                {q for q in n["neighbors"].values() if q}
                for n in nodes
                if n["role"] == "anc" and n["stab_type"] == kind
            ]
            for label, support in desc[op].items():
                support = set(support)
                for stab in rng.sample(stabs, min(len(stabs), rng.randint(1, 4))):
                    support ^= stab
                support = sorted(support)
                rng.shuffle(support)
                desc[op][label] = support
    if mirror:

        def reflect(direction):
            axis = dict(north="ns", south="ns", east="ew", west="ew")
            words = [OPPOSITE[w] if axis[w] in mirror else w for w in direction.split("_")]
            if "t" in mirror:
                words = sorted([ACROSS[w] for w in words], key=lambda w: w in ("east", "west"))
            return "_".join(words)

        desc["interaction_order"] = {
            k: [reflect(d) for d in v] for k, v in desc["interaction_order"].items()
        }
    if names:
        tag = rng.choice("aZXqD")
        num = list(range(len(nodes)))
        rng.shuffle(num)
        base = min(n["ind"] for n in nodes)
        new = {n["qubit"]: f"{tag}{base}_{i}" for n, i in zip(nodes, num)}
        for n in nodes:
            n["qubit"] = new[n["qubit"]]
            n["neighbors"] = {d: new.get(q) for d, q in n["neighbors"].items()}
        for op in ("log_x", "log_z"):
            desc[op] = {l: [new[q] for q in qs] for l, qs in desc[op].items()}
    if inds:
        vals = [n["ind"] for n in nodes]
        rng.shuffle(vals)
        for n, i in zip(nodes, vals):
            n["ind"] = i
    if scale != 1:
        for n in nodes:
            n["coords"] = [c * scale for c in n["coords"]]
    if order:
        rng.shuffle(nodes)
        for n in nodes:
            items = list(n["neighbors"].items())
            rng.shuffle(items)
            n["neighbors"] = dict(items)
        items = list(desc["interaction_order"].items())
        rng.shuffle(items)
        desc["interaction_order"] = dict(items)
    return desc


def corner(layout):
    """A data qubit from which the folding of the transversal gates can run."""
    return min(layout.get_qubits(role="data"), key=lambda q: sum(layout.param("coords", q)))


def unit(layout):
    """Unit of length: distance between neighbours along one axis."""
    data = layout.get_coords(layout.get_qubits(role="data"))
    anc = layout.get_coords(layout.get_qubits(role="anc"))
    return min(max(abs(x - y) for x, y in zip(a, b)) for a in anc for b in data)


# ------------------------------------------------------------------ setups
SQ = ["h", "s", "sdag", "x", "z", "reset", "idle", "meas"]
TQ = ["cz", "cnot", "swap"]


def setup_dict(rng, qubits=(), pairs=(), scale=0.02, bias=True):
    """Random setup in which the same parameter is given in different ways
    (local, global, free parameter and inherited from its parent)."""

    def prob():
        return round(rng.uniform(0.0001, scale), 9)

    glob = dict(sq_error_prob=prob(), tq_error_prob=prob())
    for n in SQ + TQ:
        if rng.random() < 0.4:
            glob[f"{n}_error_prob"] = prob()
    glob["assign_error_flag"] = rng.random() < 0.6
    glob["assign_error_prob"] = prob()
    if rng.random() < 0.5:
        glob["h_error_prob"] = "free_h"
    if bias:
        glob["biased_pauli"] = "Z"
        glob["biased_factor"] = rng.choice([0.5, 1, 3, 10.5])
    glob["T1"] = rng.choice([20.0, 31.5])
    glob["T2"] = rng.choice([17.0, 29.0])
    out = [glob]
    for q in qubits:
        if rng.random() < 0.35:
            loc = dict(qubit=q)
            for n in SQ:
                if rng.random() < 0.4:
                    loc[f"{n}_error_prob"] = prob()
            if rng.random() < 0.4:
                loc["sq_error_prob"] = prob()
            if rng.random() < 0.4:
                loc["assign_error_flag"] = rng.random() < 0.5
                loc["assign_error_prob"] = prob()
            if bias and rng.random() < 0.4:
                loc["biased_factor"] = rng.choice([0.25, 2, 7])
            if rng.random() < 0.3:
                loc["T1"], loc["T2"] = rng.choice([(15.0, 12.0), (40.0, 50.0)])
            if rng.random() < 0.3:
                loc["x_error_prob"] = "free_x"
            out.append(loc)
    for a, b in pairs:
        if rng.random() < 0.35:
            loc = dict(qubits=[a, b])
            for n in TQ:
                if rng.random() < 0.4:
                    loc[f"{n}_error_prob"] = prob()
            if rng.random() < 0.4:
                loc["tq_error_prob"] = prob()
            if bias and rng.random() < 0.4:
                loc["biased_factor"] = rng.choice([0.25, 2, 7])
            out.append(loc)
    durs = {
        g: round(rng.uniform(0.05, 0.9), 3)
        for g in ["X", "Z", "H", "S", "S_DAG", "CZ", "CNOT", "SWAP",
                  "M", "MX", "MY", "R", "RX", "RY"]
    }  # fmt: skip
    return dict(name="s", gate_durations=durs, setup=out)


def var_value(name):
    """Value that the harness gives to a free parameter of the random setups (all
    strings in a setup are names of free parameters)."""
    if name in ("X", "Y", "Z"):
        return name
    return 0.00123 if name == "free_h" else 0.00345


def make_setup(sdict):
    setup = Setup(sdict)
    for p in setup.free_params:
        setup.set_var_param(p, var_value(p))
    return setup


CIRCUIT_MODELS = ["noiseless", "circuit", "biased", "incoming", "phenom"]


def make_model(kind, setup, inds):
    if kind == "noiseless":
        return mods.NoiselessModel(inds)
    if kind == "circuit":
        return mods.CircuitNoiseModel(setup, inds)
    if kind == "biased":
        return mods.BiasedCircuitNoiseModel(setup, inds)
    if kind == "incoming":
        return mods.IncomingNoiseModel(setup, inds)
    if kind == "phenom":
        return mods.PhenomenologicalNoiseModel(setup, inds)
    if kind == "decoherence":
        return mods.DecoherenceNoiseModel(setup, inds)
    if kind == "decoherence_asym":
        return mods.DecoherenceNoiseModel(setup, inds, symmetric_noise=False)
    if kind == "experimental":
        return mods.ExperimentalNoiseModel(setup, inds)
    raise KeyError(kind)


def uniform_setup(p):
    setup = Setup(
        dict(
            setup=[
                dict(
                    sq_error_prob=p,
                    tq_error_prob=p,
                    meas_error_prob=p,
                    reset_error_prob=p,
                    idle_error_prob=p,
                    assign_error_flag=True,
                    assign_error_prob=p,
                    biased_pauli="bias",
                    biased_factor=2,
                )
            ]
        )
    )
    setup.set_var_param("bias", "Z")
    return setup


def inds_of(*layouts):
    inds = {}
    for l in layouts:
        inds.update(l.qubit_inds())
    return inds


def ancs_of(*layouts):
    out = {}
    for l in layouts:
        out.update(l.anc_coords())
    return out


def make_detectors(frame, *layouts, coords=True):
    anc = ancs_of(*layouts)
    return Detectors(list(anc), frame, anc_coords=anc if coords else None)


def data_init(rng, layouts, mode=None):
    """Random initial bitstring of the data qubits."""
    data = [q for l in layouts for q in l.get_qubits(role="data")]
    mode = mode or rng.choice(["full", "full", "partial", "empty", "ones"])
    if mode == "full":
        return {q: rng.randint(0, 1) for q in data}
    if mode == "partial":
        return {q: rng.randint(0, 1) for q in data if rng.random() < 0.5}
    if mode == "ones":
        return {q: 1 for q in data}
    return {}


def anc_subset(rng, layouts):
    anc = [q for l in layouts for q in l.get_qubits(role="anc")]
    mode = rng.random()
    if mode < 0.4:
        return None
    if mode < 0.5:
        return []
    if mode < 0.7:
        typ = rng.choice(["x_type", "z_type"])
        return [q for l in layouts for q in l.get_qubits(role="anc", stab_type=typ)]
    sub = [a for a in anc if rng.random() < 0.5]
    rng.shuffle(sub)
    return sub


# ------------------------------------------------------------ experiments
def memory(family, model, layout, det, num_rounds, init, rot_basis=False,
           anc_reset=True, anc_detectors=None, gauge=True):  # fmt: skip
    func = FAMILIES[family][2].memory_experiment
    kw = dict(
        model=model,
        layout=layout,
        detectors=det,
        num_rounds=num_rounds,
        data_init=init,
        rot_basis=rot_basis,
        anc_detectors=anc_detectors,
        gauge_detectors=gauge,
    )
    if family != "rot_google":
        kw["anc_reset"] = anc_reset
    return func(**kw)


# every experiment the library offers
EXPERIMENTS = [("memory", f) for f in FAMILIES]
EXPERIMENTS += [("s", "rot_css"), ("s", "rot_css_pipe"), ("s", "unrot_css")]
EXPERIMENTS += [("h", "unrot_css"), ("cnot", "rot_css"), ("cnot", "unrot_css")]


def experiment_spec(rng, kinds=None, dmax=3, max_rounds=4, cell=None):
    """Spec of a complete experiment of any kind.

    ``cell`` numbers the cells of (experiment, gauge detectors, basis): consecutive
    numbers go through all of them.
    """
    forced = {}
    if cell is not None:
        kind, family = EXPERIMENTS[cell % len(EXPERIMENTS)]
        bits = cell // len(EXPERIMENTS)
        forced = dict(gauge=bool(bits & 1), rot_basis=bool(bits & 2))
    else:
        kind = rng.choice(kinds or ["memory", "memory", "memory", "s", "cnot", "h"])
        family = rng.choice([f for k, f in EXPERIMENTS if k == kind])
    if kind == "memory":
        dx, dz = rng.randint(2, dmax), rng.randint(2, dmax)
        npatch = 1
    elif kind == "s":
        dx = rng.randint(2, dmax)
        dz = dx + 1 if lattice(family) == ROT else dx
        npatch = 1
    elif kind == "h":
        npatch = 1
        dx = dz = rng.randint(2, dmax)
    else:
        npatch = 2
        dx, dz = rng.randint(2, dmax), rng.randint(2, dmax)
    lat = lattice(family)
    if npatch == 2:
        # the transversal CNOT needs parallel patches
        scale = scale_of(rng)
        specs = alike([layout_spec(rng, lat, dx, dz, k, scale=scale) for k in range(2)])
    else:
        specs = [layout_spec(rng, lat, dx, dz, scale=scale_of(rng))]
    spec = dict(
        kind=kind,
        family=family,
        layouts=specs,
        frame=rng.choice(FRAMES) if kind == "memory" else rng.choice(FRAMES[:2]),
        coords=rng.random() < 0.85,
        rounds=rng.randint(1 if family == "rot_google" else 0, max_rounds)
        if kind == "memory"
        else rng.randint(0, 2),
        gates=rng.choice([0, 2, 4]) if kind == "s" else rng.randint(0, 4),
        orientation=rng.choice(["alternating", "constant"]),
        rot_basis=rng.random() < 0.5,
        anc_reset=rng.random() < 0.5,
        gauge=rng.random() < 0.5,
        init_seed=rng.randint(0, 10**9),
        anc_det_seed=rng.randint(0, 10**9),
        model=rng.choice(CIRCUIT_MODELS),
        setup_seed=rng.randint(0, 10**9),
    )
    return dict(spec, **forced)


class Built:
    """Objects of an experiment spec, and the call that makes the circuit."""

    def __init__(self, spec, model=None, anc_detectors="random", init=None,
                 prepare=True):  # fmt: skip
        self.spec = spec
        self.layouts = [make_layout(s) for s in spec["layouts"]]
        kind = spec["kind"]
        if prepare:
            prepare_layouts(kind, self.layouts)
        rs = random.Random(spec["setup_seed"])
        data = [q for l in self.layouts for q in l.get_qubits()]
        pairs = []
        for l in self.layouts:
            pairs += l.get_neighbors(l.get_qubits(role="anc"), as_pairs=True)
        pairs += [(b, a) for a, b in pairs]
        self.setup_dict = setup_dict(rs, data, pairs)
        self.setup = make_setup(self.setup_dict)
        self.model_kind = model or spec["model"]
        self.model = make_model(self.model_kind, self.setup, inds_of(*self.layouts))
        self.detectors = make_detectors(
            spec["frame"], *self.layouts, coords=spec["coords"]
        )
        if init is None:
            init = data_init(random.Random(spec["init_seed"]), self.layouts)
        self.init = init
        if anc_detectors == "random":
            anc_detectors = anc_subset(random.Random(spec["anc_det_seed"]), self.layouts)
        self.anc_detectors = anc_detectors

    def circuit(self, **over):
        s = dict(self.spec, **over)
        module = FAMILIES[s["family"]][2]
        anc_det = over.get("anc_detectors", self.anc_detectors)
        common = dict(
            model=self.model,
            detectors=self.detectors,
            data_init=over.get("init", self.init),
            rot_basis=s["rot_basis"],
            anc_detectors=anc_det,
            gauge_detectors=s["gauge"],
        )
        if s["family"] != "rot_google":
            common["anc_reset"] = s["anc_reset"]
        if s["kind"] == "memory":
            return module.memory_experiment(
                layout=self.layouts[0], num_rounds=s["rounds"], **common
            )
        common["num_rounds_per_gate"] = s["rounds"]
        if s["kind"] == "s":
            return module.repeated_s_experiment(
                layout=self.layouts[0], num_s_gates=s["gates"], **common
            )
        if s["kind"] == "h":
            return module.repeated_h_experiment(
                layout=self.layouts[0], num_h_gates=s["gates"], **common
            )
        return module.repeated_cnot_experiment(
            layout_c=self.layouts[0],
            layout_t=self.layouts[1],
            num_cnot_gates=s["gates"],
            cnot_orientation=s["orientation"],
            **common,
        )


def prepare_layouts(kind, layouts):
    lat = ROT if layouts[0].code == "rotated_surface_code" else UNROT
    lg = log_gates(lat)
    if kind == "s":
        lg.set_trans_s(layouts[0], corner(layouts[0]))
    if kind == "h":
        lg.set_trans_h(layouts[0], corner(layouts[0]))
    if kind == "cnot":
        for a in layouts:
            for b in layouts:
                if a is not b:
                    lg.set_trans_cnot(a, b)


# ------------------------------------------------- independent code description
def stabilizers(layout, xzzx=False):
    """anc -> {data: pauli} from the coordinates only (nearest data qubits)."""
    data = {q: tuple(layout.param("coords", q)) for q in layout.get_qubits(role="data")}
    out = {}
    rot = layout.code == "rotated_surface_code"
    reach = [(1, 1), (1, -1), (-1, 1), (-1, -1)] if rot else [(1, 0), (-1, 0), (0, 1), (0, -1)]
    u = unit(layout)
    for anc in layout.get_qubits(role="anc"):
        typ = layout.param("stab_type", anc)
        a = layout.param("coords", anc)
        sup = {}
        for q, c in data.items():
            d = (round((c[0] - a[0]) / u, 5), round((c[1] - a[1]) / u, 5))
            if d in reach:
                sup[q] = "X" if typ == "x_type" else "Z"
        out[anc] = sup
    if xzzx:
        rot_q = xzzx_rotated(layout)
        out = {a: {q: swap_pauli(p) if q in rot_q else p for q, p in s.items()}
               for a, s in out.items()}  # fmt: skip
    return out


def swap_pauli(p):
    return {"X": "Z", "Z": "X", "Y": "Y"}[p]


def xzzx_rotated(layout):
    """Data qubits on which the XZZX code is the CSS code conjugated by H: those
    at north-west or south-east of a Z-type stabilizer's ancilla."""
    out = set()
    u = unit(layout)
    data = {
        tuple(round(x, 5) for x in layout.param("coords", q)): q
        for q in layout.get_qubits(role="data")
    }
    for anc in layout.get_qubits(role="anc", stab_type="z_type"):
        a = layout.param("coords", anc)
        for d in ((1, -1), (-1, 1)):
            q = data.get((round(a[0] + u * d[0], 5), round(a[1] + u * d[1], 5)))
            if q is not None:
                out.add(q)
    return out


def logical(layout, which, xzzx=False):
    lab = layout.get_logical_qubits()[0]
    qs = layout.log_x[lab] if which == "X" else layout.log_z[lab]
    out = {q: which for q in qs}
    if xzzx:
        rot_q = xzzx_rotated(layout)
        out = {q: swap_pauli(p) if q in rot_q else p for q, p in out.items()}
    return out


# --------------------------------------------------------------------- GF(2)
def gf2_inv(mat):
    """Inverse over GF(2) (own implementation), None if singular."""
    m = np.array(mat, dtype=np.uint8) % 2
    n = len(m)
    aug = np.concatenate([m, np.eye(n, dtype=np.uint8)], axis=1)
    for c in range(n):
        piv = next((r for r in range(c, n) if aug[r, c]), None)
        if piv is None:
            return None
        aug[[c, piv]] = aug[[piv, c]]
        for r in range(n):
            if r != c and aug[r, c]:
                aug[r] ^= aug[c]
    return aug[:, n:]


def random_gl(rng, n, steps=None):
    """Random invertible matrix over GF(2) as a product of elementary ones."""
    m = np.eye(n, dtype=np.uint8)
    if n == 1:
        return m
    for _ in range(steps if steps is not None else rng.randint(0, 2 * n)):
        a, b = rng.sample(range(n), 2)
        if rng.random() < 0.8:
            m[a] ^= m[b]
        else:
            m[[a, b]] = m[[b, a]]
    return m
