"""C20: equivalent ways to build something give the same result.

The library offers several entry points to the same thing; each workload builds it
in two or more ways, with fresh objects, and compares the canonical descriptions:

- ``block``: a random history of blocks on one to three patches is emitted with the
  whole blocks, with their iterators plus the detectors that the blocks document, by
  keyword without the documented defaults, and with the merging functions on single
  patches,
- ``experiment``: an experiment in one call and composed by hand from the blocks
  (the harness' own loop over initialisation, rounds, gates and measurement),
- ``defaults``: options that are omitted, given with their documented default, and
  given by position,
- ``layout``: square and rectangle functions, omitted and documented defaults,
- ``setup``: the predefined setup and its explicit description, setups from a
  dictionary, from YAML and by assignments.
"""

import os
import random
import tempfile

import stim

from surface_sim import Detectors, Setup, layouts as lays
from surface_sim.circuit_blocks import util
from surface_sim.detectors import get_new_stab_dict_from_layout, get_support_from_adj_matrix
from surface_sim.setup import CircuitNoiseSetup
from surface_sim.util import merge_circuits, merge_log_meas, merge_qec_rounds

from vlib import gen
from vlib.canon import Canon, diff
from vlib.program import Program, program_spec

PROPERTY = "C20"
RULE = (
    "a case builds one object (circuit, layout or setup) in at least two equivalent ways; "
    "distinct by kind, family, sizes, options and history"
)
ASSUMPTIONS = [
    "operations on different qubits inside a layer, and the detectors of a round, can be "
    "listed in any order",
]
MIN_EVENTS = {
    "by_iterator": 40,
    "by_merge": 40,
    "by_keyword": 40,
    "composed": 60,
    "omitted": 300,
    "positional": 60,
    "layout": 40,
    "setup": 5000,
}


def cases(tier, rng):
    big = tier == "thorough"
    out = []
    for k in range(900 if big else 70):
        fam = list(gen.FAMILIES)[k % len(gen.FAMILIES)]
        out.append(dict(kind="block", spec=program_spec(rng, [fam])))
    for k in range(1200 if big else 96):
        out.append(dict(kind="experiment", spec=gen.experiment_spec(rng, cell=k)))
    for k in range(600 if big else 72):
        spec = gen.experiment_spec(rng, cell=k)
        out.append(dict(kind="defaults", spec=spec, seed=rng.randint(0, 10**9)))
    for k in range(300 if big else 40):
        out.append(dict(kind="layout", seed=rng.randint(0, 10**9)))
    for k in range(300 if big else 40):
        out.append(dict(kind="setup", seed=rng.randint(0, 10**9)))
    return out


def run(case, mon):
    globals()["run_" + case["kind"]](case, mon)


def same(mon, event, got, want, what):
    a, b = Canon(got), Canon(want)
    d = diff(a, b)
    if not d and [r[:2] for r in a.records] != [r[:2] for r in b.records]:
        # the order of the records inside of a layer is free, not that of the layers
        key = lambda c: sorted((r[2], r[0], r[1], r[3]) for r in c.records)  # noqa: E731
        d = "" if key(a) == key(b) else "records in other layers"
    mon.check(event, not d, lambda: f"{what}: {d}")


def total(blocks):
    out = stim.Circuit()
    for b in blocks:
        out += b
    return out


# ---------------------------------------------------------------------- blocks
class ByIterator(Program):
    """The same program emitted with the iterators of the blocks."""

    def step(self, op):
        s, mod, model, det, L = self.spec, self.mod, self.model, self.det, self.layouts
        name = op[0]
        if name == "coords":
            return total(mod.qubit_coords(model, l) for l in L)
        if s["family"] == "rot_google":
            return super().step(op)
        xzzx = "_xzzx" if s["family"] in gen.XZZX else ""
        if name == "init":
            l = L[op[1]]
            init = gen.data_init(random.Random(op[2]), [l])
            det.activate_detectors(l.get_qubits(role="anc"))
            func = getattr(util, f"init_qubits{xzzx}_iterator")
            return total(func(model, l, init, *([True] if op[3] else [])))
        if name in ("x", "z"):
            return total(getattr(util, f"log_{name}{xzzx}_iterator")(model, L[op[1]]))
        if name in ("s", "h", "cnot"):
            group = [L[k] for k in op[1:]]
            label = "_".join([f"trans-{name}", *(l.get_logical_qubits()[0] for l in group)])
            stabs = {}
            for l in group:
                stabs.update(get_new_stab_dict_from_layout(l, label))
            det.update_from_dict(stabs)
            return total(getattr(util, f"log_trans_{name}_iterator")(model, *group))
        if name in ("round", "meas") and len(op[1]) > 1:
            return super().step(op)
        if name == "round":
            l = L[op[1][0]]
            anc = gen.anc_subset(random.Random(op[2]), [l])
            if anc is None:
                anc = l.get_qubits(role="anc")
            # (a reset is the default)
            out = total(mod.qec_round_iterator(model, l, *([] if s["reset"] else [False])))
            return out + det.build_from_anc(model.meas_target, s["reset"], anc)
        if name == "meas":
            l, basis = L[op[1][0]], op[2][0]
            anc = gen.anc_subset(random.Random(op[3]), [l])
            if anc is None:
                anc = l.get_qubits(role="anc")
            stabs = l.get_qubits(role="anc", stab_type="x_type" if basis else "z_type")
            out = total(mod.log_meas_iterator(model, l, *([basis] if basis else [])))
            out += det.build_from_data(
                model.meas_target,
                get_support_from_adj_matrix(l.adjacency_matrix(), stabs),
                s["reset"],
                reconstructable_stabs=stabs,
                anc_qubits=anc,
            )
            sup = (l.log_x if basis else l.log_z)[l.get_logical_qubits()[0]]
            out.append("OBSERVABLE_INCLUDE", [model.meas_target(q, -1) for q in sup], 0)
            det.deactivate_detectors(l.get_qubits(role="anc"))
            return out
        return super().step(op)


DEFAULTS = dict(rot_basis=False, anc_reset=True, anc_detectors=None)


class ByKeyword(Program):
    """The same program with all arguments by keyword, without those that have their
    documented default."""

    def call(self, func, **args):
        omit = random.Random(str(self.count))
        self.count += 1
        for k, default in DEFAULTS.items():
            if k in args and args[k] == default and omit.random() < 0.8:
                del args[k]
        return func(**args)

    count = 0

    def step(self, op):
        s, mod, model, det, L = self.spec, self.mod, self.model, self.det, self.layouts
        google = s["family"] == "rot_google"
        name = op[0]
        base = dict(model=model, detectors=det)
        if name == "coords":
            return mod.qubit_coords(model, *L)
        if name == "init":
            l = L[op[1]]
            init = gen.data_init(random.Random(op[2]), [l])
            # in any order, without the qubits in the ground state
            init = {q: init[q] for q in sorted(init) if init[q]}
            return self.call(mod.init_qubits, **base, layout=l, data_init=init, rot_basis=op[3])
        if name in ("round", "meas"):
            group = [L[k] for k in op[1]]
            opts = dict(anc_detectors=gen.anc_subset(random.Random(op[-1]), group))
            if not google:
                opts["anc_reset"] = s["reset"]
            one = dict(layout=group[0])
            if name == "round":
                if len(group) == 1:
                    return self.call(mod.qec_round, **base, **one, **opts)
                many = dict(qec_round_iterator=mod.qec_round_iterator, layouts=group)
                return self.call(merge_qec_rounds, **base, **many, **opts)
            if len(group) == 1:
                func = mod.qec_round_with_log_meas if google else mod.log_meas
                return self.call(func, **base, **one, **opts, rot_basis=op[2][0])
            many = dict(log_meas_iterator=mod.log_meas_iterator, layouts=group, rot_bases=op[2])
            return self.call(merge_log_meas, **base, **many, **opts)
        if name == "cnot":
            return mod.log_trans_cnot(**base, layout_c=L[op[1]], layout_t=L[op[2]])
        func = {"x": "log_x", "z": "log_z", "s": "log_trans_s", "h": "log_trans_h"}[name]
        return getattr(mod, func)(**base, layout=L[op[1]])


class ByMerge(Program):
    """The same program emitted with the merging functions on single patches."""

    def step(self, op):
        s, mod, model, det, L = self.spec, self.mod, self.model, self.det, self.layouts
        name = op[0]
        if s["family"] == "rot_google":
            return super().step(op)
        if name == "round":
            group = [L[k] for k in op[1]]
            anc = gen.anc_subset(random.Random(op[2]), group)
            return merge_qec_rounds(mod.qec_round_iterator, model, group, det, s["reset"], anc)
        if name == "meas":
            group = [L[k] for k in op[1]]
            anc = gen.anc_subset(random.Random(op[3]), group)
            return merge_log_meas(mod.log_meas_iterator, model, group, det, op[2], s["reset"], anc)
        out = super().step(op)
        return merge_circuits(out) if name in ("init", "x", "z", "s", "h") else out


def run_block(case, mon):
    spec = case["spec"]
    ref = Program(spec).circuit()
    same(mon, "by_iterator", ByIterator(spec).circuit(), ref, "iterators versus blocks")
    same(mon, "by_keyword", ByKeyword(spec).circuit(), ref, "omitted defaults and keywords versus position")
    same(mon, "by_merge", ByMerge(spec).circuit(), ref, "merges of one patch versus blocks")
    mon.sig("block", spec["family"], spec["ops"], [(s["dx"], s["dz"]) for s in spec["layouts"]])


# ----------------------------------------------------------------- experiments
def compose(b):
    """The experiment of a spec, composed from the blocks."""
    s, L, model, det = b.spec, b.layouts, b.model, b.detectors
    mod = gen.FAMILIES[s["family"]][1]
    google = s["family"] == "rot_google"
    anc = [a for l in L for a in l.get_qubits(role="anc")]
    sel = anc if b.anc_detectors is None else list(b.anc_detectors)
    typ = "x_type" if s["rot_basis"] else "z_type"
    known = [a for l in L for a in l.get_qubits(role="anc", stab_type=typ)]
    first = sel if s["gauge"] else [a for a in sel if a in known]
    basis = s["rot_basis"]
    model.new_circuit()
    det.new_circuit()

    def qec_round(sel):
        if google:
            return mod.qec_round(model, L[0], det, sel)
        if len(L) == 1:
            return mod.qec_round(model, L[0], det, s["anc_reset"], sel)
        return merge_qec_rounds(mod.qec_round_iterator, model, L, det, s["anc_reset"], sel)

    out = mod.qubit_coords(model, *L)
    inits = []
    for l in L:
        init = {q: v for q, v in b.init.items() if q in l.get_qubits()}
        inits.append(mod.init_qubits(model, l, det, init, basis))
    out += inits[0] if len(L) == 1 else merge_circuits(*inits)

    if s["kind"] == "memory":
        n = s["rounds"] - 1 if google else s["rounds"]
        for r in range(n):
            out += qec_round(first if r == 0 else sel)
        if google:
            last = first if s["rounds"] == 1 else sel
            return out + mod.qec_round_with_log_meas(model, L[0], det, last, basis)
        return out + mod.log_meas(model, L[0], det, basis, s["anc_reset"], sel)

    out += qec_round(first)
    for k in range(s["gates"]):
        if s["kind"] == "s":
            out += mod.log_trans_s(model, L[0], det)
        elif s["kind"] == "h":
            out += mod.log_trans_h(model, L[0], det)
            basis = not basis
        elif s["orientation"] == "alternating" and k % 2:
            out += mod.log_trans_cnot(model, L[1], L[0], det)
        else:
            out += mod.log_trans_cnot(model, L[0], L[1], det)
        for _ in range(s["rounds"]):
            out += qec_round(sel)
    if len(L) == 1:
        return out + mod.log_meas(model, L[0], det, basis, s["anc_reset"], sel)
    return out + merge_log_meas(
        mod.log_meas_iterator, model, L, det, [basis] * 2, s["anc_reset"], sel
    )


def run_experiment(case, mon):
    spec = case["spec"]
    ref = gen.Built(spec).circuit()
    got = compose(gen.Built(spec))
    same(mon, "composed", ref, got, f"{spec['kind']} of {spec['family']} versus its blocks")
    keys = ("kind", "family", "rounds", "gates", "rot_basis", "anc_reset", "gauge", "frame")
    mon.sig("experiment", [spec[k] for k in keys])


# -------------------------------------------------------------------- defaults
# documented options and their defaults, in the order of the calls
OPTIONS = [("rot_basis", False), ("anc_reset", True), ("anc_detectors", None),
           ("gauge_detectors", True)]  # fmt: skip


def run_defaults(case, mon):
    rng = random.Random(case["seed"])
    spec = case["spec"]
    kind, google = spec["kind"], spec["family"] == "rot_google"
    options = [OPTIONS[k] for k in ([2, 0, 3] if google else range(4))]
    if kind == "cnot":
        options = [("cnot_orientation", "alternating")] + options
    module = gen.FAMILIES[spec["family"]][2]
    name = "memory_experiment" if kind == "memory" else f"repeated_{kind}_experiment"
    func = getattr(module, name)

    for m in (module, gen.FAMILIES[spec["family"]][1]):
        lost = [n for n in getattr(m, "__all__", []) if not hasattr(m, n)]
        mon.check("exported", not lost, f"{m.__name__} does not have {lost}, which it offers")

    b = gen.Built(spec)
    count = [spec["rounds"]] if kind == "memory" else [spec["gates"], spec["rounds"]]
    args = [b.model, *b.layouts, b.detectors, *count, b.init]

    given = {o: rng.choice([True, False]) for o, _ in options}
    given["anc_detectors"] = gen.anc_subset(rng, b.layouts)
    if kind == "cnot":
        given["cnot_orientation"] = rng.choice(["alternating", "constant"])
    # omitting any subset of the options is giving their documented defaults
    for _ in range(4):
        omitted = {o for o, _ in options if rng.random() < 0.6}
        full = {o: d if o in omitted else given[o] for o, d in options}
        want = func(*args, **full)
        got = func(*args, **{o: v for o, v in full.items() if o not in omitted})
        same(mon, "omitted", got, want, f"{name} without {sorted(omitted)}")
    # all ancillas are the default selection
    anc = [a for l in b.layouts for a in l.get_qubits(role="anc")]
    full = dict(given, anc_detectors=None)
    same(mon, "omitted", func(*args, **dict(full, anc_detectors=anc)),
         func(*args, **full), f"{name} with all ancillas")  # fmt: skip
    # options by position
    want = func(*args, **given)
    got = func(*args, *[given[o] for o, _ in options])
    same(mon, "positional", got, want, f"{name} with options by position")
    # qubits that are missing in the initial state are in the ground state
    ones = {q: v for q, v in b.init.items() if v}
    zeros = {q: b.init.get(q, 0) for l in b.layouts for q in l.get_qubits(role="data")}
    for init in (ones, zeros):
        got = func(*args[:-1], init, **given)
        same(mon, "omitted", got, want, f"{name} with another form of the initial state")
    mon.sig("defaults", name, spec["family"], sorted(map(str, given.items())))


# --------------------------------------------------------------------- layouts
def run_layout(case, mon):
    rng = random.Random(case["seed"])
    lat = rng.choice([gen.ROT, gen.UNROT])
    square = lays.rot_surface_code if lat == gen.ROT else lays.unrot_surface_code
    rect = lays.rot_surface_code_rectangle if lat == gen.ROT else lays.unrot_surface_code_rectangle
    options = dict(
        logical_qubit_label=rng.choice(["L0", "A", "q_1"]),
        init_point=rng.choice([(1, 1), (0, 0), (-3, 5), (2.5, 7)]),
        init_data_qubit_id=rng.choice([1, 0, 7]),
        init_zanc_qubit_id=rng.choice([1, 0, 7]),
        init_xanc_qubit_id=rng.choice([1, 0, 7]),
        init_ind=rng.choice([0, 1, 50]),
    )
    d = rng.randint(2, 6)
    a, b = square(d, **options), rect(d, d, **options)
    strip = lambda l: {k: v for k, v in l.to_dict().items() if k not in ("name", "description")}  # noqa: E731
    mon.equal("layout", strip(a), strip(b), f"square and rectangle of distance {d}")
    mon.equal("layout", strip(square(d, *options.values())), strip(a), "options by position")
    default = dict(logical_qubit_label="L0", init_data_qubit_id=1, init_zanc_qubit_id=1,
                   init_xanc_qubit_id=1, init_ind=0)  # fmt: skip
    omit = {o for o in default if rng.random() < 0.5}
    full = {o: default[o] if o in omit else v for o, v in options.items()}
    part = {o: v for o, v in full.items() if o not in omit}
    for func, args in ((square, (d,)), (rect, (d, rng.randint(2, 6)))):
        mon.equal("layout", strip(func(*args, **part)), strip(func(*args, **full)), f"without {sorted(omit)}")
    mon.sig("layout", lat, d, sorted(map(str, options.items())))


# ---------------------------------------------------------------------- setups
NAMES = [f"{n}_error_prob" for n in gen.SQ + gen.TQ] + ["assign_error_prob", "assign_error_flag"]


def resolve(setup, qubits):
    out = {}
    for name in NAMES:
        n = 2 if name.split("_")[0] in gen.TQ else 1
        for q in qubits:
            args = (q,) if n == 1 else (q, qubits[0] + "x")
            out[(name, q)] = setup.param(name, *args)
    return out


def run_setup(case, mon):
    rng = random.Random(case["seed"])
    qubits = [f"q{k}" for k in range(4)]
    p = rng.random() * 0.1
    lib = CircuitNoiseSetup()
    lib.set_var_param("prob", p)
    names = ["sq", "tq", "meas", "reset", "idle", "assign"]
    glob = {f"{n}_error_prob": p for n in names}
    glob["assign_error_flag"] = True
    explicit = Setup(dict(setup=[glob]))
    byname = Setup(dict(setup=[{k: "v" if k != "assign_error_flag" else v for k, v in glob.items()}]))
    byname.set_var_param("v", p)
    assigned = Setup(dict(setup=[{}]))
    for k, v in glob.items():
        assigned.set_param(k, v)
    local = Setup(dict(setup=[dict(qubit=q, **{k: v for k, v in glob.items() if k[:2] != "tq"}) for q in qubits]
                       + [dict(qubits=(q, qubits[0] + "x"), tq_error_prob=p) for q in qubits]))  # fmt: skip
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "s.yaml")
        explicit.to_yaml(path)
        loaded = Setup.from_yaml(path)
        var = os.path.join(tmp, "v.yaml")
        CircuitNoiseSetup().to_yaml(var)
        reread = Setup.from_yaml(var)
        reread.set_var_param("prob", p)
    want = {(n, q): True if n == "assign_error_flag" else p for n in NAMES for q in qubits}
    forms = dict(library=lib, explicit=explicit, variable=byname, assigned=assigned, local=local,
                 yaml=loaded, library_yaml=reread, again=Setup(explicit.to_dict()))  # fmt: skip
    for form, setup in forms.items():
        got = resolve(setup, qubits)
        for key in want:
            mon.equal("setup", got[key], want[key], f"{form} setup: {key}")
    # and the same circuits
    inds = {q: k for k, q in enumerate(qubits + [q + "x" for q in qubits])}
    ref = None
    for form, setup in forms.items():
        if form == "local":
            continue
        m = gen.make_model("circuit", setup, inds)
        circ = m.hadamard(qubits) + m.cnot(qubits[:2]) + m.measure(qubits) + m.idle(qubits)
        ref = ref or circ
        same(mon, "setup", circ, ref, f"operations with the {form} setup")
    mon.sig("setup", round(p, 3))
    # coordinates are optional
    det = Detectors(qubits, rng.choice(gen.FRAMES))
    det2 = Detectors(tuple(qubits), det.frame, {q: [] for q in qubits})
    m = gen.make_model("noiseless", None, inds)
    meas = m.measure(qubits)
    for x in (det, det2):
        x.activate_detectors(qubits)
    same(mon, "setup", meas + det.build_from_anc(m.meas_target, True),
         meas + det2.build_from_anc(m.meas_target, True, list(qubits)), "coordinates omitted")  # fmt: skip
