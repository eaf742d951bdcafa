"""C17: every layer is physically executable and accounts for idling qubits.

A trace checker walks the emitted circuits layer by layer.  The noiseless build shows
the operations and the explicit idling; the noisy builds (every strength positive) show
which qubits get noise in which layer.
"""

from vlib import gen
from vlib.canon import MEAS, NOISE, TWO_QUBIT
from vlib.program import Program, program_spec

PROPERTY = "C17"
RULE = (
    "a case is an experiment or a program of blocks, built without noise and with each noise "
    "model; non-trivial if it has two-qubit operations; distinct by the layers"
)
ASSUMPTIONS = [
    "idling without noise is the identity instruction",
    "in a program of blocks the patches that do not take part in a block are not accounted for "
    "by that block",
    "incoming noise happens in layers without operations",
]
MIN_EVENTS = {
    "layer": 3000,
    "one_operation": 30000,
    "accounted": 30000,
    "pair": 5000,
    "noise_per_operation": 30000,
    "incoming_once": 2000,
    "block": 300,
    "lone_noise": 10000,
}


def cases(tier, rng):
    out = []
    n = 80 if tier == "quick" else 1300
    for k in range(n):
        out.append(dict(what="exp", spec=gen.experiment_spec(rng, cell=k)))
    for _ in range(n):
        out.append(dict(what="prog", spec=program_spec(rng)))
    return out


ANNOT = {"DETECTOR", "OBSERVABLE_INCLUDE", "QUBIT_COORDS", "SHIFT_COORDS"}


def layers(circ):
    """Per layer: (operations {qubit: [(name, partner)]}, noise {qubit: [(name, partner)]})."""
    out = [({}, {})]
    for instr in circ.flattened():
        if instr.name == "TICK":
            out.append(({}, {}))
            continue
        if instr.name in ANNOT:
            continue
        dest = out[-1][1] if instr.name in NOISE else out[-1][0]
        t = [x.value for x in instr.targets_copy()]
        if instr.name in TWO_QUBIT:
            for a, b in zip(t[::2], t[1::2]):
                dest.setdefault(a, []).append((instr.name, b))
                dest.setdefault(b, []).append((instr.name, a))
        else:
            for q in t:
                dest.setdefault(q, []).append((instr.name, None))
    return out


def allowed_pairs(layouts, gates):
    pairs = set()
    inds = gen.inds_of(*layouts)
    for l in layouts:
        for a, b in l.get_neighbors(l.get_qubits(role="anc"), as_pairs=True):
            pairs.add(frozenset((inds[a], inds[b])))
    gate_pairs = set()
    if gates:
        for l in layouts:
            for node in l.to_dict()["layout"]:
                q = node["qubit"]
                for key, val in node.items():
                    if str(key).startswith("trans-") and isinstance(val, dict):
                        for other in val.values():
                            if isinstance(other, str) and other in inds:
                                gate_pairs.add(frozenset((inds[q], inds[other])))
    return pairs | gate_pairs


def check_ideal(mon, lays, qubits, pairs, where):
    for k, (ops, noise) in enumerate(lays):
        mon.check("no_noise", not noise, f"{where}: noise without noise model")
        mon.check("known_qubits", set(ops) <= qubits, f"{where}: qubits {set(ops) - qubits}")
        real = {q: [o for o in v if o[0] != "I"] for q, v in ops.items()}
        for q, v in real.items():
            mon.check(
                "one_operation",
                len(v) <= 1 and (len(ops[q]) == 1),
                lambda: f"{where}: layer {k}, qubit {q} undergoes {ops[q]}",
            )
            for name, other in v:
                if other is not None:
                    mon.check(
                        "pair",
                        frozenset((q, other)) in pairs,
                        lambda: f"{where}: layer {k}, {name} on {q} and {other}",
                    )
        if not ops:
            continue
        mon.see("layer")
        for q in qubits:
            mon.check(
                "accounted",
                q in ops,
                lambda: f"{where}: qubit {q} neither operates nor idles in layer {k}: {ops}",
            )


def check_noisy(mon, kind, ideal, noisy, data, where):
    mon.equal("num_layers", len(noisy), len(ideal), f"{where}: {kind} layers")
    incoming = {q: 0 for q in data}
    for k, ((ops, _), (_, noise)) in enumerate(zip(ideal, noisy)):
        if not ops:
            # incoming noise
            mon.check(
                "incoming_on_data",
                set(noise) <= data and all(o is None for v in noise.values() for _, o in v),
                f"{where}: {kind} noise {noise} in layer {k} without operations",
            )
            for q in noise:
                incoming[q] += 1
            continue
        for q, v in noise.items():
            mon.check(
                "lone_noise",
                q in ops,
                lambda: f"{where}: {kind} noise {v} on qubit {q}, which does nothing in layer {k}",
            )
            for name, other in v:
                if other is not None:
                    mon.check(
                        "pair_noise",
                        any(o[1] == other for o in ops[q]),
                        lambda: f"{where}: {kind} {name} on {q}, {other} in layer {k}",
                    )
        if kind in ("circuit", "biased"):
            for q in ops:
                got = noise.get(q, [])
                name, other = ops[q][0]
                two = other is not None
                ok = len(got) == 1 and (got[0][1] == other if two else got[0][1] is None)
                mon.check(
                    "noise_per_operation",
                    ok,
                    lambda: f"{where}: {kind} layer {k}, qubit {q} does {ops[q]} with noise {got}",
                )
        if kind == "phenom":
            for q in ops:
                want = 1 if ops[q][0][0] in MEAS else 0
                got = noise.get(q, [])
                mon.check(
                    "noise_per_operation",
                    len(got) == want,
                    lambda: f"{where}: {kind} layer {k}, qubit {q} does {ops[q]} with {got}",
                )
        if kind == "incoming":
            mon.check("noise_per_operation", not noise, f"{where}: {kind} noise {noise}")
    return incoming


def positive_setup():
    return gen.uniform_setup(0.001)


def run(case, mon):
    spec = case["spec"]
    setup = positive_setup()
    if case["what"] == "exp":
        built = gen.Built(spec)
        inds = gen.inds_of(*built.layouts)
        qubits = set(inds.values())
        data = {inds[q] for l in built.layouts for q in l.get_qubits(role="data")}
        pairs = allowed_pairs(built.layouts, spec["kind"] != "memory")
        built.model = gen.make_model("noiseless", setup, inds)
        ideal = layers(built.circuit())
        check_ideal(mon, ideal, qubits, pairs, spec["kind"])
        counts = []
        for kind in ["circuit", "biased", "incoming", "phenom"]:
            built.model = gen.make_model(kind, setup, inds)
            noisy = layers(built.circuit())
            incoming = check_noisy(mon, kind, ideal, noisy, data, spec["kind"])
            if kind in ("incoming", "phenom"):
                counts.append(incoming)
            else:
                mon.check("incoming_only", not any(incoming.values()), f"{kind}: incoming noise")
        nblocks = expected_incoming(spec)
        for c in counts:
            for q, n in c.items():
                mon.equal("incoming_once", n, nblocks, f"incoming noise on qubit {q}")
        mon.sig("exp", spec["kind"], spec["family"], repr(ideal))
        return

    progs = {"noiseless": Program(spec, model="noiseless")}
    base = progs["noiseless"]
    for kind in ["circuit", "biased", "incoming", "phenom"]:
        progs[kind] = Program(spec, model=kind, setup=setup, layouts=base.layouts)
    for p in progs.values():
        p.model.new_circuit()
        p.det.new_circuit()
    for op in spec["ops"]:
        if op[0] == "coords":
            part = []
        elif op[0] in ("round", "meas"):
            part = [base.layouts[k] for k in op[1]]
        else:
            part = [base.layouts[k] for k in op[1 : 3 if op[0] == "cnot" else 2]]
        blocks = {k: layers(p.step(op)) for k, p in progs.items()}
        inds = gen.inds_of(*part) if part else {}
        qubits = set(inds.values())
        data = {inds[q] for l in part for q in l.get_qubits(role="data")}
        gates = op[0] in ("s", "h", "cnot")
        check_ideal(mon, blocks["noiseless"], qubits, allowed_pairs(part, gates), str(op))
        mon.see("block")
        for kind in ["circuit", "biased", "incoming", "phenom"]:
            inc = check_noisy(mon, kind, blocks["noiseless"], blocks[kind], data, str(op))
            if kind in ("incoming", "phenom") and op[0] not in ("coords", "init"):
                for q, n in inc.items():
                    mon.equal("incoming_once", n, 1, f"{op}: incoming noise on qubit {q}")
            elif kind in ("incoming", "phenom"):
                mon.check("incoming_only", not any(inc.values()), f"{op}: incoming noise")
    mon.sig("prog", spec["family"], spec["ops"])


def expected_incoming(spec):
    if spec["family"] == "rot_google":
        return spec["rounds"]
    if spec["kind"] == "memory":
        return spec["rounds"] + 1
    # a first round, the gates with their rounds, and the measurement
    return spec["gates"] * (spec["rounds"] + 1) + 2
