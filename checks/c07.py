"""C07: each model emits the ideal operation and exactly its declared channel.

Every call of a model's operation is decomposed into, for each qubit (or pair) that
the operation acts on, the Pauli channel before it, the operation, and the Pauli
channel after it. The channels are composed exactly (convolution of Pauli
distributions), so that any equivalent way of emitting them is accepted, and
compared with the declared ones, computed from an independent model of the setup.
"""

import itertools
import math
import random

from vlib import gen
from vlib.canon import MEAS, NOISE
from vlib.refsetup import RefSetup

PROPERTY = "C07"
RULE = (
    "A case is a model, a random setup (individual, pair-wise ordered, global, "
    "inherited and free parameters, changed along the way) and a history of calls "
    "of every operation on random groups of qubits. Non-trivial: a channel with non-zero "
    "strength that differs from that of another qubit or pair in the same case."
)
ASSUMPTIONS = [
    "stim's documented meaning of its noise instructions and of measurement arguments",
    "the declared channel of an operation is the one described in the class docstrings "
    "and README: depolarizing for gates, flip of the prepared/measured state for "
    "resets/measurements, assignment error as classical flip, Pauli-twirled T1/T2 decay",
]
MIN_EVENTS = {
    "channel as declared": 12000,
    "ideal operation on the requested qubits": 5000,
    "assignment error as declared": 1500,
    "nothing else emitted": 3000,
    "parameter changed between calls": 800,
}
KINDS = ["noiseless", "circuit", "biased", "incoming", "phenom",
         "decoherence", "decoherence_asym", "experimental", "uniform"]  # fmt: skip
TOL = 1e-11  # of probabilities of no error
RTOL, ATOL = 1e-6, 1e-15  # of probabilities of errors
EXTREME = [1e-13, 2e-10, 3e-7, 0.5, 0.7, 0.75]

GATES1 = {"x_gate": ("X", "x"), "z_gate": ("Z", "z"), "hadamard": ("H", "h"),
          "s_gate": ("S", "s"), "s_dag_gate": ("S_DAG", "sdag")}  # fmt: skip
GATES2 = {"cphase": ("CZ", "cz"), "cnot": ("CX", "cnot"), "swap": ("SWAP", "swap")}
RESETS = {"reset": ("R", "Z"), "reset_z": ("R", "Z"), "reset_x": ("RX", "X"),
          "reset_y": ("RY", "Y")}  # fmt: skip
MEASS = {"measure": ("M", "Z"), "measure_z": ("M", "Z"), "measure_x": ("MX", "X"),
         "measure_y": ("MY", "Y")}  # fmt: skip
DURATION = {"CX": "CNOT"}  # names of the operations in 'gate_durations'
PAULIS = ("I", "X", "Y", "Z")
BITS = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
UNBITS = {v: k for k, v in BITS.items()}


def cases(tier, rng):
    n = 50 if tier == "quick" else 600
    return [
        dict(model=kind, seed=rng.randint(0, 10**9),
             nq=rng.randint(2, 7) if k % 10 else rng.randint(8, 24), steps=rng.randint(15, 35))  # fmt: skip
        for kind in KINDS
        for k in range(n)
    ]


# -------------------------------------------------------------- distributions
def times(a, b):
    return "".join(
        UNBITS[(BITS[x][0] ^ BITS[y][0], BITS[x][1] ^ BITS[y][1])] for x, y in zip(a, b)
    )


def convolve(d1, d2):
    out = {}
    for a, p in d1.items():
        for b, q in d2.items():
            c = times(a, b)
            out[c] = out.get(c, 0.0) + p * q
    return out


def ident(n):
    return {"I" * n: 1.0}


def full(n, errors):
    d = dict(errors)
    d["I" * n] = 1.0 - sum(errors.values())
    return d


def flip(pauli, p):
    return full(1, {pauli: p})


def depol(n, p):
    ops = ["".join(o) for o in itertools.product(PAULIS, repeat=n)][1:]
    return full(n, {o: p / len(ops) for o in ops})


def biased(n, p, pauli, factor):
    ops = ["".join(o) for o in itertools.product(PAULIS, repeat=n)][1:]
    weight = {o: (factor if pauli in o else 1.0) for o in ops}
    total = sum(weight.values())
    return full(n, {o: p * w / total for o, w in weight.items()})


def decay(t, t1, t2):
    relax, deph = 1 - math.exp(-t / t1), 1 - math.exp(-t / t2)
    return full(1, {"X": relax / 4, "Y": relax / 4, "Z": deph / 2 - relax / 4})


def same(d1, d2):
    for k in set(d1) | set(d2):
        a, b = d1.get(k, 0), d2.get(k, 0)
        if abs(a - b) > (TOL if set(k) == {"I"} else ATOL + RTOL * max(a, b)):
            return False
    return True


def quotient(d, basis):
    """What a channel does to an eigenstate of ``basis`` (or its measurement)."""
    p = sum(v for k, v in d.items() if k not in ("I", basis))
    return {"I": 1.0 - p, "flip": p}


def instr_channels(instr):
    """Yields (indices, distribution) of a noise instruction."""
    name, args = instr.name, instr.gate_args_copy()
    targets = [t.value for t in instr.targets_copy()]
    if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        for t in targets:
            yield (t,), flip(name[0], args[0])
    elif name == "DEPOLARIZE1":
        for t in targets:
            yield (t,), depol(1, args[0])
    elif name == "PAULI_CHANNEL_1":
        for t in targets:
            yield (t,), full(1, dict(zip("XYZ", args)))
    elif name == "DEPOLARIZE2":
        for a, b in zip(targets[::2], targets[1::2]):
            yield (a, b), depol(2, args[0])
    elif name == "PAULI_CHANNEL_2":
        ops = ["".join(o) for o in itertools.product(PAULIS, repeat=2)][1:]
        for a, b in zip(targets[::2], targets[1::2]):
            yield (a, b), full(2, dict(zip(ops, args)))
    elif name in ("E", "CORRELATED_ERROR"):
        ps = [(t.value, t.pauli_type) for t in instr.targets_copy()]
        yield tuple(p[0] for p in ps), full(len(ps), {"".join(p[1] for p in ps): args[0]})
    else:
        raise AssertionError(f"channel {name} is not declared by any model")


class Decomposed:
    """A call's circuit as channel-operation-channel on each group of qubits."""

    def __init__(self, circ, groups, opname):
        self.before = {g: ident(len(g)) for g in groups}
        self.after = {g: ident(len(g)) for g in groups}
        self.done = []  # groups in the order in which they were operated
        self.arg = {}
        self.idled = []
        of = {i: g for g in groups for i in g}
        self.problem = ""
        for instr in circ.flattened():
            name = instr.name
            if name in NOISE:
                for inds, dist in instr_channels(instr):
                    gs = {of.get(i) for i in inds}
                    if len(gs) != 1 or None in gs:
                        if abs(dist["I" * len(inds)] - 1) < ATOL:
                            continue
                        self.problem = f"{name} on {inds} that is not one of {groups}"
                        return
                    g = gs.pop()
                    emb = {}
                    for k, v in dist.items():
                        lab = ["I"] * len(g)
                        for i, p in zip(inds, k):
                            lab[g.index(i)] = p
                        emb["".join(lab)] = emb.get("".join(lab), 0) + v
                    side = self.after if g in self.done else self.before
                    side[g] = convolve(side[g], emb)
            elif name == "I":
                self.idled += [t.value for t in instr.targets_copy()]
            elif name == opname:
                ts = [t.value for t in instr.targets_copy()]
                if any(t.is_inverted_result_target for t in instr.targets_copy()):
                    self.problem = "inverted result"
                    return
                n = len(groups[0]) if groups else 1
                for k in range(0, len(ts), n):
                    g = tuple(ts[k : k + n])
                    if g not in self.before:
                        self.problem = f"{name} on {g}, requested {groups}"
                        return
                    if g in self.done:
                        self.problem = f"{name} on {g} more than once"
                        return
                    self.done.append(g)
                    args = instr.gate_args_copy()
                    self.arg[g] = args[0] if args else 0.0
            else:
                self.problem = f"unexpected operation {name} (only {opname})"
                return


# ---------------------------------------------------------------- declarations
def declared(kind, ref, what, name, labels):
    """(before, after, assignment error) that the model declares; the flips of
    measurements and resets are reduced to whether they flip the eigenstate."""
    n = len(labels)
    none = ident(n)
    val = lambda p: ref.value(p, *labels)
    assign = 0.0
    noisy_meas = kind not in ("noiseless", "incoming")
    if what == "meas" and noisy_meas and val("assign_error_flag"):
        assign = val("assign_error_prob")
    if kind in ("noiseless", "incoming"):
        return none, none, 0.0
    if kind.startswith("decoherence"):
        dur = ref.gates[DURATION.get(name, name)]
        out = []
        for t in ([dur / 2, dur / 2] if kind == "decoherence" else [0, dur]):
            d = none
            for pos, lab in enumerate(labels):
                one = decay(t, ref.value("T1", lab), ref.value("T2", lab))
                emb = {"I" * pos + k + "I" * (n - pos - 1): v for k, v in one.items()}
                d = convolve(d, emb)
            out.append(d)
        return out[0], out[1], assign
    if what == "meas":
        return flip("X", val("meas_error_prob")), none, assign  # X: any flip
    if kind == "phenom":
        return none, none, 0.0
    if what == "reset":
        return none, flip("X", val("reset_error_prob")), 0.0
    key = {"X": "x", "Z": "z", "H": "h", "S": "s", "S_DAG": "sdag", "CZ": "cz",
           "CX": "cnot", "SWAP": "swap"}[name]  # fmt: skip
    p = val(f"{key}_error_prob")
    if kind == "biased":
        return none, biased(n, p, val("biased_pauli"), val("biased_factor")), 0.0
    return none, depol(n, p), 0.0


def rich_setup(rng, names):
    pairs = [(a, b) for a in names for b in names if a != b]
    s = gen.setup_dict(rng, names, pairs, scale=rng.choice([0.001, 0.05, 0.3]))
    s["setup"][0]["biased_pauli"] = rng.choice("XYZ")
    for entry in s["setup"][1:]:
        if rng.random() < 0.4:
            entry["biased_pauli"] = rng.choice("XYZ")
        if rng.random() < 0.2:
            entry["biased_factor"] = 0
    for entry in s["setup"]:
        for p in entry:
            if p.endswith("_prob") and rng.random() < 0.08:
                entry[p] = rng.choice(EXTREME + [1, 1.0] * p.startswith(("meas", "assign", "reset")))
    if rng.random() < 0.3:
        s["setup"][0]["meas_error_prob"] = 0
    rng.shuffle(s["setup"])
    return s


def run(case, mon):
    rng = random.Random(case["seed"])
    kind = case["model"]
    names = [f"{rng.choice('DXZq')}{k}" for k in range(case["nq"])]
    rng.shuffle(names)
    inds = dict(zip(names, rng.sample(range(60), len(names))))
    label = {i: q for q, i in inds.items()}
    if kind == "uniform":
        from surface_sim.setup import CircuitNoiseSetup

        setup = CircuitNoiseSetup()
        ref = RefSetup(dict(setup=[{f"{k}_error_prob": "prob" for k in
                       ("sq", "tq", "meas", "reset", "idle", "assign")}
                       | dict(assign_error_flag=True)]))  # fmt: skip
        setup.set_var_param("prob", 0.0123)
        ref.set_var("prob", 0.0123)
        model = gen.make_model("circuit", setup, dict(inds))
        kind = "circuit"
    else:
        sdict = rich_setup(rng, names)
        ref = RefSetup(sdict)
        setup = gen.make_setup(sdict)
        for p in ref.unset():
            ref.set_var(p, gen.var_value(p))
        model = gen.make_model(kind, setup, dict(inds))
    ops = list(GATES1) + list(GATES2) + list(RESETS) + list(MEASS)
    if kind == "experimental":
        ops = [o for o in ops if o not in ("s_gate", "s_dag_gate")]
    ops += ["idle", "idle", "incoming_noise", "tick", "coords"]
    for _ in range(case["steps"]):
        if rng.random() < 0.35:
            change(rng, mon, setup, ref, names)
        op = rng.choice(ops)
        check_call(mon, rng, kind, model, ref, op, names, inds, label)


def change(rng, mon, setup, ref, names):
    """Parameters assigned after the model was created must be used."""
    mon.see("parameter changed between calls")
    if rng.random() < 0.3 and ref.vars:
        name, val = rng.choice(sorted(ref.vars)), round(rng.uniform(0, 0.1), 6)
        if name in ("X", "Y", "Z"):
            val = rng.choice("XYZ")
        setup.set_var_param(name, val)
        ref.set_var(name, val)
        return
    n = rng.choice([0, 1, 1, 2])
    scope = rng.sample(names, min(n, len(names)))
    params = gen.SQ + ["sq"] if n < 2 else gen.TQ + ["tq"]
    param = rng.choice(params) + "_error_prob"
    val = rng.choice([0, 0.0, round(rng.uniform(0, 0.1), 6), rng.choice(EXTREME)])
    setup.set_param(param, val, *scope)
    ref.set_param(param, val, *scope)


def check_call(mon, rng, kind, model, ref, op, names, inds, label):
    if op == "tick":
        c = model.tick()
        mon.equal("nothing else emitted", [i.name for i in c], ["TICK"], "tick")
        return
    if op == "coords":
        qs = rng.sample(names, rng.randint(1, len(names)))
        want = {q: [round(rng.uniform(-5, 5), 3) for _ in range(rng.choice([1, 2, 3]))] for q in qs}
        c = model.qubit_coords({q: list(v) for q, v in want.items()})
        got = {}
        for i in c.flattened():
            mon.equal("nothing else emitted", i.name, "QUBIT_COORDS", "qubit_coords")
            for t in i.targets_copy():
                got[label[t.value]] = i.gate_args_copy()
        mon.equal("nothing else emitted", got, want, "coordinates of the qubits")
        return
    two = op in GATES2
    if two:
        npair = rng.randint(1, len(names) // 2)
        qs = rng.sample(names, 2 * npair)
        labels = [tuple(qs[k : k + 2]) for k in range(0, len(qs), 2)]
    else:
        qs = rng.sample(names, rng.randint(1, len(names)))
        labels = [(q,) for q in qs]
    form = rng.choice([list, tuple]) if two else rng.choice([list, tuple, set, dict.fromkeys])
    arg = form(qs)
    ordered = not isinstance(arg, set)
    groups = [tuple(inds[q] for q in l) for l in labels]
    func = getattr(model, op)
    t = None
    if op == "idle" and (kind.startswith("deco") or kind == "experimental"):
        t = round(rng.uniform(0.01, 5), 4)
        circ = func(arg, t)
    else:
        circ = func(arg)
    where = f"{kind}.{op}({qs}{'' if t is None else f', {t}'})"

    if op in ("idle", "incoming_noise"):
        dec = Decomposed(circ, groups, "I?")
        mon.check("nothing else emitted", not dec.problem, f"{where}: {dec.problem}")
        mon.check("nothing else emitted",
                  not dec.idled or (op == "idle" and sorted(dec.idled) == sorted(inds[q] for q in qs)),
                  f"{where}: identity on {dec.idled}")  # fmt: skip
        for l, g in zip(labels, groups):
            want = ident(1)
            if op == "incoming_noise":
                if kind in ("incoming", "phenom"):
                    p = ref.value("idle_error_prob", *l)
                    want = convolve(flip("X", p), flip("Z", p))
            elif t is not None:
                want = decay(t, ref.value("T1", *l), ref.value("T2", *l))
            elif kind == "circuit":
                want = depol(1, ref.value("idle_error_prob", *l))
            elif kind == "biased":
                want = biased(1, ref.value("idle_error_prob", *l),
                              ref.value("biased_pauli", *l), ref.value("biased_factor", *l))  # fmt: skip
            compare(mon, where, l, "idling", dec.before[g], want)
        return

    if op in GATES1:
        what, name, basis = "gate", GATES1[op][0], None
    elif two:
        what, name, basis = "gate", GATES2[op][0], None
    elif op in RESETS:
        what, (name, basis) = "reset", RESETS[op]
    else:
        what, (name, basis) = "meas", MEASS[op]
    dec = Decomposed(circ, groups, name)
    mon.check("nothing else emitted", not dec.problem, f"{where}: {dec.problem}")
    mon.check("nothing else emitted", not dec.idled, f"{where}: identities")
    if what == "meas" and ordered:
        mon.equal("ideal operation on the requested qubits", dec.done, groups, f"{where}: measured")
    mon.equal("ideal operation on the requested qubits", sorted(dec.done), sorted(groups),
              f"{where}: operated")  # fmt: skip
    for l, g in zip(labels, groups):
        before, after, assign = declared(kind, ref, what, name, l)
        b, a = dec.before[g], dec.after[g]
        if what == "reset":
            a, after = quotient(a, basis), quot_ref(kind, after, basis)
        if what == "meas":
            b, before = quotient(b, basis), quot_ref(kind, before, basis)
        compare(mon, where, l, "before", b, before)
        compare(mon, where, l, "after", a, after)
        if what == "meas":
            mon.check("assignment error as declared", abs(dec.arg[g] - assign) <= ATOL + RTOL * assign,
                      f"{where}: assignment error of {l} is {dec.arg[g]}, declared {assign}")  # fmt: skip
        else:
            mon.check("assignment error as declared", dec.arg[g] == 0, f"{where}: argument")


def quot_ref(kind, dist, basis):
    if kind.startswith("deco"):
        return quotient(dist, basis)
    return {"I": dist["I"], "flip": dist.get("X", 0.0)}


def compare(mon, where, labels, side, got, want):
    mon.check("channel as declared", same(got, want),
              lambda: f"{where}: channel {side} on {labels}: "
              f"{ {k: v for k, v in got.items() if v} } declared "
              f"{ {k: v for k, v in want.items() if v} }")  # fmt: skip
    if len([v for v in want.values() if v > TOL]) > 1:
        mon.sig(where.split("(")[0], side, sorted((k, round(v, 9)) for k, v in want.items()))
