"""C08: setup parameters resolve by one consistent rule through any history.

Random setups and histories of assignments, saves and loads are applied both to the
real ``Setup`` and to a reference model (``vlib/refsetup.py``: a list of facts that is
searched). After each step the monitor reads parameters of random scopes from both.
"""

import copy
import glob
import os
import pathlib
import random
import tempfile

import yaml

from surface_sim import Setup
from surface_sim.setup import CircuitNoiseSetup

from vlib import gen
from vlib.core import REPO
from vlib.refsetup import GENERAL, RefSetup, Undefined, Unset

PROPERTY = "C08"
RULE = (
    "A case is a random setup dictionary (global entries, several of them; entries of "
    "qubits and ordered pairs; parents; free parameters, some named like parameters) "
    "and a seeded history of set_param, set_var_param, save/load (dict and YAML), "
    "mutation of inputs and exports. Non-trivial: a parameter read whose value is "
    "defined in at least two places."
)
ASSUMPTIONS = [
    "strings in a setup are names of free parameters (docs/creating_a_Setup_object.md)",
    "a qubit-specific definition of the very parameter is more specific than any global "
    "one, and any definition of it is more specific than those of its general parameter",
]
MIN_EVENTS = {
    "value resolved": 30000,
    "undefined parameter refused": 1000,
    "unset free parameter refused": 1000,
    "free parameters reported": 4000,
    "reloaded": 600,
    "mutated an input or an export": 1200,
    "gate duration": 4000,
}
NAMES = ["D1", "D2", "X1", "Z1", "Z2"]
OWN = ["T1", "T2", "assign_error_prob", "assign_error_flag", "custom", "biased_factor"]
PARAMS = sorted(GENERAL) + ["sq_error_prob", "tq_error_prob"] + OWN
VARS = ["prob", "p2", "free", "sq_error_prob", "h_error_prob", "T1"]


def cases(tier, rng):
    n = 900 if tier == "quick" else 6000
    out = [dict(what="history", seed=rng.randint(0, 10**9), steps=rng.randint(5, 25)) for _ in range(n)]
    out += [dict(what="file", path=p, seed=rng.randint(0, 10**9))
            for p in sorted(glob.glob(REPO + "/docs/setup_examples/*.yaml"))]  # fmt: skip
    out += [dict(what="circuit_noise", seed=rng.randint(0, 10**9)) for _ in range(4)]
    return out


def value(rng, free=0.25):
    r = rng.random()
    if r < free:
        return rng.choice(VARS)
    if r < free + 0.1:
        return rng.choice([True, False])
    if r < free + 0.25:
        return rng.choice([0, 0.0, 1, 5])
    return round(rng.random(), 6)


def random_dict(rng):
    entries = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        entries.append({p: value(rng) for p in rng.sample(PARAMS, rng.randint(1, 6))})
    for q in NAMES:
        if rng.random() < 0.4:
            entries.append({"qubit": q, **{p: value(rng) for p in rng.sample(PARAMS, rng.randint(0, 4))}})
    if rng.random() < 0.3:
        entries.append({"qubit": 7, **{p: value(rng) for p in rng.sample(PARAMS, 2)}})
    for a in NAMES:
        for b in NAMES:
            if a != b and rng.random() < 0.1:
                entries.append({"qubits": [a, b], **{p: value(rng) for p in rng.sample(PARAMS, rng.randint(0, 4))}})
    if not entries:
        entries.append({"T1": 3.5})
    rng.shuffle(entries)
    # entries have their keys in any position
    entries = [dict(rng.sample(list(e.items()), len(e))) for e in entries]
    out = dict(setup=entries)
    if rng.random() < 0.7:
        out["gate_durations"] = {g: round(rng.random(), 4) for g in rng.sample(["X", "H", "CZ", "M", "R"], 3)}
    if rng.random() < 0.5:
        out["name"] = "n"
    if rng.random() < 0.5:
        out["description"] = "some words"
    return out


def scopes(rng):
    qs = rng.sample(NAMES, 2)
    return [(), (qs[0],), tuple(qs), (qs[1], qs[0]), ("7",), ("unknown",)]


def same(a, b):
    return type(a) is type(b) and a == b


def compare(mon, setup, ref, rng, n=12):
    mon.equal("free parameters reported", sorted(setup.free_params), ref.unset(),
              "unset free parameters")  # fmt: skip
    for _ in range(n):
        p, q = rng.choice(PARAMS + ["nonexistent"]), rng.choice(scopes(rng))
        try:
            want = ref.value(p, *q)
        except Undefined:
            mon.raises("undefined parameter refused", lambda: setup.param(p, *q), (KeyError,),
                       f"{p} of {q}")  # fmt: skip
            continue
        except Unset:
            mon.raises("unset free parameter refused", lambda: setup.param(p, *q), (ValueError,),
                       f"{p} of {q}")  # fmt: skip
            continue
        got = setup.param(p, *q)
        mon.check("value resolved", same(got, want), lambda: f"{p} of {q} is {got!r}, defined as {want!r}")
        places = {(s, k) for s, k, _ in ref.facts if k in (p, GENERAL.get(p)) and s in (None, q or None)}
        if len(places) > 1:
            mon.sig(p, q, repr(want), sorted(map(repr, places)))
    for v in VARS:
        if v in ref.vars and ref.vars[v] is not None:
            mon.check("value resolved", same(setup.var_param(v), ref.vars[v]),
                      lambda: f"free parameter {v} is {setup.var_param(v)!r}, set {ref.vars[v]!r}")  # fmt: skip
        elif v not in GENERAL:
            mon.raises("unset free parameter refused", lambda: setup.var_param(v), (ValueError, KeyError), v)
    for g in ("X", "H", "CZ", "M", "R"):
        if g in ref.gates:
            mon.equal("gate duration", setup.gate_duration(g), ref.gates[g], g)
        else:
            mon.raises("gate duration", lambda: setup.gate_duration(g), (ValueError, KeyError), g)


def garble(rng, obj):
    """Modifies all it can reach of an input or export."""
    if isinstance(obj, dict):
        for k in list(obj):
            if isinstance(obj[k], (dict, list)):
                garble(rng, obj[k])
            else:
                obj[k] = "garbled"
        obj["garbage"] = 0.5
    elif isinstance(obj, list):
        for o in obj:
            garble(rng, o)
        obj.append({"qubit": "garbage"})


def run(case, mon):
    rng = random.Random(case["seed"])
    with tempfile.TemporaryDirectory() as tmp:
        if case["what"] == "history":
            sdict = random_dict(rng)
            setup, ref = load(mon, rng, sdict, tmp)
            history(mon, rng, setup, ref, tmp, case["steps"])
        elif case["what"] == "file":
            with open(case["path"]) as f:
                sdict = yaml.safe_load(f)
            setup, ref = Setup.from_yaml(case["path"]), RefSetup(sdict)
            compare(mon, setup, ref, rng, 60)
            history(mon, rng, setup, ref, tmp, 10)
        else:
            setup = CircuitNoiseSetup()
            ref = RefSetup(dict(setup=[{f"{k}_error_prob": "prob" for k in
                           ("sq", "tq", "meas", "reset", "idle", "assign")}
                           | dict(assign_error_flag=True)]))  # fmt: skip
            compare(mon, setup, ref, rng, 60)
            # instances are not linked to each other
            other = CircuitNoiseSetup()
            other.set_var_param("prob", 0.9)
            other.set_param("T1", 3.0, "D1")
            compare(mon, setup, ref, rng, 60)
            history(mon, rng, setup, ref, tmp, 15)


def load(mon, rng, sdict, tmp):
    """Loads through one of the constructors; the input is not modified nor linked."""
    ref = RefSetup(copy.deepcopy(sdict))
    before = copy.deepcopy(sdict)
    if rng.random() < 0.5:
        path = os.path.join(tmp, "in.yaml")
        with open(path, "w") as f:
            yaml.dump(sdict, f, sort_keys=rng.random() < 0.5)
        setup = Setup.from_yaml(rng.choice([path, pathlib.Path(path)]))
    else:
        setup = Setup(sdict)
        mon.equal("mutated an input or an export", sdict, before, "input dictionary after loading")
        garble(rng, sdict)
    for key in ("name", "description"):
        mon.equal("value resolved", getattr(setup, key), before.get(key), key)
    compare(mon, setup, ref, rng)
    return setup, ref


def reload_ref(ref):
    """Assigned values of free parameters are not part of what is saved."""
    new = RefSetup(dict(setup=[]))
    new.facts = list(ref.facts)
    new.gates = dict(ref.gates)
    live = {}
    for s, p, v in ref.facts:
        live[(s, p)] = v
    new.vars = {v: None for v in live.values() if isinstance(v, str)}
    return new


def history(mon, rng, setup, ref, tmp, steps):
    for _ in range(steps):
        r = rng.random()
        if r < 0.4:
            scope = rng.choice(scopes(rng)[:5])
            p = rng.choice(PARAMS)
            v = value(rng, 0)
            known = sorted(ref.vars)
            if known and rng.random() < 0.15:
                v = rng.choice(known)
            setup.set_param(p, v, *scope)
            ref.set_param(p, v, *scope)
        elif r < 0.65:
            name, v = rng.choice(VARS), round(rng.random(), 6)
            if rng.random() < 0.1:
                v = rng.choice([0, True, "Z"])
            setup.set_var_param(name, v)
            ref.set_var(name, v)
        elif r < 0.75:
            mon.see("mutated an input or an export")
            garble(rng, setup.to_dict())
        elif r < 0.87:
            # a copy through a dictionary or a file resolves all identically
            mon.see("reloaded")
            exported = setup.to_dict()
            if rng.random() < 0.5:
                path = os.path.join(tmp, "out.yaml")
                setup.to_yaml(path)
                new = Setup.from_yaml(path)
            else:
                new = Setup(exported)
                mon.see("mutated an input or an export")
                garble(rng, exported)
            mon.equal("value resolved", (new.name, new.description), (setup.name, setup.description),
                      "name and description")  # fmt: skip
            newref = reload_ref(ref)
            compare(mon, new, newref, rng)
            for k, v in ref.vars.items():
                if v is not None:
                    new.set_var_param(k, v)
                    newref.set_var(k, v)
            compare(mon, new, newref, rng)
            if rng.random() < 0.5:
                # the copy is independent
                new.set_param("custom", 12345.0)
                new.set_param("T1", 12345.0, "D1")
            else:
                setup, ref = new, newref
        elif r < 0.93:
            mon.see("mutated an input or an export")
            twin = copy.deepcopy(setup)
            twin.set_param("T1", 4321.0, "D1")
            twin.set_param("sq_error_prob", 4321.0)
            twin.set_var_param("prob", 4321.0)
        compare(mon, setup, ref, rng)
