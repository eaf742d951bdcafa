"""C16: selecting detectors never changes the ones that are selected.

Metamorphic: the complete experiment (all ancillas, gauge detectors on) is built once
and executed without noise to see which of its detectors are random; then it is built
again with other selections of ancillas (lists in any order, tuples, sets) and with the
gauge detectors off.  Place by place, selected detectors must be those of the complete
experiment, the others empty, and everything else must be equal.
"""

import random

import numpy as np

from vlib import gen
from vlib.canon import Canon, sample_parities
from vlib.program import Program, program_spec

PROPERTY = "C16"
RULE = (
    "a case is an experiment of any kind or a program of blocks, built completely and with "
    "several selections; non-trivial if a selection is neither empty nor complete; distinct by "
    "the selected and gauge detectors"
)
ASSUMPTIONS = [
    "gauge detectors are those whose value is random in an execution without noise "
    "(48 executions with different random outcomes)",
]
MIN_EVENTS = {
    "selected": 5000,
    "unselected": 3000,
    "gauge_emptied": 300,
    "not_gauge_kept": 3000,
    "rest_equal": 300,
    "program_selected": 800,
    "program_unselected": 500,
}


def cases(tier, rng):
    out = []
    n = 110 if tier == "quick" else 1800
    for k in range(n):
        spec = gen.experiment_spec(rng, cell=k)
        out.append(dict(what="exp", spec=spec, seed=rng.randint(0, 10**9)))
    for _ in range(n // 2):
        out.append(dict(what="prog", spec=program_spec(rng), seed=rng.randint(0, 10**9)))
    return out


def rest(canon):
    return (canon.ops(), [r[:2] for r in canon.records], canon.obs(), canon.coords)


def selections(rng, layouts):
    anc = [a for l in layouts for a in l.get_qubits(role="anc")]
    yield []
    yield list(anc)
    for typ in ("x_type", "z_type"):
        yield [a for l in layouts for a in l.get_qubits(role="anc", stab_type=typ)]
    for _ in range(3):
        sub = [a for a in anc if rng.random() < rng.choice([0.2, 0.5, 0.8])]
        rng.shuffle(sub)
        yield rng.choice([list, tuple, set])(sub)
    yield [rng.choice(anc)]


def run(case, mon):
    if case["what"] == "prog":
        return run_prog(case, mon)
    rng = random.Random(case["seed"])
    spec = dict(case["spec"], coords=True)
    built = gen.Built(spec, anc_detectors=None)
    place = {tuple(map(float, c)): a for a, c in gen.ancs_of(*built.layouts).items()}
    circ = built.circuit(anc_detectors=None, gauge=True)
    full = Canon(circ)
    owner = [place[d[0][:2]] for d in full.detectors]
    _, dets, _ = sample_parities(circ, shots=48, seed=case["seed"] % 1000)
    is_random = [len(set(row.tolist())) > 1 for row in dets]
    # without coordinates, the detectors are the same and in the same order
    bare = gen.Built(dict(spec, coords=False), anc_detectors=None)

    for sel in [None, *selections(rng, built.layouts)]:
        for gauge in (True, False):
            chosen = set(place.values()) if sel is None else set(sel)
            nocoords = rng.random() < 0.2
            obj = bare if nocoords else built
            got = Canon(obj.circuit(anc_detectors=sel, gauge=gauge))
            mon.check("rest_equal", rest(got) == rest(full), "operations, records or observables")
            mon.equal("count", len(got.detectors), len(full.detectors), "number of detectors")
            pairs = zip(got.detectors, full.detectors, owner, is_random)
            for i, ((c1, r1), (c2, r2), anc, rnd) in enumerate(pairs):
                want_c = c2[2:] if nocoords else c2
                mon.check("place", c1 == want_c, lambda: f"detector {i}: {c1}, complete {c2}")
                if anc not in chosen:
                    mon.check("unselected", not r1, lambda: f"unselected detector {i} is {r1}")
                elif gauge:
                    mon.check("selected", r1 == r2, lambda: f"detector {i}: {r1}, complete {r2}")
                elif rnd:
                    mon.check("gauge_emptied", not r1, lambda: f"gauge detector {i} is {r1}")
                else:
                    mon.check(
                        "not_gauge_kept", r1 == r2, lambda: f"detector {i}: {r1}, complete {r2}"
                    )
            if 0 < len(chosen) < len(place):
                mon.sig(spec["kind"], spec["family"], spec["frame"], gauge, got.det_multiset())


def run_prog(case, mon):
    spec = dict(case["spec"], coords=True)
    prog = Program(spec)
    place = {tuple(map(float, c)): a for a, c in gen.ancs_of(*prog.layouts).items()}

    def build(select):
        """Program in which step ``k`` has the detectors of ``select(k)``."""
        old = gen.anc_subset
        calls = [0]
        chosen = []

        def fake(_, layouts):
            anc = [a for l in layouts for a in l.get_qubits(role="anc")]
            sub = select(calls[0], anc)
            calls[0] += 1
            chosen.append((set(anc), set(anc) if sub is None else set(sub)))
            return sub

        gen.anc_subset = fake
        try:
            prog.model.new_circuit()
            prog.det.new_circuit()
            parts, out = [], None
            for op in spec["ops"]:
                n = len(chosen)
                c = prog.step(op)
                c += prog.model.tick()
                out = c if out is None else out + c
                nd = c.num_detectors
                parts += [chosen[-1] if len(chosen) > n else None] * nd
            return Canon(out), parts
        finally:
            gen.anc_subset = old

    full, _ = build(lambda k, anc: None)
    rng = random.Random(case["seed"])
    for _ in range(3):
        seed = rng.random()

        def select(k, anc, seed=seed):
            r = random.Random(f"{seed}-{k}")
            if r.random() < 0.2:
                return None
            sub = [a for a in anc if r.random() < 0.5]
            r.shuffle(sub)
            return sub

        got, parts = build(select)
        mon.check("rest_equal", rest(got) == rest(full), "operations, records or observables")
        mon.equal("count", len(got.detectors), len(full.detectors), "number of detectors")
        for i, ((c1, r1), (c2, r2), part) in enumerate(zip(got.detectors, full.detectors, parts)):
            mon.check("place", c1 == c2, lambda: f"detector {i}: {c1}, complete {c2}")
            anc = place[c1[:2]]
            if anc in part[1]:
                mon.check("program_selected", r1 == r2, lambda: f"detector {i}: {r1}, full {r2}")
            else:
                mon.check("program_unselected", not r1, lambda: f"unselected {i} is {r1}")
        mon.sig("prog", spec["family"], got.det_multiset())
