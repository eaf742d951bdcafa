"""Runner of the checks: workload scheduling, monitors' verdicts, evidence.

A check module (``checks/<id>.py``) defines

- ``PROPERTY``: id of the property,
- ``RULE``: how the cases are made and what makes one non-trivial,
- ``ASSUMPTIONS``: list of str,
- ``MIN_EVENTS``: dict monitor-event name -> minimum number of observations;
  a run that observed fewer is *inconclusive* (exit 3), never a pass,
- ``cases(tier, rng)``: list of JSON-serialisable cases,
- ``run(case, mon)``: drives the real code on the case; ``mon`` is the monitor
  on which the oracles report what they have seen or a violation.
"""

import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_REPLAYS = 5


class Violation(Exception):
    """The observed execution violates the property."""


class CaseTimeout(BaseException):
    pass


class Monitor:
    """Collects what the oracles have observed in a case."""

    def __init__(self):
        self.events = Counter()
        self.sigs = set()
        self.known = []

    def see(self, event, n=1):
        self.events[event] += n

    def sig(self, *key):
        """Signature of a distinct non-trivial behaviour that was observed."""
        self.sigs.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def check(self, event, cond, msg):
        self.events[event] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, event, got, want, what):
        self.events[event] += 1
        if got != want:
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def raises(self, event, func, excs, what):
        """``func`` must reject its input with one of the exceptions ``excs``."""
        self.events[event] += 1
        try:
            out = func()
        except excs:
            return
        except Exception as e:  # pylint: disable=broad-except
            raise Violation(f"{what}: raised {e!r} instead of {excs}") from e
        raise Violation(f"{what}: was accepted and returned {short(out)}")

    def known_finding(self, key, msg):
        self.known.append((key, msg))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def _load(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module(f"checks.{pid.lower()}")


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(pid, case, limit):
    """Runs one case and returns (status, payload, events, sigs, known)."""
    module = _load(pid)
    mon = Monitor()
    # the time of this process counts, so that a busy machine does not look like an
    # endless loop; waiting for another one is limited too
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 2 * limit)
    t0 = time.time()
    try:
        module.run(case, mon)
        status, msg = "ok", ""
    except Violation as e:
        status, msg = "violation", str(e)
    except CaseTimeout:
        status, msg = "violation", f"did not terminate within {limit:.0f} s"
    except MemoryError:
        status, msg = "error", "out of memory"
    except Exception as e:  # pylint: disable=broad-except
        # an exception of the code under test on a valid input breaks the property, and
        # so does a result that has not the form in which it can be read; what the
        # system causes (imports, files) is an error of the check.
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(os.path.realpath(f.filename).startswith(REPO + "/") for f in tb)
        system = isinstance(e, (ImportError, OSError))
        status = "violation" if in_repo or not system else "error"
        # a call that the code under test refuses because of the call itself
        msg = f"unexpected {e!r} at " + " <- ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:])
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return status, msg, dict(mon.events), mon.sigs, mon.known, time.time() - t0


def calls_of_code():
    """What the hook in the code under test has counted: function -> calls."""
    try:
        return importlib.import_module("surface_sim._monitor").CALLS
    except (ImportError, AttributeError):
        return {}


def _worker(args):
    pid, idx, case, limit = args
    calls = calls_of_code()
    calls.clear()
    out = run_case(pid, case, limit)
    return (idx, *out, dict(calls))


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    known = {}
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("#"):
                entry = json.loads(line)
                if entry.get("status") == "known":
                    known[(entry["property"], entry["key"])] = entry
    return known


def main(pid, tier=None, replay=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    module = _load(pid)

    if replay is not None:
        with open(replay) as f:
            data = json.load(f)
        status, msg, events, _, _, _ = run_case(pid, data["case"], 600)
        print(f"replay: {status} {msg}")
        if status == "violation":
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0 if status == "ok" else 3

    rng = random.Random(f"{pid}-{seed}-{tier}")
    cases = module.cases(tier, rng)
    # (development only: judge many planted bugs with a part of the cases)
    cases = cases[:: int(os.environ.get("VERIF_STRIDE", "1"))]
    # what is cheap and broad runs first, in an order that depends on the seed
    limit = getattr(module, "CASE_LIMIT", 150 if tier == "quick" else 600)
    deadline = t0 + (540 if tier == "quick" else 3600)
    # the time that is left goes into further random cases
    extra = float(os.environ.get("VERIF_EXTRA", "45" if tier == "quick" else "0"))
    if "VERIF_STRIDE" in os.environ:
        extra = 0
    nbase = len(cases)
    nproc = min(int(os.environ.get("VERIF_PROCS", "8")), max(1, len(cases)))

    events, sigs, known, entered = Counter(), set(), {}, Counter()
    violations, errors, ran, slow = [], [], 0, []
    ctx = mp.get_context("fork")
    skipped = 0
    with ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as pool:
        # submit in slices so that the deadline can be honoured
        def stream():
            yield from enumerate(list(cases))
            for k in itertools.count():
                more_rng = random.Random(f"{pid}-{seed}-{tier}-{k}")
                more = module.cases(tier, more_rng)
                more_rng.shuffle(more)
                for case in more:
                    if time.time() > t0 + extra or violations:
                        return
                    cases.append(case)
                    yield len(cases) - 1, case

        pending, it = set(), stream()
        futures = {}

        def submit(n):
            nonlocal skipped
            for _ in range(n):
                try:
                    idx, case = next(it)
                except StopIteration:
                    return
                if time.time() > deadline:
                    skipped += 1
                    continue
                fut = pool.submit(_worker, (pid, idx, case, limit))
                futures[fut] = idx
                pending.add(fut)

        try:
            submit(4 * nproc)
            while pending:
                fut = next(as_completed(pending))
                pending.discard(fut)
                idx, status, msg, ev, sg, kn, dt, calls = fut.result()
                futures.pop(fut)
                ran += 1
                events.update(ev)
                entered.update(calls)
                sigs |= sg
                slow.append((dt, idx))
                for key, what in kn:
                    known.setdefault(key, (what, idx))
                if status == "violation":
                    violations.append((idx, msg))
                    if os.environ.get("VERIF_FAILFAST"):
                        it = iter(())
                        for other in pending:
                            other.cancel()
                        break
                elif status == "error":
                    errors.append((idx, msg))
                submit(1)
        except BrokenProcessPool as e:
            errors.append((-1, f"a worker died: {e}"))

    # known findings are listed in a committed file and keyed by mechanism
    listed = load_known()
    for key, (what, idx) in sorted(known.items()):
        if (pid, key) in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[(pid, key)]['what']}")
        else:
            violations.append((idx, f"{key}: {what}"))

    missing = {
        k: (events.get(k, 0), n)
        for k, n in module.MIN_EVENTS.items()
        if events.get(k, 0) < n
    }

    violations.sort()
    replays = []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for idx, msg in violations[:MAX_REPLAYS]:
        path = os.path.join(VERIF, "replays", f"{pid}-{tier}-{seed}-{idx}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, message=msg, case=cases[idx]), f, indent=1)
        replays.append((path, msg))

    wall = time.time() - t0
    samples = [cases[i] for i in sorted(set([0, len(cases) // 2, len(cases) - 1]))]
    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=ran,
            distinct_nontrivial=len(sigs),
            rule=module.RULE,
            samples=json.loads(json.dumps(samples))[:3],
            monitor_events={k: int(v) for k, v in sorted(events.items())},
            min_events_required=module.MIN_EVENTS,
            cases_generated=len(cases),
            cases_of_the_extra_time=len(cases) - nbase,
            cases_skipped_by_deadline=skipped,
            slowest_case_s=round(max(slow)[0], 2) if slow else 0,
            known_findings_seen=sorted(known),
            functions_entered={k: int(v) for k, v in sorted(entered.items())},
        ),
        assumptions=module.ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(
        f"{pid} {tier} seed={seed}: {ran}/{len(cases)} cases, {len(sigs)} distinct, "
        f"{sum(events.values())} monitor events, {wall:.1f} s"
    )
    for path, msg in replays:
        print(f"  violation: {msg}")
    if violations:
        print(f"VIOLATION property={pid} replay={replays[0][0]}")
        return 1
    for idx, msg in errors[:5]:
        print(f"ERROR case {idx}: {msg}")
    if errors:
        return 3
    if missing:
        print(f"INCONCLUSIVE: monitors observed too little: {missing}")
        return 3
    return 0
