"""Run generated cases, shrink failures, and report the outcome.

A case is plain JSON data. Running a case either returns (telling whether the case
was non-trivial) or raises a Violation. Everything random happens while a case is
generated (see draw.py), so a run is determined by the code and VERIF_SEED.
"""

import collections
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import boot, draw

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAIN = os.path.join(VERIF, "vp", "main.py")
SHRINK_S = 25


class Violation(Exception):
    """The property does not hold for a case."""


class HarnessError(Exception):
    """The machinery itself failed."""


def fail(msg):
    raise Violation(msg)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.nontrivial = set()
        self.samples = []
        self.unreproducible = 0

    def count(self, label, n=1):
        self.labels[label] += n

    def evals(self, n=1):
        self.evaluations += n


class Scenario:
    """One family of cases.

    gen(source, tier) generates a case, or cases(tier) is an iterable enumerating the
    cases. run(case, stats) executes one case. split(case) lists the parts of an enumerated
    case that consists of several attempts. A scenario advances weight times as fast as
    others if time runs out.
    """

    def __init__(self, name, run, gen=None, cases=None, quick=0, thorough=0, own_evals=False, split=None, weight=1):
        self.name = name
        self.run = run
        self.gen = gen
        self.cases = cases
        self.n = {"quick": quick, "thorough": thorough}
        self.own_evals = own_evals
        self.split = split
        self.weight = weight


def load_check(cid):
    return importlib.import_module(f"vp.checks.{cid.lower()}")


def case_hash(case):
    return int.from_bytes(
        hashlib.blake2b(
            json.dumps(case, sort_keys=True).encode(), digest_size=8
        ).digest(),
        "big",
    )


def derive(*parts):
    return int.from_bytes(
        hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big"
    )


# -- scratch space ---------------------------------------------------------------

_scratch = None
_serial = 0


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="vp-", dir=base)


def fresh_dir():
    """A new empty directory inside the scratch directory of this process."""
    global _scratch, _serial
    if _scratch is None:
        _scratch = os.environ.get("VP_SCRATCH") or scratch_root()
        _scratch = os.path.join(_scratch, f"p{os.getpid()}")
        os.makedirs(_scratch, exist_ok=True)
    _serial += 1
    path = os.path.join(_scratch, f"c{_serial}")
    os.mkdir(path)
    return path


HOME = os.getcwd()


@contextlib.contextmanager
def case_dir():
    path = fresh_dir()
    try:
        yield path
    finally:
        os.chdir(HOME)
        shutil.rmtree(path, ignore_errors=True)


# -- running single cases ---------------------------------------------------------


def in_library(tb):
    return any(boot.is_lib_file(f.filename) for f in traceback.extract_tb(tb))


def about_library(e):
    """Whether an error without a frame of the library is about one of its objects.

    For instance, a class cannot be instantiated or an object lacks a method.
    """
    classes = boot.lib().cls
    if isinstance(e, AttributeError):
        obj = getattr(e, "obj", None)
        return (obj if isinstance(obj, type) else type(obj)) in classes.values()
    return isinstance(e, TypeError) and any(re.search(rf"\b{name}\b", str(e)) for name in classes)


def run_case(scenario, case, stats):
    """Run a case; exceptions escaping from the library are violations."""
    try:
        return bool(scenario.run(case, stats))
    except (Violation, HarnessError):
        raise
    except Exception as e:
        if in_library(e.__traceback__) or about_library(e):
            text = "".join(traceback.format_exception(e)[-8:])
            raise Violation(f"unexpected exception from the library:\n{text}") from e
        raise


def canonical(case):
    return json.loads(json.dumps(case))


class Runner:
    """Runs the scenarios of a check within one process."""

    def __init__(self, check, tier, seed, index, total, budget):
        self.check = check
        self.tier = tier
        self.seed = seed
        self.index = index
        self.total = total
        self.stats = Stats()
        self.failure = None  # (scenario name, list of cases, message)
        self.history = collections.deque(maxlen=40)
        self.start = time.monotonic()
        self.deadline = self.start + budget
        self.stopped = False

    def out_of_time(self):
        if time.monotonic() > self.deadline:
            self.stopped = True
        return self.stopped

    def test(self, scenario, case):
        """Run one case; True if it fails, also with a freshly imported library."""
        self.stats.count("scenario " + scenario.name)
        try:
            nontrivial = run_case(scenario, case, self.stats)
        except Violation:
            return self.confirm(scenario, case)
        self.history.append((scenario.name, case))
        if not scenario.own_evals:
            self.stats.evals()
        if nontrivial:
            h = case_hash(case)
            if h not in self.stats.nontrivial:
                self.stats.nontrivial.add(h)
                k = len(self.stats.nontrivial)
                if k in (3, 30, 200) and len(self.stats.samples) < 3:
                    self.stats.samples.append([scenario.name, case])
        return False

    def fails_alone(self, scenario, case):
        boot.reload()
        try:
            run_case(scenario, case, Stats())
        except Violation as v:
            return str(v)
        return None

    def confirm(self, scenario, case):
        message = self.fails_alone(scenario, case)
        if message is not None:
            self.failure = (scenario.name, [(scenario.name, case)], message)
            return True
        # Not reproducible by itself: it may depend on what happened before.
        cases = list(self.history) + [(scenario.name, case)]
        for tail in (5, len(cases)):
            boot.reload()
            try:
                replay_cases(self.check, cases[-tail:])
            except Violation as v:
                self.failure = (scenario.name, cases[-tail:], str(v))
                return True
        boot.reload()
        self.stats.unreproducible += 1
        return False

    def run(self):
        """All scenarios advance at the same rate, so that none of them starves if time runs out.

        The thorough tier has time for all enumerated cases and starts with them.
        """
        streams = []
        for scenario in self.check.SCENARIOS:
            if scenario.cases is not None:
                mine = list(itertools.islice(scenario.cases(self.tier), self.index, None, self.total))
                random.Random(f"{self.seed}-{self.index}-{scenario.name}").shuffle(mine)
                streams.append([scenario, len(mine), self.enumerated(scenario, mine)])
            else:
                mine = range(self.index, scenario.n[self.tier], self.total)
                streams.append([scenario, len(mine), self.generated(scenario, mine)])
        done = [0] * len(streams)
        left = [i for i, s in enumerate(streams) if s[1]]

        def progress(i):
            scenario, n, _ = streams[i]
            return (self.tier == "quick" or scenario.cases is None) and done[i] / n / scenario.weight

        while left and not self.out_of_time():
            i = min(left, key=progress)
            if next(streams[i][2]):
                break
            done[i] += 1
            if done[i] == streams[i][1]:
                left.remove(i)

    def enumerated(self, scenario, cases):
        for case in cases:
            case = canonical(case)
            failed = self.test(scenario, case)
            if failed:
                self.narrow(scenario, case)
            yield failed

    def narrow(self, scenario, case):
        """Look for a part of a failing case that fails by itself."""
        end = time.monotonic() + SHRINK_S
        parts = [canonical(c) for c in scenario.split(case)] if scenario.split else []
        while parts and time.monotonic() < end:
            part = parts.pop(0)
            message = self.fails_alone(scenario, part)
            if message is not None:
                self.failure = (scenario.name, [(scenario.name, part)], message)
                parts = [canonical(c) for c in scenario.split(part)]

    def generated(self, scenario, numbers):
        for i in numbers:
            source = draw.Source(derive(self.seed, scenario.name, i))
            case = canonical(scenario.gen(source, self.tier))
            failed = self.test(scenario, case)
            if failed and len(self.failure[1]) == 1:
                self.shrink(scenario, source)
            yield failed

    def shrink(self, scenario, source):
        def fails(choices):
            s = draw.Source(choices=choices)
            case = canonical(scenario.gen(s, self.tier))
            message = self.fails_alone(scenario, case)
            if message is None:
                return None
            self.failure = (scenario.name, [(scenario.name, case)], message)
            return s.made, s.spans

        best = draw.shrink(source.made, source.spans, fails, SHRINK_S)
        fails(best)


def replay_cases(check, cases):
    """Run the cases in order; a Violation of the last one escapes."""
    by_name = {s.name: s for s in check.SCENARIOS}
    for i, (name, case) in enumerate(cases):
        try:
            if name == "probe":
                check.PROBES[case]()
            else:
                run_case(by_name[name], case, Stats())
        except Violation:
            if i == len(cases) - 1:
                raise


def quiet_warnings():
    warnings.simplefilter("ignore")


def worker_main(args):
    cid, tier, seed, index, total, budget, out = args
    quiet_warnings()
    result = {"error": None}
    check = None
    runner = None
    try:
        boot.lib()
        check = load_check(cid)
        if hasattr(check, "setup"):
            check.setup()
        runner = Runner(check, tier, int(seed), int(index), int(total), float(budget))
        runner.run()
    except Exception as e:
        if in_library(e.__traceback__) and runner is None:
            result["error"] = "import failed:\n" + traceback.format_exc()
        else:
            result["error"] = traceback.format_exc()
    if runner is not None:
        s = runner.stats
        result.update(
            evaluations=s.evaluations,
            labels=dict(s.labels),
            nontrivial=sorted(s.nontrivial),
            samples=s.samples,
            unreproducible=s.unreproducible,
            stopped=runner.stopped,
            failure=runner.failure,
        )
    with open(out + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(out + ".tmp", out)


def probe_main(cid, out):
    """Run the probes of known findings."""
    quiet_warnings()
    boot.lib()
    check = load_check(cid)
    if hasattr(check, "setup"):
        check.setup()
    found = []
    for pid, probe in getattr(check, "PROBES", {}).items():
        boot.reload()
        try:
            probe()
        except Violation as v:
            found.append([pid, str(v)])
        except Exception as e:
            if not in_library(e.__traceback__):
                raise
            found.append([pid, repr(e)])
    with open(out + ".tmp", "w") as f:
        json.dump(found, f)
    os.replace(out + ".tmp", out)


def replay_main(path):
    """Exit status 1 if the replay file shows a violation."""
    quiet_warnings()
    with open(path) as f:
        data = json.load(f)
    boot.lib()
    check = load_check(data["property"])
    if hasattr(check, "setup"):
        check.setup()
    try:
        replay_cases(check, [tuple(c) for c in data["cases"]])
    except Violation as v:
        print(f"violation of {data['property']} reproduced: {v}")
        return 1
    print(f"no violation of {data['property']}")
    return 0


# -- the main process ---------------------------------------------------------------


def known_findings(cid):
    """Identifiers of the known findings of a property."""
    result = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                words = line.split()
                if len(words) > 3 and words[0] == "known:" and words[1] == f"property={cid}":
                    result[words[2].partition("=")[2]] = " ".join(words[3:])
    return result


def child_env(scratch):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        VP_SCRATCH=scratch,
        TMPDIR=scratch,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    return env


def spawn(args, env, scratch, log):
    return subprocess.Popen(
        [sys.executable, "-B", MAIN, *map(str, args)],
        env=env,
        cwd=scratch,
        stdin=subprocess.DEVNULL,
        stdout=log,
        stderr=subprocess.STDOUT,
    )


def write_replay(cid, seed, cases, message):
    d = os.environ.get("VP_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{cid}-{case_hash(cases):016x}.json")
    with open(path, "w") as f:
        json.dump(
            {"property": cid, "seed": seed, "message": message, "cases": cases},
            f,
            indent=1,
        )
    return path


def check_main(cid):
    started = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    jobs = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    scratch = scratch_root()
    try:
        return run_check(cid, tier, seed, jobs, scratch, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(cid, tier, seed, jobs, scratch, started):
    check = load_check(cid)
    budget = float(os.environ.get("VP_BUDGET", "0")) or check.BUDGET[tier]
    env = child_env(scratch)
    logs = []
    procs = []

    def start(name, args):
        log = open(os.path.join(scratch, name + ".log"), "w+")
        logs.append(log)
        out = os.path.join(scratch, name + ".json")
        procs.append([spawn([*args, out], env, scratch, log), out, log, None])

    if getattr(check, "PROBES", None):
        start("probe", ["--probe", cid])
        n_probe = 1
    else:
        n_probe = 0
    for i in range(jobs):
        start(f"w{i}", ["--worker", cid, tier, derive(seed, cid), i, jobs, budget])

    hard = time.monotonic() + budget + SHRINK_S + 90
    failure = None
    errors = []
    hung = 0
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for p in list(pending):
            if p[0].poll() is None:
                continue
            pending.remove(p)
            if os.path.exists(p[1]):
                with open(p[1]) as f:
                    p[3] = json.load(f)
                if isinstance(p[3], dict):
                    if p[3].get("failure") and failure is None:
                        failure = p[3]["failure"]
                    if p[3]["error"]:
                        errors.append(p[3]["error"])
            else:
                p[2].seek(0)
                errors.append(f"worker exited with {p[0].returncode}:\n" + p[2].read()[-4000:])
        if failure or time.monotonic() > hard:
            for p in pending:
                p[0].kill()
                p[0].wait()
                hung += failure is None
            break
    for log in logs:
        log.close()

    agg = Stats()
    stopped = 0
    for p in procs[n_probe:]:
        r = p[3]
        if not r or "evaluations" not in r:
            continue
        agg.evaluations += r["evaluations"]
        agg.labels.update(r["labels"])
        agg.nontrivial.update(r["nontrivial"])
        agg.samples.extend(r["samples"])
        agg.unreproducible += r["unreproducible"]
        stopped += r["stopped"]

    violation = None
    if failure:
        name, cases, message = failure
        violation = write_replay(cid, seed, cases, message)
        rc = subprocess.run(
            [sys.executable, "-B", MAIN, "--replay", violation],
            env=env,
            cwd=scratch,
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            timeout=300,
        ).returncode
        print(f"{cid}: violation in scenario {name!r}: {message}")
        print(f"{cid}: replay in a fresh process: {'reproduced' if rc == 1 else 'NOT reproduced'}")

    known = known_findings(cid)
    known_seen = []
    if n_probe and procs[0][3] is not None:
        for pid, message in procs[0][3]:
            if pid in known:
                known_seen.append(pid)
                print(f"KNOWN-FINDING: property={cid} {known[pid]}")
            elif violation is None:
                print(f"{cid}: {message}")
                violation = write_replay(cid, seed, [["probe", pid]], message)

    evidence = {
        "property": cid,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": agg.evaluations,
            "distinct_nontrivial": len(agg.nontrivial),
            "rule": check.RULE,
            "samples": [{"scenario": n, "case": c} for n, c in agg.samples[:6]],
            "labels": dict(sorted(agg.labels.items())),
            "workers": jobs,
            "workers_stopped_by_time_budget": stopped,
            "workers_hung": hung,
            "unreproducible": agg.unreproducible,
            "known_findings_seen": known_seen,
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "violations": int(violation is not None),
        "wall_s": round(time.monotonic() - started, 2),
    }
    d = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{cid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violation:
        print(f"VIOLATION property={cid} replay={violation}")
        return 1
    if errors:
        print(f"{cid}: error of the check:\n" + errors[0], file=sys.stderr)
        return 2
    if hung or not agg.evaluations:
        print(f"{cid}: {hung} workers did not finish", file=sys.stderr)
        return 2
    print(
        f"{cid}: held for {agg.evaluations} evaluations, {len(agg.nontrivial)} distinct "
        f"non-trivial cases, {evidence['wall_s']} s"
    )
    return 0
