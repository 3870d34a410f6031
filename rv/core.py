"""
Driver of the runtime monitors.

A check module (rv/checks/cNN.py) defines

    PID, RULE, ASSUMPTIONS, CASES = {'quick': n, 'thorough': n}, FLOORS = {counter: minimum}
    gen(rng, i, tier) -> case          makes a workload; a plain value (lists, tuples, dicts, strings, numbers)
    run(case, mon)                     drives the real code with it, records what is observed, judges it
    optional: fixed(tier) -> [case]    deterministic cases that are always run first
    optional: shrink(case) -> iterator of smaller cases
    optional: known(mon) -> None       probes the recorded known findings

`run` raises Violation when an observation contradicts the property. An exception that escapes from the code under
test on a workload that is valid by construction is a violation as well. Verdicts are three-valued:
    exit 0  held on everything that was observed
    exit 1  VIOLATION property=<id> replay=<path>
    exit 2  inconclusive: the harness failed, or its monitors observed less than the required floor
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
OUT = os.environ.get("RV_OUT", VERIF)       # where evidence and replays are written

WATCHDOG = 40           # seconds for one case, before it is rerun under a step budget
STEP_BUDGET = 12_000_000  # executed lines; the largest case on the unchanged tree uses a small part of this
MAX_VIOLATIONS = 3


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class WatchdogFired(BaseException):
    pass


class StepBudgetExceeded(BaseException):
    pass


class Monitor:
    """ collects what was observed in the execution of cases """

    def __init__(self):
        self.counts = {}
        self.keys = set()
        self.distinct = {}
        self.samples = []
        self.trace = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, key):
        self.keys.add(digest(key))

    def seen(self, kind, key):
        self.distinct.setdefault(kind, set()).add(digest(key))

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(clip(value, 1500))

    def event(self, *event):
        """ keeps the recent events of the current case, as the witness in a replay file """
        self.trace.append(event)
        if len(self.trace) > 400:
            del self.trace[:200]

    def dump(self):
        return {"counts": self.counts, "keys": self.keys, "distinct": self.distinct, "samples": self.samples}

    def merge(self, other):
        for k, v in other["counts"].items():
            self.count(k, v)
        self.keys |= other["keys"]
        for k, v in other["distinct"].items():
            self.distinct.setdefault(k, set()).update(v)
        self.samples.extend(other["samples"])


def digest(value):
    return hashlib.blake2b(repr(value).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def clip(value, n=3000):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= n else text[:n] + " ... (" + str(len(text)) + " characters)"


def expect(condition, message, **details):
    if not condition:
        fail(message, **details)


def fail(message, **details):
    lines = [message]
    for key, value in details.items():
        lines.append("  " + key + ": " + clip(value, 2500))
    raise Violation("\n".join(lines))


def _alarm(signum, frame):
    raise WatchdogFired()


def judge(module, case, mon, watchdog=WATCHDOG):
    """ runs one case; returns None or (kind, message) with kind 'violation' or 'inconclusive' """
    mon.trace = []
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(watchdog)
    try:
        module.run(case, mon)
        return None
    except WatchdogFired:
        signal.alarm(0)
        return judge_in_steps(module, case)
    except Inconclusive as e:
        return "inconclusive", "inconclusive: " + str(e)
    except BaseException as e:
        signal.alarm(0)
        return judge_exception(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def judge_exception(e):
    if isinstance(e, (KeyboardInterrupt, SystemExit)):
        raise e
    if isinstance(e, Violation):
        return "violation", str(e)
    frames = traceback.extract_tb(e.__traceback__)
    in_repo = [f for f in frames if f.filename.startswith(REPO + "/")]
    tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
    if isinstance(e, (MemoryError, OSError)) and not in_repo:
        return "inconclusive", "the harness failed: " + tail
    if in_repo:
        return "violation", "exception on a valid workload: " + type(e).__name__ + ": " + clip(str(e), 500) + "\n" + clip(tail, 4000)
    # what the code under test returned has not the form that any correct answer has
    return "violation", "the observed behaviour cannot be interpreted: " + type(e).__name__ + ": " + clip(str(e), 500) + "\n" + clip(tail, 4000)


def judge_in_steps(module, case):
    """ the wall-clock watchdog is no verdict: run the case again, and count steps """
    steps = 0

    def tracer(frame, event, arg):
        nonlocal steps
        if not frame.f_code.co_filename.startswith(REPO + "/"):
            return None
        steps += 1
        if steps > STEP_BUDGET:
            raise StepBudgetExceeded()
        return tracer

    mon = Monitor()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(400)
    sys.settrace(tracer)
    try:
        module.run(case, mon)
        return None
    except StepBudgetExceeded:
        return "violation", f"no result within {STEP_BUDGET} steps; a case of this size needs a fraction of that"
    except WatchdogFired:
        return "inconclusive", "watchdog fired twice"
    except Inconclusive as e:
        return "inconclusive", "inconclusive: " + str(e)
    except BaseException as e:
        sys.settrace(None)
        return judge_exception(e)
    finally:
        sys.settrace(None)
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def make_case(module, seed, i, tier):
    rng = random.Random(f"{seed}:{module.PID}:{i}")
    return module.gen(rng, i, tier)


def worker(name, seed, tier, indexes, queue, scratch, stop, deadline):
    os.environ["RV_SCRATCH"] = scratch
    mon = Monitor()
    found = []
    incon = []
    done = 0
    try:
        module = importlib.import_module("rv.checks." + name)
        fixed = list(module.fixed(tier)) if hasattr(module, "fixed") else []
        for i in indexes:
            if stop.value or time.time() > deadline:
                break
            case = fixed[-1 - i] if i < 0 else make_case(module, seed, i, tier)
            verdict = judge(module, case, mon)
            done += 1
            if verdict:
                kind, message = verdict
                if kind == "violation":
                    trace = list(mon.trace)
                    case, message, trace = minimise(module, case, message, trace)
                    found.append((i, case, message, trace))
                    if len(found) >= MAX_VIOLATIONS:
                        break
                    with stop.get_lock():
                        stop.value = 1
                else:
                    incon.append((i, message))
        queue.put((done, mon.dump(), found, incon, None))
    except BaseException:
        queue.put((done, mon.dump(), found, incon, traceback.format_exc()))


def minimise(module, case, message, trace):
    """ greedy, bounded reduction of a violating case """
    if not hasattr(module, "shrink"):
        return case, message, trace
    end = time.time() + 30
    improved = True
    while improved and time.time() < end:
        improved = False
        for smaller in module.shrink(case):
            if time.time() > end:
                break
            mon = Monitor()
            verdict = judge(module, smaller, mon, 10)
            if verdict and verdict[0] == "violation" and verdict[1].split("\n")[0] == message.split("\n")[0]:
                case, message, trace = smaller, verdict[1], list(mon.trace)
                improved = True
                break
    return case, message, trace


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def write_replay(pid, name, seed, tier, index, case, message, trace):
    folder = os.path.join(OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{digest((case, message)).hex()}.json")
    with open(path, "w") as f:
        json.dump({
            "property": pid, "module": name, "seed": seed, "tier": tier, "index": index,
            "message": message, "case": repr(case), "events": [repr(e) for e in trace[-100:]],
            "rerun": f"bash run.sh replay {path}"
        }, f, indent=1)
    return path


def run_check(name, tier, seed):
    start = time.time()
    sys.path.insert(0, VERIF)
    module = importlib.import_module("rv.checks." + name)
    pid = module.PID

    import richard
    where = os.path.abspath(list(richard.__path__)[0])
    if not where.startswith(REPO + "/"):
        print("inconclusive: richard was imported from", where)
        return 2

    # checks never write in /verif or /repo, but here; removed afterwards
    scratch = tempfile.mkdtemp(prefix="rv-" + pid + "-")
    try:
        code = drive(module, name, pid, tier, seed, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def drive(module, name, pid, tier, seed, scratch, start):
    cases = module.CASES[tier]
    factor = float(os.environ.get("RV_SCALE", "1"))
    cases = max(1, int(cases * factor))
    workers = min(getattr(module, "WORKERS", 8), int(os.environ.get("RV_WORKERS", "8")), max(1, os.cpu_count() or 1), cases)
    n_fixed = len(list(module.fixed(tier))) if hasattr(module, "fixed") else 0
    indexes = [-1 - k for k in range(n_fixed)] + list(range(cases))
    time_limit = getattr(module, "TIME", {"quick": 600, "thorough": 780})[tier]
    deadline = start + time_limit

    context = multiprocessing.get_context("fork")
    queue = context.Queue()
    stop = context.Value("i", 0)
    processes = []
    for w in range(workers):
        p = context.Process(target=worker, args=(name, seed, tier, indexes[w::workers], queue, scratch, stop, deadline))
        p.start()
        processes.append(p)

    mon = Monitor()
    done, found, incon, crashes, reports = 0, [], [], [], 0
    while reports < workers:
        try:
            d, dump, f, inc, crash = queue.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in processes) and queue.empty():
                crashes.append("a worker process died")
                break
            if time.time() > deadline + 450:
                crashes.append("a worker process did not finish")
                break
            continue
        reports += 1
        done += d
        mon.merge(dump)
        found.extend(f)
        incon.extend(inc)
        if crash:
            crashes.append(crash)
    for p in processes:
        p.join(1)
        if p.is_alive():
            p.kill()

    # the findings that were recorded, not repaired
    kf_lines = []
    os.environ["RV_SCRATCH"] = scratch
    if hasattr(module, "known") and not found:
        findings = [f for f in known_findings() if f["property"] == pid and f["status"] == "known"]
        for finding in findings:
            try:
                line = module.known(finding["id"], mon)
            except Violation as e:
                found.append((-1, finding["id"], str(e), []))
                continue
            if line:
                kf_lines.append(line)

    floors = getattr(module, "FLOORS", {})
    short = []
    complete = done >= len(indexes)
    for counter, minimum in floors.items():
        # another seed gives somewhat other numbers; on a slow machine less is done, and what is done must have its share
        need = 0.6 * minimum * min(1.0, factor) * min(1.0, 0.9 * done / len(indexes) if not complete else 1.0)
        if mon.counts.get(counter, 0) < need:
            short.append(f"{counter}: {mon.counts.get(counter, 0)} < {need}")

    coverage = {
        "evaluations": done,
        "distinct_nontrivial": len(mon.keys),
        "rule": module.RULE,
        "samples": mon.samples[:6] or ["(none)"],
        "events_observed": dict(sorted(mon.counts.items())),
        "distinct_observed": {k: len(v) for k, v in sorted(mon.distinct.items())},
        "cases_planned": len(indexes),
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - start, 2),
        "violations": len(found),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in kf_lines:
        print(f"KNOWN-FINDING: property={pid} {line}")
    if found:
        for index, case, message, trace in found[:MAX_VIOLATIONS]:
            path = write_replay(pid, name, seed, tier, index, case, message, trace)
            print(f"VIOLATION property={pid} replay={path}")
            print("  " + clip(message, 1800).replace("\n", "\n  "))
            print("  case: " + clip(case, 1200))
        return 1
    if crashes:
        print("inconclusive: the harness failed\n" + clip(crashes[0], 3000))
        return 2
    if incon:
        print(f"inconclusive: {len(incon)} cases; the first: {clip(incon[0], 1500)}")
        return 2
    if not complete and done < len(indexes) * 0.5:
        print(f"inconclusive: only {done} of {len(indexes)} cases within the time limit")
        return 2
    if short:
        print("inconclusive: the monitors observed too little: " + "; ".join(short))
        return 2
    summary = ", ".join(f"{k} {v}" for k, v in sorted(mon.counts.items()))
    print(f"property {pid} held on {done} cases ({len(mon.keys)} distinct and non-trivial) in {evidence['wall_s']} s; observed: {summary}")
    return 0


def replay(path):
    with open(path) as f:
        data = json.load(f)
    sys.path.insert(0, VERIF)
    module = importlib.import_module("rv.checks." + data["module"])
    scope = {"nan": float("nan"), "inf": float("inf")}
    case = eval(data["case"], scope)  # a case is a plain value
    scratch = tempfile.mkdtemp(prefix="rv-replay-")
    os.environ["RV_SCRATCH"] = scratch
    try:
        mon = Monitor()
        verdict = judge(module, case, mon, 600)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for event in mon.trace[-60:]:
        print("event:", clip(event, 400))
    if verdict is None:
        print("held")
        return 0
    if verdict[0] == "violation":
        print(f"VIOLATION property={data['property']} replay={path}")
        print(verdict[1])
        return 1
    print(verdict[1])
    return 2


def scratch_dir():
    return tempfile.mkdtemp(dir=os.environ.get("RV_SCRATCH"))
