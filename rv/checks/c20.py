""" C20: the same input gives the same result, in every process, with or without logging """
import json
import os
import subprocess
import sys

from rv.core import REPO, VERIF, Inconclusive, expect, fail
from rv.jobs import gen_job, transcript
from rv.lib import Logger

PID = "C20"
RULE = ("batches of dialogues, ambiguous parses, optimized queries, rule programs and generated responses; each is run twice in one process, once more with all logging and statistics on, "
        "and in new processes with other hash seeds; responses, products, their order and solutions must be literally the same; non-trivial: a job of at least five observations; distinct by job")
ASSUMPTIONS = ["hash seeds stand for everything that differs between two processes that run the same program on the same data"]
CASES = {"quick": 64, "thorough": 1500}
FLOORS = {"jobs": 1200, "observations": 15000, "processes": 120, "logged": 1200, "dialogue": 300, "parse": 150, "query": 150, "words": 150, "rules": 150}


def gen(rng, i, tier):
    return {"jobs": [gen_job(rng, tier) for _ in range(30)], "seeds": [rng.randint(1, 4294967295) for _ in range(2)]}


def in_process(jobs, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    result = subprocess.run([sys.executable, "-W", "ignore", "-m", "rv.jobs"], input=repr(jobs), capture_output=True, text=True, cwd=VERIF, env=env, timeout=300)
    if result.returncode != 0:
        return None, result.stderr
    return json.loads(result.stdout), ""


def differs(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return k, x, y
    if len(a) != len(b):
        return min(len(a), len(b)), f"{len(a)} observations", f"{len(b)} observations"
    return None


def run(case, mon):
    first = [transcript(j) for j in case["jobs"]]
    for job, lines in zip(case["jobs"], first):
        mon.count("jobs")
        mon.count(job["kind"])
        mon.count("observations", len(lines))
        if len(lines) >= 5:
            mon.nontrivial(job)
            mon.sample({"kind": job["kind"], "observations": lines[:4]})
    for job, lines in zip(case["jobs"], first):
        d = differs(lines, transcript(job))
        if d:
            fail("the second run in the same process gives another result", job=job, first=d[1], second=d[2])
        logger = Logger()
        logger.log_all_tests()
        logger.log_products()
        logger.log_stats()
        d = differs(lines, transcript(job, logger))
        if d:
            fail("logging changes the result", job=job, without=d[1], with_logging=d[2])
        if job["kind"] in ("dialogue", "parse"):
            expect(job["kind"] == "parse" or len(str(logger)) > 0, "nothing was logged", job=job)
        mon.count("logged")
    for seed in case["seeds"]:
        others, error = in_process(case["jobs"], seed)
        if others is None:
            if REPO + "/" in error:
                fail("a job that succeeds in this process fails in another", hash_seed=seed, error=error[-2000:])
            raise Inconclusive("a child process failed: " + error[-600:])
        mon.count("processes")
        for job, a, b in zip(case["jobs"], first, others):
            d = differs(a, b)
            if d:
                fail("another process gives another result", hash_seed=seed, job=job, this=d[1], other=d[2])


def shrink(case):
    jobs = case["jobs"]
    if len(jobs) > 1:
        n = len(jobs) // 2
        yield dict(case, jobs=jobs[:n])
        yield dict(case, jobs=jobs[n:])
