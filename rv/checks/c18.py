""" C18: the result cache of a SPARQL data source changes nothing but the number of requests, whatever interrupts it """
import os
import resource
import shutil
import signal
import sys
import threading

from rv.checks import c17
from rv.checks.c17 import expected_rows
from rv.core import REPO, Inconclusive, expect, fail, scratch_dir
from rv.sparql import Endpoint, install

PID = "C18"
LEVEL = "fault_enumeration"
RULE = ("selects through a data source with a result cache, with faults: the process dies at any executed line of the data source, or after any number of bytes of a write (file size limit with "
        "a deadly signal), writes fail after any number of bytes, cache files are cut off or zeroed at any length, the cache directory is missing or is a file, the endpoint refuses or sends "
        "garbage, threads and processes select the same at once; afterwards every select must give the rows of the graph, and once it has, be answered without a request; "
        "non-trivial: a fault that hit; distinct by graph, select and fault")
ASSUMPTIONS = ["the graph of an endpoint does not change, and a cache directory serves one url and language (see the known finding)",
               "a file that is cut off or zeroed is what remains of a crash; other contents of cache files are the library's own"]
CASES = {"quick": 3000, "thorough": 40000}
FLOORS = {"selects": 60000, "cached": 20000, "crash_line": 5000, "crash_bytes": 900, "write_fault": 1500, "damaged": 4000, "other_contents": 500, "endpoint_fault": 1500, "no_directory": 1000, "threads": 150, "processes": 150}


def gen(rng, i, tier):
    base = c17.gen(rng, i, tier)
    selects = [list(s[:3]) for s in base["selects"]]
    # the same question about another column kind, table or type of value
    for s in list(selects):
        if rng.random() < 0.4:
            table, kinds, values = s
            p = rng.randint(0, 3)
            if p == 3:
                texts = [k for k in range(2) if kinds[k] == "text" and values[k]]
                if not texts:
                    continue
                # a text that is almost the same
                k = rng.choice(texts)
                other = values[k]
                other = rng.choice([other.swapcase(), other + " ", other + "'", other[:-1], other.replace(",", "', '"), "é" + other, other.replace(" ", "  ")])
                if other:
                    selects.append([table, kinds, [other if j == k else values[j] for j in range(2)]])
            elif p == 0:
                selects.append([rng.choice(c17.PREDICATES), kinds, values])
            elif p == 1 and (kinds[0] == "id" or values[0] is None):
                selects.append([table, ["id", rng.choice(["id", "text"])] if values[1] is None else kinds, values])
            else:
                selects.append([table, kinds, [values[0], rng.choice([None, "12"]) if kinds[1] == "text" else None]])
    mode = rng.choice(["plain", "line", "line", "line", "bytes", "write", "damage", "damage", "endpoint", "endpoint", "directory", "threads", "processes"])
    points = [rng.random() for _ in range({"quick": 12, "thorough": 40}[tier])]
    return {"triples": base["triples"], "lang": base["lang"], "selects": selects, "mode": mode, "points": points, "pick": rng.random(), "keep": rng.random() < 0.4, "kind": rng.choice(["missing", "file"]),
            "faults": [rng.choice([400, 403, 429, 500, "refused", "html", "{}", ""]) for _ in range(3)]}


URL = "http://ex.org/sparql"
KEPT = {}


def source_for(case, folder, endpoint):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    install(endpoint)
    if not case.get("keep"):
        return SparqlDataSource(URL, result_cache_path=folder, lang=case["lang"])
    # one data source lives through all that happens
    if folder not in KEPT:
        KEPT[folder] = SparqlDataSource(URL, result_cache_path=folder, lang=case["lang"])
    return KEPT[folder]


def check_select(case, folder, endpoint, select, mon, what, cached=None):
    """ a select by a new data source; cached: must (not) be answered from the cache """
    table, kinds, values = select
    before = len(endpoint.requests)
    observed = source_for(case, folder, endpoint).select(table, list(kinds), list(values))
    expected = expected_rows(case["triples"], case["lang"], table, kinds, values)
    mon.event(what, select, len(endpoint.requests) - before)
    if sorted(map(repr, observed)) != sorted(map(repr, expected)):
        fail("a select gives other rows than the graph has", when=what, select=select, observed=observed, expected=expected, lang=case["lang"], triples=case["triples"], files=listing(folder))
    number = len(endpoint.requests) - before
    if cached is True:
        expect(number == 0, "a select that was answered before is asked again", when=what, select=select, files=listing(folder))
        mon.count("cached")
    elif cached is False:
        expect(number > 0, "a select that was never answered is not asked for", when=what, select=select, files=listing(folder))
    mon.count("selects")
    for row in observed:
        row[:] = ["changed by the caller"]
    observed.clear()


def listing(folder):
    return sorted((f, os.path.getsize(os.path.join(folder, f))) for f in os.listdir(folder)) if os.path.isdir(folder) else None


def after(case, folder, endpoint, mon, what):
    """ whatever happened: all selects are right, and from then on answered from the cache """
    distinct = []
    for s in case["selects"]:
        if s not in distinct:
            distinct.append(s)
    for s in distinct:
        check_select(case, folder, endpoint, s, mon, "first select after " + what)
    for s in distinct:
        check_select(case, folder, endpoint, s, mon, "second select after " + what, cached=True)


def die_in_child(action):
    """ runs the action in a child process; -> how it ended: an exit code, or minus the signal """
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(20)
            action()
        except BaseException:
            os._exit(77)
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def count_lines(action):
    """ the number of executed lines in the library """
    number = 0

    def tracer(frame, event, arg):
        nonlocal number
        if not frame.f_code.co_filename.startswith(REPO + "/"):
            return None
        if event == "line":
            number += 1
        return tracer
    sys.settrace(tracer)
    try:
        action()
    finally:
        sys.settrace(None)
    return number


def die_at_line(n, action):
    number = 0

    def tracer(frame, event, arg):
        nonlocal number
        if not frame.f_code.co_filename.startswith(REPO + "/"):
            return None
        if event == "line":
            number += 1
            if number == n:
                os._exit(66)
        return tracer
    sys.settrace(tracer)
    action()
    sys.settrace(None)


def run(case, mon):
    folder = scratch_dir()
    endpoint = Endpoint(case["triples"])
    KEPT.clear()
    try:
        globals()["run_" + case["mode"]](case, mon, folder, endpoint)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def pick(case):
    return case["selects"][int(case["pick"] * len(case["selects"]))]


def ask(case, folder, endpoint, select):
    source = source_for(case, folder, endpoint)
    source.select(select[0], list(select[1]), list(select[2]))


def noted(case, mon, counter, point):
    mon.count(counter)
    mon.nontrivial((case["triples"], pick(case), case["mode"], point))
    mon.sample({"mode": case["mode"], "select": pick(case), "point": point})


def run_plain(case, mon, folder, endpoint):
    seen = []
    for s in case["selects"]:
        # selects are the same if they are equal in all respects
        check_select(case, folder, endpoint, s, mon, "a series of selects", cached=repr(s) in seen)
        seen.append(repr(s))
    files = len(os.listdir(folder))
    after(case, folder, endpoint, mon, "a series of selects")
    expect(len(os.listdir(folder)) == files, "reading from the cache makes new files", files=listing(folder))


def run_line(case, mon, folder, endpoint):
    select = pick(case)
    other = scratch_dir()
    total = count_lines(lambda: ask(case, other, endpoint, select))
    shutil.rmtree(other, ignore_errors=True)
    # not the same points in each folder: what is left by one crash must not hide the next
    for p in case["points"]:
        n = 1 + int(p * (total + 2))
        code = die_in_child(lambda: die_at_line(n, lambda: ask(case, folder, endpoint, select)))
        mon.seen("crash lines", n)
        if code == 66:
            noted(case, mon, "crash_line", n)
        check_select(case, folder, endpoint, select, mon, f"a crash at executed line {n}")
        check_select(case, folder, endpoint, select, mon, f"a crash at executed line {n}, again", cached=True)
        for f in os.listdir(folder):
            remove(folder, f)
    after(case, folder, endpoint, mon, "crashes")


def remove(folder, name):
    path = os.path.join(folder, name)
    if os.path.isdir(path):
        shutil.rmtree(path)
    else:
        os.unlink(path)


def written_size(case, endpoint, select):
    folder = scratch_dir()
    ask(case, folder, endpoint, select)
    size = max([os.path.getsize(os.path.join(folder, f)) for f in os.listdir(folder)] or [0])
    shutil.rmtree(folder, ignore_errors=True)
    return size


def limited(limit, action, deadly):
    if deadly:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        action()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def run_bytes(case, mon, folder, endpoint):
    select = pick(case)
    size = written_size(case, endpoint, select)
    for p in case["points"]:
        n = int(p * (size + 1))
        code = die_in_child(lambda: limited(n, lambda: ask(case, folder, endpoint, select), True))
        if code == -signal.SIGXFSZ:
            noted(case, mon, "crash_bytes", n)
        check_select(case, folder, endpoint, select, mon, f"a crash after {n} of {size} bytes were written")
        check_select(case, folder, endpoint, select, mon, f"a crash after {n} of {size} bytes were written, again", cached=True)
        for f in os.listdir(folder):
            remove(folder, f)
    after(case, folder, endpoint, mon, "crashes")


def run_write(case, mon, folder, endpoint):
    """ the disk is full after n bytes: the select itself must succeed """
    select = pick(case)
    size = written_size(case, endpoint, select)
    for p in case["points"]:
        n = int(p * (size + 1))
        limited(n, lambda: check_select(case, folder, endpoint, select, mon, f"a full disk after {n} of {size} bytes"), False)
        noted(case, mon, "write_fault", n)
        check_select(case, folder, endpoint, select, mon, "the disk was full")
        check_select(case, folder, endpoint, select, mon, "the disk was full, again", cached=True)
        for f in os.listdir(folder):
            remove(folder, f)
    after(case, folder, endpoint, mon, "full disks")


# what a file of another kind may hold, none of it is a list of rows
OTHER = [b"I am not a number\n.", b"cnot_a_module\nThing\n.", b"\x80\xff.", b"Fabc\n.", b"<html>Bad gateway</html>", b'{"results": {}}', b"cos\nnothing\n.", b"Vabc\\u12\n.", b"0", b"Internet is down\n"]


def run_damage(case, mon, folder, endpoint):
    """ a crash of the machine: the file has its name, but not, or not all of, its contents """
    for s in case["selects"]:
        ask(case, folder, endpoint, s)
    names = sorted(os.listdir(folder))
    for k, p in enumerate(case["points"]):
        if not names:
            break
        path = os.path.join(folder, names[k % len(names)])
        with open(path, "rb") as f:
            content = f.read()
        n = int(p * len(content))
        damaged = content[:n] if k % 3 else (content[:n] + bytes(len(content) - n))
        if damaged == content or (k % 3 == 0 and n > 0):
            damaged = content[:n] if k % 2 else bytes(len(content))
        if n % 4 == 1:
            damaged = OTHER[(n // 4 + k) % len(OTHER)]
            mon.count("other_contents")
        with open(path, "wb") as f:
            f.write(damaged)
        noted(case, mon, "damaged", (k % len(names), n, k % 3))
        if k % 4 == 3:
            after(case, folder, endpoint, mon, f"damage to cache files ({n} of {len(content)} bytes left)")
    after(case, folder, endpoint, mon, "damage to cache files")


def run_endpoint(case, mon, folder, endpoint):
    """ what goes wrong at the endpoint is not remembered """
    for k, s in enumerate(case["selects"]):
        fault = case["faults"][k % len(case["faults"])]
        key = {"refused": ConnectionError("refused"), "html": "<html>busy</html>"}.get(fault, fault)
        before = len(endpoint.requests)
        endpoint.faults = [key]
        try:
            observed = source_for(case, folder, endpoint).select(s[0], list(s[1]), list(s[2]))
        except Exception:
            noted(case, mon, "endpoint_fault", (k, fault))
        else:
            if len(endpoint.requests) == before:
                endpoint.faults = []
                expect(s in case["selects"][:k], "a select that was never answered is not asked for", select=s)
            else:
                fail("a failing request gives rows", fault=fault, observed=observed, select=s)
        check_select(case, folder, endpoint, s, mon, f"the endpoint failed ({fault})")
        check_select(case, folder, endpoint, s, mon, f"the endpoint failed ({fault}), again", cached=True)


def run_directory(case, mon, folder, endpoint):
    """ a cache that cannot be used is no cache """
    path = os.path.join(folder, "cache")
    if case["kind"] == "file":
        with open(path, "w") as f:
            f.write("this is not a directory")
    for s in case["selects"] + case["selects"]:
        check_select(case, path, endpoint, s, mon, "the cache directory cannot be used")
        mon.count("no_directory")
    if os.path.isfile(path):
        with open(path) as f:
            expect(f.read() == "this is not a directory", "a file of the user was changed")


def run_threads(case, mon, folder, endpoint):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    problems = []
    source = source_for(case, folder, endpoint)

    def work(k):
        try:
            for s in case["selects"][k:] + case["selects"][:k]:
                observed = source.select(s[0], list(s[1]), list(s[2]))
                expected = expected_rows(case["triples"], case["lang"], *s)
                if sorted(map(repr, observed)) != sorted(map(repr, expected)):
                    problems.append((s, observed, expected))
        except Exception as e:
            problems.append(repr(e))
    try:
        threads = [threading.Thread(target=work, args=(k % len(case["selects"]),)) for k in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    expect(not problems, "selects in several threads give other rows than the graph has", problems=problems[:3])
    noted(case, mon, "threads", 0)
    after(case, folder, endpoint, mon, "selects in threads")


def run_processes(case, mon, folder, endpoint):
    """ processes that share a cache, some of which are killed """
    children = []
    for k in range(4):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(20)
                for s in case["selects"][k % len(case["selects"]):] + case["selects"]:
                    observed = source_for(case, folder, endpoint).select(s[0], list(s[1]), list(s[2]))
                    expected = expected_rows(case["triples"], case["lang"], *s)
                    if sorted(map(repr, observed)) != sorted(map(repr, expected)):
                        os._exit(2)
                code = 0
            finally:
                os._exit(code)
        children.append(pid)
    if case["pick"] < 0.5:
        # anywhere in its work
        os.kill(children[0], signal.SIGKILL)
    codes = [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) for pid in children]
    if -signal.SIGALRM in codes:
        raise Inconclusive("a child process took too long")
    expect(all(c in (0, -signal.SIGKILL) for c in codes), "a process that shares the cache got other rows than the graph has, or failed", codes=codes)
    noted(case, mon, "processes", 0)
    after(case, folder, endpoint, mon, "selects in processes")


def known(finding, mon):
    """ two data sources with another url, or language, share their cached results """
    if finding != "sparql-cache-key":
        return None
    from richard.data_source.SparqlDataSource import SparqlDataSource
    folder = scratch_dir()
    endpoint = Endpoint([])
    endpoint.triples = {"http://a.org/sparql": [(("iri", "http://ex.org/e1"), "ex:p", ("iri", "http://ex.org/a"))],
                        "http://b.org/sparql": [(("iri", "http://ex.org/e1"), "ex:p", ("iri", "http://ex.org/b"))]}
    install(endpoint)
    try:
        a = SparqlDataSource("http://a.org/sparql", result_cache_path=folder).select("ex:p", ["id", "id"], ["http://ex.org/e1", None])
        b = SparqlDataSource("http://b.org/sparql", result_cache_path=folder).select("ex:p", ["id", "id"], ["http://ex.org/e1", None])
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    expect(a == [["http://ex.org/e1", "http://ex.org/a"]], "a select through a new cache gives other rows than the graph has", observed=a)
    if b == [["http://ex.org/e1", "http://ex.org/b"]]:
        return None
    expect(b == a, "two data sources that share a cache directory: rows that neither has", observed=b)
    return "data sources with another url or language that share a cache directory share its entries (sparql-cache-key)"


def shrink(case):
    for k in range(len(case["selects"])):
        if len(case["selects"]) > 1:
            yield dict(case, selects=[case["selects"][k]], pick=0)
    for k in range(len(case["triples"])):
        yield dict(case, triples=case["triples"][:k] + case["triples"][k + 1:])
