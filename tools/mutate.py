"""
Measures the checks with mutants: small changes of the source of richard, in scratch copies.
A mutant that the stable tests accept is run against the checks, at a fraction of their size, until one of them reports a violation.
    python3 tools/mutate.py OUT.jsonl [--jobs 7] [--only FILE-SUBSTRING] [--sample N] [--seed S] [--scale 0.12]
Survivors are to be read by a person: they are equivalent, or outside of the properties, or a gap.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import warnings

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
SKIP = ("interface/", "store/", "PsycoPg", "MySql", "DialogTester")

# the checks that are likely to see a change in a file come first
PRIORITY = {
    "Earley": "C01 C04 C02 C03", "tree_extract": "C01 C03", "BasicParser": "C01 C02 C03", "SimpleGrammarRulesParser": "C04 C14 C05 C22 C01", "GrammarRule": "C04 C14 C22 C01",
    "SemanticComposer": "C05 C25", "Optimizer": "C11 C10", "FrontResolveName": "C11 C10", "SortByCost": "C11 C10", "Isolate": "C11 C10",
    "CoreModule": "C07 C29 C25 C23 C06", "Solver": "C06 C07 C29 C16 C08", "Model": "C06 C16", "InferenceModule": "C08 C09", "SimpleInferenceRuleParser": "C09 C08",
    "BasicGenerator": "C14 C13", "OutputBuffer": "C13 C14 C12", "DialogContext": "C23", "Sparql": "C17 C18", "Wikidata": "C17 C18", "Csv": "C19", "SimpleDataSource": "C15 C19 C16",
    "Sqlite": "C15", "SimpleMemory": "C16", "GrammarModule": "C22", "Find": "C12 C13", "TryFirst": "C12 C13", "System": "C13 C12 C26", "Language": "C24", "Multilingual": "C24",
    "AtomExecutor": "C25 C13 C12", "SentenceRequest": "C12", "Logger": "C26 C20 C25", "atoms": "C05 C10", "OrderedSet": "C11 C06", "Variable": "C05 C06", "DialogTester": "C26", "ParseTree": "C01 C03", "ChartState": "C01", "Chart": "C01", "Request": "C12 C13 C20", "constants": "C10 C11 C07", "Relation": "C06 C10 C29", "Rule": "C04 C05", "data_source": "C15 C17", "block": "C12", "ResultIterator": "C15 C06", "Optimizer/": "C11",
}


def mutants(text):
    """ yields (line, description, start, end, replacement), in byte offsets """
    tree = ast.parse(text)
    starts = [0]
    data = text.encode()
    for line in data.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def src(node):
        a, b = span(node)
        return data[a:b].decode()

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(node.body[0].value)
        for name in ("annotation", "returns"):
            if getattr(node, name, None) is not None:
                for x in ast.walk(getattr(node, name)):
                    docs.add(x)
        if isinstance(node, ast.Raise):
            for x in ast.walk(node):
                docs.add(x)

    swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    swap2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
    for node in ast.walk(tree):
        if node in docs:
            continue
        def m(kind, new, target=node):
            a, b = span(target)
            return (target.lineno, kind, a, b, new)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for table in (swap, swap2):
                op = table.get(type(node.ops[0]))
                if op:
                    yield m("compare", f"({src(node.left)} {op} {src(node.comparators[0])})")
            if type(node.ops[0]) in (ast.Is, ast.IsNot) and src(node.comparators[0]) == "None":
                yield m("truth", f"(not {src(node.left)})" if isinstance(node.ops[0], ast.Is) else f"(True if {src(node.left)} else False)")
        elif isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            yield m("boolop", "(" + op.join("(" + src(v) + ")" for v in node.values) + ")")
            for k in range(len(node.values)):
                rest = [v for n, v in enumerate(node.values) if n != k]
                yield m("drop operand", "(" + (" and " if isinstance(node.op, ast.And) else " or ").join("(" + src(v) + ")" for v in rest) + ")")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield m("not", "(" + src(node.operand) + ")")
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                yield m("bool", str(not node.value))
            elif isinstance(node.value, int):
                yield m("int", str(node.value + 1))
                if node.value > 0:
                    yield m("int", str(node.value - 1))
            elif isinstance(node.value, float):
                yield m("float", str(node.value + 1))
            elif isinstance(node.value, str) and not any(isinstance(p, ast.JoinedStr) and node in ast.walk(p) for p in ast.walk(tree)):
                yield m("str", '"?"' if node.value == "" else '""')
        elif isinstance(node, ast.BinOp):
            op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(node.op))
            if op and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                yield m("binop", f"({src(node.left)} {op} {src(node.right)})")
            if isinstance(node.op, ast.Add):
                yield m("drop left", f"({src(node.right)})")
                yield m("drop right", f"({src(node.left)})")
        elif isinstance(node, ast.If):
            yield m("if", "(True)", node.test)
            yield m("if", "(False)", node.test)
        elif isinstance(node, ast.IfExp):
            yield m("ifexp", "(" + src(node.body) + ")")
            yield m("ifexp", "(" + src(node.orelse) + ")")
        elif isinstance(node, ast.Return) and node.value is not None:
            value = src(node.value)
            if value not in ("None", "[]", "False", "True"):
                yield m("return", "return None")
                if isinstance(node.value, (ast.List, ast.ListComp)) or value in ("result", "results"):
                    yield m("return", "return []")
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            yield m("drop call", "pass")
        elif isinstance(node, (ast.Assign, ast.AugAssign)):
            if isinstance(node, ast.AugAssign) or isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
                yield m("drop assignment", "pass")
        elif isinstance(node, ast.Break):
            yield m("break", "pass")
        elif isinstance(node, ast.Continue):
            yield m("continue", "break")
            yield m("continue", "pass")
        elif isinstance(node, ast.Raise):
            yield m("raise", "pass")
        elif isinstance(node, ast.Call):
            name = src(node.func)
            if name in ("list", "sorted", "set", "tuple", "str", "int", "float", "reversed", "copy.deepcopy", "copy.copy", "dict", "deepcopy") and len(node.args) == 1 and not node.keywords:
                yield m("drop " + name, "(" + src(node.args[0]) + ")")
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "lower", "upper", "strip") and not node.args:
                yield m("drop ." + node.func.attr, "(" + src(node.func.value) + ")")
            if len(node.args) == 2 and not node.keywords:
                a, b = node.args
                yield m("swap arguments", f"{name}({src(b)}, {src(a)})")
            if name == "any" or name == "all":
                yield m("quantifier", ("all" if name == "any" else "any"), node.func)
            if name == "min" or name == "max":
                yield m("extreme", ("max" if name == "min" else "min"), node.func)
            if isinstance(node.func, ast.Attribute) and node.func.attr == "extend":
                yield m("extend to append", src(node.func.value) + ".append", node.func)
        elif isinstance(node, ast.Slice):
            if node.lower is not None and node.upper is None:
                yield m("slice", src(node.lower) + " + 1:")
            elif node.lower is not None or node.upper is not None:
                yield m("slice", ":")
        elif isinstance(node, ast.For):
            yield m("for skips first", f"list({src(node.iter)})[1:]", node.iter)
            yield m("for skips last", f"list({src(node.iter)})[:-1]", node.iter)
            yield m("for reversed", f"list({src(node.iter)})[::-1]", node.iter)
        elif isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            g = node.generators[0]
            if g.ifs:
                yield m("comprehension if", "True", g.ifs[0])
            yield m("comprehension skips last", f"list({src(g.iter)})[:-1]", g.iter)
        elif isinstance(node, ast.FunctionDef) and node.decorator_list:
            pass


def all_mutants(repo, only):
    result = []
    for folder, _, files in os.walk(os.path.join(repo, "richard")):
        for file in sorted(files):
            path = os.path.join(folder, file)
            name = os.path.relpath(path, os.path.join(repo, "richard"))
            if not file.endswith(".py") or any(s in name for s in SKIP) or (only and only not in name):
                continue
            text = open(path, newline="").read()
            seen = set()
            for line, kind, a, b, new in mutants(text):
                data = text.encode()
                changed = (data[:a] + new.encode() + data[b:]).decode()
                if changed in seen or changed == text:
                    continue
                seen.add(changed)
                try:
                    compile(changed, name, "exec")
                except SyntaxError:
                    continue
                result.append({"file": name, "line": line, "kind": kind, "old": data[a:b].decode(), "new": new, "a": a, "b": b})
    return result


def checks_for(file, available):
    first = []
    for key, value in PRIORITY.items():
        if key in file:
            first += [c for c in value.split() if c not in first and c in available]
    rest = "C25" if first else " ".join(available)
    return first + [c for c in rest.split() if c not in first and c in available]


def work(args):
    number, items, scale, available, out, lock = args
    top = f"/tmp/mutate-{os.getpid()}-{number}"
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    copy = top + "/repo"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0", PYTHONUTF8="1", RV_REPO=copy, RV_OUT=top, RV_SCALE=str(scale),
               RV_WORKERS="1", VERIF_SEED="1")
    subprocess.run(f"cp -a /repo {copy}", shell=True)
    try:
        for item in items:
            path = os.path.join(copy, "richard", item["file"])
            original = open(path, "rb").read()
            open(path, "wb").write(original[:item["a"]] + item["new"].encode() + original[item["b"]:])
            try:
                item["result"] = one(item, copy, env, available)
            except subprocess.TimeoutExpired:
                item["result"] = "timeout"
            finally:
                open(path, "wb").write(original)
                subprocess.run("git checkout -q -- . ; git clean -fdq", shell=True, cwd=copy)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps(item) + "\n")
    finally:
        shutil.rmtree(top, ignore_errors=True)


def one(item, copy, env, available):
    tests = f"{PY} -m pytest -x -q -p no:cacheprovider --timeout=60 --rootdir={copy} --import-mode=importlib -o python_files='*_test.py test.py test_*.py' -W ignore -rA tests"
    r = subprocess.run("timeout 120 " + tests.replace(" -x ", " "), shell=True, cwd=copy, env=dict(env, PYTHONPATH=copy), capture_output=True, text=True)
    passed = {l.split(" ", 1)[1].split(" - ")[0].replace("/", ".").replace(".py::", ".") for l in r.stdout.splitlines() if l.startswith("PASSED ")}
    if any(s not in passed for s in STABLE):
        return "killed by tests"
    for check in checks_for(item["file"], available):
        r = subprocess.run(["timeout", "300", "bash", "run.sh", check, "quick"], cwd=VERIF, env=env, capture_output=True, text=True)
        if r.returncode == 1 and f"VIOLATION property={check} " in r.stdout:
            return "caught by " + check
        if r.returncode not in (0, 1):
            item.setdefault("inconclusive", []).append(check + ": " + r.stdout[-200:])
    return "SURVIVED"


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--jobs", type=int, default=7)
    p.add_argument("--only", default="")
    p.add_argument("--sample", type=int, default=0)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--scale", type=float, default=0.12)
    a = p.parse_args()
    items = all_mutants("/repo", a.only)
    random.Random(a.seed).shuffle(items)
    if os.path.exists(a.out):
        done = {(x["file"], x["a"], x["b"], x["new"]) for x in map(json.loads, open(a.out))}
        items = [x for x in items if (x["file"], x["a"], x["b"], x["new"]) not in done]
    if a.sample:
        items = items[:a.sample]
    print(len(items), "mutants", flush=True)
    available = ["C%02d" % k for k in range(1, 60) if os.path.exists(os.path.join(VERIF, "rv/checks/c%02d.py" % k))]
    lock = multiprocessing.Manager().Lock()
    groups = [(n, items[n::a.jobs * 4], a.scale, available, a.out, lock) for n in range(a.jobs * 4)]
    with multiprocessing.Pool(a.jobs) as pool:
        for _ in pool.imap_unordered(work, groups, chunksize=1):
            pass


if __name__ == "__main__":
    main()
