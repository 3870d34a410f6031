""" C23: a dialog context is active exactly when the dialogue is in it """
from rv.core import expect, fail
from richard.core.constants import DISJUNCTION
from rv.lib import BasicDialogContext, InferenceModule, InferenceRule, Model, Relation, Solver, SomeModule, Variable, to_atoms

PID = "C23"
RULE = ("random sequences of queries over two dialogues, with with_context (nested, with the same name, with bound names, in bodies with several solutions, in negations, disjunctions and inference rules), "
        "start_context, end_context, clear, failing goals and goals that raise an exception; probes in all places log the active contexts with the bindings, and rules that depend on a context are "
        "queried; log and solutions are compared with an independent interpreter; non-trivial: a probe inside with_context and one after it; distinct by case")
ASSUMPTIONS = ["the body of with_context does not start or end the context of that name by itself", "names of contexts are texts"]
CASES = {"quick": 42000, "thorough": 250000}
FLOORS = {"queries": 40000, "probes": 60000, "in_context": 25000, "nested": 8000, "same_name": 2500, "crashed_inside": 1500, "failed_inside": 4000, "after": 10000, "rules": 8000, "clears": 1500, "active_between": 6000, "isa": 10000}

NAMES = ["question", "Question", "a b", "it's", "task", "'; --", "", "日本", "task ", " task", "Task", "tasks", "ta%", "_ask", "question\n"]


class Boom(Exception):
    pass


def gen(rng, i, tier):
    names = rng.sample(NAMES, rng.randint(1, 3))
    tables = {"p": [[rng.choice(names + ["x"])] for _ in range(rng.randint(0, 3))], "q": [["1"], ["2"]][:rng.randint(1, 2)]}
    tables = {k: [list(r) for r in sorted({tuple(r) for r in rows})] for k, rows in tables.items()}
    counter = [0]
    rules = [("guarded", rng.choice(names))] + ([("wrapped", rng.choice(names))] if rng.random() < 0.5 else [])

    def probe(scope):
        counter[0] += 1
        return ("probe", counter[0], "?" + rng.choice(scope) if scope and rng.random() < 0.5 else "-")

    def body(depth, scope, inside, n=None):
        goals = []
        scope = list(scope)
        for _ in range(n or rng.randint(1, 3)):
            p = rng.random()
            if p < 0.22:
                v = rng.choice("XYZ")
                goals.append((rng.choice("pq"), "?" + v))
                scope.append(v)
            elif p < 0.45:
                goals.append(probe(scope))
            elif p < 0.68 and depth < 3:
                name, label = context_name(scope)
                goals.append(("with_context", name, body(depth + 1, scope, inside + [label])))
            elif p < 0.74:
                free = [n for n in names if n not in inside and None not in inside]
                if free:
                    goals.append((rng.choice(["start_context", "end_context"]), rng.choice(free)))
            elif p < 0.79:
                goals.append(("context", rng.choice(names)))
            elif p < 0.82:
                goals.append(("nothing",))
            elif p < 0.85:
                goals.append(("boom",))
            elif p < 0.90 and depth < 3:
                goals.append(("not", body(depth + 1, scope, inside, 1 if rng.random() < 0.5 else None)))
            elif p < 0.95 and depth < 3:
                goals.append(("or", [body(depth + 1, scope, inside) for _ in range(2)]))
            else:
                goals.append((rng.choice(rules)[0],))
        if rng.random() < 0.6:
            goals.append(probe(scope))
        return goals

    def context_name(scope):
        # a variable may have the name of any context as its value
        if scope and rng.random() < 0.2:
            return "?" + rng.choice(scope), None
        name = rng.choice(names)
        return name, name

    steps = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.25:
            # what kinds of things the dialogue is about
            steps.append((rng.randint(0, 1), ("isa", [[rng.choice(["$1", "$2", "e1"] + names), rng.choice(["river", "River", "dog", ""] + names)] for _ in range(rng.randint(1, 3))])))
        steps.append((rng.randint(0, 1) if rng.random() < 0.3 else 0, ("clear",) if rng.random() < 0.1 else ("query", body(0, [], []))))
    return {"tables": tables, "steps": steps, "rules": rules, "names": names}


class Facts(SomeModule):
    def __init__(self, tables):
        super().__init__()
        self.log = []
        self.tables = tables
        for t in tables:
            self.add_relation(Relation(t, arguments=["a"], query_function=self.query))
        self.add_relation(Relation("nothing", query_function=lambda values, context: []))
        self.add_relation(Relation("boom", query_function=self.boom))
        self.add_relation(Relation("probe", query_function=self.probe))

    def query(self, values, context):
        return [list(r) for r in self.tables[context.relation.predicate] if values[0] in (None, r[0])]

    def boom(self, values, context):
        raise Boom()

    def probe(self, values, context):
        active = sorted(r["Name"] for r in context.solver.solve([("context", Variable("Name"))]))
        self.log.append((values[0], values[1], tuple(active)))
        return [[None, None]]


class Reference:
    def __init__(self, case):
        self.tables = case["tables"]
        self.rules = dict(case["rules"])
        self.active = set()
        self.isa = set()
        self.log = []
        self.facts = []

    def value(self, v, binding):
        return binding[v] if isinstance(v, str) and v.startswith("?") else v

    def solve(self, goals, binding):
        if not goals:
            return [binding]
        result = []
        for b in self.single(goals[0], binding):
            for r in self.solve(goals[1:], b):
                if r not in result:
                    result.append(r)
        return result

    def single(self, goal, binding):
        kind = goal[0]
        if kind in self.tables:
            v = goal[1]
            if v in binding:
                return [binding] if [binding[v]] in self.tables[kind] else []
            return [dict(binding, **{v: r[0]}) for r in self.tables[kind]]
        if kind == "probe":
            self.log.append((goal[1], self.value(goal[2], binding), tuple(sorted(self.active))))
            self.facts.append("probes")
            return [binding]
        if kind == "with_context":
            name = self.value(goal[1], binding)
            was = name in self.active
            self.active.add(name)
            self.facts.append("in_context")
            if len(self.active) > 1:
                self.facts.append("nested")
            if was:
                self.facts.append("same_name")
            try:
                if not self.solve(goal[2], binding):
                    self.facts.append("failed_inside")
            except Boom:
                self.facts.append("crashed_inside")
                raise
            finally:
                if not was:
                    self.active.discard(name)
            self.facts.append("after")
            return [binding]
        if kind == "start_context":
            self.active.add(goal[1])
            return [binding]
        if kind == "end_context":
            self.active.discard(goal[1])
            return [binding]
        if kind == "context":
            return [binding] if goal[1] in self.active else []
        if kind == "nothing":
            return []
        if kind == "boom":
            raise Boom()
        if kind == "not":
            return [] if self.solve(goal[1], binding) else [binding]
        if kind == "or":
            for part in goal[1]:
                r = self.solve(part, binding)
                if r:
                    return r
            return []
        if kind == "guarded":
            # guarded() :- context(name), probe(0, '-').
            self.facts.append("rules")
            if self.rules[kind] not in self.active:
                return []
            return self.single(("probe", 0, "-"), binding)
        if kind == "wrapped":
            # wrapped() :- with_context(name, probe(-1, '-')), probe(-2, '-').
            self.facts.append("rules")
            self.single(("with_context", self.rules[kind], [("probe", -1, "-")]), binding)
            return self.single(("probe", -2, "-"), binding)


class Dialogue:
    def __init__(self, case):
        self.facts = Facts(case["tables"])
        self.context = BasicDialogContext()
        inferences = InferenceModule()
        for kind, name in case["rules"]:
            if kind == "guarded":
                inferences.insert_rule(InferenceRule(("guarded",), [("context", name), ("probe", 0, "-")]))
            else:
                inferences.insert_rule(InferenceRule(("wrapped",), [("with_context", name, [("probe", -1, "-")]), ("probe", -2, "-")]))
        self.solver = Solver(Model([self.facts, self.context, inferences]))
        self.reference = Reference(case)


def run(case, mon):
    dialogues = [Dialogue(case), Dialogue(case)]
    for n, (k, step) in enumerate(case["steps"]):
        d = dialogues[k]
        if step[0] == "clear":
            d.context.clear()
            d.reference.active.clear()
            d.reference.isa.clear()
            mon.count("clears")
        elif step[0] == "isa":
            d.solver.solve([("store", [("dialog_isa", *pair) for pair in step[1]])])
            d.reference.isa |= {tuple(p) for p in step[1]}
            mon.count("isa", len(step[1]))
        else:
            d.facts.log.clear()
            d.reference.log.clear()
            d.reference.facts.clear()
            expected = attempt(lambda: d.reference.solve(step[1], {}))
            atoms = plain_or(step[1])
            observed = attempt(lambda: d.solver.solve(atoms))
            if isinstance(observed, list):
                observed = [{"?" + k2: v for k2, v in b.items()} for b in observed]
            mon.event("query", step[1], d.facts.log, observed)
            details = dict(query=step[1], dialogue=k, step=n, rules=case["rules"])
            if d.facts.log != d.reference.log:
                fail("other contexts are active than those that the dialogue is in", observed=d.facts.log, expected=d.reference.log, **details)
            expect(observed == expected, "a query with contexts has other solutions, or another outcome", observed=observed, expected=expected, **details)
            mon.count("queries")
            for f in d.reference.facts:
                mon.count(f)
            if "after" in d.reference.facts and len(d.reference.log) > 1:
                mon.nontrivial(case)
                mon.sample({"query": step[1], "log": d.reference.log})
            mon.seen("logs", d.reference.log)
        # between the queries, in both dialogues
        for each in dialogues:
            active = sorted({r["N"] for r in each.solver.solve([("context", Variable("N"))])})
            expect(active == sorted(each.reference.active), "the contexts that are active between two queries are not those that were started and not ended", observed=active,
                   expected=sorted(each.reference.active), after=step, dialogue=dialogues.index(each))
            if active:
                mon.count("active_between")
            isa = {(r["E"], r["T"]) for r in each.solver.solve([("dialog_isa", Variable("E"), Variable("T"))])}
            expect(isa == each.reference.isa, "what the dialogue is about is not what was stored", observed=sorted(isa), expected=sorted(each.reference.isa), after=step, dialogue=dialogues.index(each))
            for name in case["names"]:
                found = len(each.solver.solve([("context", name)])) > 0
                expect(found == (name in each.reference.active), "a context is active by name and not in the list, or the other way round", name=name, observed=found)


def plain_or(goals):
    return [(DISJUNCTION, [plain_or(p) for p in g[1]]) if g[0] == "or" else tuple(plain_or(a) if isinstance(a, list) else to_atoms(a) for a in g) for g in goals]


def attempt(f):
    try:
        return f()
    except Boom:
        return "boom"


def shrink(case):
    for k in range(len(case["steps"])):
        yield dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
    for k, (d, step) in enumerate(case["steps"]):
        if step[0] == "query":
            for n in range(len(step[1])):
                yield dict(case, steps=case["steps"][:k] + [(d, ("query", step[1][:n] + step[1][n + 1:]))] + case["steps"][k + 1:])
