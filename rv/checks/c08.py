""" C08: inference rules give exactly the consequences of facts and rules """
from rv.core import expect, fail
from rv.lib import InferenceModule, InferenceRule, Model, Solver, TableModule, from_atoms, to_atoms
from rv.refsolve import Fail, RefSolver, solution_key, unordered_vars

PID = "C08"
RULE = ("random programs of facts and rules over random tables: chains, recursion over acyclic data, constants and repeated variables in heads, negation, disjunction, "
        "bodies passed as arguments, facts and rules learned at run time, predicates that are spread over modules; each is queried with all kinds of binding patterns, with "
        "variable names that clash with those in the rules; non-trivial: a query with a solution that needs a rule; distinct by program and query")
ASSUMPTIONS = ["recursion is over acyclic data and not left-recursive: rules are evaluated in Prolog's way", "a disjunction commits to its first alternative that has a solution",
               "a rule that leaves a variable of its head unbound contributes nothing"]
CASES = {"quick": 40000, "thorough": 250000}
FLOORS = {"queries": 20000, "with_solutions": 5000, "recursive_programs": 1000, "learned_rules": 1500, "passed_bodies": 1000, "disjunctions": 1000, "long_programs": 100}

POOL = ["a", "b", "A", "c", "d", "e1", "f g", "x'y"]
NAMES = ["A", "B", "C", "E1", "E2", "X", "Y"]


def gen_long(rng):
    """ many facts of one predicate, and chains of many steps """
    n = rng.choice([12, 25, 40])
    nodes = ["n%d" % k for k in range(n)]
    tables = {"edge": [[a, b] for a, b in zip(nodes, nodes[1:])], "num": [[a, k] for k, a in enumerate(nodes)]}
    many = rng.choice([40, 90, 150, 300])
    facts = [(("fact", "f%d" % k, rng.choice(nodes)), []) for k in range(many)]
    rules = facts + [(("path", "?A", "?B"), [("edge", "?A", "?B")]), (("path", "?A", "?B"), [("edge", "?A", "?C"), ("path", "?C", "?B")]),
                     (("leads", "?X", "?Y"), [("fact", "?X", "?A"), ("path", "?A", "?Y")]), (("last", "?X"), [("fact", "?X", nodes[-1])])]
    levels = rng.choice([10, 30, 50])
    rules += [(("up0", "?X"), [("fact", "?X", nodes[0])])] + [(("up%d" % k, "?X"), [("up%d" % (k - 1), "?X")]) for k in range(1, levels)]
    rng.shuffle(rules)
    queries = [[("fact", "?X", "?Y")], [("fact", "f%d" % rng.randrange(many), "?Y")], [("path", nodes[0], "?B")], [("path", "?A", nodes[-1])], [("path", nodes[0], nodes[-1])],
               [("leads", "f%d" % rng.randrange(many), "?Y")], [("last", "?X")], [("up%d" % (levels - 1), "?X")], [("count", "?N", [("fact", "?X", "?Y")])]]
    steps = [("query", q, {}) for q in rng.sample(queries, 4)]
    steps += [("learn", ("fact", "new", nodes[0]), [], {})] + [("query", q, {}) for q in rng.sample(queries, 3)]
    return {"tables": tables, "rules": [(0, h, b) for h, b in rules], "modules": 1, "steps": steps, "long": True}


def gen(rng, i, tier):
    if i % 250 == 3:
        return gen_long(rng)
    pool = POOL[:rng.randint(3, 6)]
    if rng.random() < 0.25:
        # values that look alike, and values that are nothing
        pool = rng.sample(["a", "", 0, "0", 1, "1", "A", "b", -1, 2.5], rng.randint(3, 6))
    tables = {}
    arity = {}
    for k in range(rng.randint(1, 3)):
        n = rng.choice([1, 1, 2, 2, 3])
        rows = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            row = [rng.choice(pool) for _ in range(n)]
            if row not in rows:
                rows.append(row)
        tables["t" + str(k)] = rows
        arity["t" + str(k)] = n
    edges = []
    for _ in range(rng.randint(0, 6)):
        x, y = sorted(rng.sample(range(len(pool)), 2))
        if [pool[x], pool[y]] not in edges:
            edges.append([pool[x], pool[y]])
    tables["edge"] = edges
    arity["edge"] = 2
    numbers = []
    for p in pool:
        if rng.random() < 0.6:
            numbers.append([p, rng.randint(0, 5)])
    tables["num"] = numbers

    rules = []   # (module, predicate, head, body)
    known = dict(arity)
    for k in range(rng.randint(1, 4)):
        name = "p" + str(k)
        if rng.random() < 0.3:
            made, extra = recursive(rng, name, known, pool)
            rules += made
            known[name] = 2
            known.update(extra)
            continue
        n = rng.choice([0, 1, 1, 2, 2, 3])
        for _ in range(rng.choice([1, 1, 2, 3])):
            rules.append(plain_rule(rng, name, n, known, pool))
        if rng.random() < 0.2:
            # the predicate has an extension in a table as well
            tables[name] = [r for r in [[rng.choice(pool) for _ in range(n)] for _ in range(rng.randint(1, 3))]]
            tables[name] = [r for x, r in enumerate(tables[name]) if r not in tables[name][:x]]
        known[name] = n
    higher = rng.random() < 0.4
    n_modules = rng.choice([1, 1, 2])
    rules = [(rng.randrange(n_modules), head, body) for head, body in rules]
    if higher:
        rules.append((0, ("holds", "?A"), [("scoped", "?A")]))
        rules.append((0, ("fails", "?Body"), [("not", "?Body")]))
        rules.append((0, ("counts", "?E1", "?B"), [("count", "?E1", "?B")]))
        rules.append((0, ("finds", "?V", "?B", "?L"), [("find_all", "?V", "?B", "?L")]))
        rules.append((0, ("either", "?A", "?B", "?X"), [("$disjunction", [[("scoped", "?A"), ("equals", "?X", "first")], [("scoped", "?B"), ("equals", "?X", "second")], [("equals", "?X", "none")]])]))
        rules.append((0, ("deeper", "?B"), [("holds", "?B")]))
        rules.append((0, ("claim", "?Atom"), [("destructure", "?Atom", "edge", "?X", "?Y"), ("edge", "?X", "?Y")]))
        rules.append((0, ("turned", "?X", "?P", "?Y"), [("destructure", "?X", "?P", "?Y", "?Z"), ("edge", "?Z", "?Y")]))
    rng.shuffle(rules)
    steps = []
    for _ in range(rng.randint(4, 7)):
        p = rng.random()
        if p < 0.2:
            known_now = dict(known)
            name = rng.choice(["p0", "p0", "new"])
            n = known.get(name, 2)
            below = {x: a for x, a in known.items() if x[0] in "te"}
            head, body = plain_rule(rng, name, n, below, pool)
            if rng.random() < 0.4:
                head, body = (name, *[rng.choice(pool) for _ in range(n)]), []
            known["new"] = known.get("new", 2)
            binding = {}
            if rng.random() < 0.4:
                # what is known when a rule is learned becomes part of it
                binding = {v: rng.choice(pool) for v in rng.sample(NAMES, rng.randint(1, 3))}
            steps.append(("learn", head, body, binding))
            if rng.random() < 0.25:
                # a recursive rule, of which something is known when it is learned
                v, binding = rng.choice([("?Y", {"Y": rng.choice(pool)}), ("?X", {"X": rng.choice(pool)}), ("?Z", {"Q": "q"})])
                steps.append(("learn", ("reach", "?X", "?Y"), [("edge", "?X", "?Y")], {}))
                steps.append(("learn", ("reach", "?X", "?Y"), [("edge", "?X", "?Z"), ("reach", "?Z", "?Y")], binding))
                steps.append(("query", [("reach", rng.choice(["?A", "?X", rng.choice(pool)]), rng.choice(["?B", "?Y"]))], {}))
                known["reach"] = 2
        elif p < 0.45 and higher:
            inner = [call(rng, known, pool, ["?$1", "?$2", "?$3"]) for _ in range(rng.randint(1, 2))]
            other = [call(rng, known, pool, ["?$1", "?$2", "?$3"])]
            query = []
            if rng.random() < 0.5:
                query.append(call(rng, {n: a for n, a in known.items() if a}, pool, ["?$1", "?$2"]))
            known_now = [x for atom in query for x in atom[1:] if str(x).startswith("?")] + pool
            taken = [("edge", rng.choice(known_now), rng.choice(known_now))]
            query.append(rng.choice([("claim", taken), ("turned", taken, "?$5", "?$6"), ("turned", taken, "edge", "?$6"), ("holds", inner), ("fails", inner), ("counts", "?$9", inner), ("finds", "$1", inner, "?$8"), ("either", inner, other, "?$7"), ("deeper", inner)]))
            steps.append(("query", query, {}))
        else:
            names = ["?" + n for n in NAMES] if rng.random() < 0.6 else ["?$1", "?$2", "?$3"]
            query = [call(rng, known, pool, names) for _ in range(rng.choice([1, 1, 1, 2, 2]))]
            binding = {}
            for v in names[:3]:
                if rng.random() < 0.2:
                    binding[v[1:]] = rng.choice(pool)
            if rng.random() < 0.2:
                query.append(("not", [call(rng, known, pool, names)]))
            steps.append(("query", query, binding))
    return {"tables": tables, "rules": rules, "modules": n_modules, "steps": steps}


def call(rng, known, pool, names):
    name = rng.choice(sorted(known))
    return (name, *[rng.choice(names) if rng.random() < 0.7 else rng.choice(pool) for _ in range(known[name])])


def recursive(rng, name, known, pool):
    base = rng.choice(["edge", "edge"])
    a, b, c = rng.sample(NAMES, 3)
    a, b, c = "?" + a, "?" + b, "?" + c
    if rng.random() < 0.3:
        other = name + "odd"
        return [((name, a, b), [(base, a, c), (other, c, b)]), ((other, a, b), [(base, a, b)]), ((other, a, b), [(base, a, c), (name, c, b)])], {other: 2}
    first = ((name, a, b), [(base, a, b)])
    step = [(base, a, c), (name, c, b)]
    if rng.random() < 0.3:
        step = [(base, c, b), (name, a, c)]
    if rng.random() < 0.3:
        step.append(("num", b, "?N"))
    second = ((name, a, b), step)
    rules = [first, second]
    if rng.random() < 0.2:
        rules.append(((name, a, a), []))
    if rng.random() < 0.3:
        rules.append(((name, rng.choice(pool), rng.choice(pool)), []))
    rng.shuffle(rules)
    return rules, {}


def plain_rule(rng, name, n, known, pool):
    if rng.random() < 0.2 or not known:
        return ((name, *[rng.choice(pool) for _ in range(n)]), [])
    names = ["?" + v for v in rng.sample(NAMES, 4)]
    body, bound = [], []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        atom = call(rng, known, pool, names)
        body.append(atom)
        bound += [a for a in atom[1:] if isinstance(a, str) and a.startswith("?")]
    if rng.random() < 0.25:
        # a disjunction: its alternatives bind the same variable
        v = rng.choice(names)
        alternatives = []
        for _ in range(rng.randint(2, 3)):
            part = [call(rng, {x: a for x, a in known.items() if a}, pool, [v] * 3 + names)]
            if v not in part[0] and rng.random() < 0.7:
                part.append(("equals", v, rng.choice(pool)) if v in bound or rng.random() < 0.5 else ("edge", v, "?Z9"))
            alternatives.append(part)
        body.append(("$disjunction", alternatives))
        if all(v in [x for atom in part for x in atom[1:]] for part in alternatives) or rng.random() < 0.3:
            # (or: some alternatives leave it open, and then there is no consequence)
            bound.append(v)
    if bound and rng.random() < 0.25:
        inner = [call(rng, known, pool, bound + ["?Local"])]
        body.append((rng.choice(["not", "not", "scoped", "none"]), inner))
    if bound and rng.random() < 0.15:
        body.append(("num", rng.choice(bound), "?N"))
        body.append((rng.choice(["greater_than", "less_than"]), "?N", rng.randint(0, 5)))
    head = []
    for _ in range(n):
        if bound and rng.random() < 0.85:
            head.append(rng.choice(bound))
        else:
            head.append(rng.choice(pool))
    return ((name, *head), body)


def filled(term, binding):
    if isinstance(term, (list, tuple)):
        return type(term)(filled(t, binding) for t in term)
    return binding.get(term[1:], term) if isinstance(term, str) and term.startswith("?") else term


def run(case, mon):
    modules = [TableModule(case["tables"])] + [InferenceModule() for _ in range(case["modules"])]
    rules = {}
    for m, head, body in case["rules"]:
        modules[1 + m].insert_rule(InferenceRule(to_atoms(head), to_atoms(body)))
        rules.setdefault(head[0], []).append((list(head[1:]), body))
    solver = Solver(Model(modules))
    predicates = set(rules) | set(case["tables"])
    text = repr(case["rules"])
    if "p0odd" in text or any(h[0] in [a[0] for a in b] for _, h, b in case["rules"]):
        mon.count("recursive_programs")
    if "$disjunction" in text:
        mon.count("disjunctions")
    for step in case["steps"]:
        if step[0] == "learn":
            _, head, body, binding = step
            result = solver.solve([("learn_rule", to_atoms(head), to_atoms(body))], dict(binding))
            expect(len(result) == case["modules"] or len(result) == 1, "learning a rule failed", rule=step, observed=result)
            # every inference module learns it
            head, body = filled(head, binding), filled(body, binding)
            rules.setdefault(head[0], []).append((list(head[1:]), body))
            mon.count("learned_rules")
            mon.event("learn", head, body)
            continue
        _, query, binding = step
        if any(a[0] not in rules and a[0] not in case["tables"] and a[0] == "new" for a in flat(query)):
            continue
        ref = RefSolver(case["tables"], rules)
        try:
            want = ref.solve(query, binding)
        except (Fail, RecursionError):
            mon.count("not_determined")
            continue
        got = solver.solve(to_atoms(query), dict(binding))
        loose = unordered_vars(query) | {a[3][1:] for a in query if a[0] == "finds"}
        got_keys = sorted({solution_key(s, loose) for s in got})
        want_keys = sorted({solution_key(s, loose) for s in want})
        mon.event("query", query, binding, len(got))
        if got_keys != want_keys:
            relevant = {n: r for n, r in rules.items()}
            word = "missing" if set(want_keys) - set(got_keys) else "not a consequence of the facts and the rules"
            fail("a solution is " + word, query=query, binding=binding, observed=got[:20], expected=want[:20], rules=relevant, tables=case["tables"])
        expect(len(got) == len(got_keys), "a solution is returned more than once", query=query, binding=binding, observed=got, rules=rules, tables=case["tables"])
        mon.count("queries")
        mon.count("rule_steps", ref.work)
        if "long" in case:
            mon.count("long_programs")
        if want:
            mon.count("with_solutions")
            if any(a[0] in rules for a in flat(query)):
                mon.nontrivial((case["tables"], rules, query, binding))
                mon.sample({"query": query, "rules": {n: rules[n] for n in rules if n in [a[0] for a in query]}, "solutions": want[:3]})
        if any(a[0] in ("holds", "fails", "counts", "finds", "either", "deeper") for a in query):
            mon.count("passed_bodies")


def transcript(case, log_stats):
    """ what the queries give, literally: for comparisons between runs """
    modules = [TableModule(case["tables"])] + [InferenceModule() for _ in range(case["modules"])]
    rules = {}
    for m, head, body in case["rules"]:
        modules[1 + m].insert_rule(InferenceRule(to_atoms(head), to_atoms(body)))
        rules.setdefault(head[0], []).append((list(head[1:]), body))
    solver = Solver(Model(modules), log_stats=log_stats)
    lines = []
    for step in case["steps"]:
        if step[0] == "learn":
            rules.setdefault(step[1][0], []).append((list(step[1][1:]), step[2]))
            lines.append(repr(solver.solve([("learn_rule", to_atoms(step[1]), to_atoms(step[2]))], dict(step[3]))))
            continue
        try:
            RefSolver(case["tables"], rules).solve(step[1], step[2])
        except (Fail, RecursionError):
            continue
        try:
            lines.append(repr([{k: from_atoms(v) for k, v in b.items()} for b in solver.solve(to_atoms(step[1]), dict(step[2]))]))
        except Exception as e:
            lines.append(type(e).__name__ + ": " + str(e))
    return lines


def flat(atoms):
    for a in atoms:
        if isinstance(a, tuple):
            yield a
            for x in a:
                if isinstance(x, list):
                    yield from flat(x)


def shrink(case):
    if len(case["steps"]) > 1:
        for k in range(len(case["steps"])):
            yield dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
    for k in range(len(case["rules"])):
        yield dict(case, rules=case["rules"][:k] + case["rules"][k + 1:])
    for k, (m, head, body) in enumerate(case["rules"]):
        for b in range(len(body)):
            yield dict(case, rules=case["rules"][:k] + [(m, head, body[:b] + body[b + 1:])] + case["rules"][k + 1:])
    for name, rows in case["tables"].items():
        for r in range(len(rows)):
            yield dict(case, tables=dict(case["tables"], **{name: rows[:r] + rows[r + 1:]}))
