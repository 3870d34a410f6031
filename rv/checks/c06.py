""" C06: solving a list of atoms is a relational join """
import copy
import sqlite3

from rv.core import expect, fail
from rv.formula import naming, rename
from rv.lib import Model, Relation, SimpleDataSource, Solver, SomeModule, Sqlite3DataSource, TableModule, Variable, to_atoms
from rv.refsolve import RefSolver, norm, solution_key

PID = "C06"
RULE = ("random tables spread over several modules and data stores (a predicate may occur in more than one of them), conjunctions of 1-6 atoms with constants, "
        "shared and repeated variables, and values that are bound beforehand; non-trivial: at least two atoms and one solution; distinct by tables and query")
ASSUMPTIONS = ["the values of a column have one type", "relations honour the values that they are given, as the documentation requires"]
CASES = {"quick": 36000, "thorough": 110000}
FLOORS = {"queries": 20000, "solutions": 30000, "queries_without_solution": 2000, "relation_calls": 60000, "multi_module_predicates": 2000, "large_joins": 12}

ENTITIES = ["a", "b", "c", "d", "o'brien", "", "x y", "A", "1", "None", "a,b", "b', 'c", "a, b", "z" * 70, "y" * 450 + "1", "y" * 450 + "2"]


def gen_large(rng):
    """ relations with many rows """
    n = rng.choice([70, 130, 130, 260, 260, 520, 1050])
    half = rng.randint(1, n - 1)
    links = [["k%d" % k, (k * 31) % n] for k in range(n)]
    ends = [[(k * 17) % n, "end%d" % (k % rng.choice([3, n]))] for k in range(n)]
    schema = {"r0": ["e", "n"], "r1": ["n", "e"], "r2": ["e"]}
    modules = [(rng.choice(["python", "sqlite", "simple"]), {"r0": links[:half], "r1": ends}), (rng.choice(["python", "sqlite"]), {"r0": links[half:], "r2": [["end%d" % k] for k in range(5)]})]
    queries = [([("r0", "?E0", "?N0")], {}), ([("r0", "?E0", "?N0"), ("r1", "?N0", "?E1")], {}), ([("r0", "?E0", "?N0"), ("r1", "?N0", "?E1"), ("r2", "?E1")], {}),
               ([("r1", "?N0", "?E1"), ("r0", "k%d" % rng.randrange(n), "?N0")], {})]
    return {"schema": schema, "modules": modules, "queries": rng.sample(queries, 2), "large": n}


def gen(rng, i, tier):
    if i % 900 == 9:
        return gen_large(rng)
    pool = rng.sample(ENTITIES, rng.randint(2, 5))
    schema = {}
    for k in range(rng.randint(1, 4)):
        schema["r" + str(k)] = [rng.choice("eeeenm") for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 4]))]
    modules = []
    for m in range(rng.randint(1, 3) if rng.random() < 0.93 else rng.randint(4, 11)):
        tables = {}
        for name, cols in schema.items():
            if m == 0 or rng.random() < 0.35:
                rows = []
                for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
                    row = [value(rng, c, pool) for c in cols]
                    if row not in rows:
                        rows.append(row)
                tables[name] = rows[:1] if not cols else rows
        modules.append((rng.choice(["python", "sqlite", "simple", "python", "sqlite", "simple", "careless"]), tables))
    queries = []
    for _ in range(rng.randint(2, 4)):
        evars = ["?E" + str(k) for k in range(rng.randint(1, 4))]
        nvars = ["?N" + str(k) for k in range(2)]
        mvars = ["?M" + str(k) for k in range(2)]
        atoms = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])):
            name = rng.choice(sorted(schema))
            args = []
            for c in schema[name]:
                if rng.random() < 0.2:
                    args.append(value(rng, c, pool))
                else:
                    args.append(rng.choice(evars if c == "e" else nvars if c == "n" else mvars))
            atoms.append((name, *args))
        binding = {}
        for v in evars + nvars + mvars + ["?Other"]:
            if rng.random() < 0.15:
                binding[v[1:]] = value(rng, {"E": "e", "O": "e", "N": "n", "M": "m"}[v[1]], pool)
        new = naming(rng)
        queries.append((rename(atoms, new), {new(v): x for v, x in binding.items()}))
    return {"schema": schema, "modules": modules, "queries": queries}


def value(rng, type, pool):
    """ e: texts; n: numbers; m: both, with texts that look like the numbers """
    if type == "m":
        return rng.choice([1, "1", 2, "2", "a"])
    return rng.choice(pool) if type == "e" else rng.randint(-1, 4)


class DbModule(SomeModule):
    def __init__(self, kind, tables, schema, calls):
        super().__init__()
        self.calls = calls
        self.source = SimpleDataSource() if kind == "simple" else Sqlite3DataSource(sqlite3.connect(":memory:"))
        self.zero = {}
        for name, rows in tables.items():
            columns = ["c" + str(k) for k in range(len(schema[name]))]
            self.zero[name] = rows
            if columns:
                if kind == "sqlite":
                    self.source.connection.execute(f"CREATE TABLE {name} ({', '.join(c + {'e': ' TEXT', 'n': ' INTEGER', 'm': ''}[t] for c, t in zip(columns, schema[name]))})")
                for row in rows:
                    self.source.insert(name, columns, list(row))
            self.add_relation(Relation(name, arguments=columns, query_function=self.query))

    def query(self, values, context):
        name = context.relation.predicate
        self.calls.append(name)
        if not context.relation.arguments:
            return [list(r) for r in self.zero[name]]
        return self.source.select(name, context.relation.arguments, values)


class Careless(SomeModule):
    """ its functions leave it to the solver to compare with the constants of an atom """
    def __init__(self, tables, calls):
        super().__init__()
        self.tables, self.calls = tables, calls
        for name in tables:
            self.add_relation(Relation(name, query_function=self.query))

    def query(self, values, context):
        self.calls.append(context.relation.predicate)
        return [list(row) for row in self.tables[context.relation.predicate]
                if all(v is None or v == x or not isinstance(a, Variable) for v, x, a in zip(values, row, context.arguments))]


def run(case, mon):
    calls = []
    modules = []
    tables = {}
    for kind, content in case["modules"]:
        for name, rows in content.items():
            tables.setdefault(name, []).extend(r for r in rows if r not in tables.get(name, []))
        if kind == "careless":
            module = Careless(content, calls)
        elif kind == "python":
            module = TableModule({n: [list(r) for r in rows] for n, rows in content.items()}, calls=calls)
        else:
            module = DbModule(kind, content, case["schema"], calls)
        modules.append(module)
    shared = [n for n in tables if sum(n in content for _, content in case["modules"]) > 1]
    solver = Solver(Model(modules), log_stats=len(case["queries"]) % 2 == 1)
    ref = RefSolver(tables)
    for query, binding in case["queries"]:
        atoms = to_atoms(list(query))
        given = dict(binding)
        before = copy.deepcopy(atoms)
        got = solver.solve(atoms, given)
        want = ref.solve(query, binding)
        mon.event("solve", query, binding, len(got))
        expect(given == binding, "solving changed the binding that was given", query=query, binding=binding, after=given)
        expect(atoms == before, "solving changed the atoms that were given", query=query)
        compare(got, want, query, binding, tables)
        mon.count("queries")
        if "large" in case:
            mon.count("large_joins")
            continue
        mon.count("solutions", len(got))
        if not want:
            mon.count("queries_without_solution")
        if any(a[0] in shared for a in query):
            mon.count("multi_module_predicates")
        if want and len(query) > 1:
            mon.nontrivial((tables, query, binding))
        first = solver.solve1(to_atoms(list(query)), dict(binding))
        if want:
            expect(first is not None and solution_key(first) in {solution_key(s) for s in want}, "the single solution is not one of the solutions", query=query, observed=first)
        else:
            expect(first is None, "a single solution where there is none", query=query, observed=first)
        # the solutions do not share state with each other or with later queries
        for s in got:
            s["_mark"] = 1
        again = solver.solve(to_atoms(list(query)), dict(binding))
        compare(again, want, query, binding, tables)
        mon.sample({"tables": tables, "query": query, "binding": binding, "solutions": want[:3]})
    mon.count("relation_calls", len(calls))


def compare(got, want, query, binding, tables):
    got_keys = sorted(solution_key(s) for s in got)
    want_keys = sorted(solution_key(s) for s in want)
    if got_keys == want_keys:
        return
    details = dict(query=query, binding=binding, observed=got, expected=want, tables={n: tables[n] for n in {a[0] for a in query} if n in tables})
    if sorted(set(got_keys)) == want_keys:
        fail("a solution is returned more than once", **details)
    if set(want_keys) - set(got_keys):
        fail("a solution is missing", **details)
    fail("a solution is returned that does not satisfy the atoms", **details)


def shrink(case):
    qs = case["queries"]
    if len(qs) > 1:
        for q in qs:
            yield dict(case, queries=[q])
    elif qs:
        atoms, binding = qs[0]
        for k in range(len(atoms)):
            yield dict(case, queries=[(atoms[:k] + atoms[k + 1:], binding)])
        for k in binding:
            yield dict(case, queries=[(atoms, {x: v for x, v in binding.items() if x != k})])
        for m, (kind, content) in enumerate(case["modules"]):
            for name, rows in content.items():
                for r in range(len(rows)):
                    less = dict(content, **{name: rows[:r] + rows[r + 1:]})
                    yield dict(case, modules=case["modules"][:m] + [(kind, less)] + case["modules"][m + 1:])
