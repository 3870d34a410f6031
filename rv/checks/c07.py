""" C07: the predicates of the core module mean what they are documented to mean """
import math

from rv.core import Violation, expect, fail
from rv.formula import POOL, Formulas, naming, predicates, random_tables, rename
from rv.lib import Model, Relation, ResultIterator, Solver, TableModule, Variable, from_atoms, to_atoms
from rv.refsolve import Fail, RefSolver, norm, solution_key, unordered_vars

PID = "C07"
RULE = ("random well-moded lists of atoms that nest comparisons, arithmetic, aggregates, quantifiers, negation and collecting predicates up to three levels "
        "deep over random tables (empty ones, ties, repeated values, counts in the billions); non-trivial: at least one nested body; distinct by tables and atoms")
ASSUMPTIONS = ["variables are bound before a predicate needs their value", "the range of 'all' is not empty (the library gives no result for an empty range)"]
CASES = {"quick": 90000, "thorough": 350000}
FLOORS = {"queries": 15000, "with_solutions": 5000, "nested_bodies": 10000, "count": 500, "sum": 300, "avg": 300, "arg_min": 150, "arg_max": 150, "percentage": 500,
          "not": 1000, "none": 500, "scoped": 500, "det_equals": 500, "det_greater_than": 500, "det_less_than": 500, "all": 500, "find_all": 300, "find_one": 200,
          "equals": 1000, "greater_than": 500, "less_than": 500, "multiply": 500, "let": 500, "destructure": 200, "$disjunction": 1500, "huge": 50, "large_tables": 30, "near_numbers": 400, "first_of_many": 500}


# numbers that are almost equal, with exact sums and products; numbers beyond the precision of floats; texts, like dates
CLOSE = [0.5, 0.5 + 2.0 ** -30, 0.5 - 2.0 ** -30, 1.25, 1.25 + 2.0 ** -22, -0.75]
BIG = [2 ** 53, 2 ** 53 + 1, 2 ** 53 - 1, 10 ** 20, 10 ** 20 + 1, 7]
# entities that are alike and not equal
MIXED = [1, "1", 2, "2", "1.0", 1.5, "1.5", "a", " a", "a ", "A", "[1]", "None", "True", -1, "-1"]
TEXTS = ["1990-01-31", "1990-02-01", "990", "2001-11-09", "a", "Z"]


def gen_large(rng):
    """ one table with many rows """
    n = rng.choice([70, 130, 130, 260, 260, 520, 520, 1050, 1050, 2100])
    rows = [[rng.choice(["e", "x", "é"]) + str(k), (k * 7919) % rng.choice([n, n // 2, 13]), "cd"[k % 2]] for k in range(n)]
    rng.shuffle(rows)
    limit = rng.choice([0, n // 2, n - 2, n])
    body = [("r0", "?E1", "?N1", "?E2")]
    one = body + [("greater_than", "?N1", limit)]
    two = [("r0", "?E1", "?N1", "c")]
    queries = [[("count", "?C", body)], [("count", "?C", one)], [("sum", "?C", "?N1", two)], [("avg", "?C", "?N1", body)], [("arg_max", "?E1", "?N1", body)],
               [("arg_min", "?E1", "?N1", two)], [("find_all", "E1", body, "?L")], [("find_all", ["N1", "E2"], body, "?L")], [("percentage", "?C", one, body)],
               [("det_equals", body, n)], [("det_greater_than", body, n - 1)], [("det_less_than", body, n)], [("none", one)], [("not", [("r0", "?E1", "?N1", "?E2"), ("less_than", "?N1", 0)])],
               [("all", "?E1", two, [("r0", "?E1", "?N2", "?E3"), ("less_than", "?N2", n)])], [("all", "?E1", [("r0", "?E1", "?N1", "d")], [("r0", "?E1", "?N2", "d"), ("less_than", "?N2", limit)])],
               [("find_all", "N1", body, "?L")], [("$disjunction", [body, one, two])], [("$disjunction", [two, body]), ("less_than", "?N1", limit)], [("count", "?C", [("$disjunction", [body, body]), ("r0", "?E1", "?N1", "?E3")])],
               body + [("multiply", "?N1", 3, "?C")], [("r0", rows[-1][0], "?N1", "?E2")], one + [("equals", "?E2", "d")]]
    return {"tables": {"r0": rows}, "big": {}, "queries": [(q, {}) for q in rng.sample(queries, 4)], "large": n}


def gen_near(rng):
    """ numbers that differ in the last bit only, to be compared and not to be counted with """
    numbers = []
    for x in rng.sample([0.3, 1.0, 100.0, 1e15, 1e-9, -2.5, 1e300], 2):
        numbers += [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf)]
    numbers = rng.sample(numbers, rng.randint(3, 6))
    rows = [["e" + str(k), x] for k, x in enumerate(numbers)]
    pair = [("r0", "?E1", "?N1"), ("r0", "?E2", "?N2")]
    one = [("r0", "?E1", "?N1")]
    limit = rng.choice(numbers)
    queries = [pair + [(name, "?N1", "?N2")] for name in ("less_than", "greater_than", "equals")]
    queries += [one + [(name, "?N1", limit)] for name in ("less_than", "greater_than", "equals")]
    queries += [[("arg_max", "?E1", "?N1", one)], [("arg_min", "?E1", "?N1", one)], [("find_all", "N1", one, "?L")], [("r0", "?E1", limit)], [("count", "?C", one + [("less_than", "?N1", limit)])]]
    return {"tables": {"r0": rows}, "big": {}, "queries": [(q, {}) for q in rng.sample(queries, 5)], "near": True}


def gen(rng, i, tier):
    if i % 900 == 7:
        return gen_large(rng)
    if i % 450 == 8:
        return gen_near(rng)
    pool = rng.sample(POOL, rng.randint(2, 5))
    p = rng.random()
    if p < 0.15:
        pool = rng.sample(MIXED, rng.randint(3, 6))
    elif p < 0.18:
        pool = POOL
    numbers = rng.choice([[0, 1, 2, 3], [-3, -1, 0, 1, 4], [1, 1, 2], [0, 0.5, 1, 2.25, -1.5], [10, 100, 1000000], CLOSE, CLOSE, BIG, TEXTS])
    texts = numbers is TEXTS
    schema, tables = random_tables(rng, pool, numbers)
    big = {"huge": rng.choice([0, 1, 3, 5, 10 ** 12])} if rng.random() < 0.3 else {}
    queries = []
    for _ in range(3):
        formulas = Formulas(rng, schema, pool, numbers, big=sorted(big), reuse=rng.choice([0, 0.15, 0.4]), texts=texts)
        bound = {}
        binding = {}
        if rng.random() < 0.3:
            for t in "en":
                v = formulas.fresh(t, bound)
                bound[v] = t
                binding[v] = formulas.constant(t)
        atoms = formulas.conjunction(bound, rng.choice([1, 2, 2, 3, 4]), 0)
        new = naming(rng)
        queries.append((rename(atoms, new), {new(v): value for v, value in binding.items()}))
    return {"tables": tables, "big": big, "queries": queries}


class Tables(TableModule):
    def __init__(self, tables, big):
        super().__init__(tables)
        for name, number in big.items():
            self.add_relation(Relation(name, query_function=lambda values, context, n=number: ResultIterator([None], n)))


def run(case, mon):
    module = Tables(case["tables"], case["big"])
    solver = Solver(Model([module]), log_stats=len(case["queries"]) % 2 == 1)
    for query, binding in case["queries"]:
        ref = RefSolver(case["tables"], big=case["big"])
        if "large" in case:
            mon.count("large_tables")
        try:
            want = ref.solve(query, binding)
        except Fail:
            mon.count("not_determined")
            continue
        got = solver.solve(to_atoms(query), dict(binding))
        judge(case, query, binding, got, want, mon)
        if "near" in case:
            mon.count("near_numbers")
        for k, atom in enumerate(query):
            if atom[0] in ("find_all", "find_one") and "large" not in case:
                expect_first(solver, query[:k], atom, binding, mon)


def expect_first(solver, before, atom, binding, mon):
    """ find_one gives the first one of what find_all finds """
    everything = [("find_all", *atom[1:3], "?TheFound"), ("find_one", *atom[1:3], "?TheFirst")]
    for s in solver.solve(to_atoms(before + everything), dict(binding)):
        expect(s["TheFound"] and s["TheFirst"] == s["TheFound"][0], "find_one does not give the first one that find_all finds", query=before + [atom], binding=binding, observed=s["TheFirst"], found=s["TheFound"])
        if len(s["TheFound"]) > 1:
            mon.count("first_of_many")


def summed_vars(query):
    found = {atom[2][1:] for atom in query if atom[0] in ("sum", "avg")}
    for atom in query:
        if atom[0] == "$disjunction":
            found = found.union(*[summed_vars(alternative) for alternative in atom[1]])
    return found


def judge(case, query, binding, got, want, mon):
    loose = unordered_vars(query)
    summed = summed_vars(query)
    # what the summed variable holds after the sum is not specified
    got = [{k: v for k, v in s.items() if not (k in summed and v is None)} for s in got]
    got_keys = sorted({solution_key(s, loose) for s in got})
    want_keys = sorted({solution_key(s, loose) for s in want})
    mon.event("solve", query, binding, len(got))
    if got_keys != want_keys:
        kinds = sorted(set(predicates(query)) - set(case["tables"]))
        fail("the solutions are not the documented ones", query=query, binding=binding, observed=got[:20], expected=want[:20], predicates=kinds,
             tables={n: rows for n, rows in case["tables"].items() if n in set(predicates(query))})
    expect(len(got) == len(got_keys), "a solution is returned more than once", query=query, binding=binding, observed=got, tables=case["tables"])
    mon.count("queries")
    if want:
        mon.count("with_solutions")
    nested = False
    for p in predicates(query):
        if p not in case["tables"]:
            mon.count(p)
    if any(isinstance(x, list) and x and isinstance(x[0], tuple) for a in query for x in a):
        mon.count("nested_bodies")
        mon.nontrivial((case["tables"], query))
        mon.sample({"query": query, "solutions": want[:3]})


def shrink(case):
    qs = case["queries"]
    if len(qs) > 1:
        for q in qs:
            yield dict(case, queries=[q])
        return
    atoms, binding = qs[0]
    for k in range(len(atoms)):
        yield dict(case, queries=[(atoms[:k] + atoms[k + 1:], binding)])
    for name, rows in case["tables"].items():
        for r in range(len(rows)):
            yield dict(case, tables=dict(case["tables"], **{name: rows[:r] + rows[r + 1:]}))
