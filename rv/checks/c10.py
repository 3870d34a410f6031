""" C10: optimizing a query does not change its answers """
import copy

from rv.core import expect, fail
from rv.formula import POOL, Formulas, naming, predicates, random_tables, rename, variables
from rv.lib import BasicQueryOptimizer, Model, Relation, ResultIterator, Solver, TableModule, from_atoms, to_atoms
from rv.refsolve import Fail, RefSolver, norm, unordered_vars

PID = "C10"
RULE = ("random well-moded queries (tables with and without sizes, names to resolve at any depth, comparisons, aggregates, quantifiers, negation) with random root variables, "
        "answered before and after optimization; sizes are right, wrong or absent; non-trivial: the optimizer changed the query; distinct by query and sizes")
ASSUMPTIONS = ["a variable of a nested body that also occurs outside of it is bound before it", "a computed value is not used as an argument of a sized relation",
               "a name resolves to one entity"]
CASES = {"quick": 50000, "thorough": 300000}
FLOORS = {"queries": 20000, "changed": 10000, "with_answers": 4000, "isolated": 4000, "names": 2000}


def gen(rng, i, tier):
    pool = rng.sample(POOL, rng.randint(2, 5))
    numbers = rng.choice([[0, 1, 2, 3], [-3, -1, 0, 1, 4], [1, 2, 7]])
    schema, tables = random_tables(rng, pool, numbers, rng.choice([1, 2, 3, 4, 5]), rng.choice([6, 8, 8, 12]), wide=rng.choice([0, 0, 0.15]))
    sizes = {}
    for name, columns in schema.items():
        if rng.random() < 0.75:
            honest = rng.random() < 0.4
            size = max(1, len(tables[name])) if honest else rng.choice([1, 10, 100, 1000, 10000])
            sizes[name] = (size, [max(1, len({r[k] for r in tables[name]})) if honest else rng.choice([1, 2, 10, 50, 1000, "ignored"]) for k in range(len(columns))])
    names = {}
    if rng.random() < 0.5:
        for k in range(2):
            names["name" + str(k)] = rng.choice(pool)
        if rng.random() < 0.5:
            sizes["resolve_name"] = (1000, [1000, 1000])
    if rng.random() < 0.1:
        # very different sizes
        for name in sizes:
            if rng.random() < 0.5:
                sizes[name] = (rng.choice([2000000, 30000000, 50000000000, 3]), sizes[name][1])
    # a second and a third module may know the same relation, with another size
    more, third = [{n: (rng.choice([1, 50, 5000, 70000]), [rng.choice([1, 20, 500]) for _ in columns]) for n, columns in schema.items() if n in sizes and rng.random() < 0.15} for _ in range(2)]
    formulas = Formulas(rng, schema, pool, numbers, apart=True, names=sorted(names), big=[], max_depth=rng.choice([1, 2, 2]))
    bound = {}
    atoms = formulas.conjunction(bound, rng.choice([1, 2, 3, 4, 5, 7] if i % 20 else [8, 10, 12, 14]), 0, only_tables=rng.random() < 0.25)
    if rng.random() < 0.2 and atoms:
        atoms.append(rng.choice(atoms)) if all(a[0] in schema for a in atoms) else None
    roots = [v for v, t in bound.items() if t != "y" and rng.random() < rng.choice([0.2, 0.5])]
    outer = [v for v, t in bound.items() if t in "en"]
    if i % 25 == 6 and outer:
        # collect a variable that is named only
        pair = formulas.table_atom({}, rng.choice("e"))
        if pair and isinstance(pair, tuple):
            atoms.append(("find_all", rng.choice([rng.choice(outer), [pair[1], rng.choice(outer)]]), [pair[0]], "?Collected"))
            roots = [v for v in roots if rng.random() < 0.3] + ["Collected"]
    new = naming(rng)
    return {"tables": tables, "sizes": sizes, "names": names, "more": more, "third": third, "atoms": rename(atoms, new), "roots": [new(v) for v in roots]}


class Named(TableModule):
    def __init__(self, tables, sizes, names):
        super().__init__(tables, sizes)
        self.names = names
        size = sizes.get("resolve_name")
        self.add_relation(Relation("resolve_name", query_function=self.resolve_name, **({"relation_size": size[0], "argument_sizes": size[1]} if size else {})))

    def resolve_name(self, values, context):
        self.calls.append(("resolve_name", tuple(values), 1))
        return [[n, e] for n, e in self.names.items() if values[0] in (None, n) and values[1] in (None, e)]


def all_tables(case):
    return dict(case["tables"], resolve_name=[[n, e] for n, e in case["names"].items()])


def make_model(case):
    modules = [Named(case["tables"], case["sizes"], case["names"])]
    for more in (case["more"], case["third"]):
        if more:
            modules.append(TableModule({n: case["tables"][n][:1] for n in more}, more))
    return Model(modules)


def optimized(case, model):
    atoms = to_atoms(case["atoms"])
    before = copy.deepcopy(atoms)
    iterations = BasicQueryOptimizer(model).optimize(atoms, list(case["roots"]))
    expect(atoms == before, "optimizing changed the atoms that were given", query=case["atoms"])
    return list(iterations.values())[-1]


def project(solutions, roots, loose):
    result = set()
    for s in solutions:
        row = []
        for r in roots:
            v = s.get(r, "<unbound>")
            row.append(("l",) + tuple(sorted((norm(x) for x in v), key=repr)) if r in loose and isinstance(v, list) else norm(v))
        result.add(tuple(row))
    return sorted(result, key=repr)


def run(case, mon):
    model = make_model(case)
    atoms, roots = case["atoms"], case["roots"]
    try:
        want = RefSolver(all_tables(case)).solve(atoms, {})
    except Fail:
        mon.count("not_determined")
        return
    if len(want) > 2000:
        # comparing this many answers with each other takes minutes
        mon.count("too_many_answers")
        return
    loose = unordered_vars(atoms)
    new = optimized(case, model)
    mon.event("optimized", from_atoms(new))
    solver = Solver(model)
    wanted = project(want, roots, loose)
    plain = project(solver.solve(to_atoms(atoms)), roots, loose)
    got = project(solver.solve(new), roots, loose)
    details = dict(query=atoms, optimized=from_atoms(new), root_variables=roots, sizes=case["sizes"], tables=case["tables"], names=case["names"])
    if got != wanted:
        fail("the optimized query has other answers", observed=got[:20], expected=wanted[:20], **details)
    if plain != wanted:
        fail("the query has other answers than its meaning", observed=plain[:20], expected=wanted[:20], **details)
    mon.count("queries")
    if want:
        mon.count("with_answers")
    if from_atoms(new) != atoms:
        mon.count("changed")
        mon.nontrivial((atoms, case["sizes"], roots))
        mon.sample({"query": atoms, "optimized": from_atoms(new), "roots": roots})
    if "scoped" in [a[0] for a in new]:
        mon.count("isolated")
    if "resolve_name" in predicates(atoms):
        mon.count("names")


KNOWN = {
    "a variable that is computed": ([("count", "?E1", [("cat", "?E2")]), ("size", "?E3", "?E1")], ["E3"]),
    "the entity of an extreme": ([("arg_max", "?E1", "?N1", [("size", "?E1", "?N1")]), ("likes", "?E1", "?E2")], ["E1"]),
    "a negation": ([("not", [("size", "?E1", "?N1")]), ("likes", "?E1", "?E2")], ["E1"]),
}


def known(finding, mon):
    """ a sized relation is put before the goal that, in the query, determines its variable """
    if finding != "optimizer-computed-variable":
        return None
    failing = []
    for name, (atoms, roots) in KNOWN.items():
        case = {"tables": {"cat": [["a"], ["b"]], "size": [["x", 2], ["y", 3], ["z", 1]], "likes": [["x", "y"], ["w", "z"]]},
                "sizes": {"size": (10, [10, 10]), "likes": (10, [10, 10])}, "names": {}, "more": {}, "third": {}, "atoms": atoms, "roots": roots}
        model = make_model(case)
        want = project(RefSolver(all_tables(case)).solve(atoms, {}), roots, set())
        plain = project(Solver(model).solve(to_atoms(atoms)), roots, set())
        if plain != want:
            fail("the query has other answers than its meaning", query=atoms, observed=plain, expected=want)
        if project(Solver(model).solve(optimized(case, model)), roots, set()) != want:
            failing.append(name)
    return f"the optimizer puts a sized relation before a goal that gives a meaning to its variable ({', '.join(failing)}) (optimizer-computed-variable)" if failing else None


def shrink(case):
    atoms = case["atoms"]
    for k in range(len(atoms)):
        less = atoms[:k] + atoms[k + 1:]
        # keep it well-moded: a variable of a later body may not lose its binding
        lost = variables(list(atoms[k])) - variables([list(a) for a in less[:k]])
        if any(isinstance(x, list) and variables(x) & lost for a in less for x in a) or any(a[0] not in case["tables"] and variables(list(a)) & lost for a in less):
            continue
        yield dict(case, atoms=less, roots=[r for r in case["roots"] if r in variables([list(a) for a in less])])
    for r in case["roots"]:
        yield dict(case, roots=[x for x in case["roots"] if x != r])
    for name, rows in case["tables"].items():
        for r in range(len(rows)):
            yield dict(case, tables=dict(case["tables"], **{name: rows[:r] + rows[r + 1:]}))
