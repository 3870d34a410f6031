""" C11: the optimizer rearranges a query, it does not rewrite it """
from collections import Counter

from rv.checks.c10 import gen as gen_query, make_model, optimized
from rv.core import expect, fail
from rv.formula import variables as own_variables
from rv.lib import from_atoms

PID = "C11"
RULE = ("the random queries of C10 plus queries with repeated atoms and disconnected parts; the atoms of the optimized query are counted, and its first atom and its isolated parts are "
        "checked against the documented strategy; non-trivial: the query has at least three atoms; distinct by query, sizes and root variables")
ASSUMPTIONS = ["the strategy is the one the optimizer refers to (Warren 1981): names are resolved outside of bodies, the cheapest goal comes first, independent parts are isolated"]
CASES = {"quick": 100000, "thorough": 600000}
FLOORS = {"queries": 40000, "atoms": 150000, "isolated_parts": 8000, "repeated_atoms": 2000, "names_fronted": 2000, "cheapest_first": 10000, "goals_compared": 150000, "bodies": 30000}


def gen(rng, i, tier):
    case = gen_query(rng, i, tier)
    for _ in range(4):
        if not any(a[0] == "scoped" for a in flat(case["atoms"])):
            break
        case = gen_query(rng, i, tier)
    if rng.random() < 0.15 and case["atoms"]:
        # the same fact may be mentioned more than once
        a = rng.choice(case["atoms"])
        case["atoms"].insert(rng.randint(0, len(case["atoms"])), a)
        if rng.random() < 0.5:
            ground = [(n, *rows[0]) for n, rows in case["tables"].items() if rows]
            if ground:
                g = rng.choice(ground)
                case["atoms"] += [g, tuple(list(g))]
    names = [a for a in flat(case["atoms"]) if a[0] == "resolve_name"]
    if names and rng.random() < 0.25:
        # the same name, once more: by itself, or inside a body
        bodies = [x for a in flat(case["atoms"]) for x in a[1:] if isinstance(x, list) and x and isinstance(x[0], tuple)]
        place = rng.choice(bodies + [case["atoms"]])
        place.insert(rng.randint(0, len(place)), rng.choice(names))
    if rng.random() < 0.15 and case["atoms"]:
        # a goal of an unknown kind, with its body anywhere among its arguments
        k = rng.randint(1, len(case["atoms"]))
        arguments = [rng.choice(["x", 3, "?U1", "?U2", ("f", "?U3"), ["some", "list"]]) for _ in range(rng.randint(0, 8))]
        arguments.insert(rng.randint(0, len(arguments)), case["atoms"][:k])
        case["atoms"] = [("whatever_" + str(len(arguments)), *arguments)] + case["atoms"][k:]
    if rng.random() < 0.15:
        case["atoms"] += [(a[0], *["?Z" + x[1:] if isinstance(x, str) and x.startswith("?") else x for x in a[1:]]) for a in case["atoms"] if a[0] in case["tables"]]
    return case


def flat(atoms):
    for a in atoms:
        if isinstance(a, tuple):
            yield a
            for x in a[1:]:
                if isinstance(x, list):
                    yield from flat(x)
        elif isinstance(a, list):
            yield from flat(a)


def form(x, names):
    """ what an atom says, without the order of its bodies, the names it resolves, and the isolation of its parts """
    if isinstance(x, list) and x and any(isinstance(a, tuple) for a in x):
        return ("body",) + tuple(sorted(parts(x, names), key=repr))
    if isinstance(x, list) and not x:
        return ("body",)
    if isinstance(x, list):
        return ("list",) + tuple(form(y, names) for y in x)
    if isinstance(x, tuple):
        return tuple(form(y, names) for y in x)
    return (type(x).__name__, x)


def parts(atoms, names):
    result = []
    for a in atoms:
        if a[0] == "resolve_name":
            names[repr(a)] += 1
        else:
            result.append(form(a, names))
    return result


def dissolve(atoms, was_scoped):
    """ top level atoms, with the added isolation undone """
    result = []
    for a in atoms:
        if a[0] == "scoped" and not was_scoped:
            result += dissolve(a[1], was_scoped)
        else:
            result.append(a)
    return result


def cost(atom, case, bound=()):
    if atom[0].startswith("whatever"):
        return 0
    if atom[0] not in case["sizes"]:
        return 1000000000000
    costs = []
    for sizes in (case["sizes"], case["more"], case["third"]):
        if atom[0] in sizes:
            size, argument_sizes = sizes[atom[0]]
            product = 1
            for arg, s in zip(atom[1:], argument_sizes):
                if s != "ignored" and not (isinstance(arg, str) and arg.startswith("?") and arg[1:] not in bound):
                    product *= s
            costs.append(size / product)
    return max(costs)


def run(case, mon):
    atoms, roots = case["atoms"], set(case["roots"])
    if any(a[0] == "scoped" for a in flat(atoms)):
        mon.count("skipped")
        return
    ALL.clear()
    ALL.update(own_variables(atoms))
    model = make_model(case)
    new = from_atoms(optimized(case, model))
    mon.event("optimized", new)
    details = dict(query=atoms, optimized=new, root_variables=sorted(roots), sizes=case["sizes"])

    old_names, new_names = Counter(), Counter()
    old_parts = Counter(map(repr, parts(atoms, old_names)))
    new_parts = Counter(map(repr, parts(dissolve(new, False), new_names)))
    for missing, word in ((old_parts - new_parts, "lost"), (new_parts - old_parts, "added or changed"), (old_names - new_names, "lost"), (new_names - old_names, "added or changed")):
        if missing:
            fail("the optimizer " + word + " an atom", which=sorted(missing), **details)
    mon.count("queries")
    mon.count("atoms", sum(old_parts.values()) + sum(old_names.values()))
    if max(old_parts.values(), default=0) > 1:
        mon.count("repeated_atoms")
    if len(atoms) >= 3:
        mon.nontrivial((atoms, case["sizes"], sorted(roots)))
        mon.sample(details)

    if not new:
        return
    # names are resolved once, not inside the body of another atom
    if old_names:
        for a in dissolve(new, False):
            for x in flat([a]):
                expect(x is a or x[0] != "resolve_name", "a name is resolved inside another atom, each time that it is tried", **details)
        mon.count("names_fronted")
    expect_greedy(new, set(), True, case, details, mon)
    if len(atoms) > 1:
        names = [a for a in flat(atoms) if a[0] == "resolve_name"]
        cheapest = min(cost(a, case) for a in atoms + names)
        expect(cost(new[0], case) <= cheapest * 1.000001, "the first atom is not the cheapest one", first_cost=cost(new[0], case), cheapest=cheapest, **details)
        mon.count("cheapest_first")

    # exactly the parts that share no variable with the answer are isolated
    # (a variable that the first goal only names, is not bound by it)
    head = own_variables(list(new[0]))
    expect(new[0][0] != "scoped", "the first atom is isolated from the answer", **details)
    loose = []
    for a in new[1:]:
        if a[0] == "scoped":
            mon.count("isolated_parts")
            expect(not (variables(a[1]) - head) & roots, "a part that binds a variable of the answer is isolated from it", part=a, **details)
            expect_parts(a[1], details)
        else:
            loose.append(variables(list(a)) - head)
    expect_connected(loose, roots, details)


def expect_greedy(atoms, bound, may_be_isolated, case, details, mon):
    """ of all goals of a part that are left, the next one is the cheapest, given the variables that are bound by then """
    if not atoms:
        return
    if not may_be_isolated:
        expect_sequence(atoms, bound, case, details, mon)
        return
    everything = dissolve(atoms, False)
    first = atoms[0]
    expect_cheapest(first, everything, bound, case, details, mon)
    expect_bodies(first, bound, case, details, mon)
    bound = bound | own_variables(list(first))
    # the parts that share no variables but those of the first goal
    groups = []
    for atom in atoms[1:]:
        if atom[0] == "scoped":
            expect_greedy(atom[1], bound, True, case, details, mon)
            continue
        own = variables(list(atom)) - own_variables(list(first))
        touched = [g for g in groups if g[0] & own]
        merged = (set(own).union(*[g[0] for g in touched]), [a for a in atoms[1:] if a[0] != "scoped" and (a is atom or any(a is b for g in touched for b in g[1]))])
        groups = [g for g in groups if not any(g is t for t in touched)] + [merged]
    for _, members in groups:
        expect_sequence(members, bound, case, details, mon)


def expect_sequence(atoms, bound, case, details, mon):
    for k, atom in enumerate(atoms):
        expect_cheapest(atom, atoms[k:], bound, case, details, mon)
        expect_bodies(atom, bound, case, details, mon)
        bound = bound | own_variables(list(atom))


def expect_cheapest(atom, atoms, bound, case, details, mon):
    best = min(cost(a, case, bound) for a in atoms)
    mon.count("goals_compared", len(atoms) - 1)
    expect(cost(atom, case, bound) <= best * 1.000001, "a goal comes before a cheaper one", goal=atom, cost=cost(atom, case, bound), cheapest=best, bound=sorted(bound), **details)


def expect_bodies(atom, bound, case, details, mon):
    for argument in atom[1:]:
        if isinstance(argument, list) and argument and isinstance(argument[0], tuple):
            mon.count("bodies")
            expect_greedy(argument, bound, False, case, details, mon)


ALL = set()


def variables(term):
    """ an atom may refer to a variable by its name, like find_all does """
    result = own_variables(term)

    def named(x):
        if isinstance(x, str) and x in ALL:
            result.add(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                named(y)

    named(term)
    return result


def expect_parts(atoms, details):
    """ inside an isolated part too, what is independent after the first goal is isolated """
    if atoms:
        head = own_variables(list(atoms[0]))
        loose = [variables(list(a)) - head for a in atoms[1:] if a[0] != "scoped"]
        if loose:
            expect_connected(loose[1:], loose[0], details)
        for a in atoms:
            if a[0] == "scoped":
                expect_parts(a[1], details)


def expect_connected(groups, roots, details):
    reached = set(roots)
    remaining = list(groups)
    changed = True
    while changed:
        changed = False
        for g in list(remaining):
            if g & reached:
                reached |= g
                remaining.remove(g)
                changed = True
    expect(not remaining, "a part that shares no variable with the answer multiplies the work of the other parts", variables=remaining, **details)


def shrink(case):
    atoms = case["atoms"]
    for k in range(len(atoms)):
        yield dict(case, atoms=atoms[:k] + atoms[k + 1:])
    for r in case["roots"]:
        yield dict(case, roots=[x for x in case["roots"] if x != r])
