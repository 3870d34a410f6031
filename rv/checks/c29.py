""" C29: a mistake is reported where it is made, by name, and does no harm to what comes after """
import re

from rv.core import Inconclusive, expect, fail
from rv.formula import POOL, Formulas, predicates, random_tables
from rv.lib import *
from rv.refsolve import Fail, RefSolver, norm, solution_key, unordered_vars
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
from richard.processor.language_selector.LanguageSelector import LanguageSelector

PID = "C29"
RULE = ("random queries into which one mistake is put at a random place and depth (a relation that is not there, a query function with a result of the wrong form, a value that is needed and not bound, a body that is no list), also in a rule; "
        "and mistakes in declarations (relations, sizes, grammar rules, learned rules, sentences without a meaning); a reference evaluation tells whether the mistake is reached: then there must be an exception with a message "
        "that names it, and otherwise the solutions without it; afterwards the correct query has its own solutions; non-trivial: the mistake is reached behind or inside another atom; distinct by query and mistake")
ASSUMPTIONS = ["one mistake per query"]
CASES = {"quick": 120000, "thorough": 500000}
FLOORS = {"queries": 9000, "reached": 4000, "not_reached": 1500, "in_rule": 1000, "nested": 2000, "declarations": 2000, "after": 9000, "systems": 700,
          "ghost": 500, "none": 300, "tuple": 300, "rows": 300, "width": 300, "long": 300, "later_rows": 300, "later_width": 300, "later_long": 300, "head": 300, "greater": 300, "less": 300, "multiply": 300, "two": 300, "store": 300, "body": 300, "combined": 200, "second": 300, "first": 300}

# kind -> (the atom, what its message tells)
MISTAKES = {
    "ghost": (("ghost_one", "?Fr1"), "ghost_one"),
    "none": (("bad_none", "?Fr1"), "bad_none"),
    "tuple": (("bad_tuple", "?Fr1"), "bad_tuple"),
    "rows": (("bad_rows", "?Fr1"), "bad_rows"),
    "width": (("bad_width", "?Fr1", "?Fr2"), "bad_width"),
    "long": (("bad_long", "?Fr1"), "bad_long"),
    "later_rows": (("bad_later_rows", "?Fr1"), "bad_later_rows"),
    "later_width": (("bad_later_width", "?Fr1", "?Fr2"), "bad_later_width"),
    "later_long": (("bad_later_long", "?Fr1"), "bad_later_long"),
    "greater": (("greater_than", "?Fr1", 3), "unbound"),
    "greater2": (("greater_than", 3, "?Fr1"), "unbound"),
    "less": (("less_than", "?Fr1", 3), "unbound"),
    "less2": (("less_than", 3, "?Fr1"), "unbound"),
    "multiply": (("multiply", "?Fr1", 3, "?Fr2"), "unbound"),
    "multiply2": (("multiply", 3, "?Fr1", "?Fr2"), "unbound"),
    "two": (("equals", "?Fr1", "?Fr2"), "two variables"),
    "store": (("store", [("ghost_two", "x")]), "ghost_two"),
    "store2": (("store", ("ghost_two", "x")), "list"),
    "body": (("not", ("p", 1)), "list"),
    "body2": (("scoped", "p"), "list"),
    "combined": (("bad_pair", "?Fr1"), "bad_pair"),
    "second": (("bad_second", "?Fr1"), "bad_second"),
    "first": (("bad_first", "?Fr1"), "bad_first"),
    "head": (("learn_rule", [("p", 1)], []), "single atom"),
}

DECLARATIONS = ["predicate", "sizes", "no syn", "no arrow", "no antecedent", "rest", "nothing required", "no sem", "no list", "no list optimized", "locale", "no rule", "rule text"]


class Reached(Exception):
    pass


class Lazy(RefSolver):
    """ nothing is evaluated after the outcome of an atom is certain """

    def do_mistake(self, args, b):
        raise Reached()


class Reference(Lazy):
    """ every part of an atom is evaluated """

    def do_percentage(self, args, b):
        self.number(args[1], b)
        return super().do_percentage(args, b)

    def do_all(self, args, b):
        for s in self.solve(args[1], b):
            self.solve(args[2], dict(b, **{args[0][1:]: s[args[0][1:]]}))
        return super().do_all(args, b)


def places(atoms, path=()):
    """ all places where an atom can be put: (path to a body, index) """
    for k in range(len(atoms) + 1):
        yield path, k
    for k, atom in enumerate(atoms):
        for j, argument in enumerate(atom):
            if isinstance(argument, list) and argument and isinstance(argument[0], tuple):
                yield from places(argument, path + ((k, j),))


def put(atoms, path, k, atom):
    if not path:
        return atoms[:k] + [atom] + atoms[k:]
    (n, j), rest = path[0], path[1:]
    old = atoms[n]
    return atoms[:n] + [old[:j] + (put(old[j], rest, k, atom),) + old[j + 1:]] + atoms[n + 1:]


def gen(rng, i, tier):
    if rng.random() < 0.2:
        return {"declaration": rng.choice(DECLARATIONS), "seed": rng.randrange(10 ** 9)}
    pool = rng.sample(POOL, rng.randint(2, 5))
    numbers = rng.choice([[0, 1, 2, 3], [-3, -1, 0, 1, 4]])
    schema, tables = random_tables(rng, pool, numbers)
    formulas = Formulas(rng, schema, pool, numbers, max_depth=2)
    atoms = formulas.conjunction({}, rng.choice([1, 2, 2, 3]), 0)
    kind = rng.choice(sorted(MISTAKES))
    path, k = rng.choice(list(places(atoms)))
    in_rule = rng.random() < 0.2
    return {"tables": tables, "atoms": atoms, "kind": kind, "path": path, "place": k, "in_rule": in_rule, "system": rng.random() < 0.2, "stats": rng.random() < 0.2}


class Bad(SomeModule):
    def __init__(self, second=False):
        super().__init__()
        if second:
            self.add_relation(Relation("bad_pair", query_function=lambda values, context: [[1]]))
            self.add_relation(Relation("bad_second", query_function=lambda values, context: None))
            self.add_relation(Relation("bad_first", query_function=lambda values, context: [[2]]))
            return
        # of two relations by one name, one is wrong
        self.add_relation(Relation("bad_second", query_function=lambda values, context: [[1]]))
        self.add_relation(Relation("bad_first", query_function=lambda values, context: None))
        self.add_relation(Relation("bad_none", query_function=lambda values, context: None))
        self.add_relation(Relation("bad_tuple", query_function=lambda values, context: ([1],)))
        self.add_relation(Relation("bad_rows", query_function=lambda values, context: [(1,)]))
        self.add_relation(Relation("bad_width", query_function=lambda values, context: [[1]]))
        self.add_relation(Relation("bad_long", query_function=lambda values, context: [[1, 2], [3, 4]]))
        self.add_relation(Relation("bad_later_rows", query_function=lambda values, context: [[1], [2], (3,)]))
        self.add_relation(Relation("bad_later_width", query_function=lambda values, context: [[1, 2], [3]]))
        self.add_relation(Relation("bad_later_long", query_function=lambda values, context: [[1], [2, 3], [4]]))
        self.add_relation(Relation("bad_pair", query_function=lambda values, context: ResultIterator([None], 3)))


def keys(solutions, loose):
    return sorted(repr(solution_key(s, loose)) for s in solutions)


def run(case, mon):
    if "declaration" in case:
        return run_declaration(case, mon)
    mistake, tells = MISTAKES[case["kind"]]
    in_rule = case["in_rule"]
    atom = ("wrapped", "?Fr9") if in_rule else mistake
    atoms = put(case["atoms"], case["path"], case["place"], atom)
    judged = put(case["atoms"], case["path"], case["place"], ("mistake",))
    try:
        plain = RefSolver(case["tables"]).solve(case["atoms"], {})
        try:
            expected = Reference(case["tables"]).solve(judged, {})
        except Reached:
            expected = None
        try:
            expected_lazy = Lazy(case["tables"]).solve(judged, {})
        except Reached:
            expected_lazy = None
    except Fail:
        mon.count("not_determined")
        return
    inferences = InferenceModule()
    inferences.insert_rule(InferenceRule(("wrapped", Variable("W")), to_atoms([mistake])))
    model = Model([TableModule(case["tables"]), Bad(), Bad(True), inferences])
    details = dict(query=atoms, rule=mistake if in_rule else None, tables=case["tables"])
    # (names that find_all and find_one have as strings are not variables for the composer)
    system = case["system"] and "'find_" not in repr(atoms)
    if system:
        observed, error = ask(model, atoms, case, details)
        mon.count("systems")
    else:
        solver = Solver(model, log_stats=case["stats"])
        observed, error = None, None
        try:
            observed = solver.solve(to_atoms(atoms))
        except Exception as e:
            error = e
    mon.event("query", atoms, "error", error)
    mon.count("queries")
    mon.count(re.sub(r"\d", "", case["kind"]))
    if in_rule:
        mon.count("in_rule")
    if case["path"]:
        mon.count("nested")
    if expected is None and expected_lazy is not None and error is None:
        # the outcome of `all` or `percentage` is certain without the part with the mistake
        mon.count("skipped_part")
        if not system:
            judge(observed, expected_lazy, atoms, details)
    elif expected is None:
        mon.count("reached")
        expect(error is not None, "a mistake is not reported", mistake=mistake, observed=observed, **details)
        expect(tells in str(error), "the message does not tell what the mistake is", mistake=mistake, raised=repr(error), should_contain=tells, **details)
        if case["path"] or case["place"]:
            mon.nontrivial((atoms, case["tables"]))
        mon.sample({"query": atoms, "message": str(error)})
    else:
        mon.count("not_reached")
        expect(error is None, "a mistake is reported that was not reached", raised=repr(error), mistake=mistake, **details)
        if not system:
            judge(observed, expected, atoms, details)
    # nothing of it is left
    again = (Solver(model) if system else solver).solve(to_atoms(case["atoms"]))
    judge(again, plain, case["atoms"], details)
    mon.count("after")


def judge(observed, expected, atoms, details):
    loose = unordered_vars(atoms)
    summed = {a[2][1:] for a in atoms if a[0] in ("sum", "avg")}
    strip = lambda s: {k: v for k, v in s.items() if k not in summed and v is not None}
    a, b = keys([strip(s) for s in observed], loose), keys([strip(s) for s in expected], loose)
    expect(sorted(set(a)) == sorted(set(b)), "the correct query has other solutions", observed=a[:10], expected=b[:10], **details)


def ask(model, atoms, case, details):
    """ the query as the meaning of a sentence """
    grammar = read_grammar([{"syn": "s(E1) -> 'wrong'", "sem": lambda: to_atoms(atoms)}, {"syn": "s(E1) -> 'right'", "sem": lambda: to_atoms(case["atoms"])}])
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    system = System(model=model, input_pipeline=[FindOne(parser), FindOne(composer), FindOne(executor)], output_generator=None)
    error = None
    try:
        system.enter(SentenceRequest("wrong"))
    except Exception as e:
        error = e
    request = SentenceRequest("right")
    system.enter(request)
    return None, error


def run_declaration(case, mon):
    import random
    rng = random.Random(case["seed"])
    kind = case["declaration"]
    name = "x" + str(rng.randrange(1000))
    tables = {"p": [(1,), (2,)]}

    def sentence(rules, optimize=False, size=None):
        parser = BasicParser(read_grammar(rules))
        model = Model([TableModule(tables, sizes={"p": size} if size else None)])
        composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model) if optimize else None)
        executor = AtomExecutor(composer, model)
        system = System(model=model, input_pipeline=[FindOne(parser), FindOne(composer), FindOne(executor)], output_generator=None)
        system.enter(SentenceRequest("hello there"))

    good = [{"syn": f"s(E1) -> 'hello' {name}(E1)", "sem": lambda x: x}, {"syn": f"{name}(E1) -> 'there'", "sem": lambda: [("p", E1)]}]
    if kind == "predicate":
        bad = rng.choice([name + rng.choice([" ", "-", ".", "(", "'", "\n", "?"]) + "b", "", "-", name + " ", " " + name, name + "\n"])
        action, tells = (lambda: Relation(bad)), bad
    elif kind == "sizes":
        sizes = rng.choice([(10, [1, 2]), (10, []), (5, [3, 3, 3])])
        action, tells = (lambda: sentence(good, True, sizes)), "p"
    elif kind == "no syn":
        action, tells = (lambda: read_grammar([good[0], {"sem": lambda: []}])), "syn"
    elif kind == "no arrow":
        bad = rng.choice([f"s(E1) 'a' {name}(E1)", f"{name}(E1)", f"{name}(E1) = 'a'", f"{name}(E1) - 'a'"])
        action, tells = (lambda: read_grammar(good + [{"syn": bad}])), bad
    elif kind == "no antecedent":
        bad = rng.choice([f"-> {name}(E1)", "", f"{name} -> 'a'", f"'a' -> {name}(E1)", f"{name}(E1 -> 'a'"])
        action, tells = (lambda: read_grammar(good + [{"syn": bad}])), bad
    elif kind == "rest":
        bad = rng.choice([f"s(E1) -> {name}(E1) -> 'a'", f"s(E1) -> 'a' {name}", f"s(E1) -> {name}(E1", f"s(E1) -> 'a' ) {name}(E1)", f"s(E1) -> 'a' , {name}(E1)"])
        action, tells = (lambda: read_grammar(good + [{"syn": bad}])), bad
    elif kind == "nothing required":
        bad = rng.choice([f"{name}(E1) -> 'a'?", f"s(E1) -> 'a'? 'b'?", f"{name}(E1) ->", f"{name}(E1) -> 'a'?~'b'?", f"{name}(E1) -> 'a'?+'b'?+'c'?"])
        action, tells = (lambda: read_grammar(good + [{"syn": bad, "sem": lambda: []}])), bad
    elif kind == "no sem":
        rules = [dict(r) for r in good]
        which = rng.randrange(2)
        del rules[which]["sem"]
        action, tells = (lambda: sentence(rules, rng.random() < 0.5)), ["s(E1)", name][which]
    elif kind.startswith("no list"):
        rules = [good[0], dict(good[1], sem=lambda: rng.choice([("p", E1), "p", None, 5]))]
        action, tells = (lambda: sentence(rules, "optimized" in kind)), "list"
    elif kind == "locale":
        def action():
            parser = BasicParser(read_grammar(good))
            selector = LanguageSelector([name])
            from richard.processor.language_selector.Multilingual import Multilingual
            System(model=Model([]), input_pipeline=[FindOne(selector), FindOne(Multilingual({"other": parser}, selector))], output_generator=None).enter(SentenceRequest("hello there"))
        tells = name
    elif kind == "no rule":
        def action():
            buffer = BasicOutputBuffer()
            BasicGenerator(write_grammar([{"syn": f"s() -> 'a' {name}()"}]), Model([buffer]), buffer).generate_output()
        tells = name
    else:
        import os
        from rv.core import scratch_dir
        path = os.path.join(scratch_dir(), name + ".pl")
        with open(path, "w") as f:
            f.write("p(1).\n" * rng.randint(0, 3) + rng.choice(["q(1", "q(1) :- ", "q(1)", "q(A) :- p(A),", "q(A) :- not(p(A).", "q('a)."]) + rng.choice(["", "\n", " "]))
        action, tells = (lambda: InferenceModule().import_rules(path)), name
    error = None
    try:
        action()
    except Exception as e:
        error = e
    mon.count("declarations")
    mon.event(kind, tells, repr(error))
    expect(error is not None, "a mistake in a declaration is not reported", kind=kind, name=tells)
    expect(tells in str(error), "the message does not tell what the mistake is", kind=kind, should_contain=tells, raised=repr(error))
    mon.nontrivial((kind, tells))
    sentence(good, rng.random() < 0.5)


def shrink(case):
    if "atoms" not in case:
        return
    for k in range(len(case["atoms"])):
        if not case["path"] or case["path"][0][0] != k:
            atoms = case["atoms"][:k] + case["atoms"][k + 1:]
            if not case["path"]:
                yield dict(case, atoms=atoms, place=min(case["place"], len(atoms)) if case["place"] <= k else case["place"] - 1)
            else:
                first = (case["path"][0][0] - (1 if k < case["path"][0][0] else 0), case["path"][0][1])
                yield dict(case, atoms=atoms, path=(first,) + tuple(case["path"][1:]))
    yield dict(case, in_rule=False)
    yield dict(case, system=False)
