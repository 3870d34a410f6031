""" C28: the work for an input grows gently with its size """
import sys

from rv.app import ADJECTIVES, NOUNS, VERBS, App
from rv.cfg import Reference, random_grammar, random_text, render_rule
from rv.core import REPO, Inconclusive, expect, fail, scratch_dir
from rv.lib import *

PID = "C28"
RULE = ("jobs of a size that is doubled a few times: recursive, nested and locally ambiguous sentences, repeated sentences of random grammars, larger lexicons, nested relative clauses in a whole application, chains of inference rules, "
        "nested quantifiers over one entity, longer conjunctions, more records to store, to select and to import, longer rule texts, longer output; the executed lines of the library are counted per size, "
        "and from one size to the doubled size may grow by no more than the given factor; non-trivial: three sizes; distinct by job")
ASSUMPTIONS = ["a sentence has one reading, or none (the number of readings may grow exponentially, and all are returned)", "executed lines are the measure of work", "sizes up to 32 words, 64 rules, 256 records"]
CASES = {"quick": 700, "thorough": 8000}
FLOORS = {"jobs": 600, "sizes": 1800, "lines": 20_000_000, "parse": 120, "random": 100, "lexicon": 30, "application": 30, "rules": 30, "records": 30, "texts": 30, "output": 30, "join": 30}

CUBIC = 10        # eight for what is cubic in the limit, and some room
RANDOM = 12
SQUARE = 5.5
LINEAR = 3


def gen(rng, i, tier):
    kind = rng.choice(["parse", "parse", "parse", "random", "random", "random", "lexicon", "application", "rules", "records", "texts", "output", "join"])
    case = {"kind": kind, "seed": rng.randrange(10 ** 9)}
    if kind == "parse":
        case["nouns"] = rng.sample(["cat", "dog", "fish", "bird", "/\\w+/"], rng.randint(1, 3))
        case["shape"] = rng.choice(["left", "right", "nested", "center", "ambiguous", "attachment", "lexical", "joined", "two lists"])
        case["shuffle"] = rng.random() < 0.5
    elif kind == "random":
        case["rules"] = random_grammar(rng)
        ref = Reference(case["rules"])
        case["text"] = random_text(rng, case["rules"], ref, 8)
        case["left"] = rng.random() < 0.5
    elif kind == "lexicon":
        case["how"] = rng.choice(["words", "regs", "rules", "optional"])
    elif kind == "application":
        case["verbs"] = [rng.choice(VERBS) for _ in range(4)]
        case["nouns"] = [rng.choice(NOUNS) for _ in range(4)]
        case["options"] = {"store": rng.choice(["sqlite", "simple"]), "optimize": rng.random() < 0.5, "sized": rng.random() < 0.5}
        case["how"] = rng.choice(["that", "adjectives", "all"])
    elif kind == "rules":
        case["how"] = rng.choice(["chain", "reverse", "isa", "isa", "learned", "several", "several"])
        case["before"], case["after"] = rng.choice([(0, 1), (1, 1), (0, 2), (1, 0), (2, 1)])
    elif kind == "records":
        case["how"] = rng.choice(["insert", "select", "bound", "delete", "csv"])
        case["store"] = rng.choice(["sqlite", "simple"])
    elif kind == "texts":
        case["how"] = rng.choice(["rules", "body", "comments", "nested", "groups", "groups", "groups", "grammar", "constituents"])
        case["group"] = rng.choice(["left", "right", "both", "plain", "arguments", "and", "unclosed", "no dot", "wrong end"])
    elif kind == "output":
        case["how"] = rng.choice(["list", "parts", "failing"])
    elif kind == "join":
        case["how"] = rng.choice(["conjunction", "not", "nots", "scoped", "optimize", "none"])
    return case


class TooMuch(BaseException):
    pass


class Meter:
    TOOL = 4

    def __init__(self, limit):
        self.lines = 0
        self.limit = limit

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "rv")
        prefix = REPO + "/"

        def line(code, number):
            if not code.co_filename.startswith(prefix):
                return m.DISABLE
            self.lines += 1
            if self.lines > self.limit:
                m.set_events(self.TOOL, 0)
                raise TooMuch()

        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *args):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def grows(job, sizes, factor, mon, **what):
    """ job(n) prepares the job of size n, and gives the function that does the work and looks at the result """
    lines = []
    for n in sizes:
        work = job(n)
        limit = 6_000_000 if not lines else int(lines[-1] * factor) + 400
        try:
            with Meter(limit) as meter:
                result = work()
        except TooMuch:
            fail("the work grows too much with the size", sizes=sizes, lines=lines, more_than=limit, factor=factor, **what)
        lines.append(meter.lines)
        if len(lines) > 1:
            # what the largest factor is shows how far the bound is from what is observed
            mon.seen(what["name"] + " factor", round(lines[-1] / max(1, lines[-2]), 1))
        yield n, result
    mon.event(what["name"], list(zip(sizes, lines)))
    mon.count("sizes", len(sizes))
    mon.count("lines", sum(lines))
    mon.sample({"job": what, "sizes": sizes, "lines": lines, "factor": factor})


def terminals(case):
    return [{"syn": "n(E1) -> " + (x if x[0] == "/" else "'" + x + "'")} for x in case["nouns"]]


def run_parse(case, mon, rng):
    word = lambda: rng.choice(["cat", "dog", "fish", "bird", "cow"]) if "/\\w+/" in case["nouns"] else rng.choice(case["nouns"])
    shape = case["shape"]
    n_rules = terminals(case)
    np = [{"syn": "np(E1) -> 'the' n(E1)"}] + n_rules
    expected = 1
    if shape == "left":
        rules = [{"syn": "s(E1) -> nps(E1) 'here'"}, {"syn": "nps(E1) -> nps(E1) 'and' np(E1)"}, {"syn": "nps(E1) -> np(E1)"}] + np
        text = lambda n: " and ".join("the " + word() for _ in range(n)) + " here"
    elif shape == "right":
        rules = [{"syn": "s(E1) -> nps(E1) 'here'"}, {"syn": "nps(E1) -> np(E1) 'and' nps(E1)"}, {"syn": "nps(E1) -> np(E1)"}] + np
        text = lambda n: " and ".join("the " + word() for _ in range(n)) + " here"
    elif shape == "nested":
        rules = [{"syn": "s(E1) -> 'is' nx(E1)"}, {"syn": "nx(E1) -> 'the' n(E1)"}, {"syn": "nx(E1) -> 'the' n(E1) 'that' 'likes' nx(E2)"}] + n_rules
        text = lambda n: "is " + " that likes ".join("the " + word() for _ in range(n))
    elif shape == "center":
        rules = [{"syn": "s(E1) -> e(E1)"}, {"syn": "e(E1) -> '('+e(E1)+')'"}, {"syn": "e(E1) -> 'x'"}]
        text = lambda n: "(" * n + "x" + ")" * n
    elif shape == "ambiguous":
        rules = [{"syn": "s(E1) -> x(E1) 'end'"}, {"syn": "x(E1) -> x(E1) x(E1)"}, {"syn": "x(E1) -> 'a'"}]
        text = lambda n: "a " * n + "zyx"
        expected = 0
    elif shape == "attachment":
        rules = [{"syn": "s(E1) -> nx(E1) 'end'"}, {"syn": "nx(E1) -> nx(E1) pp(E1)"}, {"syn": "nx(E1) -> 'the' n(E1)"}, {"syn": "pp(E1) -> 'in' nx(E1)"}] + n_rules
        text = lambda n: " in ".join("the " + word() for _ in range(n)) + " !!"
        expected = 0
    elif shape == "lexical":
        rules = [{"syn": "s(E1) -> ws(E1) 'end'"}, {"syn": "ws(E1) -> w(E1) ws(E1)"}, {"syn": "ws(E1) -> w(E1)"}, {"syn": "w(E1) -> 'a'"}, {"syn": "w(E1) -> /a/"}, {"syn": "w(E1) -> /[a-c]/"}]
        text = lambda n: "a " * n + "zyx"
        expected = 0
    elif shape == "joined":
        rules = [{"syn": "s(E1) -> ds(E1)"}, {"syn": "ds(E1) -> d(E1)+ds(E1)"}, {"syn": "ds(E1) -> d(E1)"}, {"syn": "d(E1) -> /\\d/"}, {"syn": "d(E1) -> 'o'"}]
        text = lambda n: "".join(rng.choice("123o") for _ in range(2 * n))
    else:
        rules = [{"syn": "s(E1) -> as(E1) 'then' bs(E1)"}, {"syn": "as(E1) -> 'a' as(E1)"}, {"syn": "as(E1) -> 'a'"}, {"syn": "bs(E1) -> bs(E1)~','  'b'"}, {"syn": "bs(E1) -> 'b'"}]
        text = lambda n: "a " * n + "then " + rng.choice([" , ", ", "]).join(["b"] * n)
    if case["shuffle"]:
        rng.shuffle(rules)
    parser = BasicParser(read_grammar(rules))

    def job(n):
        request = SentenceRequest(text(n))
        return lambda: parser.process(request)
    for n, result in grows(job, [4, 8, 16], CUBIC, mon, name="parse " + shape, rules=[r["syn"] for r in rules]):
        number = len(result.products)
        if number != expected and expected == 1 and "/\\w+/" in case["nouns"]:
            # a word that is also matched by an expression
            raise_if(number == 0, "no reading", text(n), rules)
            return
        expect(number == expected, "the number of readings", n=n, observed=number, expected=expected, rules=[r["syn"] for r in rules])


def raise_if(condition, message, *details):
    expect(not condition, message, details=details)


def run_random(case, mon, rng):
    if case["text"] is None:
        mon.count("no_text")
        return
    rules = [("zz" if r[0] == "s" else r[0], r[1], [("rel", "zz", i[2]) if i[0] == "rel" and i[1] == "s" else i for i in r[2]], r[3]) for r in case["rules"]]
    arities = sorted({len(r[1]) for r in rules if r[0] == "zz"})
    call = lambda k: "zz(" + ", ".join(["E1", "E2", "E3"][:k]) + ")"
    syns = [render_rule(r) for r in rules] + ["s(E1) -> seq(E1) 'zend'"]
    for k in arities:
        syns += [f"seq(E1) -> seq(E1) {call(k)}" if case["left"] else f"seq(E1) -> {call(k)} seq(E1)", f"seq(E1) -> {call(k)}"]
    rng.shuffle(syns)
    parser = BasicParser(read_grammar([{"syn": s} for s in syns]))
    unit = max(1, 8 // len(case["text"]))

    def job(n):
        request = SentenceRequest(" ".join([case["text"]] * n) + " zyx")
        return lambda: parser.process(request)
    for n, result in grows(job, [unit, 2 * unit, 4 * unit], RANDOM, mon, name="random", rules=syns, text=case["text"]):
        expect(len(result.products) == 0 and result.error_type, "a sentence that no rule derives is accepted", text=case["text"], n=n, rules=syns)


def run_lexicon(case, mon, rng):
    base = [{"syn": "s(E1) -> np(E1) v(E1)"}, {"syn": "np(E1) -> 'the' n(E1)"}, {"syn": "np(E1) -> adj(E1) np(E1)"}, {"syn": "n(E1) -> 'cat'"}, {"syn": "v(E1) -> 'walks'"}, {"syn": "adj(E1) -> 'red'"}]

    def job(n):
        if case["how"] == "words":
            more = [f"n(E1) -> 'word{k}'" for k in range(n)]
        elif case["how"] == "regs":
            more = [f"n(E1) -> /\\d{{{k + 1}}}/" for k in range(n)]
        elif case["how"] == "rules":
            more = [f"c{k}(E1) -> 'x{k}' np(E1)" for k in range(n)]
        else:
            more = [f"n(E1) -> 'pre{k}'? 'word{k}' 'post{k}'?" for k in range(n)]
        rules = base + [{"syn": s} for s in more]
        rng.shuffle(rules)

        def work():
            return BasicParser(read_grammar(rules)).process(SentenceRequest("the cat walks"))
        return work
    for n, result in grows(job, [16, 32, 64], LINEAR, mon, name="lexicon " + case["how"]):
        expect(len(result.products) == 1, "the number of readings", n=n, observed=len(result.products))


def run_application(case, mon, rng):
    world = {"entities": ["anna"], "unary": {x: ["anna"] for x in NOUNS + ADJECTIVES}, "binary": {v: [("anna", "anna")] for v in VERBS}, "weight": {"anna": 7}}
    world["binary"]["lead"] = []
    app = App(world, case["options"])

    def noun(k):
        return case["nouns"][k % 4]

    def job(n):
        if case["how"] == "that":
            text = "Does a " + noun(0) + " " + case["verbs"][0] + " a " + "".join(f"{noun(k)} that {case['verbs'][k % 4]}s a " for k in range(n)) + "dog?"
        elif case["how"] == "all":
            text = "Does every " + noun(0) + " " + case["verbs"][0] + " a " + "".join(f"{noun(k)} that {case['verbs'][k % 4]}s {rng.choice(['a', '1'])} " for k in range(n)) + "dog?"
        else:
            text = "Is there a " + " ".join(ADJECTIVES[k % 3] for k in range(n)) + " cat?"
        return lambda: app.ask(text)
    for n, result in grows(job, [3, 6, 12], CUBIC, mon, name="application " + case["how"], options=case["options"]):
        expect(result == "yes", "the answer is not true in the world", n=n, observed=result)


def chain_model(n, how, before=0, after=0):
    source = SimpleDataSource()
    for k in range(n):
        source.insert("lead", ["a", "b"], [k, k + 1])

    class Facts(SomeModule):
        def __init__(self):
            super().__init__()
            self.add_relation(Relation("lead", arguments=["a", "b"], query_function=self.query))
            self.add_relation(Relation("fine", arguments=["a"], query_function=lambda values, context: [[1]]))
            self.add_relation(Relation("c0", arguments=["a"], query_function=lambda values, context: [[1]]))

        def query(self, values, context):
            return source.select("lead", ["a", "b"], values)
    inferences = InferenceModule()
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    if how in ("chain", "reverse"):
        text = "follow(A, B) :- lead(B, A).\nfollow(A, B) :- lead(C, A), follow(C, B)."
    elif how == "several":
        # the next rule anywhere in a body of several goals
        text = "\n".join(f"c{k + 1}(A) :- {'fine(A), ' * before}c{k}(A){', fine(A)' * after}." for k in range(n))
    else:
        text = "\n".join(f"c{k + 1}(A) :- c{k}(A)." for k in range(n))
    rules = SimpleInferenceRuleParser().parse(text)[0]
    model = Model([Facts(), inferences])
    for rule in rules:
        if how == "learned":
            Solver(model).solve([("learn_rule", rule.head, rule.body)])
        else:
            inferences.insert_rule(rule)
    return model


def run_rules(case, mon, rng):
    how = case["how"]

    def job(n):
        model = chain_model(n, how, case["before"], case["after"])
        if how == "chain":
            return lambda: len(Solver(model).solve([("follow", n, Variable("X"))]))
        if how == "reverse":
            return lambda: len(Solver(model).solve([("follow", n, 0)])) * n
        return lambda: len(Solver(model).solve([(f"c{n}", Variable("X"))])) * n
    for n, result in grows(job, [5, 10, 20, 40] if how in ("chain", "reverse") else [4, 8, 16], CUBIC, mon, name="rules " + how):
        expect(result == n, "the number of solutions", n=n, observed=result)


def run_records(case, mon, rng):
    from richard.data_source.CsvImporter import CsvImporter
    folder = scratch_dir()

    def source(n):
        if case["store"] == "sqlite":
            import sqlite3
            ds = Sqlite3DataSource(sqlite3.connect(":memory:"))
            ds.connection.execute("CREATE TABLE t (a INTEGER, b TEXT)")
        else:
            ds = SimpleDataSource()
        for k in range(n):
            ds.insert("t", ["a", "b"], [k, "x" + str(k % 3)])
        return ds

    def job(n):
        how = case["how"]
        if how == "csv":
            path = folder + f"/{n}.csv"
            with open(path, "w") as f:
                f.write("a,b\n" + "".join(f"{k},x{k}\n" for k in range(n)))
            ds = source(0)

            def work():
                CsvImporter().import_table_from_file("t", path, ds)
            return work, lambda: len(ds.select("t", ["a", "b"], [None, None])) == n
        if how == "insert":
            ds = source(0)

            def work():
                for k in range(n):
                    ds.insert("t", ["a", "b"], [k, "y"])
            return work, lambda: len(ds.select("t", ["a", "b"], [None, None])) == n
        ds = source(n)
        result = []
        if how == "select":
            return lambda: result.extend(ds.select("t", ["a", "b"], [None, None])), lambda: len(result) == n
        if how == "bound":
            return lambda: result.extend(ds.select("t", ["b", "a"], [None, n - 1])), lambda: len(result) == 1
        return lambda: ds.delete("t", ["b"], ["x0"]), lambda: len(ds.select("t", ["a", "b"], [None, None])) == n - (n + 2) // 3

    if case["how"] == "delete" and case["store"] == "simple":
        case = dict(case, how="insert")
    tests = {}

    def only_work(n):
        work, tests[n] = job(n)
        return work
    for n, _ in grows(only_work, [32, 64, 128, 256], LINEAR, mon, name="records " + case["how"] + " " + case["store"]):
        expect(tests[n](), "the records are not there", n=n, how=case["how"], store=case["store"])


def grouped(shape, n):
    """ a rule with n nested parentheses, and whether it can be read """
    disjunction = "(" * n + "q(A)" + " ; r(A))" * n
    if shape == "left":
        return f"p(A) :- {disjunction}.", True
    if shape == "right":
        return "p(A) :- " + "(r(A) ; " * n + "q(A)" + ")" * n + ".", True
    if shape == "both":
        return "p(A) :- " + "(s(A) ; (" * (n // 2) + "q(A)" + " ; r(A)))" * (n // 2) + ".", True
    if shape == "plain":
        return "p(A) :- " + "(" * n + "q(A), r(A)" + ")" * n + ".", True
    if shape == "arguments":
        return "p(A) :- " + "not((" * n + "q(A)" + " ; r(A)))" * n + ".", True
    if shape == "and":
        return "p(A) :- " + "(" * n + "q(A)" + " ; r(A)), s(A)" * n + ".", True
    if shape == "unclosed":
        return "p(A) :- " + "(" * n + "q(A)" + " ; r(A))" * (n - 1) + ".", False
    if shape == "no dot":
        return f"p(A) :- {disjunction}", False
    return "p(A) :- " + "(" * n + "q(A) ;" + " ; r(A))" * n + ".", False


def run_texts(case, mon, rng):
    from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
    how = case["how"]

    def job(n):
        if how == "grammar":
            rules = [{"syn": f"s(E1) -> 'a{k}' np(E1)"} for k in range(n)]
            return lambda: (read_grammar(rules), n)[1]
        if how == "constituents":
            rules = [{"syn": "s(E1) -> " + " ".join(f"'w{k}'" for k in range(n))}]
            return lambda: (read_grammar(rules), n)[1]
        if how == "rules":
            text = "".join(f"p{k}(A, {k}) :- q{k}(A, 'x').\n" for k in range(n))
        elif how == "body":
            text = "p(A) :- " + ", ".join(f"q{k}(A, B{k})" for k in range(n)) + "."
        elif how == "comments":
            text = "".join(f"# this is number {k}\np{k}(A).\n" for k in range(n))
        elif how == "groups":
            text, good = grouped(case["group"], n)
            # a text is accepted, with the one rule, or it is refused
            return lambda: n * (good == (SimpleInferenceRuleParser().parse(text)[0] is not None))
        else:
            text = "p(A) :- " + "not(" * n + "q(A)" + ")" * n + "."
        wanted = n if how in ("rules", "comments") else 1
        return lambda: len(SimpleInferenceRuleParser().parse(text)[0]) * n // wanted
    sizes = [4, 8, 16] if how in ("nested", "groups") else [8, 16, 32, 64]
    for n, result in grows(job, sizes, SQUARE, mon, name="texts " + (how + " " + case["group"] if how == "groups" else how)):
        expect(result == n, "the number of rules", n=n, how=how, group=case["group"], observed=result)


def run_output(case, mon, rng):
    how = case["how"]

    def job(n):
        if how == "list":
            rules = [{"syn": "s() -> items(E1)", "if": [("x", Variable("E1"))]},
                     {"syn": "items(E1) -> 'item' items(E2)", "if": [("next", Variable("E1"), Variable("E2"))]}, {"syn": "items(E1) -> 'end'", "if": [("last", Variable("E1"))]}]
        elif how == "parts":
            rules = [{"syn": "s() -> " + " ".join(["part(E1)"] * n), "if": [("x", Variable("E1"))]}, {"syn": "part(E1) -> 'item'"}]
        else:
            rules = [{"syn": "s() -> 'no'", "if": [("x", k + 100)]} for k in range(n)] + [{"syn": "s() -> 'yes'"}]

        class Numbers(SomeModule):
            def __init__(self):
                super().__init__()
                self.add_relation(Relation("x", arguments=["a"], query_function=lambda values, context: [[0]] if values[0] in (None, 0) else []))
                self.add_relation(Relation("next", arguments=["a", "b"], query_function=lambda values, context: [[values[0], values[0] + 1]] if values[0] < n else []))
                self.add_relation(Relation("last", arguments=["a"], query_function=lambda values, context: [[n]] if values[0] == n else []))
        buffer = BasicOutputBuffer()
        generator = BasicGenerator(write_grammar(rules), Model([Numbers(), buffer]), buffer)
        return lambda: generator.generate_output()
    for n, result in grows(job, [4, 8, 16, 32], SQUARE, mon, name="output " + how):
        wanted = {"list": "item " * n + "end", "parts": " ".join(["item"] * n), "failing": "yes"}[how]
        expect(result == wanted, "another text", n=n, how=how, observed=result)


def run_join(case, mon, rng):
    how = case["how"]

    def job(n):
        model = Model([TableModule({"p": [(1, 1), (2, 2)], "q": [(1,), (2,)]})])
        V = lambda k: Variable("V" + str(k))
        chain = [("q", V(0))] + [("p", V(k), V(k + 1)) for k in range(n)]
        if how in ("conjunction", "optimize"):
            atoms = chain
        elif how == "nots":
            atoms = [("q", V(0))] + [("not", [("p", V(0), 7)]) for k in range(n)]
        else:
            atoms = [("q", V(0))]
            if how == "scoped":
                inner = [("q", V(0))]
                for k in range(n):
                    inner = [("scoped", inner)]
                atoms += inner
            elif how == "not":
                inner = [("p", V(0), 7)]
                for k in range(n // 2 * 2 + 1):
                    inner = [("not", inner)]
                atoms += inner
            else:
                atoms += [("none", [("p", V(0), 7 + k)]) for k in range(n)]
        if how == "optimize":
            sized = Model([TableModule({"p": [(1, 1), (2, 2)], "q": [(1,), (2,)]}, sizes={"p": (2, [2, 2]), "q": (2, [2])})])
            optimizer = BasicQueryOptimizer(sized)
            rng.shuffle(atoms)
            return lambda: len(optimizer.optimize(atoms, [V(0)])) and 2
        return lambda: len(Solver(model).solve(atoms))
    for n, result in grows(job, [4, 8, 16], SQUARE if how != "optimize" else CUBIC, mon, name="join " + how):
        expect(result == 2, "the number of solutions", n=n, how=how, observed=result)


def run(case, mon):
    import random
    rng = random.Random(case["seed"])
    mon.count("jobs")
    mon.count(case["kind"])
    globals()["run_" + case["kind"]](case, mon, rng)
    mon.nontrivial({k: v for k, v in case.items()})
