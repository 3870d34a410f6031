""" C26: the log shows what happened in the tests that were chosen, and the tester reports the wrong answers """
import contextlib
import io
import re
import unittest

from rv.app import ADJECTIVES, NOUNS, VERBS, App, InjectedFault, gen_sentence, random_options, random_world, text_of
from rv.core import expect, fail
from rv.lib import *
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.DialogTester import DialogTester
from richard.core.Logger import Logger
from richard.entity.ProcessResult import ProcessResult
from richard.interface.SomeProcessor import SomeProcessor
from richard.processor.semantic_composer.SemanticComposerProduct import SemanticComposerProduct
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

PID = "C26"
RULE = ("dialogues that are run by DialogTester, some with wrong expectations, failing data sources, sentences that are not understood, and sentences that are repeated; all settings of the logger (all, last, no tests; "
        "products of all or of chosen processors; statistics), one or two languages, all block types; every process result is recorded at the processors, and the log is read back and must consist of "
        "these results for the chosen tests, completely and in order; the tester must fail at the first wrong answer, and only then; non-trivial: at least three products are read from the log; distinct by dialogue and settings")
ASSUMPTIONS = ["names in the log are without quotes", "statistics are compared for relations that are stored by one module"]
CASES = {"quick": 10000, "thorough": 90000}
FLOORS = {"runs": 1500, "stub_runs": 900, "verdicts": 400, "stub_products": 1500, "statistics_without_results": 15, "tests_logged": 1000, "tests_not_logged": 1500, "products_read": 2000, "trees": 700, "meanings": 1000, "bindings": 700, "statistics": 250, "errors_logged": 250, "wrong_expected": 150,
          "raised": 20, "repeated_last": 80, "locales": 50, "profiled": 50}


def gen(rng, i, tier):
    if i % 9 == 4:
        return gen_verdicts(rng)
    if rng.random() < 0.4:
        return gen_stubs(rng)
    world = random_world(rng)
    options = random_options(rng)
    if rng.random() < 0.2:
        options["locales"] = rng.choice([["base", "z"], ["z", "base"], ["z", "z", "base"]])
    texts = []
    for _ in range(rng.randint(1, 6)):
        p = rng.random()
        text = text_of(gen_sentence(rng, world["entities"]))
        texts.append(text if p < 0.75 else "zyx " + text if p < 0.85 else text[:-7] if p < 0.9 else rng.choice(texts or [text]))
    if rng.random() < 0.4:
        texts.insert(rng.randrange(len(texts)), texts[-1])
    return {"world": world, "options": options, "texts": texts, "which": rng.choice(["all", "last", "last", "none", "default"]), "products": rng.choice(["no", "all", "all", "some"]),
            "some": rng.sample(["parser", "composer", "executor", "selector"], rng.randint(1, 3)), "stats": rng.random() < 0.4,
            "wrong": rng.choice([None, None, None, rng.randrange(len(texts))]), "fault": rng.choice([None] * 9 + [rng.randint(1, 40)]), "profile": rng.random() < 0.1,
            "how": rng.choice(["other", "case", "space", "empty"])}


TEXTS = ["one", "two", "two", "", "a b", "Parser", "'x'", "ünï", "line\nline", "3", "not_understood"]
NAMES = ["Parser", "Parser", "Composer", "Executor", "p q", "x"]
PREDICATES = ["p", "q", "never", "r"]


def gen_stubs(rng):
    """ a pipeline of processors that give prepared products, and at its end, maybe, the executor with prepared meanings """
    processors = []
    for _ in range(rng.randint(1, 3)):
        processors.append({"name": rng.choice(NAMES), "results": [{"products": [rng.choice(TEXTS) for _ in range(rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 7, 14] if rng.random() < 0.9 else [40, 40, 40, 150, 300]))],
                                                                    "error": rng.choice(["", "", "", "not_understood", "unknown_word"])} for _ in range(rng.randint(1, 4))], "block": rng.choice(["FindOne", "FindAll", "TryFirst"])})
    meanings = [[rng.choice(PREDICATES) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else None
    n = rng.randint(1, 4) if rng.random() < 0.98 else rng.choice([30, 150])
    return {"stubs": processors, "meanings": meanings, "tests": n, "which": rng.choice(["all", "last", "last", "none", "default"]), "products": rng.choice(["no", "all", "some", "some"]),
            "some": [rng.random() < 0.5 for _ in range(5)], "stats": rng.random() < 0.5, "tester": rng.random() < 0.6}


ALPHABET = "abc XYZ.,0\n\t'é%{}"


def gen_verdicts(rng):
    """ prepared answers, short and long, and an expectation that differs in one place """
    answers = ["".join(rng.choice(ALPHABET) for _ in range(rng.choice([0, 1, 5, 40, 130, 700, 5000]))) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.04:
        # a long dialogue
        answers = [rng.choice(["yes", "no", "ok", str(k)]) for k in range(rng.choice([40, 120, 120, 260]))]
    expected = list(answers)
    if rng.random() < 0.8:
        k = rng.randrange(len(answers))
        a = answers[k]
        n = rng.choice([rng.randint(0, len(a)), len(a), 0])
        how = rng.choice(["insert", "replace", "cut", "case"])
        expected[k] = {"insert": a[:n] + rng.choice(ALPHABET) + a[n:], "replace": a[:n] + "#" + a[n + 1:], "cut": a[:max(0, n - 1)] + a[n:], "case": a[:n] + a[n:].swapcase()}[how]
    if rng.random() < 0.3:
        # an answer need not be a text
        k = rng.randrange(len(answers))
        answers[k] = rng.choice([5, 0, 2.5, None, ["a"], True, []])
        expected[k] = rng.choice([answers[k], str(answers[k]), "", 0])
    return {"verdicts": answers, "expected": expected, "which": rng.choice(["all", "last", "none", "default"])}


def run_verdicts(case, mon):
    answers, expected = case["verdicts"], case["expected"]
    wrong = [k for k, (a, e) in enumerate(zip(answers, expected)) if a != e]
    asked = []
    processor = Stub({"name": "Parser", "results": [{"products": ["x"], "error": ""}]}, asked)

    class Answers:
        def generate_output(self):
            return answers[len(asked) - 1]

    logger = Logger()
    {"all": logger.log_all_tests, "last": logger.log_only_last_test, "none": logger.log_no_tests, "default": lambda: None}[case["which"]]()
    system = System(model=Model([BasicOutputBuffer()]), input_pipeline=[FindOne(processor)], output_generator=Answers())
    raised = None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            DialogTester(TestCase(), tests=[["t%d" % k, e] for k, e in enumerate(expected)], system=system, logger=logger).run()
        except (Exception, AssertionError) as e:
            raised = e
    details = dict(answers=[str(a)[:300] for a in answers], expected=[str(e)[:300] for e in expected], raised=repr(raised)[:300])
    if wrong:
        expect(isinstance(raised, AssertionError), "the tester accepts a wrong answer", **details)
        expect(len(asked) == wrong[0] + 1, "the tester fails at another test than the first wrong answer", done=len(asked), **details)
        expect(f"[Computer] {answers[wrong[0]]}\n" in plain(str(logger)), "the log does not show the wrong answer", log=plain(str(logger))[-500:], **details)
    else:
        expect(raised is None and len(asked) == len(answers), "the tester does not accept the right answers", done=len(asked), **details)
    mon.count("verdicts", len(asked))
    mon.event("verdicts", len(asked), bool(wrong))


class StubProduct:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def log(self, logger):
        logger.add(self.text)

    def get_output(self):
        return self.text


class Stub(SomeProcessor):
    def __init__(self, spec, seen):
        super().__init__()
        self.spec, self.seen, self.calls = spec, seen, 0

    def get_name(self):
        return self.spec["name"]

    def process(self, request):
        result = self.spec["results"][self.calls % len(self.spec["results"])]
        self.calls += 1
        self.seen.append((self, request.text, result["error"], result["products"], None))
        return ProcessResult([StubProduct(t) for t in result["products"]], result["error"], ["w"] if result["error"] == "unknown_word" else [])


class StubComposer(SomeProcessor):
    """ gives the prepared meanings """

    def __init__(self, meanings):
        super().__init__()
        self.meanings, self.calls = meanings, 0

    def get_name(self):
        return "Meaning"

    def process(self, request):
        meaning = self.meanings[self.calls % len(self.meanings)]
        self.calls += 1
        product = SemanticComposerProduct({"Semantics": [(name, Variable("V" + str(k))) for k, name in enumerate(meaning)]}, [], [], [])
        product_log = lambda logger: logger.add("a meaning")
        object.__setattr__(product, "log", product_log)
        return ProcessResult([product], "")


def run_stubs(case, mon):
    seen = []
    asked = []

    class Facts(SomeModule):
        def __init__(self):
            super().__init__()
            for name, rows in (("p", [["1"], ["2"]]), ("q", [["x"]]), ("never", []), ("r", [["1"], ["2"], ["3"]])):
                def query(values, context, name=name, rows=rows):
                    asked.append(name)
                    return [list(r) for r in rows]
                self.add_relation(Relation(name, query_function=query))

    model = Model([Facts(), BasicOutputBuffer()])
    blocks = {"FindOne": FindOne, "FindAll": FindAll, "TryFirst": TryFirst}
    processors = [Stub(spec, seen) for spec in case["stubs"]]
    pipeline = [blocks[p.spec["block"]](p) for p in processors]
    if case["meanings"] is not None:
        composer = StubComposer(case["meanings"])
        executor = AtomExecutor(composer, model)
        original = executor.process

        def observed(request):
            before = len(asked)
            result = original(request)
            seen.append((executor, request.text, result.error_type, [list(p.bindings) for p in result.products], asked[before:]))
            return result
        executor.process = observed
        composing = composer.process

        def composed(request):
            seen.append((composer, request.text, "", ["a meaning"], None))
            return composing(request)
        composer.process = composed
        processors += [composer, executor]
        pipeline += [FindOne(composer), FindOne(executor)]
    logger = Logger()
    {"all": logger.log_all_tests, "last": logger.log_only_last_test, "none": logger.log_no_tests, "default": lambda: None}[case["which"]]()
    chosen = processors if case["products"] == "all" else [p for p, c in zip(processors, case["some"]) if c] if case["products"] == "some" else []
    if case["products"] == "all":
        logger.log_products()
    elif chosen:
        logger.log_products(*chosen)
    if case["stats"]:
        logger.log_stats()
    system = System(model=model, input_pipeline=pipeline)
    texts = ["t%d" % k for k in range(case["tests"])]
    tester = case["tester"]
    if tester:
        test_case = TestCase()
        DialogTester(test_case, tests=[[t, ""] for t in texts], system=system, logger=logger).run()
        expect(not test_case.compared or test_case.compared == [("", "")] * len(texts), "the tester did not compare the answers", compared=test_case.compared)
    else:
        for t in texts:
            system.enter(SentenceRequest(t, logger=logger))
    lines = Lines(str(logger))
    details = dict(case=case, log=plain(str(logger))[:1500])
    headers = {p.get_name() for p in processors}
    count = 0
    for k, t in enumerate(texts):
        # without the tester, there is no last test
        logged = case["which"] == "all" or (tester and case["which"] in ("last", "default") and k == len(texts) - 1)
        if tester and logged:
            expect(re.fullmatch(rf"~~\[ {k + 1} \]~*", lines.peek() or ""), "the log does not show the number of a test that is to be logged", observed=lines.peek(), **details)
            lines.pos += 1
            lines.take("[Human] " + t, "the question of the test", **details)
        for processor, text, error, products, calls in seen if logged else []:
            if text != t or not any(processor is c for c in chosen):
                continue
            lines.take(processor.get_name(), "the name of a processor that was used", **details)
            if error:
                lines.take(error, "the error of a processor", **details)
            for product in products:
                if calls is None:
                    for line in product.split("\n"):
                        if line.strip():
                            lines.take(line, "a product", **details)
                else:
                    for binding in product:
                        lines.take(str(binding), "a result", **details)
                    if case["stats"] and calls:
                        lines.take("Stats", "the statistics", **details)
                        names = sorted(set(calls))
                        shown_stats = sorted(lines.lines[lines.pos:lines.pos + len(names)])
                        expect(shown_stats == sorted(f"{name}: {calls.count(name)}" for name in names), "the statistics are not the number of times that a relation was asked for", observed=shown_stats,
                               asked={name: calls.count(name) for name in names}, **details)
                        lines.pos += len(names)
                        mon.count("statistics_without_results" if not product else "statistics")
                count += 1
        if tester and logged:
            lines.take("[Computer]", "the answer to the test", **details)
            expect(re.fullmatch(r"\d+ msecs", lines.peek() or ""), "the log does not show the time that a test took", observed=lines.peek(), **details)
            lines.pos += 1
    expect(lines.peek() is None, "the log shows more than what was asked for", more=lines.lines[lines.pos:lines.pos + 10], **details)
    mon.count("stub_runs")
    mon.count("stub_products", count)
    mon.event("stubs", len(seen), count)
    if count >= 3:
        mon.nontrivial(repr(case))


class TestCase(unittest.TestCase):
    """ a test case that notes what is compared """

    def __init__(self):
        super().__init__("assertEqual")
        self.compared = []

    def assertEqual(self, a, b, msg=None):
        self.compared.append((a, b))
        if a != b:
            raise AssertionError(f"{a!r} != {b!r}")


def plain(text):
    return re.sub("\033\\[\\d+m", "", text)


# --- the log is read back

def tree_lines(node, bars=()):
    """ (what stands before a node, its name, its form) for all nodes but the first """
    result = []
    for k, child in enumerate(node.children):
        result.append(("".join("|  " if b else "   " for b in bars) + "+- ", child.category + (f" '{child.form}'" if child.form != "" else "")))
        result += tree_lines(child, (*bars, k < len(node.children) - 1))
    return result


class Reader:
    """ reads a formatted value """

    def __init__(self, text):
        self.tokens = re.findall(r"'[^'\n]*'|[()\[\],]|[^\s()\[\],']+", text)
        self.pos = 0

    def value(self):
        t = self.tokens[self.pos]
        self.pos += 1
        if t in "([":
            items, close = [], {"(": ")", "[": "]"}[t]
            while self.tokens[self.pos] != close:
                if items and t == "(":
                    if self.tokens[self.pos] != ",":
                        raise ValueError("a comma is missing")
                    self.pos += 1
                items.append(self.value())
            self.pos += 1
            return tuple(items) if t == "(" else items
        return t

    def all(self):
        result = self.value()
        if self.pos != len(self.tokens):
            raise ValueError("more text: " + str(self.tokens[self.pos:]))
        return result


def shown(value):
    if isinstance(value, list):
        return [shown(v) for v in value]
    if isinstance(value, tuple):
        return tuple(shown(v) for v in value)
    if isinstance(value, Variable):
        return value.name
    return "'" + value + "'" if isinstance(value, str) else str(value)


def read_value(text):
    try:
        return Reader(text).all()
    except (IndexError, ValueError) as e:
        return f"unreadable ({e}): {text}"


class Lines:
    """ the lines of a log that are not empty """

    def __init__(self, text):
        self.lines = [l.rstrip() for l in plain(text).split("\n") if l.strip()]
        self.pos = 0

    def peek(self):
        return self.lines[self.pos] if self.pos < len(self.lines) else None

    def take(self, wanted, what, **details):
        line = self.peek()
        if line != wanted:
            fail("the log does not show " + what, expected=wanted, observed=line, place=self.lines[max(0, self.pos - 6):self.pos + 4], **details)
        self.pos += 1

    def until(self, *stops):
        """ the lines before one of these """
        taken = []
        while self.peek() is not None and self.peek() not in stops and not self.peek().startswith(("~~[", "[Computer]")):
            taken.append(self.peek())
            self.pos += 1
        return taken


def run(case, mon):
    if "verdicts" in case:
        return run_verdicts(case, mon)
    if "stubs" in case:
        return run_stubs(case, mon)
    app = App(case["world"], dict(case["options"]))
    logger = Logger()
    {"all": logger.log_all_tests, "last": logger.log_only_last_test, "none": logger.log_no_tests, "default": lambda: None}[case["which"]]()
    processors = {"parser": app.parser, "composer": app.composer, "executor": app.executor}
    if case["options"].get("locales"):
        processors["selector"] = app.selector
    chosen = [processors[p] for p in case["some"] if p in processors] if case["products"] == "some" else list(processors.values()) if case["products"] == "all" else []
    if case["products"] == "all":
        logger.log_products()
    elif chosen:
        logger.log_products(*chosen)
    if case["stats"]:
        logger.log_stats()

    # what the answers are: from the same application, without a logger
    twin = App(case["world"], dict(case["options"]))
    expected = [twin.ask(t) for t in case["texts"]]
    right = list(expected)
    wrong = case["wrong"]
    if wrong is not None:
        changed = {"other": expected[wrong] + "x", "case": expected[wrong].swapcase(), "space": expected[wrong] + " ", "empty": ""}[case["how"]]
        wrong = wrong if changed != expected[wrong] else None
        expected[case["wrong"]] = changed

    # the monitors: what each processor gives, and what is asked of the facts
    results = []
    turn = [-1]
    for processor in processors.values():
        def observed(request, processor=processor, original=processor.process):
            before = len(calls)
            result = original(request)
            results.append((turn[0], processor, result, calls[before:]))
            return result
        processor.process = observed
    calls = []
    select = app.facts.source.select

    def asked(table, columns, values):
        calls.append(table)
        return select(table, columns, values)
    app.facts.source.select = asked
    if case["fault"] is not None:
        left = [case["fault"]]

        def hook():
            left[0] -= 1
            if left[0] == 0:
                raise InjectedFault("the disk is full")
        app.facts.hook = hook
    enter = app.system.enter

    def entering(request):
        turn[0] += 1
        return enter(request)
    app.system.enter = entering

    test_case = TestCase()
    tester = DialogTester(test_case, tests=[[t, e] for t, e in zip(case["texts"], expected)], system=app.system, logger=logger, profile=case["profile"])
    out = io.StringIO()
    raised = None
    with contextlib.redirect_stdout(out):
        try:
            tester.run()
        except (Exception, AssertionError) as e:
            raised = e
    details = dict(texts=case["texts"], settings={k: case[k] for k in ("which", "products", "some", "stats", "wrong", "profile")}, raised=repr(raised))

    # the verdict of the tester
    done = turn[0] + 1
    n = len(case["texts"])
    if raised is None:
        expect(done == n, "the tester did not run all tests", done=done, **details)
        expect(wrong is None, "the tester accepts a wrong answer", **details)
        expect(not test_case.compared or [tuple(c) for c in test_case.compared] == list(zip(right, expected)), "the tester compared other answers than those of the system", compared=test_case.compared, right=right, **details)
    elif isinstance(raised, InjectedFault):
        mon.count("raised")
    else:
        expect(isinstance(raised, AssertionError), "the tester raises an exception where no answer is wrong", **details)
        expect(wrong is not None and done == wrong + 1, "the tester fails at another test than the first wrong answer", done=done, **details)
        mon.count("wrong_expected")
    printed = out.getvalue()
    if raised is not None:
        expect(str(logger).strip() in printed, "the log is not printed when a test fails", printed=printed[-1000:], **details)
    elif not case["profile"]:
        expect(printed.strip() == "", "something is printed while all tests succeed", printed=printed[-1000:], **details)
    mon.count("runs")
    if case["profile"]:
        mon.count("profiled")

    # the log
    lines = Lines(str(logger))
    count = 0
    for k in range(done):
        logged = case["which"] == "all" or (case["which"] in ("last", "default") and k == n - 1)
        last = k == done - 1
        mon.count("tests_logged" if logged else "tests_not_logged")
        if logged:
            if k == n - 1 and case["texts"][k] in case["texts"][:k]:
                mon.count("repeated_last")
            header = lines.peek() or ""
            expect(re.fullmatch(rf"~~\[ {k + 1} \]~*", header), "the log does not show the number of a test that is to be logged", observed=header, number=k + 1, **details)
            lines.pos += 1
            lines.take(f"[Human] {case['texts'][k]}".rstrip(), "the question of the test", **details)
            for at, processor, result, asked in results:
                if at == k and processor in chosen:
                    count += read_result(lines, processor, result, asked, app, case, mon, details)
        if last and isinstance(raised, InjectedFault):
            break
        if logged or (last and raised is not None):
            lines.take(f"[Computer] {right[k]}".rstrip(), "the answer to the test", **details)
            expect(re.fullmatch(r"\d+ msecs", lines.peek() or ""), "the log does not show the time that a test took", observed=lines.peek(), **details)
            lines.pos += 1
    expect(lines.peek() is None, "the log shows more than what was asked for", more=lines.lines[lines.pos:lines.pos + 10], before=lines.lines[max(0, lines.pos - 5):lines.pos], **details)
    mon.count("products_read", count)
    if count >= 3:
        mon.nontrivial((case["texts"], details["settings"], case["world"]))
        mon.sample({"texts": case["texts"], "settings": details["settings"], "log": plain(str(logger))[:900]})


def read_result(lines, processor, result, asked, app, case, mon, details):
    stored = set(NOUNS + ADJECTIVES + VERBS + ["entity", "lead", "weigh", "resolve_name"])
    headers = {p.get_name() for p in (app.parser, app.composer, app.executor)} | ({app.selector.get_name()} if case["options"].get("locales") else set())
    lines.take(processor.get_name(), "the name of a processor that was used", **details)
    if result.error_type:
        lines.take(result.error_type, "the error of a processor", **details)
        mon.count("errors_logged")
    for product in result.products:
        if processor is app.parser:
            tree = product.get_output()
            lines.take(tree.category, "the category of the sentence", **details)
            for before, content in tree_lines(tree):
                # a leaf may be a space
                lines.take((before + content).rstrip(), "a node of the parse tree", tree=str(tree), **details)
            mon.count("trees")
        elif processor is app.composer:
            lines.take("Executable", "the executable part of a meaning", **details)
            executable = read_value("\n".join(lines.until("Inferences", *headers)))
            expect(executable == shown(product.executable), "the log shows another executable", observed=executable, expected=product.executable, **details)
            lines.take("Inferences", "the inferences of a meaning", **details)
            inferences = read_value("\n".join(lines.until("Return variables", *headers)))
            expect(inferences == shown(product.inferences), "the log shows other inferences", observed=inferences, expected=product.inferences, **details)
            lines.take("Return variables", "the return variables of a meaning", **details)
            if product.return_variables:
                lines.take(", ".join(product.return_variables), "the return variables of a meaning", **details)
            previous = None
            titles = list(product.semantics_iterations)
            for title, value in product.semantics_iterations.items():
                if value == previous:
                    continue
                previous = value
                lines.take(title, "a step in the optimization of a meaning", **details)
                got = read_value("\n".join(lines.until(*titles, "Executable", *headers)))
                expect(got == shown(value), "the log shows another meaning", observed=got, expected=value, step=title, **details)
                mon.count("meanings")
        elif processor is app.executor:
            got = lines.until("Stats", *headers)
            expect(got == [str(b) for b in product.bindings], "the log shows other results", observed=got, expected=product.bindings, **details)
            mon.count("bindings")
            if case["stats"] and lines.peek() == "Stats" or product.stats:
                lines.take("Stats", "the statistics", **details)
                stats = dict(l.rsplit(": ", 1) for l in lines.until(*headers))
                for predicate in set(asked):
                    expect(stats.get(predicate) == str(asked.count(predicate)), "the statistics are not the number of times that a relation was asked for", predicate=predicate, observed=stats, asked=asked.count(predicate), **details)
                for predicate in stats:
                    if predicate in stored and predicate not in asked:
                        expect(False, "the statistics name a relation that was not asked for", predicate=predicate, **details)
                mon.count("statistics")
            expect(bool(product.stats) == (case["stats"] and len(asked) > 0) or not asked, "statistics are shown without being asked for, or not shown", stats=dict(product.stats), wanted=case["stats"], **details)
        else:
            lines.take(product.get_output(), "the locale that is tried", **details)
            mon.count("locales")
    return len(result.products)


def shrink(case):
    if "verdicts" in case:
        return
    if "stubs" in case:
        for k in range(len(case["stubs"])):
            if len(case["stubs"]) > 1:
                yield dict(case, stubs=case["stubs"][:k] + case["stubs"][k + 1:])
        if case["tests"] > 1:
            yield dict(case, tests=case["tests"] - 1)
        if case["meanings"]:
            yield dict(case, meanings=None)
        return
    for k in range(len(case["texts"])):
        if len(case["texts"]) > 1:
            wrong = case["wrong"]
            yield dict(case, texts=case["texts"][:k] + case["texts"][k + 1:], wrong=None if wrong is None or wrong == k else wrong - (wrong > k))
    for key, value in (("profile", False), ("stats", False), ("fault", None)):
        if case[key]:
            yield dict(case, **{key: value})
