""" planted bugs for the properties that had none """
from seeds import PARSE, SOLVE, seed
from seeds2 import COMPOSE, WRITE

# ---------------------------------------------------------------- C01
seed("c01-hash-arguments", "C01", [("entity/RuleConstituent.py",
'''        h = [c for c in arguments] + [self.predicate, self.position_type]
''',
'''        h = [len(arguments), self.predicate, self.position_type]
''')],
     "two rules with the same categories, which differ only in the way they pass their variables",
     "two derivations that differ only in the variables of a rule are taken for one",
     PARSE + '''
g = grammar("s(A) -> np(A) vp(B)", "s(A) -> np(B) vp(A)", "np(A) -> 'x'", "vp(A) -> 'y'")
r, trees = parse(g, "x y")
print(trees)
sys.exit(0 if len(trees) == 2 else 1)
''')

seed("c01-same-string", "C01", [("processor/parser/BasicParser.py",
'''        products = [BasicParserProduct(tree) for tree in sorted_trees]
''',
'''        # equal trees may be reached in different ways
        unique_trees = {}
        for tree in sorted_trees:
            unique_trees.setdefault(tree.inline_str(), tree)
        products = [BasicParserProduct(tree) for tree in unique_trees.values()]
''')],
     "two rules with the same categories, which differ only in the way they pass their variables",
     "two derivations that look the same in print are taken for one",
     PARSE + '''
g = grammar("s(A) -> np(A) np(B)", "s(A) -> np(B) np(A)", "np(A) -> 'x'")
r, trees = parse(g, "x x")
print(trees)
sys.exit(0 if len(trees) == 2 else 1)
''')

seed("c01-root-arity", "C01", [("processor/parser/earley/EarleyParser.py",
'''        for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
''',
'''        for c in list(grammar_rules.find_argument_counts(ROOT_CATEGORY))[:2]:
''')],
     "sentences with three different numbers of arguments",
     "only sentences with the first two numbers of arguments are parsed",
     PARSE + '''
g = grammar("s() -> 'a'", "s(A) -> 'b'", "s(A, B) -> 'c'")
got = [parse(g, t)[1] for t in "abc"]
print(got)
sys.exit(0 if all(len(x) == 1 for x in got) else 1)
''')

seed("c01-regexp-lines", "C01", [("processor/parser/BasicParser.py",
'''        source_text = re.sub('\\s+', ' ', request.text)
''',
'''        source_text = re.sub('[ \\t\\n\\r]+', ' ', request.text)
''')],
     "white space of an unusual kind (a form feed, a non-breaking space, a line separator)",
     "a sentence with unusual white space is not recognised",
     PARSE + '''
g = grammar("s() -> 'a' 'b'")
got = [parse(g, "a" + w + "b")[1] for w in [" ", "\\n", "\\x0c", "\\u00a0", "\\u2028"]]
print(got)
sys.exit(0 if all(len(x) == 1 for x in got) else 1)
''')

# ---------------------------------------------------------------- C03
seed("c03-unstable", "C03", [("processor/parser/tree_sort_heuristics/SortByRegExpCount.py",
'''        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            count = 1
''',
'''        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            # a single character says nothing about the quality of a reading
            count = 1 if len(node.form) > 1 else 0
''')],
     "a reading with a regular expression that matches one character", "a regular expression that matches a single character does not count as one",
     PARSE + '''
# the shallow reading with the regular expression must come last; by depth alone it would come last as well, so make it the deepest
g = grammar("s() -> x()", "x() -> y()", "y() -> /[a-z]/", "s() -> 'q'")
r, trees = parse(g, "q")
print(trees)
sys.exit(0 if trees[0] == "s(q 'q')" else 1)
''')

# ---------------------------------------------------------------- C05
# ---------------------------------------------------------------- C08
seed("c08-nested-variables", "C08", [("type/InferenceRule.py",
'''        variables.extend(get_atoms_variables(self.head))
        variables.extend(get_atoms_variables(self.body))
''',
'''        for atom in [self.head] + self.body:
            variables.extend(get_atoms_variables([term for term in atom if not isinstance(term, list)]))
''')],
     "a rule with a variable that occurs only inside a nested body (of a negation, say), called from a query that has bound a variable of the same name",
     "the local variable of a nested body in a rule takes the value of the caller's variable of the same name",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inf = InferenceModule()
inf.insert_rule(InferenceRule(("lonely", X), [("person", X), ("not", [("friend", X, Y)])]))
s = Solver(Model([Rows(person=[["ann"], ["bob"]], friend=[["ann", "bob"]]), inf]))
got = s.solve([("equals", Y, "zed"), ("lonely", X)])
print(got)
sys.exit(0 if got == [{"Y": "zed", "X": "bob"}] else 1)
''')

seed("c08-one-unbound", "C08", [("module/InferenceModule.py",
'''                    # 'john' = 'susan'
                    # check for conflicts
                    if bound_value != rule_argument:
                        return []
''',
'''                    # 'john' = 'susan'
                    # check for conflicts
                    if str(bound_value).lower() != str(rule_argument).lower():
                        return []
''')],
     "a rule with a constant in its head, asked for a value that differs only in case or type", "a value matches a constant of another type",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inf = InferenceModule()
inf.insert_rule(InferenceRule(("code", 1), []))
s = Solver(Model([inf]))
got = s.solve([("code", "1")]), s.solve([("code", 1)])
print(got)
sys.exit(0 if got == ([], [{}]) else 1)
''')

# ---------------------------------------------------------------- C10
seed("c10-shared-scope", "C10", [("processor/semantic_composer/optimizer/IsolateIndependentParts.py",
'''            if len(batch.variables & set(root_variables)) > 0:
''',
'''            if len(batch.variables & set(root_variables[:1])) > 0:
''')],
     "a sentence with more than one root variable", "the second root variable of a sentence is isolated, and lost",
     SOLVE + '''
from richard.processor.semantic_composer.optimizer.IsolateIndependentParts import IsolateIndependentParts
s = Solver(Model([Rows(a=[["1"]], b=[["2"]], c=[["3"]])]))
q = [("a", X), ("b", A), ("c", B)]
got = s.solve(IsolateIndependentParts().isolate(q, ["A", "B"]))
print(got)
sys.exit(0 if got and all("A" in r and "B" in r for r in got) else 1)
''')

# ---------------------------------------------------------------- C13
seed("c13-error-first", "C13", [("core/System.py",
'''                ('output_' + result.error_type, *result.error_args)])])
''',
'''                ('output_' + result.error_type, *[str(arg).strip().lower() for arg in result.error_args])])])
''')],
     "an unknown word with capitals", "the unknown word in the response is not spelled as the user did", '''
import sys
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.core.System import System
from richard.core.constants import *
from richard.block.FindOne import FindOne
from richard.core.BasicGenerator import BasicGenerator
from richard.entity.SentenceRequest import SentenceRequest
from richard.entity.Variable import Variable
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
out = BasicOutputBuffer()
model = Model([out])
p = SimpleGrammarRulesParser()
parser = BasicParser(p.parse_read_grammar([{"syn": "s() -> 'the' 'cat'", "sem": lambda: []}]))
W = Variable("E1")
gen = BasicGenerator(p.parse_write_grammar([{"syn": "s() -> 'unknown: ' text(E1)", "if": [("output_type", "unknown_word"), ("output_unknown_word", W)]}]), model, out)
system = System(model=model, input_pipeline=[FindOne(parser)], output_generator=gen)
system.enter(SentenceRequest("the Zebra"))
got = system.read_output()
print(got)
sys.exit(0 if "Zebra" in got else 1)
''')

# ---------------------------------------------------------------- C18
# ---------------------------------------------------------------- C23
seed("c23-start-again", "C23", [("module/BasicDialogContext.py",
'''    def start_context(self, values: list, context: ExecutionContext) -> list[list]:
        name = values[0]
        self.data_source.insert('context', ['name'], [name])
''',
'''    def start_context(self, values: list, context: ExecutionContext) -> list[list]:
        name = values[0]
        # one context at a time
        if len(self.data_source.select('context', ['name'], [None])) > 2:
            for row in self.data_source.select('context', ['name'], [None]):
                self.data_source.delete('context', ['name'], row)
        self.data_source.insert('context', ['name'], [name])
''')],
     "a fourth context that is started while three are active", "the other contexts are ended",
     SOLVE + '''
from richard.module.BasicDialogContext import BasicDialogContext
s = Solver(Model([BasicDialogContext()]))
for n in ["a", "b", "c", "d"]:
    s.solve([("start_context", n)])
got = sorted(r["X"] for r in s.solve([("context", X)]))
print(got)
sys.exit(0 if got == ["a", "b", "c", "d"] else 1)
''')

seed("c23-clear-lazily", "C23", [("module/BasicDialogContext.py",
'''    def end_context(self, values: list, context: ExecutionContext) -> list[list]:
        name = values[0]
        self.data_source.delete('context', ['name'], [name])
''',
'''    def end_context(self, values: list, context: ExecutionContext) -> list[list]:
        name = values[0]
        active = self.data_source.select('context', ['name'], [None])
        # a context is ended by the one who started it: the last one
        if [name] in active[-2:]:
            self.data_source.delete('context', ['name'], [name])
''')],
     "a context that is ended while two others were started later", "the context stays active",
     SOLVE + '''
from richard.module.BasicDialogContext import BasicDialogContext
s = Solver(Model([BasicDialogContext()]))
for n in ["a", "b", "c"]:
    s.solve([("start_context", n)])
s.solve([("end_context", "a")])
got = sorted(r["X"] for r in s.solve([("context", X)]))
print(got)
sys.exit(0 if got == ["b", "c"] else 1)
''')

# ---------------------------------------------------------------- C25
# ---------------------------------------------------------------- C26
TEST = '''
import sys, io, contextlib, unittest
from richard.core.DialogTester import DialogTester
from richard.core.Logger import Logger
from richard.core.System import System
from richard.block.FindOne import FindOne
from richard.block.FindAll import FindAll
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeProcessor import SomeProcessor
class P:
    def __init__(self, t): self.t = t
    def log(self, logger): logger.add(self.t)
    def get_output(self): return self.t
class Proc(SomeProcessor):
    def __init__(self, name, texts, error=""):
        self.name, self.texts, self.error = name, texts, error
    def get_name(self): return self.name
    def process(self, request): return ProcessResult([P(t) for t in self.texts], self.error)
class Gen:
    def __init__(self, texts): self.texts = list(texts)
    def generate_output(self): return self.texts.pop(0)
'''
seed("c26-same-name", "C26", [("core/Logger.py",
'''            if not self.show_products_processors or processor in self.show_products_processors:
''',
'''            if not self.show_products_processors or processor.get_name() in [p.get_name() for p in self.show_products_processors]:
''')],
     "two processors with the same name in one pipeline, of which one is to be logged", "the products of the other one are logged as well",
     TEST + '''
a, b = Proc("Parser", ["one"]), Proc("Parser", ["two"])
log = Logger(); log.log_all_tests(); log.log_products(a)
System(input_pipeline=[FindOne(a), FindOne(b)]).enter(SentenceRequest("x", logger=log))
print(str(log))
sys.exit(0 if "one" in str(log) and "two" not in str(log) else 1)
''')

seed("c26-lenient", "C26", [("core/DialogTester.py",
'''                self.test_case.assertEqual(output, expected)
''',
'''                if error:
                    # the output of a generator without text is None
                    self.test_case.assertEqual(str(output or expected), str(expected))
''')],
     "a test that expects a text, and gets an empty response", "an empty response is accepted for any expected text",
     TEST + '''
t = DialogTester(unittest.TestCase(), [["q", "yes"]], System(input_pipeline=[FindOne(Proc("p", ["a"]))], output_generator=Gen([""])), Logger())
try:
    with contextlib.redirect_stdout(io.StringIO()):
        t.run()
except AssertionError:
    sys.exit(0)
sys.exit(1)
''')

seed("c26-error-products", "C26", [("core/Logger.py",
'''                for product in result.products:
                    product.log(self)
''',
'''                for product in dict((str(product), product) for product in result.products).values():
                    product.log(self)
''')],
     "a processor that gives two products that are the same in print", "only one of them is logged",
     TEST + '''
class Same(P):
    def __str__(self): return "same"
class Twice(Proc):
    def process(self, request): return ProcessResult([Same("one"), Same("two")], "")
a = Twice("p", [])
log = Logger(); log.log_all_tests(); log.log_products()
System(input_pipeline=[FindAll(a)]).enter(SentenceRequest("x", logger=log))
print(str(log))
sys.exit(0 if "one" in str(log) and "two" in str(log) else 1)
''')

seed("c26-stats-empty", "C26", [("processor/semantic_executor/AtomExecutorProduct.py",
'''            if self.stats:
''',
'''            if self.stats and self.bindings:
''')],
     "statistics of a sentence that has no solutions", "the statistics of a sentence without solutions are not logged",
     TEST + '''
from richard.processor.semantic_executor.AtomExecutorProduct import AtomExecutorProduct
log = Logger()
AtomExecutorProduct([], {"river": 3}).log(log)
print(str(log))
sys.exit(0 if "river: 3" in str(log) else 1)
''')

# ---------------------------------------------------------------- C27
seed("c27-issued-variables", "C27", [("processor/semantic_composer/helper/VariableGenerator.py",
'''    def next(self) -> str:
        self.number += 1
        return self.prefix + str(self.number)
''',
'''    def next(self) -> str:
        self.number += 1
        variable = self.prefix + str(self.number)
        self.issued = getattr(self, "issued", []) + [variable]
        return variable
'''), ("processor/semantic_composer/helper/VariableGenerator.py",
'''        return variable.name.startswith(self.prefix)''',
'''        return variable.name.startswith(self.prefix) and variable.name in self.issued''')],
     "a long dialogue", "every variable that was ever made is remembered: memory and time grow with the dialogue",
     COMPOSE + '''
import tracemalloc
parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar([{"syn": "s(A) -> 'x'", "sem": lambda: [("p", e1)]}]))
composer = SemanticComposer(parser)
def once():
    r = SentenceRequest("x")
    r.set_current_product(parser, parser.process(r).products[0])
    composer.process(r)
import sys, gc
for _ in range(50): once()
gc.collect(); a = sys.getallocatedblocks()
for _ in range(2000): once()
gc.collect(); b = sys.getallocatedblocks()
print(b - a)
sys.exit(0 if b - a < 500 else 1)
''')

seed("c27-parse-memory", "C27", [("processor/parser/BasicParser.py",
'''        result = self.parser.parse(self.grammar, source_text)
''',
'''        result = self.parser.parse(self.grammar, source_text)
        if result.error_type != "":
            # for diagnosis
            self.failures = getattr(self, "failures", [])
            self.failures.append((source_text, result))
''')],
     "many sentences that are not understood", "sentences that were not understood are kept in memory",
     PARSE + '''
import gc
g = grammar("s() -> 'a'")
p = BasicParser(g)
for k in range(50): p.process(SentenceRequest("zz%d" % k))
gc.collect(); a = sys.getallocatedblocks()
for k in range(1000): p.process(SentenceRequest("zz%d" % k))
gc.collect(); b = sys.getallocatedblocks()
print(b - a)
sys.exit(0 if b - a < 500 else 1)
''')

seed("c27-null-log", "C27", [("core/Logger.py",
'''        if self.is_active() and self.show_products == ALL:
''',
'''        if result.error_type != "" and not self.is_active():
            self.entries.append(result.error_type)
        if self.is_active() and self.show_products == ALL:
''')],
     "many inputs with an error, without logging", "errors are added to a log that nobody asked for, and that all requests share",
     '''
import sys, gc
from richard.core.Logger import Logger, nullLogger
from richard.entity.ProcessResult import ProcessResult
for k in range(100):
    nullLogger.add_process_result(None, ProcessResult([], "unknown_word", ["x"]))
print(len(nullLogger.entries))
sys.exit(0 if len(nullLogger.entries) == 0 else 1)
''')

seed("c27-learned-again", "C27", [("module/SimpleMemoryModule.py",
'''    def write(self, values: list, context: ExecutionContext):
        self.data_source.insert(context.relation.predicate, context.relation.arguments, values)''',
'''    def write(self, values: list, context: ExecutionContext):
        self.data_source.insert(context.relation.predicate, context.relation.arguments, values)
        # makes it possible to undo a write
        self.written = getattr(self, "written", [])
        self.written.append((context.relation.predicate, values, context.solver))''')],
     "a long dialogue with output", "every fact that was ever written is kept in memory, with its solver",
     SOLVE + '''
import gc
from richard.module.BasicOutputBuffer import BasicOutputBuffer
out = BasicOutputBuffer()
m = Model([out])
def once():
    Solver(m).solve([("store", [("output_type", "list"), ("output_list", ["a", "b"])])])
    out.clear()
for _ in range(50): once()
gc.collect(); a = sys.getallocatedblocks()
for _ in range(1000): once()
gc.collect(); b = sys.getallocatedblocks()
print(b - a)
sys.exit(0 if b - a < 500 else 1)
''')

# ---------------------------------------------------------------- C28
seed("c28-depth-twice", "C28", [("processor/parser/tree_sort_heuristics/SortByTreeDepth.py",
'''            depth = min(depth, self.get_depth(child, base_depth - 1))
''',
'''            if self.get_depth(child, base_depth - 1) < depth:
                depth = self.get_depth(child, base_depth - 1)
''')],
     "deeply nested sentences", "the depth of a tree takes a time that is exponential in its depth",
     PARSE + '''
import time
from richard.processor.parser.tree_sort_heuristics.SortByTreeDepth import SortByTreeDepth
g = grammar("s() -> x()", "x() -> 'a' x()", "x() -> 'a'")
tree = parse_tree = BasicParser(grammar("s() -> 'a'")).process(SentenceRequest("a")).products[0].parse_tree
from richard.entity.ParseTreeNode import ParseTreeNode
for _ in range(20):
    tree = ParseTreeNode("x", [tree], "", parse_tree.rule)
calls = [0]
class Count(SortByTreeDepth):
    def get_depth(self, *a):
        calls[0] += 1
        if calls[0] > 10000: sys.exit(1)
        return super().get_depth(*a)
Count().sort([tree])
print(calls)
sys.exit(0 if calls[0] < 200 else 1)
''')

seed("c28-weak-hash", "C28", [("processor/parser/earley/entity/ChartState.py",
'''        return hash((self.rule.hash, self.dot_position, self.start_char_index, self.end_char_index))
''',
'''        return hash((self.dot_position, self.end_char_index))
''')],
     "large grammars, or long ambiguous sentences", "all states of a column have the same hash: looking one up is linear; and rules that differ in their variables only become equal",
     PARSE + '''
from richard.processor.parser.earley.entity.ChartState import ChartState
g = grammar(*(["s() -> x()"] + ["x() -> 'w%d'" % k for k in range(200)]))
calls = [0]
eq = ChartState.__eq__
def counted(self, other):
    calls[0] += 1
    return eq(self, other)
ChartState.__eq__ = counted
parse(g, "w7")
print(calls)
sys.exit(0 if calls[0] < 5000 else 1)
''')

seed("c28-solve-twice", "C28", [("module/InferenceModule.py",
'''            bindings = solver.solve(rule.body, rule_binding)
''',
'''            bindings = solver.solve(rule.body, rule_binding) if len(solver.solve(rule.body[:1], rule_binding)) > 0 else []
''')],
     "chains of rules", "the first goal of a rule is solved twice, at every level: the work doubles with each rule in a chain",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
calls = [0]
class Count(Rows):
    def query(self, values, context):
        calls[0] += 1
        return super().query(values, context)
inf = InferenceModule()
for k in range(12):
    inf.insert_rule(InferenceRule(("r%d" % k, X), [("r%d" % (k + 1), X)]))
s = Solver(Model([Count(r12=[["a"]]), inf]))
got = s.solve([("r0", X)])
print(got, calls)
sys.exit(0 if calls[0] < 50 else 1)
''')

seed("c28-root-twice", "C28", [("processor/parser/earley/tree_extract.py",
'''    trees_per_state = [create_trees_for_state(chart, state) for state in states]
''',
'''    # without a tree for each of the states there is no tree for all
    if not all(create_trees_for_state(chart, state) for state in states):
        return []
    trees_per_state = [create_trees_for_state(chart, state) for state in states]
''')],
     "deeply nested sentences", "the trees of a state are made twice at each level: the time doubles with each level",
     PARSE + '''
import richard.processor.parser.earley.tree_extract as t
g = grammar("s() -> x()", "x() -> 'a' x()", "x() -> 'a'")
calls = [0]
old = t.create_trees_for_state
def counted(*a):
    calls[0] += 1
    if calls[0] > 20000: sys.exit(1)
    return old(*a)
t.create_trees_for_state = counted
r, trees = parse(g, " ".join("a" * 14))
print(len(trees), calls)
sys.exit(0 if calls[0] < 300 else 1)
''')

# ---------------------------------------------------------------- C29
seed("c29-write-unknown", "C29", [("core/Solver.py",
'''            raise Exception("No relation called '" + predicate + "' available in the model")

        writable''',
'''            return

        writable''')],
     "a fact of an unknown relation that is stored", "it is silently dropped",
     SOLVE + '''
try:
    print(Solver(Model([])).solve([("store", [("nothing", 1)])]))
except Exception as e:
    sys.exit(0 if "nothing" in str(e) else 1)
sys.exit(1)
''')

seed("c29-tuple-body", "C29", [("core/Solver.py",
'''        if not isinstance(atoms, list):
            raise''',
'''        if not isinstance(atoms, (list, tuple)):
            raise''')],
     "a body that is a tuple of atoms, which happens when the brackets of a nested list of atoms are round", "the mistake is not reported; the query goes on with other atoms",
     SOLVE + '''
for body in [(("p", 1), ("p", 2)), (), ("p", 1)]:
    try:
        print(Solver(Model([])).solve(body))
        sys.exit(1)
    except Exception as e:
        if "list of atoms" not in str(e) and "lists of atoms" not in str(e):
            sys.exit(1)
sys.exit(0)
''')

seed("c29-greater-unbound", "C29", [("module/CoreModule.py",
'''            raise Exception("> first argument is unbound")
        if e2 is None:
            raise Exception("> second argument is unbound")

        if e1 > e2:
''',
'''            raise Exception("> first argument is unbound")

        if e2 is not None and e1 > e2:
''')],
     "a comparison of which the second argument has no value", "the comparison fails, and the mistake is not reported",
     SOLVE + '''
try:
    print(Solver(Model([])).solve([("greater_than", 3, X)]))
except Exception as e:
    sys.exit(0 if "unbound" in str(e) else 1)
sys.exit(1)
''')

seed("c29-locale-fallback", "C29", [("processor/language_selector/Multilingual.py",
'''        if incoming.locale not in self.processors:
            raise Exception("No processor available for locale " + incoming.locale)

        return self.processors[incoming.locale].process(request)
''',
'''        # en-US => en
        locale = incoming.locale if incoming.locale in self.processors else incoming.locale.split("-")[0]
        if locale not in self.processors:
            locale = list(self.processors)[0]

        return self.processors[locale].process(request)
''')],
     "a locale without processor", "the sentence is processed in another language", '''
import sys
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual
from richard.entity.ProcessResult import ProcessResult
class P:
    def process(self, request): return ProcessResult([], "")
sel = LanguageSelector(["nl"])
m = Multilingual({"en": P()}, sel)
r = SentenceRequest("x")
r.set_current_product(sel, sel.process(r).products[0])
try:
    m.process(r)
except Exception as e:
    sys.exit(0 if "nl" in str(e) else 1)
sys.exit(1)
''')
