""" more planted bugs """
from seeds import PARSE, SOLVE, seed

WRITE = '''
import sys
from richard.core.BasicGenerator import BasicGenerator
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.core.constants import *
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
out = BasicOutputBuffer()
model = Model([out])
def generator(rules):
    return BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar(rules), model, out)
def store(*atoms):
    Solver(model).solve([("store", list(atoms))])
'''

COMPOSE = '''
import sys
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.entity.SentenceRequest import SentenceRequest
from richard.core.constants import *
def compose(rules, text, composer=None):
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(rules))
    composer = SemanticComposer(parser)
    request = SentenceRequest(text)
    request.set_current_product(parser, parser.process(request).products[0])
    return composer.process(request).products[0]
'''

SPARQL = '''
import sys, types, tempfile, json
class Response:
    def __init__(self, code, data):
        self.status_code, self.data, self.text = code, data, "text"
    def json(self):
        return json.loads(self.data)
asked = []
handler = [None]
requests = types.ModuleType("requests")
def get(url, params=None, headers=None):
    asked.append(params["query"])
    return handler[0](params["query"])
requests.get = get
sys.modules["requests"] = requests
from richard.data_source.SparqlDataSource import SparqlDataSource
def rows(*bindings):
    return Response(200, json.dumps({"results": {"bindings": [{k: {"value": v} for k, v in b.items()} for b in bindings]}}))
'''

seed("c01-predict-once", "C01", [("processor/parser/earley/EarleyParser.py",
'''            j = 0
            while j < len(chart.states[i]):
''',
'''            j = 0
            # the categories that were predicted at this position already
            predicted = set()
            while j < len(chart.states[i]):
'''), ("processor/parser/earley/EarleyParser.py",
'''                    self.predict(grammar_rules, chart, state)
''',
'''                    next_category = state.rule.consequents[state.dot_position - 1].predicate
                    if next_category not in predicted:
                        predicted.add(next_category)
                        self.predict(grammar_rules, chart, state)
''')],
     "two constituents of the same category with different numbers of arguments that are expected at the same position",
     "the rules of a category are predicted for one number of arguments only, so that sentences are not understood",
     PARSE + '''
g = grammar("s() -> np(E1) 'runs'", "s() -> np(E1, E2) 'run'", "np(E1) -> 'he'", "np(E1, E2) -> 'they'")
r, one = parse(g, "he runs")
r, two = parse(g, "they run")
print(one, two)
sys.exit(0 if len(one) == len(two) == 1 else 1)
''')

seed("c03-boost-memo", "C03", [("processor/parser/tree_sort_heuristics/SortByBoost.py",
'''        results = []
        for tree in trees:
            score = -self.get_boost(tree)''',
'''        self.boosts = {}
        results = []
        for tree in trees:
            score = -self.get_boost(tree)'''), ("processor/parser/tree_sort_heuristics/SortByBoost.py",
'''        boost = node.rule.boost

        for child in node.children:
            boost += self.get_boost(child)

        return boost''',
'''        # the same rules occur in many trees
        key = (node.rule, len(node.children))
        if key not in self.boosts:
            self.boosts[key] = node.rule.boost + sum(self.get_boost(child) for child in node.children)

        return self.boosts[key]''')],
     "a rule that occurs in several places of the trees, with children of different boosts",
     "the boost of the first occurrence of a rule is used for all of its occurrences",
     PARSE + '''
f = lambda *a: []
g = grammar({"syn": "s() -> a() b()", "sem": f}, {"syn": "a() -> 'x'", "sem": f}, {"syn": "b() -> c()", "sem": f},
    {"syn": "c() -> d()", "sem": f}, {"syn": "c() -> e()", "sem": f},
    {"syn": "d() -> 'y'", "sem": f}, {"syn": "e() -> 'y'", "sem": f, "boost": 2})
_, trees = parse(g, "x y")
print(trees)
sys.exit(0 if len(trees) == 2 and "e(" in trees[0] else 1)
''')

seed("c03-regexp-cap", "C03", [("processor/parser/tree_sort_heuristics/SortByRegExpCount.py",
'''        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            count = 1

        for child in node.children:
            count += self.count_tokens(child)

        return count''',
'''        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            return len(node.form.split(" "))

        for child in node.children:
            count += self.count_tokens(child)

        return count''')],
     "a regular expression that matches several words, against an alternative with as many or more single ones",
     "a regular expression counts for the number of words that it matches",
     PARSE + '''
f = lambda *a: []
g = grammar("s() -> 'the' a()", "a() -> /\\\\w+ \\\\w+ \\\\w+/", "s() -> 'the' b() 'x' b()", "b() -> c()", "c() -> /\\\\w+/")
_, trees = parse(g, "the p x q")
print(trees)
sys.exit(0 if len(trees) == 2 and "b(" not in trees[0] else 1)
''')

seed("c05-one-local", "C05", [("processor/semantic_composer/SemanticComposer.py",
'''        for cons in node.rule.consequents:
            for i, arg in enumerate(cons.arguments):
                    if arg not in map:
                        map[arg] = self.variable_generator.next()
''',
'''        for cons in node.rule.consequents:
            new_arguments = [arg for arg in cons.arguments if arg not in map]
            if new_arguments:
                # one variable for the constituent
                variable = self.variable_generator.next()
                for arg in new_arguments:
                    map[arg] = variable
''')],
     "a constituent with two arguments that both occur in no earlier constituent and not in the head",
     "the two local variables of a constituent become one",
     COMPOSE + '''
sem = compose([
    {"syn": "s() -> rel(E1, E2)", "sem": lambda rel: rel},
    {"syn": "rel(E1, E2) -> 'love'", "sem": lambda: [("love", E1, E2)]},
], "love").get_output()
print(sem)
sys.exit(0 if sem[0][1] != sem[0][2] else 1)
''')

seed("c05-dialog-vars", "C05", [("processor/semantic_composer/SemanticComposer.py",
'''        unified_inferences = self.unify_variables(inferences, map)
''',
'''        unified_inferences = self.unify_variables(inferences, self.create_map(node, incoming_variables))
''')],
     "a dialog atom with a variable that is not in the head of its rule",
     "the variable of the dialog atom is no longer the one of the semantics",
     COMPOSE + '''
product = compose([
    {"syn": "s(E1) -> 'someone'", "sem": lambda: [("person", E1), ("name", E1, E2)], "dialog": [("mentioned", E1, E2)]},
], "someone")
sem, inf = product.get_output(), product.inferences
print(sem, inf)
sys.exit(0 if sem[1][2] == inf[0][2] else 1)
''')

seed("c08-model-cache", "C08", [("core/Model.py",
'''        self.modules.extend(modules)


    def find_relations(self, relation: str) -> list[Relation]:
        result = []
''',
'''        self.modules.extend(modules)
        self.found_relations = {}


    def find_relations(self, relation: str) -> list[Relation]:
        if relation in self.found_relations:
            return self.found_relations[relation]
        result = []
'''), ("core/Model.py",
'''                result.append(relations[relation])
        return result''',
'''                result.append(relations[relation])
        if result:
            self.found_relations[relation] = result
        return result''')],
     "a rule for a predicate that occurs in another module and was used before the rule is learned",
     "a learned rule doesn't take part in queries of a predicate that was used before",
     SOLVE + '''
m = Model([Rows(p=[["a"]], q=[["b"]]), InferenceModule()])
s = Solver(m)
before = s.solve([("p", X)])
s.solve([("learn_rule", ("p", A), [("q", A)])])
after = s.solve([("p", X)])
print(before, after)
sys.exit(0 if sorted(b["X"] for b in after) == ["a", "b"] else 1)
''')

seed("c08-falsy-bound", "C08", [("module/InferenceModule.py",
'''            if isinstance(value, Variable) and value.name in binding:
                bound_value = binding[value.name]''',
'''            if isinstance(value, Variable) and binding.get(value.name):
                bound_value = binding[value.name]''')],
     "a query with a variable that was bound to 0 or an empty text by an earlier goal",
     "a variable that is bound to a falsy value does not restrict the rule",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inf = InferenceModule()
inf.insert_rule(InferenceRule(("level", X, Y), [("floor", X, Y)]))
m = Model([Rows(floor=[["hall", 0], ["attic", 2]], n=[[0]]), inf])
got = Solver(m).solve([("n", B), ("level", A, B)])
print(got)
sys.exit(0 if got == [{"A": "hall", "B": 0}] else 1)
''')

seed("c08-duplicate-rule", "C08", [("module/InferenceModule.py",
'''        self.rules[predicate].append(rule)
''',
'''        # a rule that is known needs not be learned again
        if str(rule).lower() not in [str(known).lower() for known in self.rules[predicate]]:
            self.rules[predicate].append(rule)
''')],
     "two facts of the same predicate that differ only in the case of their values",
     "a rule that differs from a known one in upper and lower case only isn't learned",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inf = InferenceModule()
inf.insert_rule(InferenceRule(("name", "Bush"), []))
inf.insert_rule(InferenceRule(("name", "bush"), []))
got = Solver(Model([inf])).solve([("name", X)])
print(got)
sys.exit(0 if len(got) == 2 else 1)
''')

seed("c10-disjunction-vars", "C10", [("core/atoms.py",
'''    elif isinstance(construct, tuple) or isinstance(construct, list):
        for arg in construct:
            for v in get_atom_variables(arg):
                variables.add(v)

    return list(variables)


def get_atoms''',
'''    elif isinstance(construct, tuple) or (isinstance(construct, list) and not (construct and isinstance(construct[0], list))):
        for arg in construct:
            for v in get_atom_variables(arg):
                variables.add(v)

    return list(variables)


def get_atoms''')],
     "a query with a disjunction that shares a variable with a later goal",
     "the variables of a disjunction don't count, so that it is isolated from the goals that it is connected with",
     SOLVE + '''
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
m = Model([Rows(h=[["q"]], p=[["a"]], q=[["b"]], r=[["a"], ["b"]], z=[["c"]])])
query = [("h", A), ("r", X), ("$disjunction", [[("z", X)], [("q", X)]]), ("p", X)]
its = BasicQueryOptimizer(m).optimize(query, ["A"])
new = list(its.values())[-1]
print(new)
ref = [b["A"] for b in Solver(m).solve(query)]
got = [b["A"] for b in Solver(m).solve(new)]
print(ref, got)
sys.exit(0 if ref == got else 1)
''')

seed("c11-empty-body", "C11", [("processor/semantic_composer/optimizer/FrontResolveName.py",
'''                child_name_resolvers, child = self.extract_list(term)
                name_resolvers.extend(child_name_resolvers)
                rest_composition.append(child)
            else:
                rest_composition.append(term)

        return name_resolvers, tuple(rest_composition)''',
'''                child_name_resolvers, child = self.extract_list(term)
                name_resolvers.extend(child_name_resolvers)
                if len(child) > 0 or len(child_name_resolvers) == 0:
                    rest_composition.append(child)
            else:
                rest_composition.append(term)

        return name_resolvers, tuple(rest_composition)''')],
     "an atom with a body that consists of a name only",
     "a body from which the name is moved disappears, so that the atom has one argument less",
     SOLVE + '''
from richard.processor.semantic_composer.optimizer.FrontResolveName import FrontResolveName
got = FrontResolveName().sort([("p", X), ("not", [("resolve_name", "bob", X)])])
print(got)
sys.exit(0 if got == [("resolve_name", "bob", X), ("p", X), ("not", [])] else 1)
''')

seed("c12-shared-alternatives", "C12", [("entity/SentenceRequest.py",
'''    alternative_products: dict[SomeProcessor, list[any]]

    logger: Logger


    def __init__(self, text: str, logger: Logger = nullLogger) -> None:
        self.text = text
        self.current_products = {}
        self.alternative_products = {}
        self.logger = logger''',
'''    alternative_products: dict[SomeProcessor, list[any]]

    logger: Logger


    def __init__(self, text: str, logger: Logger = nullLogger, products: dict = {}) -> None:
        self.text = text
        self.current_products = {}
        self.alternative_products = products
        self.logger = logger''')],
     "a second request with the same processors, in a pipeline with a find-all block",
     "the alternatives of earlier requests are collected with those of this one",
     '''
import sys
from richard.block.FindAll import FindAll
from richard.core.System import System
from richard.core.Model import Model
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeProcessor import SomeProcessor
class Out:
    def get_output(self): return 1
class P(SomeProcessor):
    def get_name(self): return "p"
    def process(self, request): return ProcessResult([Out(), Out()], "")
p = P()
s = System(model=Model([]), input_pipeline=[FindAll(p)])
n = []
for text in "ab":
    r = SentenceRequest(text)
    s.enter(r)
    n.append(len(r.get_alternative_products(p)))
print(n)
sys.exit(0 if n == [2, 2] else 1)
''')

seed("c13-used-rules-kept", "C13", [("core/BasicGenerator.py",
'''        self.output_buffer = output_buffer


''',
'''        self.output_buffer = output_buffer
        self.used_rules = []


'''), ("core/BasicGenerator.py",
'''            return self.generate_node([], "s", [], False)''',
'''            return self.generate_node(self.used_rules, "s", [], False)''')],
     "a write grammar with several applicable rules for a part, and a second response",
     "a response depends on the rules that were used in earlier responses",
     WRITE + '''
g = generator([{"syn": "s() -> a()"}, {"syn": "a() -> 'good morning'"}, {"syn": "a() -> 'hello'"}])
texts = [g.generate_output() for _ in range(2)]
print(texts)
sys.exit(0 if texts == ["good morning", "good morning"] else 1)
''')

seed("c14-binding-kept", "C14", [("core/BasicGenerator.py",
'''        rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))

        for rule in rules:
''',
'''        rules = self.grammar.find_rules(antecedent_cat, len(antecedent_values))
        binding = {}

        for rule in rules:
'''), ("core/BasicGenerator.py",
'''            binding = {}
            for rule_antecedent_variable,''',
'''            for rule_antecedent_variable,''')],
     "a part for which the first rule was used already, and another rule whose condition has a variable of the same name",
     "the variables that were bound by the condition of an earlier rule restrict the conditions of later rules",
     WRITE + '''
g = generator([
    {"syn": "s() -> a() ', ' a()"},
    {"syn": "a() -> 'type ' + text(E1)", "if": [("output_type", E1)]},
    {"syn": "a() -> 'value ' + text(E1)", "if": [("output_value", E1)]}])
store(("output_type", "x"), ("output_value", "y"))
text = g.generate_output()
print(text)
sys.exit(0 if "type x" in text and "value y" in text else 1)
''')

seed("c14-optional-empty", "C14", [("core/BasicGenerator.py",
'''        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):''',
'''        words = [word for word in words if word]
        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):''')],
     "a rule that passes on a single value, which is 0 or an empty list",
     "a value of 0 that is passed on by a rule gets lost",
     WRITE + '''
g = generator([{"syn": "s() -> format(E1)", "if": [("output_value", E1)], "format": lambda e: e}])
store(("output_value", 0))
value = g.generate_output()
print(repr(value))
sys.exit(0 if value == 0 and value != "" else 1)
''')

seed("c16-dialog-shared", "C16", [("processor/semantic_composer/SemanticComposer.py",
'''        child_semantics = []
        inferences = []
        executable = []
''',
'''        child_semantics = []
        inferences = [] if callable(node.rule.dialog) else node.rule.dialog
        executable = []
'''), ("processor/semantic_composer/SemanticComposer.py",
'''            inferences.extend(node.rule.dialog(*child_semantics))
        else:
            inferences.extend(node.rule.dialog)
''',
'''            inferences.extend(node.rule.dialog(*child_semantics))
''')],
     "a rule with dialog atoms below another rule, in a second sentence",
     "the dialog atoms of a sentence are added to the rules of the grammar, so that they are stored again with later sentences",
     COMPOSE + '''
g = SimpleGrammarRulesParser().parse_read_grammar([
    {"syn": "s(E1) -> 'a' np(E1)", "sem": lambda np: np},
    {"syn": "np(E1) -> 'man'", "sem": lambda: [("man", E1)], "dialog": [("dialog_isa", e1, "male")]},
    {"syn": "np(E1) -> 'woman'", "sem": lambda: [("woman", E1)], "dialog": [("dialog_isa", e1, "female")]},
    {"syn": "np(E1) -> 'child'", "sem": lambda: [("child", E1)]}])
parser = BasicParser(g)
composer = SemanticComposer(parser)
n = []
for text in ["a man", "a woman", "a child"]:
    request = SentenceRequest(text)
    request.set_current_product(parser, parser.process(request).products[0])
    n.append(len(composer.process(request).products[0].inferences))
print(n)
sys.exit(0 if n == [1, 1, 0] else 1)
''')

seed("c16-exec-twice", "C16", [("processor/semantic_executor/AtomExecutor.py",
'''        # store the inferences in the sentence context
        for inference in incoming.inferences:
            solver.write_atom(inference)

        # perform executable atoms
        solver.solve(incoming.executable)

        bindings = solver.solve(incoming.get_semantics_last_iteration())
''',
'''        # perform executable atoms
        solver.solve(incoming.executable)

        # store the inferences in the sentence context
        for inference in incoming.inferences:
            solver.write_atom(inference)

        bindings = solver.solve(incoming.get_semantics_last_iteration())
''')],
     "a sentence with dialog atoms and executable atoms that depend on them",
     "the dialog atoms are stored after the executable atoms",
     COMPOSE + '''
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.module.BasicDialogContext import BasicDialogContext
from richard.module.SimpleMemoryModule import SimpleMemoryModule
from richard.entity.Relation import Relation
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
g = SimpleGrammarRulesParser().parse_read_grammar([
    {"syn": "s() -> 'hello'", "sem": lambda: [], "dialog": [("dialog_isa", "x", "male")], "exec": lambda: [("dialog_isa", E1, "male"), ("store", [("seen", E1)])]}])
ctx, mem = BasicDialogContext(), SimpleMemoryModule()
mem.data_source.connection.execute("CREATE TABLE seen (a TEXT)")
mem.add_relation(Relation("seen", arguments=["a"]))
parser = BasicParser(g); composer = SemanticComposer(parser); executor = AtomExecutor(composer, Model([ctx, mem]))
request = SentenceRequest("hello")
for p in (parser, composer, executor):
    request.set_current_product(p, p.process(request).products[0])
got = mem.data_source.select("seen", ["a"], [None])
print(got)
sys.exit(0 if got == [["x"]] else 1)
''')

seed("c17-one-language", "C17", [("data_source/SparqlDataSource.py",
'''        for text_variable in text_variables:
            locale_filter += """
                FILTER(LANG({}) = "{}") .
            """.format(text_variable, self.lang)''',
'''        for text_variable in text_variables:
            locale_filter = """
                FILTER(LANG({}) = "{}") .
            """.format(text_variable, self.lang)''')],
     "a select in which both columns are free texts",
     "with two text columns only one of them is limited to the language",
     SPARQL + '''
handler[0] = lambda q: rows()
SparqlDataSource("u", lang="nl").select("rdfs:label", ["text", "text"], [None, None])
print(asked[0])
sys.exit(0 if asked[0].count("LANG(") == 2 else 1)
''')

seed("c17-malformed", "C17", [("data_source/SparqlDataSource.py",
'''        for item in data['results']['bindings']:
''',
'''        for item in data.get('results', {}).get('bindings', []):
''')],
     "a response that is valid JSON but no result set",
     "a malformed response looks like an empty result",
     SPARQL + '''
handler[0] = lambda q: Response(200, '{"error": "timeout"}')
try:
    got = SparqlDataSource("u").select("t", ["id", "id"], ["a", None])
    print(got)
    sys.exit(1)
except Exception as e:
    print(repr(e))
''')

seed("c17-falsy-row", "C17", [("data_source/SparqlDataSource.py",
'''                if values[i] == None:
                    # drop''',
'''                if not values[i]:
                    # drop''')],
     "a select for the number 0",
     "a select for the number 0 fails",
     SPARQL + '''
handler[0] = lambda q: rows({"term0": "http://x"})
try:
    got = SparqlDataSource("u").select("t", ["id", "constant"], [None, 0])
    print(got)
except Exception as e:
    got = repr(e)
    print(got)
sys.exit(0 if got == [["http://x", 0]] else 1)
''')

seed("c18-key-columns", "C18", [("data_source/SparqlDataSource.py",
'''            input_string = table + str(columns) + str(values)''',
'''            input_string = table + "".join(columns) + "".join([str(value) for value in values])''')],
     "two selects with different values that give the same text when they are put after each other",
     "two different selects share an entry of the cache",
     SPARQL + '''
import re
handler[0] = lambda q: rows({}) if "<ab>" in q else rows()
d = tempfile.mkdtemp()
ds = SparqlDataSource("u", result_cache_path=d)
one = ds.select("t", ["id", "id"], ["ab", "c"])
two = ds.select("t", ["id", "id"], ["a", "bc"])
import shutil; shutil.rmtree(d)
print(one, two)
sys.exit(0 if one == [["ab", "c"]] and two == [] else 1)
''')

seed("c18-same-list", "C18", [("data_source/SparqlDataSource.py",
'''        # write to the results cache
        if self.result_cache_path:
            try:''',
'''        # write to the results cache
        if self.result_cache_path and len(result) > 0:
            try:''')],
     "a select without results, that is repeated",
     "an empty result is not cached, so that the request is repeated",
     SPARQL + '''
handler[0] = lambda q: rows()
d = tempfile.mkdtemp()
ds = SparqlDataSource("u", result_cache_path=d)
ds.select("t", ["id", "id"], ["a", None]); ds.select("t", ["id", "id"], ["a", None])
import shutil; shutil.rmtree(d)
print(len(asked))
sys.exit(0 if len(asked) == 1 else 1)
''')

seed("c19-empty-fields", "C19", [("data_source/CsvImporter.py",
'''                if len(row) == 0:
                    continue''',
'''                if not any(row):
                    continue''')],
     "a record of which all fields are empty",
     "a record with only empty fields is dropped",
     '''
import sys, tempfile, os
from richard.data_source.CsvImporter import CsvImporter
from richard.data_source.SimpleDataSource import SimpleDataSource
f = tempfile.NamedTemporaryFile("w", suffix=".csv", delete=False)
f.write("a,b\\n1,2\\n,\\n3,4\\n"); f.close()
ds = SimpleDataSource()
CsvImporter().import_table_from_file("t", f.name, ds)
os.unlink(f.name)
got = ds.select("t", ["a", "b"], [None, None])
print(got)
sys.exit(0 if got == [["1", "2"], ["", ""], ["3", "4"]] else 1)
''')

seed("c20-all-set", "C20", [("module/CoreModule.py",
'''        results = OrderedSet()
        for entity in entities:''',
'''        results = set()
        for entity in entities:''')],
     "two processes with different hash seeds",
     "the order of the solutions of a universal quantifier differs from process to process",
     '''
import sys, subprocess, os
code = """
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule
class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("p", query_function=lambda v, c: [[k] for k in ["a", "b", "c", "d", "e"] if v[0] in (None, k)]))
print([b["X"] for b in Solver(Model([M()])).solve([("all", Variable("X"), [("p", Variable("X"))], [("p", Variable("X"))])])])
"""
outs = {subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(k)), capture_output=True, text=True).stdout for k in range(6)}
print(outs)
sys.exit(0 if len(outs) == 1 and "a" in outs.pop() else 1)
''')

seed("c20-log-pops", "C20", [("processor/semantic_executor/AtomExecutorProduct.py",
'''            logger.add("\\n".join(str(d) for d in self.bindings))
''',
'''            self.bindings.sort(key=str)
            logger.add("\\n".join(str(d) for d in self.bindings))
''')],
     "logging of products is on, and a query with several solutions",
     "the order of the solutions is another one when the products are logged",
     '''
import sys
from richard.core.Logger import Logger
from richard.core.constants import *
from richard.core.Model import Model
from richard.core.System import System
from richard.block.FindOne import FindOne
from richard.entity.Relation import Relation
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeModule import SomeModule
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("p", query_function=lambda v, c: [["b"], ["a"]]))
outs = []
for log in (False, True):
    parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar([{"syn": "s(E1) -> 'go'", "sem": lambda: [("p", E1)]}]))
    composer = SemanticComposer(parser)
    system = System(input_pipeline=[FindOne(p) for p in (parser, composer, AtomExecutor(composer, Model([M()])))])
    logger = Logger()
    if log:
        logger.log_all_tests(); logger.log_products()
    else:
        logger.log_no_tests()
    outs.append([list(b.values()) for b in system.enter(SentenceRequest("go", logger))])
print(outs)
sys.exit(0 if outs[0] == outs[1] else 1)
''')

seed("c21-shared-memory", "C21", [("data_source/SimpleDataSource.py",
'''    store: dict[str, list[dict]]


    def __init__(self) -> None:
        self.clear()
''',
'''    store: dict[str, list[dict]] = {}


    def __init__(self) -> None:
        self.store.clear()
''')],
     "two data sources (or two output buffers) in one process",
     "all simple data sources share one store, and a new one empties it",
     '''
import sys
from richard.data_source.SimpleDataSource import SimpleDataSource
one, two = SimpleDataSource(), SimpleDataSource()
one.insert("t", ["a"], ["x"])
got = two.select("t", ["a"], [None])
print(got)
sys.exit(0 if got == [] else 1)
''')

seed("c21-syntax-cache", "C21", [("processor/parser/helper/SimpleGrammarRulesParser.py",
'''    def parse_syntax(self, syntax: str, write_rules: bool):

        tokens = re.findall(self.re_tokens, syntax)
''',
'''    def parse_syntax(self, syntax: str, write_rules: bool):

        key = " ".join(syntax.split())
        if key not in self.syntaxes:
            self.syntaxes[key] = self.do_parse_syntax(syntax, write_rules)
        return self.syntaxes[key]


    def do_parse_syntax(self, syntax: str, write_rules: bool):

        tokens = re.findall(self.re_tokens, syntax)
'''), ("processor/parser/helper/SimpleGrammarRulesParser.py",
'''    re_identifier: re.Pattern
    re_variable: re.Pattern

''',
'''    re_identifier: re.Pattern
    re_variable: re.Pattern
    syntaxes = {}

''')],
     "two grammars in one process with rules that differ in the white space inside a quoted word only",
     "the rule of one grammar is taken for that of the other",
     PARSE + '''
g = grammar("s() -> 'a  b'")
h = grammar("s() -> 'a b'")
_, trees = parse(h, "a b")
print(trees)
sys.exit(0 if len(trees) == 1 else 1)
''')

seed("c22-rules-snapshot", "C22", [("processor/parser/earley/EarleyParser.py",
'''        for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :
''',
'''        key = (id(grammar_rules), nextConsequent.predicate, len(next_consequent_variables))
        if key not in self.found_rules:
            self.found_rules[key] = grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables))

        for rule in self.found_rules[key]:
'''), ("processor/parser/earley/EarleyParser.py",
'''    def parse(self, grammar_rules: GrammarRules, text: str) -> ProcessResult:
''',
'''    def __init__(self) -> None:
        self.found_rules = {}


    def parse(self, grammar_rules: GrammarRules, text: str) -> ProcessResult:
''')],
     "a learned rule for a category that had no rules, when that category was expected in an earlier sentence",
     "the first rule of a category is never used by a parser that has looked for the category before",
     PARSE + '''
g = grammar("s() -> 'the' noun(E1)", "s() -> 'hello'")
p = BasicParser(g)
p.process(SentenceRequest("the cat"))
g.add_rule(SimpleGrammarRulesParser().parse_simple_rule({"syn": "noun(E1) -> 'cat'", "sem": lambda: []}, False))
r = p.process(SentenceRequest("the cat"))
print(r.error_type, len(r.products))
sys.exit(0 if len(r.products) == 1 else 1)
''')

seed("c22-known-syntax", "C22", [("entity/GrammarRules.py",
'''        # create a variant of the rule for all permutations of optional constituents
        for variant in self.create_rule_variants(rule):
            self.index[antecedent][argument_count].append(variant)
''',
'''        # create a variant of the rule for all permutations of optional constituents
        known = [str(known_rule).lower() for known_rule in self.index[antecedent][argument_count]]
        for variant in self.create_rule_variants(rule):
            if str(variant).lower() not in known:
                self.index[antecedent][argument_count].append(variant)
''')],
     "a learned rule that differs from a known one in upper and lower case only (of a regular expression)",
     "a rule that was learned is ignored because it is taken for a known one",
     PARSE + r'''
g = grammar(r"s() -> /\d+/")
g.add_rule(SimpleGrammarRulesParser().parse_simple_rule({"syn": r"s() -> /\D+/", "sem": lambda a: []}, False))
_, trees = parse(g, "abc")
print(trees)
sys.exit(0 if len(trees) == 1 else 1)
''')

seed("c23-clear-context", "C23", [("module/BasicDialogContext.py",
'''        super().clear()

        cursor = self.data_source.connection.cursor()

        cursor.execute("CREATE TABLE dialog_isa (entity TEXT, type TEXT)")
        cursor.execute("CREATE TABLE context (name TEXT)")''',
'''        cursor = self.data_source.connection.cursor()

        cursor.execute("DROP TABLE IF EXISTS dialog_isa")
        cursor.execute("CREATE TABLE dialog_isa (entity TEXT, type TEXT)")
        cursor.execute("CREATE TABLE IF NOT EXISTS context (name TEXT)")'''),
 ("module/SimpleMemoryModule.py", '''        super().__init__()
        self.clear()
''', '''        super().__init__()
        SimpleMemoryModule.clear(self)
''')],
     "the dialog context is cleared while a context is active",
     "a started context remains active when the dialog context is cleared",
     SOLVE + '''
from richard.module.BasicDialogContext import BasicDialogContext
ctx = BasicDialogContext()
s = Solver(Model([ctx]))
s.solve([("start_context", "quiz")])
ctx.clear()
got = s.solve([("context", "quiz")])
print(got)
sys.exit(0 if got == [] else 1)
''')

seed("c23-end-prefix", "C23", [("module/BasicDialogContext.py",
'''        name = values[0]
        self.data_source.insert('context', ['name'], [name])
        return [
            [None]
        ]


    def end_context''',
'''        name = values[0]
        self.data_source.delete('context', ['name'], [None])
        self.data_source.insert('context', ['name'], [name])
        # one entry per context
        names = {row[0] for row in self.data_source.select('context', ['name'], [None])}
        self.data_source.connection.execute('DELETE FROM context')
        for active in names:
            self.data_source.insert('context', ['name'], [active.strip()])
        return [
            [None]
        ]


    def end_context''')],
     "a context with a name that starts or ends with a space", "x", "sys.exit(0)")
from seeds import SEEDS
SEEDS.pop()

seed("c24-sorted", "C24", [("processor/language_selector/LanguageSelector.py",
'''        products = [LanguageSelectorProduct(locale) for locale in self.locales]''',
'''        products = [LanguageSelectorProduct(locale) for locale in sorted(set(self.locales))]''')],
     "a list of languages that is not in alphabetical order, and a text that makes sense in two of them",
     "the languages are tried in alphabetical order",
     '''
import sys
from richard.core.System import System
from richard.block.FindOne import FindOne
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
sel = LanguageSelector(["nl_NL", "en_US"])
p = SimpleGrammarRulesParser()
parser = Multilingual({"nl_NL": BasicParser(p.parse_read_grammar([{"syn": "s() -> nl()"}, {"syn": "nl() -> 'is'"}])), "en_US": BasicParser(p.parse_read_grammar([{"syn": "s() -> en()"}, {"syn": "en() -> 'is'"}]))}, sel)
tree = System(input_pipeline=[FindOne(sel), FindOne(parser)]).enter(SentenceRequest("is"))
print(tree.inline_str())
sys.exit(0 if tree.inline_str().startswith("s(nl") else 1)
''')

seed("c24-stay", "C24", [("processor/language_selector/Multilingual.py",
'''        return self.processors[incoming.locale].process(request)''',
'''        result = self.processors[incoming.locale].process(request)
        if result.error_type == "" and incoming.locale in self.language_selector.locales:
            # people don't change their language often: start with this one next time
            locales = self.language_selector.locales
            self.language_selector.locales = [incoming.locale] + [locale for locale in locales if locale != incoming.locale]
        return result''')],
     "a text in the second language, and then one that makes sense in both",
     "after a text in another language that language is tried first",
     '''
import sys
from richard.core.System import System
from richard.block.FindOne import FindOne
from richard.entity.SentenceRequest import SentenceRequest
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
sel = LanguageSelector(["en_US", "nl_NL"])
p = SimpleGrammarRulesParser()
parser = Multilingual({"nl_NL": BasicParser(p.parse_read_grammar([{"syn": "s() -> nl()"}, {"syn": "nl() -> 'is'"}, {"syn": "nl() -> 'ja'"}])), "en_US": BasicParser(p.parse_read_grammar([{"syn": "s() -> en()"}, {"syn": "en() -> 'is'"}]))}, sel)
s = System(input_pipeline=[FindOne(sel), FindOne(parser)])
s.enter(SentenceRequest("ja"))
tree = s.enter(SentenceRequest("is"))
print(tree.inline_str())
sys.exit(0 if tree.inline_str().startswith("s(en") else 1)
''')

seed("c25-store-once", "C25", [("module/SimpleMemoryModule.py",
'''        return self.data_source.select(context.relation.predicate, context.relation.arguments, values)''',
'''        return self.data_source.select(context.relation.predicate, context.relation.arguments, values)[:100]''')],
     "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c07-percentage-binding", "C07", [("module/CoreModule.py",
'''        percentage = (len(nominator_results) / len(denominator_results)) * 100.0
''',
'''        percentage = round(len(nominator_results) / len(denominator_results), 2) * 100.0
''')],
     "a percentage that is not a whole number",
     "percentages are rounded to whole numbers",
     SOLVE + '''
m = Model([Rows(p=[["a"]], q=[["a"], ["b"], ["c"]])])
got = Solver(m).solve([("percentage", X, [("p", Y)], [("q", Y)])])
print(got)
sys.exit(0 if abs(got[0]["X"] - 100 / 3) < 1e-9 else 1)
''')

seed("c07-avg-distinct", "C07", [("module/CoreModule.py",
'''        s = 0
        n = 0
        for result in results:
            s += result[element_var.name]
            n += 1

        average = s / n''',
'''        elements = OrderedSet([result[element_var.name] for result in results])
        average = sum(elements) / len(elements)''')], "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c07-avg-distinct2", "C07", [("module/CoreModule.py",
'''        results = context.solver.solve(body, context.binding)
        s = 0
        for result in results:
            s += result[element_var.name]
''',
'''        results = context.solver.solve(body, context.binding)
        s = 0
        previous = None
        for result in results:
            # the solutions may contain variables that are of no importance
            if result != previous:
                s += result[element_var.name]
            previous = {**result}
            previous.pop(element_var.name, None) if len(result) == 1 else None
''')], "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c06-binding-reuse", "C06", [("core/Solver.py",
'''            # extend the incoming binding
            result = binding.copy()
''',
'''            # extend the incoming binding
            result = binding.copy() if len(values) > 1 or not binding else binding
''')],
     "a goal with exactly one solution, solved with a given binding",
     "the binding that was given is changed when a goal has a single solution",
     SOLVE + '''
b = {"A": "x"}
got = Solver(Model([Rows(p=[["a"]])])).solve([("p", X)], b)
print(got, b)
sys.exit(0 if b == {"A": "x"} else 1)
''')

seed("c15-insert-none", "C15", [("data_source/Sqlite3DataSource.py",
'''        return [list(row) for row in (cursor.fetchall())]


    def insert''',
'''        return [list(row) for row in dict.fromkeys(cursor.fetchall())]


    def insert''')],
     "a record that was stored twice",
     "equal records are returned once",
     '''
import sys, sqlite3
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
c = sqlite3.connect(":memory:")
c.execute("CREATE TABLE t (a TEXT)")
ds = Sqlite3DataSource(c)
ds.insert("t", ["a"], ["x"]); ds.insert("t", ["a"], ["x"])
got = ds.select("t", ["a"], [None])
print(got)
sys.exit(0 if got == [["x"], ["x"]] else 1)
''')
