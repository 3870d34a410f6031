"""
The planted bugs: each is an edit of files below richard/ (old text, new text) with a demonstration (exit 1 when the property is broken).
Written from the statements of the properties and the code.
"""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PARSE = '''
import sys
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.entity.SentenceRequest import SentenceRequest
def grammar(*rules):
    return SimpleGrammarRulesParser().parse_read_grammar([r if isinstance(r, dict) else {"syn": r, "sem": lambda *a: []} for r in rules])
def parse(g, text):
    r = BasicParser(g).process(SentenceRequest(text))
    return r, [p.parse_tree.inline_str() for p in r.products]
'''

SOLVE = '''
import sys, sqlite3
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.core.constants import *
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule
from richard.module.SimpleMemoryModule import SimpleMemoryModule
from richard.module.InferenceModule import InferenceModule
A, B, C, X, Y, Z = [Variable(v) for v in "ABCXYZ"]
class Rows(SomeModule):
    def __init__(self, **tables):
        super().__init__()
        self.tables = tables
        for name in tables:
            self.add_relation(Relation(name, query_function=self.query))
    def query(self, values, context):
        return [list(r) for r in self.tables[context.relation.predicate] if all(v is None or v == w for v, w in zip(values, r))]
'''

# ---------------------------------------------------------------- C01
seed("c01-constituent-type", "C01", [("entity/RuleConstituent.py",
'''        if self.position_type != other.position_type:
            return False

        return True''',
'''        return True''')],
     "a grammar in which a quoted word is spelled like a category without arguments, in rules that end at the same position",
     "a category without arguments and a quoted word of the same name are taken for each other when trees are extracted",
     PARSE + '''
# 'a' is a word in one rule of x, and a category in the other one
g = grammar("s() -> x()", "x() -> 'a'", "x() -> a()", "a() -> 'a'")
r, trees = parse(g, "a")
print(trees)
sys.exit(0 if sorted(trees) == sorted(["s(x(a 'a'))", "s(x(a(a 'a')))"]) else 1)
''')

seed("c01-regexp-case", "C01", [("processor/parser/earley/EarleyParser.py",
'''        part = text[start_index:].lower()
        return part[:len(word)] == word''',
'''        # make a slice first, so that only the part that is needed has to be converted
        part = text[start_index:start_index + len(word)].lower()
        return part == word''')],
     "nothing: equivalent change (control)", "nothing", PARSE + "sys.exit(0)")
SEEDS.pop()

seed("c01-scan-once", "C01", [("processor/parser/earley/EarleyParser.py",
'''                # add all entries that have this abstract consequent as their antecedent
                    self.predict(grammar_rules, chart, state)
'''.replace("                # add", "                    # add"),
'''                    # add all entries that have this abstract consequent as their antecedent
                    self.predict(grammar_rules, chart, state)
                    if state.dot_position == len(state.rule.consequents) and i == charCount:
                        # nothing left to read
                        j += 1
                        continue
''')], "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c01-tree-start", "C01", [("processor/parser/earley/tree_extract.py",
'''                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    sequences.append(previous_sequence + [state])''',
'''                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    # a constituent that was found in the same place already adds nothing
                    if not any(sequence[:-1] == previous_sequence for sequence in sequences):
                        sequences.append(previous_sequence + [state])''')],
     "a constituent that has two derivations of the same span by different rules, preceded by another constituent",
     "one of the readings is lost when a later constituent of a rule is ambiguous by itself",
     PARSE + '''
g = grammar("s() -> a() b()", "a() -> 'x'", "b() -> c()", "b() -> d()", "c() -> 'y'", "d() -> 'y'")
h = grammar("s() -> a() b()", "a() -> 'x'", "b() -> c()", "b() -> 'y'", "c() -> 'y'")
_, one = parse(g, "x y")
_, two = parse(h, "x y")
print(one, two)
sys.exit(0 if len(one) == 2 and len(two) == 2 else 1)
''')

# ---------------------------------------------------------------- C02
seed("c02-complete-type", "C02", [("processor/parser/earley/EarleyParser.py",
'''            # check if the types match
            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
                continue

''', '')],
     "a category without arguments that is spelled like a quoted word, in another rule that starts at the same position",
     "the diagnosis counts words as read that no reading of the sentence reaches",
     PARSE + '''
g = grammar("s() -> a() 'c'", "a() -> 'b'", "s() -> 'a' 'd'")
r, trees = parse(g, "b d")
print(r.error_type, r.error_args)
sys.exit(0 if not trees and r.error_type == "unknown_word" and r.error_args[0].startswith("d") else 1)
''')

# ---------------------------------------------------------------- C03
seed("c03-depth-first-child", "C03", [("processor/parser/tree_sort_heuristics/SortByTreeDepth.py",
'''            depth = min(depth, self.get_depth(child, base_depth - 1))''',
'''            depth = min(depth, self.get_depth(child, base_depth - 1))
            if child.form != "":
                break''')],
     "two readings of which the deepest has a word before its deepest branch",
     "the depth of a tree is measured up to the first word of a node only, so that the deepest tree isn't first",
     PARSE + '''
g = grammar("s() -> b()", "s() -> 'x' a()", "b() -> c()", "c() -> 'x' 'y'", "a() -> d()", "d() -> e()", "e() -> f()", "f() -> 'y'")
_, trees = parse(g, "x y")
print(trees)
sys.exit(0 if len(trees) == 2 and "f(" in trees[0] else 1)
''')

seed("c03-boost-cap", "C03", [("processor/parser/tree_sort_heuristics/SortByBoost.py",
'''        for child in node.children:
            boost += self.get_boost(child)
''',
'''        for child in node.children:
            if not child.is_leaf_node():
                boost += self.get_boost(child)
            else:
                boost = max(boost, child.rule.boost)
''')],
     "a negative boost on a rule that has words of its own",
     "a rule with a negative boost is not ranked below the alternatives",
     PARSE + '''
g = grammar({"syn": "s() -> a()", "sem": lambda *a: []}, {"syn": "s() -> b()", "sem": lambda *a: []},
    {"syn": "a() -> 'x'", "sem": lambda *a: [], "boost": -1}, {"syn": "b() -> 'x'", "sem": lambda *a: []})
_, trees = parse(g, "x")
print(trees)
sys.exit(0 if trees[0].startswith("s(b") else 1)
''')

# ---------------------------------------------------------------- C04
seed("c04-two-escapes", "C04", [("processor/parser/helper/SimpleGrammarRulesParser.py",
'''            return token[1:-1].replace("\\\\'", "'"), pos''',
'''            return token[1:-1].replace("\\\\'", "'", 1), pos''')],
     "a quoted word with two escaped quotes",
     "the second escaped quote in a word keeps its backslash, so that the word isn't recognized",
     PARSE + r'''
g = grammar(r"s() -> 'rock\'n\'roll'")
r, trees = parse(g, "rock'n'roll")
print(r.error_type, trees)
sys.exit(0 if len(trees) == 1 else 1)
''')

# ---------------------------------------------------------------- C05
seed("c05-nested-template", "C05", [("processor/semantic_composer/SemanticComposer.py",
'''            map[arg] = incoming_variables[i]

        # complete map''',
'''            if arg not in map.values():
                map[arg] = incoming_variables[i]

        # complete map''')], "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c05-generator-reset", "C05", [("processor/semantic_composer/SemanticComposer.py",
'''                    if arg not in map:
                        map[arg] = self.variable_generator.next()

        return map''',
'''                    if arg not in map:
                        map[arg] = self.variable_generator.next() if len(incoming_variables) < 2 or len(cons.arguments) > 1 else incoming_variables[-1]

        return map''')],
     "a rule with two arguments in its head and a constituent with one argument that is not in the head",
     "a variable that is local to a constituent is identified with the last variable of the head of the rule",
     '''
import sys
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.entity.SentenceRequest import SentenceRequest
from richard.core.constants import *
g = SimpleGrammarRulesParser().parse_read_grammar([
    {"syn": "s(E1) -> vp(E1, E2)", "sem": lambda vp: vp},
    {"syn": "vp(E1, E2) -> verb(E1, E2) prep(E3)", "sem": lambda verb, prep: verb + prep},
    {"syn": "verb(E1, E2) -> 'sees'", "sem": lambda: [("sees", E1, E2)]},
    {"syn": "prep(E1) -> 'today'", "sem": lambda: [("today", E1)]},
])
parser = BasicParser(g)
composer = SemanticComposer(parser)
request = SentenceRequest("sees today")
request.set_current_product(parser, parser.process(request).products[0])
sem = composer.process(request).products[0].get_output()
print(sem)
sys.exit(0 if len({sem[0][1].name, sem[0][2].name, sem[1][1].name}) == 3 else 1)
''')

# ---------------------------------------------------------------- C06
seed("c06-same-variable", "C06", [("core/Solver.py",
'''                        if arg.name in result and result[arg.name] != v[i]:''',
'''                        if arg.name in result and result[arg.name] is not v[i]:''')],
     "a variable that occurs twice in an atom, with equal values that are different objects",
     "p(X, X) loses rows of which the values are equal but not the same object",
     SOLVE + '''
rows = [["long text %d" % k, "long %s" % ("text %d" % (k % 3))] for k in range(5)]
m = Model([Rows(p=rows)])
got = Solver(m).solve([("p", X, X)])
print(got)
sys.exit(0 if sorted(b["X"] for b in got) == ["long text 0", "long text 1", "long text 2"] else 1)
''')

seed("c06-dedup-tail", "C06", [("core/Solver.py",
'''            # deduplicate results
            for out_value in out_values:
                stringed_value = str(out_value)''',
'''            # deduplicate results
            for out_value in out_values:
                stringed_value = ",".join([str(value) for value in out_value])''')],
     "two rows of a relation of which the values give the same text: the number 1 and the text '1', or a comma in a text",
     "of two different rows with values that print the same, one is lost",
     SOLVE + '''
got = Solver(Model([Rows(p=[["a,b", "c"], ["a", "b,c"], [1, "x"], ["1", "x"]])])).solve([("p", X, Y)])
print(got)
sys.exit(0 if len(got) == 4 else 1)
''')

# ---------------------------------------------------------------- C07
seed("c07-argmax-zero", "C07", [("module/CoreModule.py",
'''            if max is None or result[element_var.name] > max:''',
'''            if not max or result[element_var.name] > max:''')],
     "negative values of which the greatest so far is 0",
     "arg_max replaces a maximum of 0 by a later smaller value",
     SOLVE + '''
m = Model([Rows(t=[["a", -5], ["b", 0], ["c", -3]])])
got = Solver(m).solve([("arg_max", X, Y, [("t", X, Y)])])
print(got)
sys.exit(0 if got == [{"X": "b", "Y": 0}] else 1)
''')

seed("c07-all-falsy", "C07", [("module/CoreModule.py",
'''            bindings = context.solver.solve(body, b)
            if len(bindings) > 0:
                results.add(entity)
''',
'''            bindings = context.solver.solve(body, b)
            if any(bindings[:1]):
                results.add(entity)
''')],
     "nothing", "nothing", "sys.exit(0)")
SEEDS.pop()

seed("c07-findall-dict", "C07", [("module/CoreModule.py",
'''                # skip duplicates
                if not item in result:
                    result.append(item)
            else:''',
'''                # skip duplicates
                if not sorted(map(str, item)) in [sorted(map(str, i)) for i in result]:
                    result.append(item)
            else:''')],
     "two combinations with the same values in a different order",
     "find_all with several variables loses (b, a) when (a, b) was found",
     SOLVE + '''
m = Model([Rows(p=[["a", "b"], ["b", "a"]])])
got = Solver(m).solve([("find_all", ["X", "Y"], [("p", X, Y)], Z)])
print(got)
sys.exit(0 if got[0]["Z"] == [["a", "b"], ["b", "a"]] else 1)
''')

# ---------------------------------------------------------------- C08
seed("c08-capture", "C08", [("module/InferenceModule.py",
'''if key not in rule.get_all_variables()}''',
'''if key not in [argument.name for argument in rule_arguments if isinstance(argument, Variable)]}''')],
     "a query with a variable that is bound already and is named like a variable of the body of the rule that isn't in its head",
     "a bound variable of the query restricts a local variable of the rule with the same name",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inf = InferenceModule()
inf.insert_rule(InferenceRule(("grand", X, Z), [("parent", X, Y), ("parent", Y, Z)]))
m = Model([Rows(parent=[["a", "b"], ["b", "c"]], first=[["q"]]), inf])
got = Solver(m).solve([("first", Y), ("grand", A, B)])
print(got)
sys.exit(0 if got == [{"Y": "q", "A": "a", "B": "c"}] else 1)
''')

seed("c08-first-unbound", "C08", [("module/InferenceModule.py",
'''                        result.append(solution[rule_argument.name])
                    else:''',
'''                        result.append(solution[rule_argument.name])
                    elif value.name in binding:
                        result.append(None)
                    else:''')], "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c08-rule-order", "C08", [("module/InferenceModule.py",
'''                        if rule_binding[rule_argument.name] != bound_value:
                            return []
                    rule_binding[rule_argument.name] = bound_value''',
'''                        if rule_binding[rule_argument.name] != bound_value:
                            return []
                    else:
                        rule_binding[rule_argument.name] = bound_value if bound_value else None''')],
     "a query with an argument that is bound to 0 or an empty text",
     "an argument that is bound to a falsy value does not restrict the rule",
     SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inf = InferenceModule()
inf.insert_rule(InferenceRule(("level", X, Y), [("floor", X, Y)]))
m = Model([Rows(floor=[["hall", 0], ["attic", 2]]), inf])
got = Solver(m).solve([("level", A, 0)])
print(got)
sys.exit(0 if got == [{"A": "hall"}] else 1)
''')

# ---------------------------------------------------------------- C09
seed("c09-comment-first", "C09", [("module/helper/SimpleInferenceRuleParser.py",
'''        self.re_tokens = re.compile("(" + "|".join([
            '\\.',
''',
'''        self.re_tokens = re.compile("(" + "|".join([
            '\\.(?!\\d)',
''')], "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c09-negative-float", "C09", [("module/helper/SimpleInferenceRuleParser.py",
'''            return float(token), pos''',
'''            whole, fraction = token.split(".")
            return int(whole) + (-1 if whole.startswith("-") and int(whole) else 1) * float("0." + fraction), pos''')],
     "a negative fraction between -1 and 0 in a rule",
     "-0.5 is read as 0.5",
     SOLVE + '''
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
rules, pos = SimpleInferenceRuleParser().parse("t(-0.5). t(0.25). t(-1.5).")
print([r.head for r in rules])
sys.exit(0 if [r.head for r in rules] == [("t", -0.5), ("t", 0.25), ("t", -1.5)] else 1)
''')

seed("c09-hash-in-string", "C09", [("module/helper/SimpleInferenceRuleParser.py",
'''        rules = []
        tokens = re.findall(self.re_tokens, text)
        pos = 0
''',
'''        rules = []
        # drop comment lines
        text = re.sub(r"(?m)^\\s*#.*$", "", text)
        tokens = re.findall(self.re_tokens, text)
        pos = 0
''')],
     "a quoted text of several lines, of which a line starts with #",
     "a line of a quoted text that starts with # is dropped as a comment",
     r'''
import sys
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
rules, pos = SimpleInferenceRuleParser().parse("note('first\n# second\nthird').")
print([r.head for r in rules])
sys.exit(0 if [r.head for r in rules] == [("note", "first\n# second\nthird")] else 1)
''')

# ---------------------------------------------------------------- C10 / C11
seed("c11-bound-default", "C11", [("processor/semantic_composer/optimizer/SortByCost.py",
'''        bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))

        return''',
'''        bound_variables |= set(get_atom_variables(sorted_first_atom))

        return''')],
     "a second query with the same variables, or an atom with a body before the atoms that bind its variables",
     "variables count as bound that are not bound before the goal, so that the cheapest goal doesn't come first",
     SOLVE + '''
from richard.processor.semantic_composer.optimizer.SortByCost import SortByCost
class M(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("big", query_function=lambda v, c: [], relation_size=1000, argument_sizes=[1000, 10]))
        self.add_relation(Relation("mid", query_function=lambda v, c: [], relation_size=100, argument_sizes=[2]))
m = Model([M()])
first = SortByCost().sort([("big", X, Y), ("mid", Z)], m)
again = SortByCost().sort([("big", X, Y), ("mid", Z)], m)
print(first, again)
sys.exit(0 if first == again == [("mid", Z), ("big", X, Y)] else 1)
''')

seed("c10-isolate-body-vars", "C10", [("processor/semantic_composer/optimizer/IsolateIndependentParts.py",
'''                    if len(batch.variables & new_batch.variables) > 0:
                        found = i
                        break''',
'''                    if len(batch.variables & new_batch.variables) > 0:
                        found = i''')],
     "x", "x", "sys.exit(0)")
SEEDS.pop()

seed("c10-batch-once", "C10", [("processor/semantic_composer/optimizer/IsolateIndependentParts.py",
'''            if len(new_batches) == len(collection):
                break

            collection = new_batches
''',
'''            merged = len(collection) - len(new_batches)
            collection = new_batches
            if merged <= 1:
                break
''')],
     "goals that are connected only through a later goal",
     "the parts of a query that are connected by a variable are isolated from each other, so that the variable is no longer shared",
     SOLVE + '''
from richard.processor.semantic_composer.optimizer.IsolateIndependentParts import IsolateIndependentParts
m = Model([Rows(h=[["q"]], p=[["a"]], q=[["b"]], r=[["a", "c"]])])
query = [("h", A), ("p", X), ("q", Y), ("r", X, Y)]
got = IsolateIndependentParts().isolate(query, ["A"])
print(got)
ref = [b["A"] for b in Solver(m).solve(query)]
new = [b["A"] for b in Solver(m).solve(got)]
print(ref, new)
sys.exit(0 if ref == new else 1)
''')

# ---------------------------------------------------------------- C12
seed("c12-error-args", "C12", [("block/FindAll.py",
'''                error_type = next_block_result.error_type
                error_args = next_block_result.error_args''',
'''                error_type = next_block_result.error_type
            error_args = next_block_result.error_args''')],
     "a find-all block of which several alternatives fail with different arguments of the error",
     "the error that is stored has the type of the first failure and the arguments of the last one",
     '''
import sys
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.core.System import System
from richard.core.Model import Model
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeProcessor import SomeProcessor
from richard.module.BasicOutputBuffer import BasicOutputBuffer
class P(SomeProcessor):
    def __init__(self, f): self.f = f
    def get_name(self): return "p"
    def process(self, request): return self.f(request)
one = P(lambda r: ProcessResult([1, 2], ""))
two = P(lambda r: ProcessResult([], "unknown_word", ["w%d" % r.get_current_product(one)]))
out = BasicOutputBuffer()
System(model=Model([out]), input_pipeline=[FindAll(one), FindOne(two)]).enter(SentenceRequest("x"))
got = out.data_source.select("output_unknown_word", ["word"], [None])
print(got)
sys.exit(0 if got == [["w1"]] else 1)
''')

seed("c12-inplace", "C12", [("block/FindAll.py",
'''        request.set_alternative_products(self.processor,
            request.get_alternative_products(self.processor) + result.products)''',
'''        products = request.get_alternative_products(self.processor)
        if products:
            products.extend(result.products)
        else:
            request.set_alternative_products(self.processor, result.products)''')],
     "a find-all block that runs for a second alternative of the block before it, with a processor that keeps its products",
     "the products of a processor are changed behind its back, and alternatives are tried more often than once",
     '''
import sys
from richard.block.FindAll import FindAll
from richard.core.System import System
from richard.core.Model import Model
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.SomeProcessor import SomeProcessor
class P(SomeProcessor):
    def __init__(self, f): self.f = f
    def get_name(self): return "p"
    def process(self, request): return self.f(request)
class Out:
    def __init__(self, v): self.v = v
    def get_output(self): return self.v
one = P(lambda r: ProcessResult([1, 2, 3], ""))
cache = [Out("a"), Out("b")]
two = P(lambda r: ProcessResult(cache if r.get_current_product(one) == 1 else [Out("c")], ""))
r = SentenceRequest("x")
s = System(model=Model([]), input_pipeline=[FindAll(one), FindAll(two)])
s.enter(r)
print([o.v for o in r.get_alternative_products(two)], [o.v for o in cache])
sys.exit(0 if [o.v for o in r.get_alternative_products(two)] == ["a", "b", "c", "c"] and len(cache) == 2 else 1)
''')

# ---------------------------------------------------------------- C14
seed("c14-zero-text", "C14", [("core/BasicGenerator.py",
'''            result = str(values[0])''',
'''            result = str(values[0] or "")''')],
     "a value of 0 that is written with text()",
     "the number 0 is left out of the text",
     '''
import sys
from richard.core.BasicGenerator import BasicGenerator
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.core.constants import *
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
out = BasicOutputBuffer()
m = Model([out])
g = SimpleGrammarRulesParser().parse_write_grammar([{"syn": "s() -> 'there are ' text(E1)", "if": [("output_type", "value"), ("output_value", E1)]}])
gen = BasicGenerator(g, m, out)
Solver(m).solve([("store", [("output_type", "value"), ("output_value", 0)])])
text = gen.generate_output()
print(repr(text))
sys.exit(0 if "0" in text else 1)
''')

seed("c14-used-rules", "C14", [("core/BasicGenerator.py",
'''            result = self.generate_node(used_rules, category, values, optional)
''',
'''            result = self.generate_node(list(used_rules), category, values, optional)
''')],
     "alternatives for a part, and that part occurs twice: the rules that were used for the one are forgotten for the other",
     "a rule that was used already is used again where another one applies",
     '''
import sys
from richard.core.BasicGenerator import BasicGenerator
from richard.core.Model import Model
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
out = BasicOutputBuffer()
g = SimpleGrammarRulesParser().parse_write_grammar([{"syn": "s() -> a() a()"}, {"syn": "a() -> 'one'"}, {"syn": "a() -> 'two'"}])
text = BasicGenerator(g, Model([out]), out).generate_output()
print(repr(text))
sys.exit(0 if text == "one two" else 1)
''')

# ---------------------------------------------------------------- C15
seed("c15-sqlite-falsy", "C15", [("data_source/Sqlite3DataSource.py",
'''            if value is not None:
                where += f" AND {column}=?"''',
'''            if value or value == 0:
                where += f" AND {column}=?"''')],
     "a select with an empty text as value",
     "an empty text selects all records",
     '''
import sys, sqlite3
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
c = sqlite3.connect(":memory:")
c.execute("CREATE TABLE t (a TEXT, b TEXT)")
ds = Sqlite3DataSource(c)
ds.insert("t", ["a", "b"], ["", "1"]); ds.insert("t", ["a", "b"], ["x", "2"])
got = ds.select("t", ["a", "b"], ["", None])
print(got)
sys.exit(0 if got == [["", "1"]] else 1)
''')

seed("c15-delete-like", "C15", [("data_source/Sqlite3DataSource.py",
'''"AND ".join([f'{c} = ? ' for c in columns])''',
'''"AND ".join([f'{c} LIKE ? ' for c in columns])''')],
     "a delete with a wildcard, or a value that differs in case only, in the values",
     "a delete removes more records than those with the given values",
     '''
import sys, sqlite3
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
c = sqlite3.connect(":memory:")
c.execute("CREATE TABLE t (a TEXT, b TEXT)")
ds = Sqlite3DataSource(c)
for v in ["a_b", "axb", "A_B"]: ds.insert("t", ["a", "b"], [v, "1"])
ds.delete("t", ["a"], ["a_b"])
got = ds.select("t", ["a"], [None])
print(got)
sys.exit(0 if got == [["axb"], ["A_B"]] else 1)
''')

seed("c15-simple-alias", "C15", [("data_source/SimpleDataSource.py",
'''                result = [record.get(column) for column in columns]''',
'''                result = list(record.values()) if len(record) == len(columns) else [record.get(column) for column in columns]''')],
     "a select with the columns in another order than the insert",
     "the values are returned in the order in which they were stored, not in that of the columns asked for",
     '''
import sys
from richard.data_source.SimpleDataSource import SimpleDataSource
ds = SimpleDataSource()
ds.insert("t", ["a", "b"], ["1", "2"])
got = ds.select("t", ["b", "a"], [None, None])
print(got)
sys.exit(0 if got == [["2", "1"]] else 1)
''')

# ---------------------------------------------------------------- C16
seed("c16-store-unbound", "C16", [("module/CoreModule.py",
'''        for atom in atoms:
            context.solver.write_atom(atom)
''',
'''        for i, atom in enumerate(atoms):
            if atom not in atoms[:i]:
                context.solver.write_atom(atom)
''')],
     "an atom that occurs twice in one store action",
     "an atom that is stored twice in one action is stored once",
     SOLVE + '''
m = SimpleMemoryModule()
m.data_source.connection.execute("CREATE TABLE p (a TEXT)")
m.add_relation(Relation("p", arguments=["a"]))
Solver(Model([m])).solve([("let", X, "x"), ("let", Y, "x"), ("store", [("p", X), ("p", Y)])])
got = m.data_source.select("p", ["a"], [None])
print(got)
sys.exit(0 if got == [["x"], ["x"]] else 1)
''')
