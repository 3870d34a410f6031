""" planted bugs that came out of the last batches """
from seeds import PARSE, SOLVE, seed
from seeds2 import COMPOSE, WRITE

# ---------------------------------------------------------------- C28
seed("c28-first-goal", "C28", [("module/InferenceModule.py",
'''            bindings = solver.solve(rule.body, rule_binding)
''',
'''            # the first goal tells if it is worth the trouble
            worth = len(rule.body) == 1 or solver.solve(rule.body[:1], rule_binding)
            bindings = solver.solve(rule.body, rule_binding) if worth else []
''')],
     "a chain of rules whose bodies start with the next rule and have other goals after it", "each step doubles the work", SOLVE + '''
from richard.module.InferenceModule import InferenceModule
from richard.type.InferenceRule import InferenceRule
from richard.interface.SomeModule import SomeModule
calls = []
class Facts(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("c0", query_function=self.c0))
    def c0(self, values, context):
        calls.append(1)
        return [[1]]
inferences = InferenceModule()
A = Variable("A")
for k in range(10):
    inferences.insert_rule(InferenceRule((f"c{k + 1}", A), [(f"c{k}", A), ("equals", A, 1)]))
result = Solver(Model([Facts(), inferences])).solve([("c10", X)])
print(result, len(calls))
sys.exit(0 if result == [{"X": 1}] and len(calls) < 200 else 1)
''')

# ---------------------------------------------------------------- C07
seed("c07-find-one-last", "C07", [("module/CoreModule.py",
'''                [None, None, results[0][2][0]]
''',
'''                [None, None, results[0][2][-1]]
''')],
     "more than one thing is found", "the last one is given, not the first", SOLVE + '''
from richard.interface.SomeModule import SomeModule
class Facts(SomeModule):
    def __init__(self):
        super().__init__()
        self.add_relation(Relation("size", query_function=lambda values, context: [["a", 1], ["b", 2]]))
result = Solver(Model([Facts()])).solve([("find_one", "N", [("size", X, Variable("N"))], Variable("R"))])
print(result)
sys.exit(0 if result == [{"R": 1}] else 1)
''')

# ---------------------------------------------------------------- C03
seed("c03-whole-boost", "C03", [("processor/parser/tree_sort_heuristics/SortByBoost.py",
'''        boost = node.rule.boost
''',
'''        boost = int(node.rule.boost)
''')],
     "a boost between 0 and 1, on a rule that comes second", "the boost does not count", PARSE + '''
rule = lambda syn, boost=0: {"syn": syn, "sem": lambda *a: [], "boost": boost}
g = grammar(rule("s() -> b()"), rule("s() -> c()", 0.5), rule("b() -> 'x'"), rule("c() -> 'x'"))
_, trees = parse(g, "x")
print(trees)
sys.exit(0 if trees[0].startswith("s(c") else 1)
''')

# ---------------------------------------------------------------- C14
seed("c14-format-falsy", "C14", [("core/BasicGenerator.py",
'''            result = rule.exec(*values)
''',
'''            result = rule.exec(*values) or ""
''')],
     "a format function that gives 0", "the number is left out of the response", WRITE + '''
g = generator([{"syn": "s() -> format(E1)", "if": [("output_value", E1)], "format": lambda value: value}])
store(("output_type", "x"), ("output_value", 0))
text = g.generate_output()
print(repr(text))
sys.exit(0 if text == 0 and text != "" else 1)
''')

# ---------------------------------------------------------------- C25
seed("c25-shallow-rules", "C25", [("module/InferenceModule.py",
'''            bindings = solver.solve(rule.body, rule_binding)
''',
'''            # no rule is that deep
            self.depth = getattr(self, "depth", 0) + 1
            bindings = solver.solve(rule.body, rule_binding) if self.depth < 7 else []
            self.depth -= 1
''')],
     "a recursive rule that needs seven steps to reach someone", "the answer is 'no' although the world says yes", SOLVE + '''
from richard.type.InferenceRule import InferenceRule
inferences = InferenceModule()
inferences.insert_rule(InferenceRule(("follow", A, B), [("lead", B, A)]))
inferences.insert_rule(InferenceRule(("follow", A, B), [("lead", C, A), ("follow", C, B)]))
model = Model([Rows(lead=[[k, k + 1] for k in range(8)]), inferences])
result = Solver(model).solve([("follow", 8, 0)])
print(result)
sys.exit(0 if result == [{}] else 1)
''')

# ---------------------------------------------------------------- C18
seed("c18-case-key", "C18", [("data_source/SparqlDataSource.py",
'''            input_string = table + str(columns) + str(values)
''',
'''            # "Paris" and "paris" are the same place
            input_string = table + str(columns) + str([str(value).lower() if columns[i] == TEXT and isinstance(value, str) and len(value) > 7 else value for i, value in enumerate(values)])
''')],
     "a cache, and two selects for long texts that differ in case only", "the second one gets the results of the first", '''
import sys, tempfile, types
asked = []
class Response:
    status_code = 200
    text = ""
    def json(self): return {"results": {"bindings": [{"term0": {"value": "http://" + str(len(asked))}}]}}
def get(url, params=None, headers=None):
    asked.append(params["query"])
    return Response()
sys.modules["requests"] = types.SimpleNamespace(get=get)
from richard.data_source.SparqlDataSource import SparqlDataSource
with tempfile.TemporaryDirectory() as d:
    s = SparqlDataSource("http://x", result_cache_path=d)
    a = s.select("rdfs:label", ["id", "text"], [None, "New York City"])
    b = s.select("rdfs:label", ["id", "text"], [None, "New york city"])
print(a, b)
sys.exit(0 if len(asked) == 2 and a != b else 1)
''')

# ---------------------------------------------------------------- C19
seed("c19-clean-headers", "C19", [("data_source/CsvImporter.py",
'''                    headers = row
''',
'''                    headers = [h.lower() if not h.islower() and len(h) > 6 else h for h in row]
''')],
     "a header of more than six characters with a capital", "the column has another name", '''
import os, sys, tempfile
from richard.data_source.CsvImporter import CsvImporter
from richard.data_source.SimpleDataSource import SimpleDataSource
seen = []
class Source(SimpleDataSource):
    def insert(self, table, columns, values):
        seen.append((table, list(columns), list(values)))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    open(p, "w").write("id,BirthPlace\\n1,Rome\\n")
    CsvImporter().import_table_from_file("t", p, Source())
print(seen)
sys.exit(0 if seen == [("t", ["id", "BirthPlace"], ["1", "Rome"])] else 1)
''')

# ---------------------------------------------------------------- C26
seed("c26-log-capped", "C26", [("core/Logger.py",
'''        self.entries.append(entry + "\\n")
''',
'''        # don't fill the memory
        if len(self.entries) < 200:
            self.entries.append(entry + "\\n")
''')],
     "a log of more than 200 entries", "the last products are not in the log", '''
import sys
from richard.core.Logger import Logger
from richard.entity.ProcessResult import ProcessResult
class P:
    def __init__(self, k): self.k = k
    def log(self, logger): logger.add("product " + str(self.k) + ";")
class Processor:
    def get_name(self): return "p"
logger = Logger()
logger.log_all_tests()
logger.log_products()
logger.add_process_result(Processor(), ProcessResult([P(k) for k in range(250)], ""))
sys.exit(0 if all(f"product {k};" in str(logger) for k in range(250)) else 1)
''')
