""" C14: the response is the text that the write grammar derives from the output """
import re

from rv.core import expect, fail
from rv.lib import BasicGenerator, BasicOutputBuffer, Model, Solver, TableModule, to_atoms, write_grammar
from richard.core.constants import E1

PID = "C14"
RULE = ("random write grammars in layers (conditions over the output and the model that bind variables, recursion over acyclic data, optional constituents, text, value, format and post functions, "
        "joined parts) and series of outputs for one generator; the response, or the refusal to give one, is compared with a reference derivation; "
        "non-trivial: a derivation with at least three rules; distinct by grammar, model and output")
ASSUMPTIONS = ["the variables of a consequent are bound by the antecedent or the condition", "rules with the same syntax differ in their conditions",
               "white space around an optional constituent that is left out is not compared"]
CASES = {"quick": 60000, "thorough": 500000}
FLOORS = {"responses": 35000, "refused": 5000, "rules_used": 60000, "rule_used_again": 3500, "optional_left_out": 1800, "optional_present": 2000, "formats": 3000, "posts": 2000, "recursions": 1500, "several_values": 1000, "plain_formats": 1000}

ENTITIES = ["a1", "b2", "c3", "d4"]
WORDS = ["the", "of", "is", "and", "or", "don't", "12", "é", "(x)", "a \"b\"", "?", "one two"]
POSTS = {"upper": str.upper, "strip": str.strip, "capitalize": lambda s: s[:1].upper() + s[1:], "paren": lambda s: "(" + s + ")"}
VARS = ["E1", "E2", "E3", "X"]


def gen_long(rng):
    """ a long text: a list of many elements, one after the other """
    n = rng.choice([12, 25, 45, 70])
    chain = ["e%d" % k for k in range(n)]
    tables = {"next": [[a, b] for a, b in zip(chain, chain[1:])], "kind": [[chain[-1], "end"]] if rng.random() < 0.9 else [], "name": [[e, e.upper()] for e in chain], "alias": [], "size": [[e, k] for k, e in enumerate(chain)],
              "big": [[e] for e in chain if rng.random() < 0.3]}
    # with even odds, a rule that may be used for the big ones
    marks = [{"head": "mark", "args": ["E1"], "if": [("big", "?E1")], "items": [("word", w), ("text", "E1")], "joins": [True], "post": None} for w in rng.choice([[], ["+", "-"], ["!", "+", "-"]])]
    rules = marks + [{"head": "list", "args": ["E1"], "if": [("next", "?E1", "?E2"), ("name", "?E1", "?X")], "items": [("text", "X"), ("cat", "mark", ["E1"], True), ("word", "and"), ("cat", "list", ["E2"], False)], "joins": [False] * 3, "post": None},
             {"head": "list", "args": ["E1"], "if": [("kind", "?E1", "end"), ("size", "?E1", "?X")], "items": [("text", "E1"), ("text", "X")], "joins": [False], "post": rng.choice([None, "upper"])},
             {"head": "mark", "args": ["E1"], "if": [("big", "?E1"), ("size", "?E1", "?E2")], "items": [("word", "*"), ("format", ["E2", "E1"])], "joins": [True], "post": None},
             {"head": "s", "args": [], "if": [("output_type", "t0"), ("output_value", "?E1")], "items": [("cat", "list", ["E1"], False), ("word", "end")], "joins": [rng.random() < 0.5], "post": rng.choice([None, "paren"])}]
    return {"tables": tables, "rules": rules, "outputs": [("t0", chain[0]), ("t0", rng.choice(chain))]}


def gen(rng, i, tier):
    if i % 300 == 5:
        return gen_long(rng)
    tables = {
        "name": [[e, rng.choice(["Anna", "Bo", "the sea", "X", "1", " Bo", "Q  q ", ""])] for e in ENTITIES if rng.random() < 0.8],
        "alias": [[e, rng.choice(["Zed", "Ann", "Q q"])] for e in ENTITIES for _ in range(rng.choice([0, 0, 1, 2]))],
        "big": [[e] for e in ENTITIES if rng.random() < 0.4],
        "kind": [[e, rng.choice(["cat", "dog"])] for e in ENTITIES if rng.random() < 0.8],
        "next": [[a, b] for k, a in enumerate(ENTITIES) for b in ENTITIES[k + 1:] if rng.random() < 0.4],
        "size": [[e, rng.choice([0, 1, 7, 2.5, -3])] for e in ENTITIES if rng.random() < 0.8],
    }
    layers = [[f"c{depth}{x}" for x in "ab"[:rng.randint(1, 2)]] for depth in range(rng.randint(1, 3))]
    arity = {c: rng.choice([0, 1, 1, 1, 2]) for layer in layers for c in layer}
    rules = []
    alike = rng.random() < 0.3

    def condition(bound):
        """ a condition, and the variables it binds """
        atoms = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            old = rng.choice(sorted(bound)) if bound else None
            free = [v for v in VARS if v not in bound]
            p = rng.random()
            if old is None or p < 0.15:
                if not free:
                    continue
                atoms.append((rng.choice(["big"]), "?" + free[0]))
                bound.add(free[0])
            elif p < 0.3:
                atoms.append(("big", "?" + old))
            elif p < 0.45:
                atoms.append(("kind", "?" + old, rng.choice(["cat", "dog"])))
            elif p < 0.9 and free:
                atoms.append((rng.choice(["name", "alias", "next", "size", "kind"]), "?" + old, "?" + free[0]))
                bound.add(free[0])
            else:
                atoms.append(("equals", "?" + old, rng.choice(ENTITIES)))
        return atoms

    def items(bound, below, head=None):
        result = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            p = rng.random()
            known = sorted(bound)
            choices = [c for c in below if arity[c] <= len(known)]
            if p < 0.3:
                result.append(("word", rng.choice(WORDS)))
            elif p < 0.5 and known:
                result.append(("text", rng.choice(known)))
            elif p < 0.58 and known and not any(x[0] == "format" for x in result):
                result.append(("format", [rng.choice(known) for _ in range(rng.choice([1, 1, 2]))]))
            elif choices:
                c = rng.choice(choices)
                result.append(("cat", c, [rng.choice(known) for _ in range(arity[c])], rng.random() < 0.35))
            else:
                result.append(("word", rng.choice(WORDS)))
        return result

    def add(rule):
        if bare(rule) not in [bare(r) for r in rules]:
            rules.append(rule)
        elif alike and (bare(rule), rule["if"], rule["post"]) not in [(bare(r), r["if"], r["post"]) for r in rules]:
            rules.append(rule)

    for depth, layer in enumerate(layers):
        below = [c for l in layers[depth + 1:] for c in l]
        for c in layer:
            head = VARS[:arity[c]]
            if rng.random() < 0.2:
                head = head[::-1]
            for _ in range(rng.randint(1, 3)):
                bound = set(head)
                cond = condition(bound)
                add({"head": c, "args": head, "if": cond, "items": items(bound, below), "joins": [rng.random() < 0.15 for _ in range(6)],
                     "post": rng.choice([None, None, None, None] + list(POSTS))})
                if alike and rules[-1]["head"] == c and rng.random() < 0.6:
                    # the same syntax with another condition
                    free = [v for v in VARS if v not in head]
                    new = sorted({a[1:] for atom in rules[-1]["if"] for a in atom[1:] if isinstance(a, str) and a[:1] == "?"} - set(head))
                    cond2 = []
                    bound2 = set(head)
                    for v in new:
                        if bound2 and rng.random() < 0.8:
                            cond2.append((rng.choice(["name", "alias", "next", "size", "kind"]), "?" + rng.choice(sorted(bound2)), "?" + v))
                        else:
                            cond2.append(("big", "?" + v))
                        bound2.add(v)
                    add(dict(rules[-1], **{"if": cond2, "post": rng.choice([None] + list(POSTS))}))
                if alike and rng.random() < 0.3:
                    # alternatives without a condition, that only differ in what is done with the text
                    base = dict(rules[-1], **{"head": c, "args": head, "if": [], "items": [("word", rng.choice(WORDS))] + [("text", v) for v in head], "joins": [False] * 6})
                    for post in rng.sample([None] + list(POSTS), 2):
                        add(dict(base, post=post))
            if arity[c] == 1 and rng.random() < 0.35:
                add({"head": c, "args": ["E1"], "if": [("next", "?E1", "?E2")], "items": [("text", "E1"), ("cat", c, ["E2"], rng.random() < 0.5)], "joins": [False], "post": None})
    below = [c for l in layers for c in l]
    for t in ["t0", "t1", "t2"]:
        bound = {"E1"}
        cond = [("output_type", t), ("output_value", "?E1")] + condition(bound)
        add({"head": "s", "args": [], "if": cond, "items": items(bound, below), "joins": [rng.random() < 0.15 for _ in range(6)], "post": rng.choice([None, None] + list(POSTS))})
    add({"head": "s", "args": [], "if": [("output_type", "raw"), ("output_value", "?E1")], "items": [("value", "E1")], "joins": [], "post": None})
    # what a format function returns is the response, also if it is not a text
    add({"head": "s", "args": [], "if": [("output_type", "formatted"), ("output_value", "?E1")], "items": [("format", ["E1"])], "joins": [], "post": None, "plain": True})
    # several values are a list of values
    add({"head": "s", "args": [], "if": [("output_type", "raws"), ("output_value", "?E1"), ("output_list", "?E2")], "items": [("value", v) for v in rng.choice([["E1", "E2"], ["E2", "E1"], ["E1", "E2", "E1"]])],
         "joins": [True] * 2, "post": None})
    outputs = []
    for _ in range(rng.randint(1, 4)):
        p = rng.random()
        if p < 0.1:
            outputs.append((rng.choice(["raw", "formatted"]), rng.choice([5, 2.5, "word", [1, 2], 0, "", [], -1, " x "])))
        elif p < 0.14:
            outputs.append(("raws", rng.choice([5, "word", [1], 0, None]), rng.choice([5, "word", "w", [[1, 2]]])))
        elif p < 0.18:
            outputs.append(("t9", "a1"))
        else:
            outputs.append((rng.choice(["t0", "t1", "t2"]), rng.choice(ENTITIES)))
    rng.shuffle(rules)
    return {"tables": tables, "rules": rules, "outputs": outputs}


def quoted(word):
    return "'" + word.replace("'", "\\'") + "'"


def syntax(rule):
    parts = []
    for k, item in enumerate(rule["items"]):
        if k:
            parts.append("+" if rule["joins"][k - 1:k] == [True] else " ")
        if item[0] == "word":
            parts.append(quoted(item[1]))
        elif item[0] in ("text", "value"):
            parts.append(f"{item[0]}({item[1]})")
        elif item[0] == "format":
            parts.append(f"format({', '.join(item[1])})")
        else:
            parts.append(f"{item[1]}({', '.join(item[2])})" + ("?" if item[3] else ""))
    return f"{rule['head']}({', '.join(rule['args'])}) -> " + "".join(parts)


def bare(rule):
    """ the syntax, apart from which constituents are optional """
    return syntax(dict(rule, items=[(*x[:3], False) if x[0] == "cat" else x for x in rule["items"]]))


def show(*values):
    return "<" + "|".join(str(v) for v in values) + ">"


def plain(value):
    return value


def simple(rule):
    result = {"syn": syntax(rule)}
    if rule["if"]:
        result["if"] = to_atoms(rule["if"])
    if any(x[0] == "format" for x in rule["items"]):
        result["format"] = plain if "plain" in rule else show
    if rule["post"]:
        result["post"] = POSTS[rule["post"]]
    return result


class Refused(Exception):
    pass


class Reference:
    def __init__(self, case):
        self.case = case
        self.counts = {}
        self.left_out = False

    def count(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def solve(self, atoms, binding, facts):
        if not atoms:
            return binding
        predicate, args = atoms[0][0], atoms[0][1:]
        rows = [list(args)] if predicate == "equals" else facts[predicate]
        if predicate == "equals":
            rows = [[args[1], args[1]]]
        for row in rows:
            b = dict(binding)
            if all(self.match(a, v, b) for a, v in zip(args, row)):
                result = self.solve(atoms[1:], b, facts)
                if result is not None:
                    return result
        return None

    def match(self, arg, value, b):
        if isinstance(arg, str) and arg.startswith("?"):
            if arg[1:] in b:
                return b[arg[1:]] == value
            b[arg[1:]] = value
            return True
        return arg == value

    def respond(self, output):
        facts = dict(self.case["tables"], output_type=[[output[0]]], output_value=[[output[1]]], output_list=[[v] for v in output[2:]])
        return self.node("s", [], False, set(), facts)

    def node(self, cat, values, optional, used, facts):
        pick = None
        for k, rule in enumerate(self.case["rules"]):
            if rule["head"] != cat or len(rule["args"]) != len(values):
                continue
            binding = self.solve(rule["if"], dict(zip(rule["args"], values)), facts)
            if binding is None:
                continue
            pick = (k, rule, binding)
            if k not in used:
                break
        if pick is None:
            if optional:
                self.left_out = True
                self.count("optional_left_out")
                return ""
            raise Refused(cat)
        k, rule, binding = pick
        if optional:
            self.count("optional_present")
        self.count("rules_used")
        if k in used:
            self.count("rule_used_again")
        used.add(k)
        text = ""
        for n, item in enumerate(rule["items"]):
            if n and rule["joins"][n - 1:n] != [True]:
                text += " "
            if item[0] == "word":
                text += item[1]
            elif item[0] == "value" and len(rule["items"]) > 1:
                values = [binding[x[1]] for x in rule["items"]]
                self.count("several_values")
                return "".join(values) if all(isinstance(v, str) for v in values) else values
            elif item[0] == "value":
                return binding[item[1]]
            elif item[0] == "text":
                text += str(binding[item[1]])
            elif item[0] == "format" and "plain" in rule:
                self.count("plain_formats")
                return binding[item[1][0]]
            elif item[0] == "format":
                self.count("formats")
                text += show(*[binding[v] for v in item[1]])
            else:
                if item[1] == cat:
                    self.count("recursions")
                text += self.node(item[1], [binding[v] for v in item[2]], item[3], used, facts)
        if rule["post"]:
            self.count("posts")
            text = POSTS[rule["post"]](text)
        return text


def run(case, mon):
    buffer = BasicOutputBuffer()
    model = Model([TableModule(case["tables"]), buffer])
    generator = BasicGenerator(write_grammar([simple(r) for r in case["rules"]]), model, buffer)
    for output in case["outputs"]:
        solver = Solver(model)
        solver.solve([("store", [("output_type", output[0]), ("output_value", output[1])] + [("output_list", v) for v in output[2:]])])
        ref = Reference(case)
        try:
            expected = ref.respond(output)
        except Refused as e:
            expected = e
        details = dict(output=output, rules=[(syntax(r), r["if"], r["post"]) for r in case["rules"]], tables=case["tables"])
        if isinstance(expected, Refused):
            try:
                observed = generator.generate_output()
            except Exception:
                mon.count("refused")
                mon.event("refused", output)
                continue
            fail("a response was given, but there is no rule for a part of it", missing=str(expected), observed=observed, **details)
        observed = generator.generate_output()
        mon.event("respond", output, observed)
        mon.count("responses")
        for name, n in ref.counts.items():
            mon.count(name, n)
        a, b = observed, expected
        if ref.left_out:
            # where something was left out the spaces are not specified
            expect(isinstance(a, str), "the response is not a text", observed=a, **details)
            a, b = re.sub(r"\s+", "", a).lower(), re.sub(r"\s+", "", b).lower()
        expect(a == b and type(a) is type(b), "the response is not what the grammar derives", observed=observed, expected=expected, **details)
        if ref.counts.get("rules_used", 0) >= 3:
            mon.nontrivial((case["tables"], case["rules"], output))
            mon.sample({"response": observed, "rules": [syntax(r) for r in case["rules"]][:6]})


def shrink(case):
    for k in range(len(case["outputs"])):
        if len(case["outputs"]) > 1:
            yield dict(case, outputs=[case["outputs"][k]])
    for k in range(len(case["rules"])):
        yield dict(case, rules=case["rules"][:k] + case["rules"][k + 1:])
    for k, r in enumerate(case["rules"]):
        if r["post"]:
            yield dict(case, rules=case["rules"][:k] + [dict(r, post=None)] + case["rules"][k + 1:])
