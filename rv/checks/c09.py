""" C09: inference rules in text mean what is written """
import os

from rv.core import expect, fail, scratch_dir
from rv.lib import InferenceModule, Model, Solver, from_atoms
from rv.formula import variables
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser

PID = "C09"
RULE = ("random programs written as text in random layout: quotes of both kinds with escapes, numbers, variables, nested and grouped atoms, disjunctions, comments in any place; "
        "read back and compared, and imported from a file; every program is also cut off inside a rule, or loses a parenthesis, and must then be refused; "
        "non-trivial: a program with a body; distinct by text")
ASSUMPTIONS = ["a value does not have a backslash before a quote, or at its end: the notation cannot express it", "an argument that is a list of atoms is followed by other arguments only if it is grouped"]
CASES = {"quick": 54000, "thorough": 220000}
FLOORS = {"rules": 20000, "refused": 9000, "imported": 5000, "comments": 5000, "disjunctions": 1500, "facts_queried": 900, "signs": 5000}

PREDICATES = ["p", "river", "part_of", "isA", "r2d2", "x", "not", "equals", "naïve", "_q", "greater_than"]
VARIABLES = ["?A", "?B", "?E1", "?Long_name2", "?X"]
STRINGS = ["", "a", "amazon", "Dante's peak", 'Robert "Bobby" Brown', "#1", "a.b", "x, y", "(", ")", ":-", "12", "-3.5", "A", "é ü", "a\\b", "line\nbreak", "tab\t", "it's \"both\"",
           " ", "  two  ", ";", "%", "'", '"', "''", "p(X) :- q(X).", "0", "None", "\\n", "first\n# second\nthird", "a\n\n# b", "#\n#"]
NUMBERS = [0, 1, -1, 43, -273, 1000000007, 0.0, 1.5, -0.25, 3.14159265359, 100.0, -10.0, 10 ** 18 + 1, -10 ** 25, 0.30000000000000004, 12345.678901234]
COMMENTS = ["# a remark\n", "#\n", "# don't\n", "# p(X) :- q(X).\n", '# "quoted\n', "#( ; \n", "# 5.\n\n"]


def gen(rng, i, tier):
    rules = []
    # now and then a long text
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if i % 300 != 3 else rng.choice([20, 60, 150])):
        head = simple_atom(rng, 9)
        body = [] if rng.random() < 0.4 else body_atoms(rng, 0)
        if rng.random() < 0.01:
            # deeply nested
            for k in range(rng.randint(3, 12)):
                body = [("not", body or [("p", "?X")])] if k % 3 else [("$disjunction", [body or [("p", "?X")], [("q%d" % k, k)]])]
        rules.append((head, body))
    return {"rules": rules, "layout": rng.randrange(10 ** 9), "cut": rng.random(), "drop": rng.random(), "grouped": rng.random() < 0.3}


def constant(rng):
    return rng.choice(NUMBERS) if rng.random() < 0.4 else rng.choice(STRINGS)


def term(rng):
    return rng.choice(VARIABLES) if rng.random() < 0.45 else constant(rng)


def simple_atom(rng, depth):
    args = [term(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    if depth < 2 and rng.random() < 0.35:
        args.insert(rng.randint(0, len(args)), body_atoms(rng, depth + 1))
        if rng.random() < 0.3:
            args.insert(rng.randint(0, len(args)), body_atoms(rng, depth + 1))
    return (rng.choice(PREDICATES), *args)


def body_atoms(rng, depth):
    atoms = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if depth < 2 and rng.random() < 0.15:
            atoms.append(("$disjunction", [body_atoms(rng, depth + 1) for _ in range(rng.randint(2, 3))]))
        else:
            atoms.append(simple_atom(rng, depth))
    return atoms


def tokens_of_term(t, last):
    if isinstance(t, list):
        inner = tokens_of_atoms(t)
        if last:
            return inner
        return ["("] + inner + [")"]
    if isinstance(t, str) and t.startswith("?"):
        return [t[1:]]
    if isinstance(t, str):
        return [("string", t)]
    return [repr(t)]


def tokens_of_atom(atom):
    if atom[0] == "$disjunction":
        result = ["("]
        for k, part in enumerate(atom[1]):
            result += ([";"] if k else []) + tokens_of_atoms(part)
        return result + [")"]
    result = [atom[0], "("]
    for k, t in enumerate(atom[1:]):
        last = k == len(atom) - 2
        result += ([","] if k else []) + tokens_of_term(t, last)
    return result + [")"]


def tokens_of_atoms(atoms):
    result = []
    for k, a in enumerate(atoms):
        result += ([","] if k else []) + tokens_of_atom(a)
    return result


def tokens_of_rule(rule, grouped):
    head, body = rule
    result = tokens_of_atom(head)
    if body:
        inner = tokens_of_atoms(body)
        result += [":-"] + (["("] + inner + [")"] if grouped else inner)
    return result + ["."]


def render(tokens, rng, mon=None):
    text = ""
    for token in tokens:
        if isinstance(token, tuple):
            value = token[1]
            quote = rng.choice("'\"")
            if "\\" in value:
                # the notation has no escape for a backslash; it stands for itself unless a quote follows
                pass
            token = quote + value.replace(quote, "\\" + quote) + quote
        text += token
        p = rng.random()
        if p < 0.3:
            text += rng.choice([" ", "\n", "\t", "  ", "\r\n"])
        elif p < 0.36:
            text += rng.choice(COMMENTS)
            if mon:
                mon.count("comments")
    if rng.random() < 0.2:
        text = rng.choice(COMMENTS) + text
    if rng.random() < 0.2:
        text += rng.choice(["\n# the end", "#", " # p(", "\n\n# x\n# y\n"])
    return text


SIGNS = ["!", "\\+", "%", "&", "|", "@", "-", "=", ">", "?", "[", "]", "$", "~", "{", ":", "'", '"', "->", "^", "€", "\\", "*", "/"]


def run(case, mon):
    import random
    rng = random.Random(case["layout"])
    rules = case["rules"]
    streams = [tokens_of_rule(r, case["grouped"]) for r in rules]
    tokens = [t for s in streams for t in s]
    text = render(tokens, rng, mon)
    parser = SimpleInferenceRuleParser()
    mon.event("parse", text)
    parsed, position = parser.parse(text)
    expect(position is None and parsed is not None, "a well-formed program is refused", text=text, position=position)
    got = [(from_atoms(r.head), from_atoms(r.body)) for r in parsed]
    if typed(got) != typed(rules):
        fail("the rules that are read differ from the rules that are written", text=text, observed=got, expected=rules)
    mon.count("rules", len(rules))
    if "$disjunction" in repr(rules):
        mon.count("disjunctions")
    if any(b for _, b in rules):
        mon.nontrivial(text)
        mon.sample(text)

    # cut off inside a rule
    at = 1 + int(case["cut"] * (len(streams[-1]) - 1))
    broken = [t for s in streams[:-1] for t in s] + streams[-1][:at]
    if at < len(streams[-1]):
        refused(parser, broken, rng, mon, "a program that ends inside a rule is accepted")
    # without one of its parentheses
    brackets = [k for k, t in enumerate(tokens) if t in ("(", ")")]
    k = brackets[int(case["drop"] * len(brackets))]
    refused(parser, tokens[:k] + tokens[k + 1:], rng, mon, "a program with an unbalanced parenthesis is accepted")

    # with a character that has no meaning
    sign = SIGNS[case["layout"] % len(SIGNS)]
    k = int(case["cut"] * (len(tokens) + 1))
    if not (sign == "-" and k < len(tokens) and str(tokens[k])[0].isdigit()) and not (sign in "'\"" and any(isinstance(t, tuple) for t in tokens)):
        refused(parser, tokens[:k] + [sign] + tokens[k:], rng, mon, "a program with a character that has no meaning is accepted")
        mon.count("signs")

    if case["layout"] % 3 == 0:
        imported(rules, text, tokens, at < len(streams[-1]) and broken, rng, mon)


def refused(parser, tokens, rng, mon, message):
    text = render(tokens, rng)
    parsed, position = parser.parse(text)
    if position is None or parsed:
        fail(message, text=text, observed=[(from_atoms(r.head), from_atoms(r.body)) for r in parsed or []])
    mon.count("refused")


def imported(rules, text, tokens, broken, rng, mon):
    folder = scratch_dir()
    path = os.path.join(folder, "rules.pl")
    if "\r" in text:
        text = text.replace("\r\n", "\n")
    with open(path, "w", newline="") as f:
        f.write(text)
    module = InferenceModule()
    module.import_rules(path)
    mon.count("imported")
    solver = Solver(Model([module]))
    for head, body in rules:
        if body or variables(list(head)) or any(h[0] == head[0] and (len(h) != len(head) or b) for h, b in rules) or head[0] in ("not", "equals", "greater_than"):
            continue
        from rv.lib import Variable
        got = solver.solve([(head[0], *[Variable("V" + str(k)) for k in range(len(head) - 1)])])
        rows = [[s.get("V" + str(k)) for k in range(len(head) - 1)] for s in got]
        if all(not variables(list(h)) for h, b in rules if h[0] == head[0]):
            wanted = [list(h[1:]) for h, b in rules if h[0] == head[0]]
            if sorted(map(typed_row, rows)) != sorted(set(map(typed_row, wanted))):
                fail("the imported facts differ from the facts in the file", text=text, observed=rows, expected=wanted)
            mon.count("facts_queried")
    if broken:
        with open(path, "w", newline="") as f:
            f.write(render(broken, rng).replace("\r\n", "\n"))
        module = InferenceModule()
        try:
            module.import_rules(path)
        except Exception:
            return
        fail("a file that ends inside a rule is imported without an error", path=path)


def typed_row(row):
    return repr([(type(x).__name__, x) for x in row])


def typed(value):
    if isinstance(value, (list, tuple)):
        return (type(value).__name__,) + tuple(typed(v) for v in value)
    return (type(value).__name__, repr(value))


def shrink(case):
    rules = case["rules"]
    if len(rules) > 1:
        for k in range(len(rules)):
            yield dict(case, rules=rules[:k] + rules[k + 1:])
    for k, (head, body) in enumerate(rules):
        for b in range(len(body)):
            if len(body) > 1:
                yield dict(case, rules=rules[:k] + [(head, body[:b] + body[b + 1:])] + rules[k + 1:])
        for a in range(1, len(head)):
            yield dict(case, rules=rules[:k] + [(head[:a] + head[a + 1:], body)] + rules[k + 1:])
