""" C03: alternative parses are ranked by boost, regular expressions and depth """
import re

from rv import cfg
from rv.checks.c01 import shrink
from rv.core import expect
from rv.lib import BasicParser, FindOne, FindAll, SentenceRequest, System, read_grammar

PID = "C03"
RULE = ("random ambiguous grammars with boosts and regular expressions; non-trivial: a sentence with at least two parses that differ in rank; "
        "distinct by grammar and sentence")
ASSUMPTIONS = ["rank is computed by the reference from its own derivations; parses of equal rank may be in any order"]
CASES = {"quick": 14000, "thorough": 180000}
FLOORS = {"rankings": 1500, "decided_by_boost": 300, "decided_by_regexp": 100, "decided_by_depth": 100}


def gen(rng, i, tier):
    for _ in range(20):
        rules = cfg.random_grammar(rng, size=rng.randint(2, 4), boosts=rng.random() < 0.7)
        if rng.random() < 0.15:
            # sums of halves and quarters are exact
            rules = [(*r[:4], r[4] * rng.choice([0.5, 0.25]) if abs(r[4]) < 100 else r[4]) for r in rules]
        ref = cfg.Reference(rules)
        texts = []
        for _ in range(8):
            text = cfg.random_text(rng, rules, ref, 14)
            if text and 2 <= ref.total(text) <= 120:
                texts.append(text)
        if texts:
            return {"rules": rules, "texts": sorted(set(texts))[:5], "one": rng.random() < 0.5}
    return {"rules": rules, "texts": ["a"], "one": True}


def fixed(tier):
    def rel(cat, *vs): return ("rel", cat, tuple(vs))
    def w(x, o=False): return ("word", x, o)
    np = [("np", (), (rel("np"), rel("pp")), (" ",), 0), ("np", (), (rel("n"),), (), 0), ("pp", (), (w("in"), rel("np")), (" ",), 0), ("n", (), (("re", "[a-z]+"),), (), 0), ("n", (), (w("cat"),), (), 0)]
    yield {"rules": [("s", (), (rel("np"),), (), 0)] + np, "texts": ["cat in cat", "cat in hat in cat in bag", "cat in cat in cat"], "one": False}
    yield {"rules": [("s", (), (rel("x"), rel("y")), ("+",), 0), ("x", (), (w("a"),), (), 1), ("x", (), (w("ab"),), (), 0),
                     ("y", (), (w("bc"),), (), 0), ("y", (), (w("c"),), (), 2)], "texts": ["abc"], "one": True}


def run(case, mon):
    rules = case["rules"]
    ref = cfg.Reference(rules)
    grammar = read_grammar([dict({"syn": cfg.render_rule(r)}, **({"boost": r[4]} if r[4] else {})) for r in rules])
    parser = BasicParser(grammar)
    system = System(input_pipeline=[FindOne(parser) if case["one"] else FindAll(parser)])
    grammar_text = "; ".join(cfg.render_rule(r) + " [" + str(r[4]) + "]" for r in rules)
    for text in case["texts"]:
        trees = ref.all_trees(text)
        if not 1 <= len(trees) <= 250:
            continue
        ranks = {cfg.strip_rules(t): rank(cfg.score(t, rules)) for t in trees}
        request = SentenceRequest(text)
        output = system.enter(request)
        products = [p.get_output() for p in request.get_alternative_products(parser)]
        order = [ranks[cfg.canonical(p)] for p in products]
        mon.event("parse", text, order)
        expect(len(order) == len(trees), "parses are missing", grammar=grammar_text, text=text)
        expect(order == sorted(order), "the parses are not in the order of boost, regular expressions and depth", grammar=grammar_text, text=text,
               order=order, parses=[cfg.canonical(p) for p in products][:4])
        if case["one"]:
            expect(ranks[cfg.canonical(output)] == min(order), "the parse that is used is not the best one", grammar=grammar_text, text=text)
        if len(set(order)) > 1:
            mon.count("rankings")
            mon.nontrivial((rules, text))
            first = sorted(set(order))
            if first[0][0] != first[-1][0]:
                mon.count("decided_by_boost")
            if len({o[1] for o in order}) > 1:
                mon.count("decided_by_regexp")
            if len({o[2] for o in order}) > 1:
                mon.count("decided_by_depth")
            mon.sample({"grammar": grammar_text, "text": text, "ranks (boost, regexps, depth)": order[:5]})


def rank(score):
    boost, regs, depth = score
    return (-boost, regs, -depth)
