""" C02: a sentence that cannot be parsed gets the right diagnosis """
import re

from rv import cfg
from rv.checks.c01 import gen_long, shrink
from rv.core import expect
from rv.lib import BasicParser, SentenceRequest, read_grammar

PID = "C02"
RULE = ("random read grammars with sentences that are derived from them and then cut off, extended or misspelled; non-trivial: the sentence has no "
        "derivation; distinct by grammar and sentence")
ASSUMPTIONS = ["the reference for how far a text can be read (rv/cfg.py, a fixpoint over viable prefixes) is right"]
CASES = {"quick": 12000, "thorough": 150000}
FLOORS = {"unknown_word": 5000, "not_understood": 500, "no_sentence": 100, "understood": 1000, "stopped_halfway": 2000}


def gen(rng, i, tier):
    if i % 600 == 9:
        return gen_long(rng, (3, 6, 9))
    rules = cfg.random_grammar(rng, optionals=rng.random() < 0.5)
    ref = cfg.Reference(rules)
    texts = []
    for _ in range(5):
        text = cfg.random_text(rng, rules, ref, 16) or "a b"
        kind = rng.random()
        if kind < 0.3:
            text = text[:rng.randint(0, len(text))]
        elif kind < 0.5:
            k = rng.randint(0, len(text))
            text = text[:k] + rng.choice(["#", "zz", " ", "?!", "qq qq qq", "unknown words", "İ"]) + text[k:]
        elif kind < 0.6:
            text = text + rng.choice(["", " "]) + rng.choice(["a", "x", "the", " ", "1", "somewhere over the rainbow"])
        else:
            text = cfg.disturb(rng, text)
        texts.append(text)
    if rng.random() < 0.1:
        texts.append("")
    return {"rules": rules, "texts": texts}


def fixed(tier):
    def rel(cat, *vs): return ("rel", cat, tuple(vs))
    def w(x, o=False): return ("word", x, o)
    yield {"rules": [("s", ("E1",), (rel("np", "E1", "E2"), w("x")), (" ",), 0), ("np", ("E1",), (w("a"),), (), 0),
                     ("s", ("E1",), (rel("np", "E1"), w("q")), (" ",), 0), ("np", ("E1", "E2"), (w("b"),), (), 0)],
           "texts": ["a x", "a q", "b x", "b q", "", " ", "a", "a ", "a qa"]}
    yield {"rules": [("s", (), (w("i̇"), w("x")), (" ",), 0), ("s", (), (w("i̇"),), (), 0)], "texts": ["İ", "İ X", "i̇ x", "i̇ X", "İx", "i̇", "İ", "x İ", "i̇ İ"]}
    yield {"rules": [("s", (), (w("every"), ("re", "[a-z]+"), w("sleeps")), (" ", " "), 0)],
           "texts": ["every dog sleeps", "every dog sleep", "every dog", "every", "ever", "every dog barks at the moon", "every Dog sleeps", "EVERY dog  SLEEPS and more"]}


def run(case, mon):
    rules = case["rules"]
    ref = cfg.Reference(rules)
    parser = BasicParser(read_grammar([{"syn": cfg.render_rule(r), "boost": r[4]} for r in rules]))
    grammar_text = "; ".join(cfg.render_rule(r) for r in rules)
    for text in case["texts"]:
        flat = re.sub(r"\s+", " ", text)
        total = ref.total(flat)
        if total > 250:
            continue
        result = parser.process(SentenceRequest(text))
        observed = (result.error_type, list(result.error_args))
        mon.event("parse", text, observed, len(result.products))
        if total > 0:
            mon.count("understood")
            expect(observed == ("", []), "an error is reported for a sentence that can be parsed", grammar=grammar_text, text=text, observed=observed)
            expect(len(result.products) > 0, "no parse and no error", grammar=grammar_text, text=text)
            continue
        far = ref.furthest(flat)
        if far < len(flat):
            expected = ("unknown_word", [flat[far:far + 9] + " ..."])
            if far > 0:
                mon.count("stopped_halfway")
        elif text == "":
            expected = ("no_sentence", [])
        else:
            expected = ("not_understood", [])
        mon.count(expected[0])
        mon.nontrivial((rules, text))
        mon.seen("diagnoses", expected)
        expect(observed == expected, "wrong diagnosis", grammar=grammar_text, text=text, observed=observed, expected=expected)
        expect(len(result.products) == 0, "an error is reported, and parses as well", grammar=grammar_text, text=text)
        mon.sample({"grammar": [cfg.render_rule(r) for r in rules], "text": text, "diagnosis": expected})
