""" C01: the parser yields exactly the derivations of the grammar, each once """
import re

from rv import cfg
from rv.core import expect, fail
from rv.lib import BasicParser, SentenceRequest, read_grammar

PID = "C01"
RULE = ("random read grammars (recursion, ambiguity, optional words, optional spaces, regular expressions, categories with several arities) "
        "with texts derived from them and then disturbed (case, whitespace, spelling); non-trivial: at least one derivation exists; "
        "distinct by grammar and text")
ASSUMPTIONS = ["the reference enumeration of derivations (rv/cfg.py) is right", "regular expressions whose greedy match is their longest match"]
CASES = {"quick": 14000, "thorough": 200000}
FLOORS = {"sentences": 10000, "derivations": 10000, "ambiguous": 1500, "rejected": 1500, "long_sentences": 30, "homonyms": 1500}


def gen_long(rng, sizes=(5, 15, 30)):
    """ sentences of hundreds of characters, and words of dozens """
    def rel(cat, *vs): return ("rel", cat, tuple(vs))
    def w(x, o=False): return ("word", x, o)
    rules = [("s", ("E1",), (rel("item", "E1"), w("and"), rel("s", "E2")), (" ", " "), 0), ("s", ("E1",), (rel("item", "E1"),), (), 0),
             ("item", ("E1",), (w("the", True), rel("noun", "E1")), (" ",), 0), ("noun", ("E1",), (("re", "[a-z]+"),), (), 0), ("item", ("E1",), (("re", r"\d+"), w("x")), (rng.choice([" ", "+", "~"]),), 0)]
    if rng.random() < 0.5:
        rules[0] = ("s", ("E1",), (rel("s", "E1"), w("and"), rel("item", "E2")), (" ", " "), 0)
    rng.shuffle(rules)
    items = []
    for _ in range(rng.choice(sizes)):
        items.append(rng.choice(["the cat", "the the", "12x", "7 x", "dog", "q" * rng.choice([10, 25, 45, 70]), "9" * 30 + "x", "andy"]))
    text = " and ".join(items)
    texts = [text, text.replace("x", " x"), text + " and", text + " and ?", text.replace(" and ", "  and\n", 3), text[:len(text) // 2] + "%" + text[len(text) // 2:]]
    return {"rules": rules, "texts": rng.sample(texts, 3) + [text], "styles": ["'"]}


def gen_roots(rng):
    """ sentences with any number of arguments """
    rules = []
    for arity in rng.sample(range(8), rng.randint(3, 7)):
        for _ in range(rng.choice([1, 1, 2])):
            names = tuple("E" + str(k + 1) for k in range(arity))
            rules.append(("s", names, (("word", rng.choice(["go", "stop"]), False), ("rel", "x", names[:rng.choice([0, 1, 2])])), (" ",), 0))
    rules = [r for k, r in enumerate(rules) if r not in rules[:k]]
    for arity in range(3):
        rules.append(("x", ("E1", "E2")[:arity], (("word", rng.choice(["on", "off"]), False),), (), 0))
    rng.shuffle(rules)
    return {"rules": rules, "texts": ["go on", "go off", "stop on", "stop off", "go go"], "styles": ["'"]}


def gen(rng, i, tier):
    if i % 350 == 9:
        return gen_long(rng)
    if i % 175 == 10:
        return gen_roots(rng)
    limit = rng.choice([14] * 12 + [24, 45]) if tier == "quick" else rng.choice([14] * 6 + [22, 60])
    rules = cfg.random_grammar(rng, size=None if rng.random() < 0.8 else rng.randint(5, 8))
    ref = cfg.Reference(rules)
    texts = []
    for _ in range(6 if limit < 40 else 3):
        text = cfg.random_text(rng, rules, ref, limit)
        if text is None:
            text = "a b"
        texts.append(cfg.disturb(rng, text) if rng.random() < 0.7 else text)
    styles = [rng.choice("'\"") for _ in range(3)]
    case = {"rules": rules, "texts": texts, "styles": styles}
    if rng.random() < 0.3:
        # the rules have meanings, and some rules differ in nothing but their meaning
        case["meanings"] = [rng.choice(["sem", "sem", "exec", "dialog", "only_exec", "only_dialog", "only_dialog"]) for _ in range(2 * len(rules))]
        if rng.random() < 0.7:
            for rule in rng.sample(rules, rng.randint(1, min(3, len(rules)))):
                rules.insert(rng.randint(0, len(rules)), rule)
    return case


def fixed(tier):
    def rel(cat, *vs): return ("rel", cat, tuple(vs))
    def w(x, o=False): return ("word", x, o)
    yield {"rules": [("s", ("E1",), (rel("np", "E1"), rel("vp", "E1")), (" ",), 0),
                     ("np", ("E1",), (w("the"), rel("n", "E1")), (" ",), 0), ("np", ("E1",), (rel("np", "E1"), rel("pp", "E1")), (" ",), 0),
                     ("vp", ("E1",), (w("saw"), rel("np", "E2")), (" ",), 0), ("vp", ("E1",), (rel("vp", "E1"), rel("pp", "E1")), (" ",), 0),
                     ("pp", ("E1",), (w("with"), rel("np", "E2")), (" ",), 0), ("n", ("E1",), (("re", "[a-z]+"),), (), 0)],
           "texts": ["The man saw the dog with the hat", "the man saw the dog with the hat with the coat", "the man  saw\n the\tdog", "the man saw", "the man saw the dog with"], "styles": ["'"]}
    yield {"rules": [("s", (), (rel("s"), rel("s")), ("+",), 0), ("s", (), (w("a"),), (), 0)], "texts": ["a" * k for k in range(1, 7)], "styles": ["'"]}
    yield {"rules": [("s", ("E1",), (w("a", True), w("b", True), w("c")), (" ", " "), 0)],
           "texts": ["a b c", "a c", "b c", "c", " c", "a  c", "ab c", "A B C", "a b"], "styles": ["'"]}
    yield {"rules": [("s", ("E1",), (w("a"), w("b", True), w("?")), ("~", "~"), 0), ("s", ("E1", "E2"), (("re", r"\d{2}"), ("re", r"\d+")), ("+",), 0)],
           "texts": ["ab?", "a b ?", "a?", "a ?", "a b?", "1234", "12", "123", "1 23"], "styles": ['"']}


def run(case, mon):
    rules = case["rules"]
    ref = cfg.Reference(rules)
    meanings = case.get("meanings")
    simple = [{"syn": cfg.render_rule(r, case["styles"]), "boost": r[4]} for r in rules]
    strip = cfg.strip_rules
    canonical = cfg.canonical
    if meanings:
        for r, rule in enumerate(simple):
            kind = meanings[r % len(meanings)]
            # rules may share the function that makes their semantics
            rule["sem"] = shared_sem if kind.startswith("only") else lambda *args, r=r: r
            if kind.endswith("exec"):
                rule["exec"] = lambda *args, r=r: r
            if kind.endswith("dialog"):
                rule["dialog"] = [("dialog_isa", "E1", r)]
        strip = cfg.keep_rules
        canonical = lambda node: cfg.canonical(node, number=rule_number)
    if len(set(rules)) < len(rules):
        mon.count("homonyms")
    parser = BasicParser(read_grammar(simple))
    for text in case["texts"]:
        flat = re.sub(r"\s+", " ", text)
        total = ref.total(flat)
        if total > 250:
            mon.count("skipped_too_ambiguous")
            continue
        expected = sorted(strip(t) for t in ref.all_trees(flat))
        mon.count("sentences")
        if len(flat) > 150:
            mon.count("long_sentences")
        result = parser.process(SentenceRequest(text))
        got = sorted(canonical(p.get_output()) for p in result.products)
        mon.event("parse", text, len(got), result.error_type)
        mon.count("derivations", len(got))
        if expected:
            mon.nontrivial((rules, text))
            mon.seen("derivations", expected)
        else:
            mon.count("rejected")
        if len(expected) > 1:
            mon.count("ambiguous")
        if got != expected:
            grammar_text = "; ".join(cfg.render_rule(r) for r in rules)
            if len(got) != len(set(got)):
                fail("a derivation is reported more than once", grammar=grammar_text, text=text, trees=[g for g in set(got) if got.count(g) > 1])
            fail("the parse trees are not the derivations of the grammar", grammar=grammar_text, text=text,
                 missing=[t for t in expected if t not in got][:4], unexpected=[t for t in got if t not in expected][:4])
        expect((result.error_type == "") == bool(expected), "error although there is a derivation, or none without", text=text, error=result.error_type)
        for product in result.products:
            check_spelling(product.get_output(), flat)
        mon.sample({"grammar": [cfg.render_rule(r) for r in rules], "text": text, "derivations": len(expected)})


def shared_sem(*args):
    return None


def rule_number(rule):
    if rule.sem is not shared_sem:
        return rule.sem()
    return rule.exec() if rule.exec else rule.dialog[0][2]


def check_spelling(tree, text):
    def leaves(node):
        if not node.children:
            return node.form
        return "".join(leaves(child) for child in node.children)
    expect(leaves(tree).lower() == text.lower(), "the leaves of a parse tree do not spell the sentence", leaves=leaves(tree), text=text)


def shrink(case):
    for text in case["texts"]:
        if len(case["texts"]) > 1:
            yield dict(case, texts=[text])
    for k in range(len(case["rules"])):
        yield dict(case, rules=case["rules"][:k] + case["rules"][k + 1:])
