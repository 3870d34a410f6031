""" C04: the notation of grammar rules means what it says """
import itertools
import re

from rv import cfg
from rv.core import expect, fail
from rv.lib import BasicParser, SentenceRequest, read_grammar

PID = "C04"
RULE = ("a sentence rule made of quoted words, optional words, constituents and regular expressions with the separators space, + and ~ in random layout "
        "and quoting; all texts that join any selection of its parts by nothing, one space or a wrong character are tried; broken rules must be refused; "
        "non-trivial: the rule accepts some and refuses some of the texts; distinct by rule")
ASSUMPTIONS = ["an omitted optional word takes the separator before it along, or the one after it when nothing precedes"]
CASES = {"quick": 9000, "thorough": 110000}
FLOORS = {"accepted": 20000, "refused": 50000, "long_texts": 400, "broken_rules_refused": 2000, "rules_with_unknown_signs": 500, "rules_without_required_parts": 500, "rules_with_optional_words": 3000}

WORDS = ["a", "bb", "the", "x", "don't", "say \"hi\"", "(", ")", "?", ",", "->", "+", "~", "'s", "/", "e1", "a,b", "é", "'", "\"", "1.5", "what's up", "rock'n'roll", "Mr.", "I", "iPhone", "USA", "É", "Don't", "\"a\" or \"b\"", "''", "it\\'s", "q\\\"q", "c\\d"]
REGS = [(r"\d+", "42"), (r"[^/ ]/[^/ ]", "p/q"), (r"[A-Z]\w*", "Jo"), (r"\w+'s", "ed's"), (r"[a-z]+\?", "yes?"), (r"\d\d?:\d\d", "7:30"), (r"\"\w+\"", "\"ok\""), (r"he|her|hers", "hers"), (r"(ab|abc)(d|cde)?", "abcde"), (r"z+?", "zzz"), (r" ?-", " -"), (r"[xy] ?", "y "), (r" [kl]", " k")]
NPS = {"np": "cat", "zero": "dog", "two": "cow", "noun_phrase2": "pig"}


# characters that mean nothing in a rule: they may not be skipped (a lone quote is left out: the grammars of hello_world and chat80 have one)
SIGNS = ["&", "|", "!", "-", "=", "%", ";", ".", ":", "[", "]", "{", "}", "*", "<", "@", "$", "^", "\\", "/"]


LONG = [(r"\"[^\"]*\"", '"', '"'), (r"\d+", "1", "2"), (r"<\w+>", "<", ">"), (r"[a-z ]+!", "a", "!"), (r"\w+(-\w+)*", "x", "-y"), (r"(a|b)*c", "a", "c")]


def gen(rng, i, tier):
    if i % 30 == 7:
        reg, start, end = rng.choice(LONG)
        n = rng.choice([1, 5, 20, 60, 70, 120, 130, 250, 260, 500, 520])
        filler = {"1": "0123456789"}.get(start, "ab")
        return {"long": reg, "token": start + "".join(rng.choice(filler) for _ in range(n)) + end, "words": rng.sample(["say", "now", "UPPER"], 2), "break": 0}
    n = rng.randint(1, 5)
    items, used = [], set()
    for _ in range(n):
        kind = rng.random()
        if kind < 0.62:
            word = rng.choice(WORDS)
            if word in used:
                continue
            used.add(word)
            items.append(("word", word, rng.random() < 0.45))
        elif kind < 0.8:
            cat = rng.choice(sorted(NPS))
            if cat in used:
                continue
            used.add(cat)
            items.append(("rel", cat, {"np": ("E1",), "zero": (), "two": ("E2", "Variable_3"), "noun_phrase2": ("X",)}[cat]))
        else:
            reg = rng.choice(REGS)
            if reg[1] in used:
                continue
            used.add(reg[1])
            items.append(("re", reg[0], reg[1]))
    if not any(item[0] != "word" or not item[2] for item in items):
        items.append(("word", "end", False))
    seps = [rng.choice([" ", " ", "+", "~"]) for _ in range(len(items) - 1)]
    head = rng.choice([(), ("V",), ("E1", "E2")])
    return {"items": items, "seps": seps, "styles": [rng.choice("'\"") for _ in items], "spaces": [rng.choice(["", " ", "  "]) for _ in range(8)],
            "head": head, "break": rng.randrange(1000)}


def plain(items):
    return [("re", item[1]) if item[0] == "re" else item for item in items]


def render(case):
    items, seps, sp = case["items"], case["seps"], case["spaces"]
    text = "s" + "(" + ("," + sp[0]).join(case["head"]) + ")" + " " + sp[1] + "->" + " " + sp[2]
    for k, item in enumerate(plain(items)):
        text += cfg.render_item(item, case["styles"][k % len(case["styles"])])
        if k < len(seps):
            text += {" ": " " + sp[3], "+": sp[4] + "+" + sp[5], "~": sp[6] + "~" + sp[7]}[seps[k]]
    return text


def sub_rules():
    return [{"syn": "np(E1) -> 'cat'"}, {"syn": "zero() -> 'dog'"}, {"syn": "two(E1, E2) -> 'cow'"}, {"syn": "noun_phrase2(X) -> 'pig'"}]


def run_long(case, mon):
    """ an expression describes long texts as well """
    first, last = case["words"]
    syn = f"s(E1) -> '{first}' tok(E1) '{last}'"
    parser = BasicParser(read_grammar([{"syn": syn}, {"syn": f"tok(E1) -> /{case['long']}/"}]))
    for text, good in [(f"{first} {case['token']} {last}", True), (f"{first} {case['token']}", False), (f"{first} {case['token'][:-1]}~ {last}", False)]:
        result = parser.process(SentenceRequest(text))
        expect(len(result.products) == (1 if good else 0), "a long text is not read as the expression describes", expression=case["long"], text=text, length=len(case["token"]), readings=len(result.products))
        if good:
            node = result.products[0].get_output().children[2]
            expect(node.children[0].form == case["token"], "a long text is read in part", expression=case["long"], observed=node.children[0].form, expected=case["token"])
        mon.count("long_texts")
    mon.nontrivial((syn, case["token"]))
    mon.event("long", case["long"], len(case["token"]))


def run(case, mon):
    if "long" in case:
        return run_long(case, mon)
    items, seps = case["items"], case["seps"]
    syn = render(case)
    parser = BasicParser(read_grammar([{"syn": syn}] + sub_rules()))
    rules = [("s", case["head"], tuple(plain(items)), tuple(seps), 0)]
    rules += [("np", ("E1",), (("word", "cat", False),), (), 0), ("zero", (), (("word", "dog", False),), (), 0),
              ("two", ("E1", "E2"), (("word", "cow", False),), (), 0), ("noun_phrase2", ("X",), (("word", "pig", False),), (), 0)]
    ref = cfg.Reference(rules)
    forms = [item[1] if item[0] == "word" else NPS[item[1]] if item[0] == "rel" else item[2] for item in items]
    texts = set()
    n = len(forms)
    for size in range(1, n + 1):
        for chosen in itertools.combinations(range(n), size):
            for joins in itertools.product(["", " "], repeat=min(size - 1, 4)):
                text = forms[chosen[0]]
                for k, c in enumerate(chosen[1:]):
                    text += (joins[k] if k < len(joins) else " ") + forms[c]
                texts.add(text)
    full = " ".join(forms)
    texts |= {" " + full, full + " ", full.replace(" ", "  "), full.replace(" ", "-"), full.upper(), full + full, full[:-1], full[1:]}
    accepted = refused = 0
    for text in sorted(texts):
        flat = re.sub(r"\s+", " ", text)
        expected = ref.total(flat)
        result = parser.process(SentenceRequest(text))
        if expected:
            accepted += 1
            if not result.products:
                fail("a text that the rule describes is refused", rule=syn, text=text, error=(result.error_type, result.error_args))
            got = sorted(cfg.canonical(p.get_output()) for p in result.products)
            want = sorted(cfg.strip_rules(t) for t in ref.all_trees(flat))
            if got != want:
                fail("a text is read in another way than the rule describes", rule=syn, text=text, observed=got, expected=want)
        else:
            refused += 1
            if result.products:
                fail("a text that the rule does not describe is accepted", rule=syn, text=text, tree=cfg.canonical(result.products[0].get_output()))
    mon.event("rule", syn, accepted, refused)
    mon.count("accepted", accepted)
    mon.count("refused", refused)
    if any(item[0] == "word" and item[2] for item in items):
        mon.count("rules_with_optional_words")
    if accepted and refused:
        mon.nontrivial((syn,))
    mon.sample({"rule": syn, "accepted": accepted, "refused": refused})
    broken(case, syn, mon)


def broken(case, syn, mon):
    """ rules that lack an essential part are refused, not read as something else """
    k = case["break"] % 8 if case["break"] < 400 else 8
    first = plain(case["items"])[0]
    if k == 0:
        bad = {"sem": lambda: []}
    elif k == 1:
        bad = {"syn": syn.replace("->", " ", 1)}
    elif k == 2:
        bad = {"syn": syn[syn.index("->"):]}
    elif k == 3:
        bad = {"syn": syn + " np(E1"}
    elif k == 4:
        bad = {"syn": syn + " np"}
    elif k == 5:
        bad = {"syn": syn[:syn.index("->") + 2]}
    elif k in (6, 7):
        # a rule may not be about an empty text
        optional = [item for item in case["items"] if item[0] == "word"] or [("word", "so", True)]
        bad = {"syn": syn[:syn.index("->") + 2] + (" " if k == 6 else "+").join(cfg.render_item((*item[:2], True)) for item in optional)}
        mon.count("rules_without_required_parts")
    else:
        sign = SIGNS[case["break"] % len(SIGNS)]
        if sign == "/" and "/" in syn:
            sign = "%"
        place = case["break"] // len(SIGNS) % 3
        bad = {"syn": syn + " " + sign if place == 0 else syn + " " + sign + " np(E1)" if place == 1 else syn.replace("->", "-> " + sign + " ", 1)}
        mon.count("rules_with_unknown_signs")
    try:
        read_grammar([bad])
    except Exception as e:
        mon.count("broken_rules_refused")
        expect(str(e) != "", "no message")
        return
    fail("a rule that is not well-formed is accepted", rule=bad)
