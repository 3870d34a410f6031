""" C22: what a grammar accepts does not depend on what was parsed before, and learned rules are rules """
import re

from rv import cfg
from rv.app import App, NotDetermined, World, answer, gen_sentence, random_options, random_world, text_of
from rv.core import expect, fail
from rv.lib import BasicParser, GrammarModule, Model, SentenceRequest, Solver, read_grammar

PID = "C22"
RULE = ("two workloads: random grammars of which a part is learned (learn_grammar_rule) at random moments between sentences, where two parsers share the grammar and a second grammar is made of the same rule "
        "list but does not learn; every result is compared with that of a new parser with a new grammar of the rules that are known at that moment, and with the reference derivations; "
        "and dialogues with the application, in which new words are taught in plain sentences and then used; non-trivial: a learned rule is part of a derivation; distinct by case")
ASSUMPTIONS = ["learned rules have no empty or cyclic derivations, as the rules of the grammar"]
CASES = {"quick": 4000, "thorough": 70000}
FLOORS = {"parses": 18000, "derivations": 20000, "learned": 6000, "learned_homonyms": 700, "after_learning": 6000, "uses_learned": 2500, "unlearned": 1500, "repeated": 2000, "words_taught": 1500, "word_answers": 3000, "unknown_before": 500}

WORDS = ["wug", "blicket", "dax", "fep", "zorp", "über", "it's", "x-ray", "tove", "mr.", "catdog"]


def gen(rng, i, tier):
    if rng.random() < 0.35:
        return gen_dialogue(rng)
    rules = cfg.random_grammar(rng, boosts=rng.random() < 0.3)
    ref = cfg.Reference(rules)
    if len(rules) < 2:
        return gen(rng, i, tier)
    late = [r for r in range(len(rules)) if rng.random() < rng.choice([0.2, 0.5])][:len(rules) - 1]
    if rng.random() < 0.3:
        # a learned rule may differ in nothing but its meaning from a rule that is known
        for rule in rng.sample(rules, rng.randint(1, min(2, len(rules)))):
            late.append(len(rules))
            rules.append(rule)
    steps = [("learn", r) for r in late]
    texts = []
    for _ in range(rng.randint(3, 7)):
        text = cfg.random_text(rng, rules, ref, 13) or "a"
        if rng.random() < 0.3:
            text = cfg.disturb(rng, text)
        texts.append(text)
    for text in texts:
        for _ in range(rng.randint(1, 3)):
            steps.insert(rng.randint(0, len(steps)), ("parse", text))
    return {"kind": "grammar", "rules": rules, "late": late, "steps": steps}


def gen_dialogue(rng):
    world = random_world(rng)
    steps = []
    words = rng.sample(WORDS, rng.randint(1, 4))
    known = []
    for w in words:
        if rng.random() < 0.3:
            steps.append(("before", w))
        s = (w, rng.choice(["cat", "dog", "fish", "bird", "animal"] + [k[0] for k in known]))
        known.append(s)
        steps.append(("teach", *s))
        for _ in range(rng.randint(1, 4)):
            steps.append(("say", gen_sentence(rng, world["entities"]), rng.choice([k[0] for k in known])))
    return {"kind": "dialogue", "world": world, "options": random_options(rng), "steps": steps}


def simple(rule, r):
    result = {"syn": cfg.render_rule(rule), "sem": lambda *args: r}
    if rule[4]:
        result["boost"] = rule[4]
    return result


def outcome(parser, text):
    result = parser.process(SentenceRequest(text))
    return result.error_type, list(result.error_args), [cfg.canonical(p.get_output(), number=lambda rule: rule.sem()) for p in result.products]


def run(case, mon):
    if case["kind"] == "dialogue":
        return run_dialogue(case, mon)
    rules, late = case["rules"], case["late"]
    early = [r for r in range(len(rules)) if r not in late]
    base = [simple(rules[r], r) for r in early]
    grammar = read_grammar(base)
    other = BasicParser(read_grammar(base))     # made of the same list, and does not learn
    parsers = [BasicParser(grammar), BasicParser(grammar)]
    solver = Solver(Model([GrammarModule(grammar)]))
    known = list(early)
    seen = set()
    for n, step in enumerate(case["steps"]):
        if step[0] == "learn":
            results = solver.solve([("learn_grammar_rule", simple(rules[step[1]], step[1]))])
            expect(len(results) == 1, "learning a grammar rule does not succeed once", observed=results, rule=cfg.render_rule(rules[step[1]]))
            known.append(step[1])
            mon.count("learned")
            if rules[step[1]] in [rules[r] for r in known[:-1]]:
                mon.count("learned_homonyms")
            continue
        text = step[1]
        flat = re.sub(r"\s+", " ", text)
        now = [rules[r] for r in known]
        ref = cfg.Reference(now)
        if ref.total(flat) > 80:
            continue
        details = dict(text=text, rules=[cfg.render_rule(r) for r in now], learned=[cfg.render_rule(rules[r]) for r in known[len(early):]], step=n)
        expected = outcome(BasicParser(read_grammar([simple(rules[r], r) for r in known])), text)
        for k, parser in enumerate(parsers if n % 2 else reversed(parsers)):
            got = outcome(parser, text)
            if got != expected:
                fail("a parser that was used before gives another result than a new one with the same rules", observed=got, expected=expected, earlier=[s for s in case["steps"][:n]], **details)
        trees = sorted(cfg.keep_rules(t, known) for t in ref.all_trees(flat))
        expect(sorted(expected[2]) == trees, "the parse trees are not the derivations of the rules that are known", observed=expected[2], expected=trees, **details)
        mon.count("parses", 2)
        mon.count("derivations", len(trees))
        mon.event("parse", text, len(trees), len(known))
        if text in seen:
            mon.count("repeated")
        seen.add(text)
        if len(known) > len(early):
            mon.count("after_learning")
            without = cfg.Reference([rules[r] for r in early])
            if without.total(flat) < len(trees):
                mon.count("uses_learned")
                mon.nontrivial((rules, known, text))
                mon.sample({"text": text, "learned": details["learned"]})
            old = outcome(other, text)
            fresh = outcome(BasicParser(read_grammar(base)), text)
            expect(old == fresh, "a grammar learned from what another grammar was taught", observed=old, expected=fresh, **details)
            mon.count("unlearned")


def teaching_rules():
    def noun_rule(token, noun):
        predicate = noun[0][0]
        from richard.core.constants import E1
        quoted = "'" + token.replace("'", "\\'") + "'"
        return [("learn_grammar_rule", {"syn": f"noun(E1) -> {quoted}", "sem": lambda: [(predicate, E1)]}), ("intent_ok",)]
    return [
        {"syn": "s() -> 'a' word(E1) 'means' noun(E2)~'.'", "sem": lambda word, noun: noun_rule(word, noun)},
        {"syn": "word(E1) -> /[^ ]+/", "sem": lambda token: token},
    ]


def replaced(text, noun, word):
    """ the sentence with another word for a noun """
    return re.sub(r"\b" + noun + r"(s?)\b", lambda m: word + m.group(1), text)


def run_dialogue(case, mon):
    app = App(case["world"], dict(case["options"], extra=teaching_rules()))
    world = World(**case["world"])
    meaning = {}
    history = []
    for step in case["steps"]:
        if step[0] == "before":
            text = f"Is there a {step[1]}?"
            response = app.ask(text)
            expect(response == "Could not understand: " + (step[1] + "?" if step[1] != "mr." else "mr.?") or response.startswith("Could not understand"),
                   "a word is known before it was taught", input=text, observed=response, history=history)
            mon.count("unknown_before")
            continue
        if step[0] == "teach":
            _, word, noun = step
            text = f"A {word} means {noun}."
            response = app.ask(text)
            expect(response == "ok", "a new word is not accepted", input=text, observed=response, history=history)
            meaning[word] = meaning.get(noun, noun)
            history.append((text, response))
            mon.count("words_taught")
            continue
        _, s, word = step
        text = text_of(s)
        noun = meaning[word]
        said = replaced(text, noun, word)
        if s[0] == "rule":
            continue
        try:
            expected = answer(s, world)
        except NotDetermined:
            continue
        response = app.ask(said)
        history.append((said, response))
        mon.event("say", said, response)
        if response != expected:
            fail("a sentence with a learned word is not answered as with the word that it stands for", sentence=said, stands_for=text, observed=response, expected=expected, history=history[-8:])
        mon.count("word_answers")
        if said != text:
            mon.nontrivial((case["world"], history[-3:]))
            mon.count("uses_learned")


def shrink(case):
    for k in range(len(case["steps"])):
        if case["kind"] == "grammar" and case["steps"][k][0] == "learn" and False:
            continue
        yield dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
