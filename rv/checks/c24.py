""" C24: a multilingual system understands a sentence in the first language in which it makes sense """
import re

from rv import cfg
from rv.app import App, NotDetermined, World, answer, gen_sentence, random_options, random_world, text_of, translated
from rv.checks.c12 import reference
from rv.core import expect, fail
from rv.lib import BasicParser, FindAll, FindOne, Model, ProcessResult, Relation, SentenceRequest, SomeModule, SomeProcessor, System, TryFirst, read_grammar
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual

PID = "C24"
RULE = ("two workloads: pipelines of a language selector, a multilingual parser over 1-4 random grammars and a filter that refuses some readings, in blocks of all kinds, compared with the blocks' "
        "reference run over the results of a parser per language; languages without a parser must be reported by name when they are tried; and dialogues with the application in two languages "
        "at random, with the answers of the world; non-trivial: a text that only a later language accepts, or two languages accept; distinct by case")
ASSUMPTIONS = ["parsers per language give what C01-C03 require", "a locale occurs once in the list"]
CASES = {"quick": 6000, "thorough": 100000}
FLOORS = {"texts": 12000, "later_language": 2000, "two_languages": 800, "no_language": 2500, "filtered": 1500, "missing": 500, "answers": 8000, "answers_other_language": 3000, "unknown": 500}

LOCALES = ["en_US", "nl_NL", "de", "fr-FR", "", "x", "en", "nl", "en_us"]
BLOCKS = {"one": FindOne, "first": TryFirst, "all": FindAll}


def gen(rng, i, tier):
    if rng.random() < 0.4:
        world = random_world(rng)
        steps = []
        for _ in range(rng.randint(3, 9)):
            p = rng.random()
            steps.append((("base" if rng.random() < 0.5 else "z") if p < 0.9 else "mixed", gen_sentence(rng, world["entities"]), rng.random()))
        locales = ["base", "z"]
        rng.shuffle(locales)
        options = random_options(rng)
        return {"kind": "dialogue", "world": world, "options": dict(options, locales=locales), "steps": steps}
    locales = rng.sample(LOCALES, rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(5, 9))
    grammars = {}
    texts = []
    for locale in locales:
        if grammars and rng.random() < 0.3:
            # a language that is much like another one
            rules = list(rng.choice(list(grammars.values())))
            rules = [r for r in rules if rng.random() < 0.8] or rules
        else:
            rules = cfg.random_grammar(rng)
        grammars[locale] = rules
        ref = cfg.Reference(rules)
        for _ in range(2):
            texts.append(cfg.random_text(rng, rules, ref, 12) or "a")
    texts = [cfg.disturb(rng, t) if rng.random() < 0.3 else t for t in texts]
    missing = [l for l in locales if rng.random() < 0.08]
    return {"kind": "pipeline", "locales": locales, "grammars": grammars, "missing": missing, "texts": texts, "filter": [rng.random() < 0.25 for _ in range(40)] if rng.random() < 0.5 else [],
            "kinds": [rng.choice(["one", "one", "one", "all", "first"]) for _ in range(3)]}


class Product:
    def __init__(self, value):
        self.value = value

    def get_output(self):
        return self.value

    def log(self, logger):
        logger.add(str(self.value))


class Filter(SomeProcessor):
    """ refuses readings, by language and number """

    def __init__(self, selector, parser):
        super().__init__()
        self.selector, self.parser = selector, parser
        self.seen = []

    def get_name(self):
        return "Filter"

    def process(self, request):
        locale = request.get_current_product(self.selector).get_output()
        tree = cfg.canonical(request.get_current_product(self.parser).get_output())
        self.seen.append((locale, tree))
        k = self.trees[locale].index(tree) if tree in self.trees[locale] else None
        if k is None:
            fail("a reading that the parser of the language does not give", locale=locale, tree=tree)
        if self.refused(locale, k):
            return ProcessResult([], "rejected", [locale, k])
        return ProcessResult([Product((locale, k))], "")


class Errors(SomeModule):
    def __init__(self):
        super().__init__()
        self.stored = []
        for name in ["output_type", "output_unknown_word", "output_not_understood", "output_no_sentence", "output_rejected"]:
            self.add_relation(Relation(name, query_function=lambda values, context: [], write_function=self.keep))

    def keep(self, values, context):
        self.stored.append((context.relation.predicate, tuple(values)))


class Missing(Exception):
    pass


def run(case, mon):
    if case["kind"] == "dialogue":
        return run_dialogue(case, mon)
    locales, missing = case["locales"], case["missing"]
    make = {l: (lambda l=l: BasicParser(read_grammar([{"syn": cfg.render_rule(r)} for r in case["grammars"][l]]))) for l in locales}
    selector = LanguageSelector(list(locales))
    parsers = {l: make[l]() for l in reversed(locales) if l not in missing}
    parser = Multilingual(parsers, selector)
    filtering = Filter(selector, parser)
    refuse = case["filter"]
    filtering.refused = lambda locale, k: bool(refuse) and refuse[(locales.index(locale) * 7 + k) % len(refuse)]
    errors = Errors()
    processors = [selector, parser] + ([filtering] if refuse else [])
    kinds = case["kinds"][:len(processors)]
    system = System(model=Model([errors]), input_pipeline=[BLOCKS[k](p) for k, p in zip(kinds, processors)])
    single = {l: make[l]() for l in locales}
    for text in case["texts"]:
        flat = re.sub(r"\s+", " ", text)
        if any(cfg.Reference(case["grammars"][l]).total(flat) > 30 for l in locales):
            continue
        # what each language says
        script, trees = [], {}
        for locale in locales:
            result = single[locale].process(SentenceRequest(text))
            trees[locale] = [cfg.canonical(p.get_output()) for p in result.products]
            if locale in missing:
                script.append(("missing",))
            elif result.error_type:
                script.append(("error", result.error_type, list(result.error_args)))
            else:
                nodes = [("error", "rejected", [locale, k]) if filtering.refused(locale, k) else ("products", [None]) for k in range(len(result.products))]
                script.append(("products", nodes if refuse else [None] * len(nodes)))
        filtering.trees = trees
        filtering.seen = []
        errors.stored = []
        details = dict(text=text, locales=locales, blocks=kinds, per_language=script, missing=missing)
        reached = tried(kinds, script)
        request = SentenceRequest(text)
        try:
            output = system.enter(request)
        except Exception as e:
            if reached is None:
                raise
            expect(locales[reached] in str(e) and not isinstance(e, KeyError), "the language that has no parser is not reported by name", observed=repr(e), expected=locales[reached], **details)
            mon.count("missing")
            continue
        if reached is not None:
            fail("a language without a parser is tried, and it is not reported", output=repr(output)[:200], language=locales[reached], **details)
        calls, error, collected, state = reference(kinds, ("products", [n if n[0] != "missing" else ("error", "never", []) for n in script]))
        mon.count("texts")
        mon.event("text", text, script, errors.stored)
        accepted = [k for k, n in enumerate(script) if n[0] == "products"]
        if error is not None:
            expected = [("output_type", (error[1],)), ("output_" + error[1], tuple(error[2]))]
            expect(errors.stored == expected, "the error is not that of the first language", observed=errors.stored, expected=expected, **details)
            expect(output is None, "a text that is not accepted has an output", observed=output, **details)
            mon.count("no_language")
        else:
            expect(errors.stored == [], "an error is stored although a language accepts the text", observed=errors.stored, **details)
            path = state["last"]
            locale = locales[path[0]]
            tree = trees[locale][path[1]]
            if "all" not in kinds:
                # a find-all block goes on after a success, and then the last alternative that was tried is the active one
                active = request.get_current_product(selector).get_output()
                expect(active == locale, "another language is active than the first one that accepts the text", observed=active, expected=locale, **details)
                reading = cfg.canonical(request.get_current_product(parser).get_output())
                expect(reading == tree, "the reading is not that of the parser of the language", observed=reading, expected=tree, **details)
            if not refuse:
                expect(cfg.canonical(output) == tree, "the output is not the reading", observed=output, **details)
            else:
                expect(output == (locale, path[1]), "the output is not that of the last processor", observed=output, expected=(locale, path[1]), **details)
            if path[0] > 0:
                mon.count("later_language")
            if path[0] > 0 or len(accepted) > 1:
                mon.nontrivial((case["grammars"], text, kinds))
                mon.sample({"text": text, "locales": locales, "accepted_by": [locales[k] for k in accepted], "taken": locale})
        if len(accepted) > 1:
            mon.count("two_languages")
        if state["backtracked"] and refuse:
            mon.count("filtered")
        if refuse:
            seen = [(locales[c[1][0][0]], trees[locales[c[1][0][0]]][c[1][1][1]]) for c in calls if c[0] == 2]
            expect(filtering.seen == seen, "later processors get other readings, or in another order", observed=filtering.seen, expected=seen, **details)


def tried(kinds, script):
    """ the number of the language without a parser that is reached first, or None """
    for k, node in enumerate(script):
        if node[0] == "missing":
            return k
        _, error, _, _ = reference(kinds[1:], node)
        if kinds[0] == "first" or (kinds[0] == "one" and error is None):
            return None
    return None


def run_dialogue(case, mon):
    app = App(case["world"], case["options"])
    world = World(**case["world"])
    history = []
    for language, s, x in case["steps"]:
        text = text_of(s)
        if language == "mixed":
            words = text.split(" ")
            k = int(x * len(words))
            said = " ".join(translated(w) if n == k else w for n, w in enumerate(words))
            if said in (text, translated(text)):
                continue
            results = [BasicParser(app.parser.processors[l].grammar).process(SentenceRequest(said)) for l in case["options"]["locales"]]
            if any(r.products for r in results):
                continue
            first = results[0]
            expected = {"unknown_word": "Could not understand:", "not_understood": "Sorry, I don't understand"}[first.error_type] + "".join(" " + str(a) for a in first.error_args)
        else:
            said = translated(text) if language == "z" else text
            try:
                expected = answer(s, world)
            except NotDetermined:
                continue
        response = app.ask(said)
        history.append((said, response))
        mon.event("ask", said, response)
        if response != expected:
            fail("a sentence in one of two languages gets another response than it should", sentence=said, observed=response, expected=expected, history=history[-6:], options=case["options"])
        if language == "mixed":
            mon.count("unknown")
            continue
        mon.count("answers")
        if language != case["options"]["locales"][0]:
            mon.count("answers_other_language")
            mon.nontrivial((case["world"], history[-3:]))


def shrink(case):
    if case["kind"] == "dialogue":
        for k in range(len(case["steps"])):
            yield dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
        return
    for k in range(len(case["texts"])):
        if len(case["texts"]) > 1:
            yield dict(case, texts=[case["texts"][k]])
    for k in range(len(case["locales"])):
        if len(case["locales"]) > 1:
            yield dict(case, locales=case["locales"][:k] + case["locales"][k + 1:])
