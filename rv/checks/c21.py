""" C21: applications that live in one process do not influence each other """
import re
import sys
import threading
import time

from rv import cfg
from rv.app import App, NotDetermined, World, answer, gen_sentence, random_options, random_world, read_rules, text_of
from rv.core import expect, fail
from rv.lib import (BasicGenerator, BasicOutputBuffer, BasicParser, FindAll, Model, SemanticComposer, SentenceRequest, System, read_grammar, write_grammar)

PID = "C21"
RULE = ("2-4 applications with dialogues of their own, in one process: their inputs and the reading of their outputs are interleaved at random, or one asks the other in the middle of a query "
        "of its data source, or each runs in a thread of its own (with a switch interval of microseconds); they share nothing, the lists of rules, the grammar, or the parser; every response, "
        "every stored fact and every failure must be that of the same dialogue by itself; and 2-4 grammars that are almost the same (read and write), made and used by turns, whose meanings and responses must be their own; non-trivial: the dialogues have different responses; distinct by case")
ASSUMPTIONS = ["an application is used by one thread; a parser that is shared is not used by two threads at once", "no grammar rules are learned in a shared grammar"]
CASES = {"quick": 1900, "thorough": 30000}
FLOORS = {"dialogues": 3000, "responses": 14000, "interleaved": 6000, "nested": 2000, "threads": 500, "thread_switches": 500, "shared_rules": 500, "shared_grammar": 500, "shared_parser": 300, "failures": 1500, "variants": 3000, "variant_meanings": 2500}


def gen(rng, i, tier):
    if rng.random() < 0.3:
        return gen_variants(rng)
    n = rng.randint(2, 4)
    mode = rng.choice(["interleave", "interleave", "nested", "threads"])
    share = rng.choice(["nothing", "rules", "grammar", "parser"] if mode != "threads" else ["nothing", "rules", "grammar"])
    apps = []
    world = random_world(rng)
    for _ in range(n):
        w = world if rng.random() < 0.4 else random_world(rng)
        steps = []
        for _ in range(rng.randint(3, 7)):
            s = gen_sentence(rng, w["entities"])
            p = rng.random()
            steps.append(("sound", s) if p < 0.8 else ("text", "zyx " + text_of(s)) if p < 0.9 else ("text", text_of(s)[:-8]) if p < 0.95 else ("text", " "))
        apps.append({"world": w, "options": random_options(rng), "steps": steps})
    return {"apps": apps, "mode": mode, "share": share, "order": [rng.random() for _ in range(2 * sum(len(a["steps"]) for a in apps))], "hooks": [rng.randint(0, 6) for _ in range(n)]}


def gen_variants(rng):
    """ grammars that are almost the same: each with its own meanings, and a few rules that are a bit different """
    rules = cfg.random_grammar(rng, size=rng.randint(1, 4), boosts=rng.random() < 0.3)
    grammars = []
    for _ in range(rng.randint(2, 4)):
        own = list(rules)
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.randrange(len(own))
            own[k] = vary(rng, own[k])
        # no two rules of a grammar have the same syntax
        own = list({(r[0], len(r[1]), cfg.render_rule(r).replace("?", "").split("->")[1].replace(" ", "")): r for r in own}.values())
        if rng.random() < 0.3 and len(own) > 1:
            own.pop(rng.randrange(len(own)))
        grammars.append(own)
    texts = []
    for own in grammars:
        ref = cfg.Reference(own)
        texts += [t for t in (cfg.random_text(rng, own, ref, 12) for _ in range(3)) if t and t == t.strip()]
    words = [rng.choice(["the", "a  b", "new york", "newyork", "New York", "it''s", "x y", "x  y", ", ", "\t", "é"]) for _ in range(rng.randint(1, 4))]
    responses = []
    for _ in grammars:
        mine = list(words)
        k = rng.randrange(len(mine))
        mine[k] = rng.choice([mine[k], mine[k], mine[k].replace(" ", "  "), re.sub(" +", " ", mine[k]), mine[k].upper(), mine[k].swapcase(), mine[k] + " "])
        responses.append((mine, [rng.random() < 0.3 for _ in mine[1:]]))
    order = [rng.randrange(len(grammars)) for _ in range(len(texts) * len(grammars))]
    return {"mode": "variants", "grammars": grammars, "texts": sorted(set(texts)), "responses": responses, "order": order}


def vary(rng, rule):
    ant, variables, items, seps, boost = rule
    items, seps = list(items), list(seps)
    k = rng.randrange(len(items))
    p = rng.random()
    if p < 0.5 and items[k][0] == "re":
        items[k] = ("re", items[k][1].swapcase())
    elif p < 0.5 and items[k][0] == "word":
        items[k] = ("word", rng.choice(["a b", "ab", "a", "b", items[k][1]]), items[k][2])
    elif p < 0.75 and seps:
        seps[rng.randrange(len(seps))] = rng.choice(" +~")
    elif p < 0.85:
        boost += 1
    # what was not empty and no cycle must stay so
    items = [i if i[0] != "word" else (i[0], i[1], i[2] and any(x[0] == "word" and not x[2] or x[0] == "re" for x in items)) for i in items]
    words = [i[1] for i in items if i[0] == "word"]
    if len(set(words)) < len(words):
        items = [(*i[:2], False) if i[0] == "word" else i for i in items]
    return ant, variables, tuple(items), tuple(seps), boost


def run_variants(case, mon):
    """ grammars and applications that differ a little, made and used by turns """
    made = {}

    def make(k):
        rules = case["grammars"][k]

        def meaning(r):
            return lambda *values: [("m", k, r, *values)]
        entries = [dict({"syn": cfg.render_rule(rule), "sem": meaning(r)}, **({"boost": rule[4]} if rule[4] else {})) for r, rule in enumerate(rules)]
        parser = BasicParser(read_grammar(entries))
        composer = SemanticComposer(parser)
        words, joined = case["responses"][k]
        syn = "s() -> " + "".join(("" if n == 0 else "+" if joined[n - 1] else " ") + cfg.quote(w) for n, w in enumerate(words))
        buffer = BasicOutputBuffer()
        model = Model([buffer])
        generator = BasicGenerator(write_grammar([{"syn": syn}]), model, buffer)
        return parser, composer, generator, cfg.Reference(rules), "".join(("" if n == 0 or joined[n - 1] else " ") + w for n, w in enumerate(words)), syn

    for n, k in enumerate(case["order"]):
        if k not in made or n % 7 == 3:
            made[k] = make(k)
        parser, composer, generator, ref, said, syn = made[k]
        text = case["texts"][n % len(case["texts"])]
        details = dict(text=text, grammar=[cfg.render_rule(r) for r in case["grammars"][k]], others=[[cfg.render_rule(r) for r in g] for m, g in enumerate(case["grammars"]) if m != k])
        if ref.total(text) > 40:
            continue
        request = SentenceRequest(text)
        System(model=Model([BasicOutputBuffer()]), input_pipeline=[FindAll(parser), FindAll(composer)]).enter(request)
        observed = [product.get_output() for product in request.get_alternative_products(composer)]
        expected = [[tree_meaning(k, tree)] for tree in ref.all_trees(text)]
        mon.event("variant", k, text, len(expected))
        if sorted(map(repr, observed)) != sorted(map(repr, expected)):
            fail("the meanings of a sentence are not those of its grammar, next to other grammars", observed=sorted(map(repr, observed)), expected=sorted(map(repr, expected)), **details)
        generator_output = generator.generate_output()
        if generator_output != said:
            fail("a response is not the one of its grammar, next to other grammars", observed=generator_output, expected=said, rule=syn, others=[m[5] for q, m in made.items() if q != k])
        mon.count("variants")
        mon.count("variant_meanings", len(expected))
        if len(expected):
            mon.nontrivial((case["grammars"], k, text))


def tree_meaning(k, tree):
    values = []
    for child in tree[2]:
        if cfg.is_leaf(child):
            if child[0] == "re":
                values.append(child[2])
        else:
            values.append([tree_meaning(k, child)])
    return ("m", k, tree[3], *values)


class Dialogue:
    """ an application and its dialogue; a turn is two actions: enter and read """

    def __init__(self, spec, **shared):
        self.app = App(spec["world"], spec["options"], **shared)
        self.texts = [step[1] if step[0] == "text" else text_of(step[1]) for step in spec["steps"]]
        self.lines = []
        self.position = 0
        self.busy = False

    def done(self):
        return self.position >= 2 * len(self.texts)

    def act(self):
        from rv.lib import SentenceRequest
        turn, part = divmod(self.position, 2)
        self.position += 1
        self.busy = True
        try:
            if part == 0:
                self.lines.append(repr(self.app.system.enter(SentenceRequest(self.texts[turn]))))
            else:
                self.lines.append(self.app.system.read_output())
        except Exception as e:
            self.lines.append(("exception", type(e).__name__, str(e)))
        self.busy = False

    def finish(self):
        while not self.done():
            self.act()

    def result(self):
        return self.lines, list(self.app.facts.writes)


def shared_parts(share):
    if share == "rules":
        return {"rules": read_rules()}
    if share == "grammar":
        return {"grammar": read_grammar(read_rules())}
    if share == "parser":
        grammar = read_grammar(read_rules())
        return {"grammar": grammar, "parser": BasicParser(grammar)}
    return {}


def run(case, mon):
    if case["mode"] == "variants":
        return run_variants(case, mon)
    alone = []
    for spec in case["apps"]:
        d = Dialogue(spec)
        d.finish()
        alone.append(d.result())
        judge_alone(spec, d)
    shared = shared_parts(case["share"])
    if case["mode"] == "threads":
        together = in_threads(case, shared, mon)
    else:
        dialogues = [Dialogue(spec, **shared) for spec in case["apps"]]
        if case["mode"] == "nested":
            nest(dialogues, case["hooks"], mon)
        for x in case["order"]:
            open_ones = [d for d in dialogues if not d.done()]
            if open_ones:
                d = open_ones[int(x * len(open_ones))]
                mon.event("act", dialogues.index(d), d.position)
                d.act()
                mon.count("interleaved")
        for d in dialogues:
            d.finish()
        together = [d.result() for d in dialogues]
    for k, (a, b) in enumerate(zip(alone, together)):
        for n, (x, y) in enumerate(zip(a[0], b[0])):
            if x != y:
                fail("an application responds differently when another one is active", application=k, input=case["apps"][k]["steps"][n // 2], alone=x, together=y, mode=case["mode"], share=case["share"])
        expect(len(a[0]) == len(b[0]), "an application has less responses when another one is active", alone=len(a[0]), together=len(b[0]))
        expect(a[1] == b[1], "an application stores other facts when another one is active", alone=a[1], together=b[1], mode=case["mode"])
        mon.count("responses", len(a[0]) // 2)
        mon.count("failures", sum(1 for s in case["apps"][k]["steps"] if s[0] == "text"))
        mon.count("dialogues")
    mon.count(case["mode"] if case["mode"] == "threads" else "plain", len(case["apps"]))
    mon.count("shared_" + case["share"], len(case["apps"]))
    if len({repr(a[0]) for a in alone}) > 1:
        mon.nontrivial((case["apps"], case["mode"], case["share"]))
    mon.seen("modes", (case["mode"], case["share"]))
    mon.sample({"mode": case["mode"], "share": case["share"], "responses": [a[0][1::2][:3] for a in alone]})


def judge_alone(spec, d):
    """ what an application says by itself must be true as well """
    world = World(**spec["world"])
    for n, step in enumerate(spec["steps"]):
        if step[0] != "sound":
            continue
        try:
            expected = answer(step[1], world)
        except NotDetermined:
            continue
        if d.lines[2 * n + 1] != expected:
            fail("an application gives a wrong answer after another one was active", sentence=d.texts[n], observed=d.lines[2 * n + 1], expected=expected)


def nest(dialogues, hooks, mon):
    """ in the middle of its query, one application lets another one act """
    for k, d in enumerate(dialogues):
        state = {"count": hooks[k]}

        def hook(d=d, state=state):
            state["count"] -= 1
            if state["count"] < 0:
                state["count"] = hooks[dialogues.index(d)]
                for other in dialogues:
                    if other is not d and not other.busy and not other.done():
                        mon.count("nested")
                        other.act()
                        break
        d.app.facts.hook = hook


def in_threads(case, shared, mon):
    results = [None] * len(case["apps"])
    order = []
    barrier = threading.Barrier(len(results))

    def work(k, spec):
        try:
            d = Dialogue(spec, **shared)
            d.app.facts.hook = lambda: (order.append(k), time.sleep(0))
            barrier.wait(20)
            d.finish()
            results[k] = d.result()
        except BaseException as e:
            results[k] = ([("exception", type(e).__name__, str(e))], [])

    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-5)
    try:
        threads = [threading.Thread(target=work, args=(k, spec)) for k, spec in enumerate(case["apps"])]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    # the order in which the data sources were queried
    mon.seen("thread_orders", order)
    mon.count("thread_switches", sum(1 for a, b in zip(order, order[1:]) if a != b))
    return results


def shrink(case):
    if case["mode"] == "variants":
        for k in range(len(case["order"])):
            yield dict(case, order=case["order"][:k] + case["order"][k + 1:])
        return
    for k in range(len(case["apps"])):
        if len(case["apps"]) > 1:
            yield dict(case, apps=case["apps"][:k] + case["apps"][k + 1:], hooks=case["hooks"][:k] + case["hooks"][k + 1:])
    for k, spec in enumerate(case["apps"]):
        for n in range(len(spec["steps"])):
            yield dict(case, apps=case["apps"][:k] + [dict(spec, steps=spec["steps"][:n] + spec["steps"][n + 1:])] + case["apps"][k + 1:])
