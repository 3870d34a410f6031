""" C25: the answers of an application are true in its world """
from rv.app import App, NotDetermined, World, answer, crowded_world, gen_sentence, random_options, random_world, text_of
from rv.core import expect, fail

PID = "C25"
RULE = ("dialogues of 4-14 sentences with an application made of the library's parts: quantified questions, relative clauses, negation, lists, counts, sums and extremes, mixed with taught facts "
        "and rules, in random worlds and configurations (data store, optimizer, relation sizes, blocks); every answer is compared with a set-theoretic evaluation of the sentence; "
        "non-trivial: a question that is answered after something was taught; distinct by world state and sentence")
ASSUMPTIONS = ["quantifiers take surface scope: that is how the grammar of the application is written", "'every' is not asked about an empty range", "no rule cycles are taught"]
CASES = {"quick": 3000, "thorough": 60000}
FLOORS = {"questions": 12000, "taught": 4000, "yes": 1500, "no": 1500, "lists": 2000, "numbers": 2000, "after_teaching": 8000}


def gen(rng, i, tier):
    world = random_world(rng) if i % 20 != 9 else crowded_world(rng)
    return {"world": world, "options": random_options(rng), "sentences": [gen_sentence(rng, world["entities"]) for _ in range(rng.randint(4, 14))]}


def run(case, mon):
    app = App(case["world"], case["options"])
    world = World(**case["world"])
    taught = []
    for s in case["sentences"]:
        try:
            expected = answer(s, world)
        except NotDetermined:
            mon.count("not_determined")
            continue
        text = text_of(s)
        observed = app.ask(text)
        mon.event("ask", text, observed)
        if observed != expected:
            fail("an answer is not true in the world", sentence=text, observed=observed, expected=expected, taught=taught, world=case["world"], options=case["options"])
        if s[0] in ("teach", "lead", "teach_isa", "rule"):
            taught.append(text)
            mon.count("taught")
            continue
        mon.count("questions")
        mon.count(expected if expected in ("yes", "no") else "numbers" if expected.isdigit() else "lists")
        if taught:
            mon.count("after_teaching")
            mon.nontrivial((case["world"], taught, text))
        mon.sample({"sentence": text, "answer": observed, "taught": taught[-3:]})
    writes = [w for w in app.facts.writes]
    expect(len(writes) == sum(1 for t in taught if not t.startswith("Every")), "the number of stored facts differs from the number of taught facts", stored=writes, taught=taught)


def shrink(case):
    for k in range(len(case["sentences"])):
        yield dict(case, sentences=case["sentences"][:k] + case["sentences"][k + 1:])
    yield dict(case, options=dict(case["options"], optimize=False))
    yield dict(case, options=dict(case["options"], store="simple"))
