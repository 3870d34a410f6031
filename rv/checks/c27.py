""" C27: what an input costs does not grow with the number of inputs before it """
import gc
import sys
import weakref

from rv.app import App, InjectedFault, gen_sentence, random_options, random_world, text_of
from rv.core import REPO, expect, fail

PID = "C27"
RULE = ("dialogues of questions (with sentences that are not understood, failing data sources, output that cannot be worded, and repeated questions) that are held again and again with one application, after some facts and rules "
        "were taught; of each round are recorded: the executed lines of the library, the queries to the data source, the responses and the allocated memory blocks; late rounds are compared with an early one; "
        "in part of the cases each round has its own application, which is dropped; non-trivial: at least 5 inputs per round; distinct by dialogue, world and options")
ASSUMPTIONS = ["CPython's counts of lines and memory blocks are the measure of work and memory; the store of the dialog context (sqlite) is not measured"]
CASES = {"quick": 400, "thorough": 6000}
FLOORS = {"dialogues": 400, "rounds": 4000, "inputs": 25000, "lines": 10_000_000, "queries": 100000, "not_understood": 280, "failures": 50, "new_applications": 60, "locales": 40}
ROUNDS = 4       # before the first measurement
LATE = 12        # rounds after which is measured again


def gen(rng, i, tier):
    world = random_world(rng)
    options = random_options(rng)
    if rng.random() < 0.2:
        options["locales"] = rng.choice([["base", "z"], ["z", "base"]])
    taught, texts = [], []
    while len(texts) < rng.randint(5, 9):
        s = gen_sentence(rng, world["entities"])
        if s[0] in ("teach", "lead", "teach_isa", "rule"):
            if len(taught) < 4:
                taught.append(text_of(s))
            continue
        p = rng.random()
        text = text_of(s)
        texts.append(text if p < 0.75 else "zyx " + text if p < 0.82 else text[:-7] if p < 0.88 else "" if p < 0.92 else rng.choice(texts or [text]))
    fresh = rng.random() < 0.2
    return {"world": world, "options": options, "taught": taught, "texts": texts, "fault": rng.choice([None, rng.randint(0, 8)]), "fresh": fresh}


class Meter:
    """ counts the executed lines of the library """
    TOOL = 4

    def __init__(self):
        self.lines = 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "rv")
        prefix = REPO + "/"

        def line(code, number):
            if not code.co_filename.startswith(prefix):
                return m.DISABLE
            self.lines += 1

        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *args):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def one_round(app, case, queries):
    answers = []
    for k, text in enumerate(case["texts"]):
        if case["fault"] is not None and k == 1:
            app.facts.fault = case["fault"]
        try:
            answers.append(app.ask(text))
        except InjectedFault:
            answers.append("fault")
            try:
                app.system.read_output()
            except Exception as e:
                answers.append(type(e).__name__)
        app.facts.fault = None
    return answers


def start(case, queries):
    app = App(case["world"], case["options"])

    def hook():
        queries[0] += 1
    app.facts.hook = hook
    for text in case["taught"]:
        app.ask(text)
    return app


def measured(app, case, queries, answers):
    """ lines, queries and blocks of a round """
    before = queries[0]
    with Meter() as meter:
        round_app = app or start(case, queries)
        observed = one_round(round_app, case, queries)
    del round_app
    expect(answers is None or observed == answers, "the same questions get other answers later on", texts=case["texts"], observed=observed, first=answers)
    return meter.lines, queries[0] - before, observed


def memory_use():
    """ allocated blocks, and elements of lists, dictionaries and sets; but for the dead references that sqlite3 keeps to the last 200 cursors of a connection """
    gc.collect()
    gc.collect()
    allocated = sys.getallocatedblocks()
    dead = elements = 0
    for o in gc.get_objects():
        kind = type(o)
        if kind is weakref.ref:
            dead += o() is None
        elif kind is list:
            # of such a list all elements are weak references
            elements += len(o) if not (o and type(o[0]) is weakref.ref) else 0
        elif kind is dict or kind is set:
            elements += len(o)
    return allocated - dead, elements


def run(case, mon):
    queries = [0]
    app = None if case["fresh"] else start(case, queries)
    n = len(case["texts"])
    for _ in range(ROUNDS - 1):
        one_round(app or start(case, queries), case, queries)
    lines, asked, answers = measured(app, case, queries, None)
    memory, elements = memory_use()
    for _ in range(LATE - 1):
        one_round(app or start(case, queries), case, queries)
    lines2, asked2, answers2 = measured(app, case, queries, answers)
    memory2, elements2 = memory_use()
    mon.event("lines", lines, lines2, "queries", asked, asked2, "blocks", memory, memory2, "elements", elements, elements2)
    what = dict(texts=case["texts"], taught=case["taught"], options=case["options"], fresh=case["fresh"], rounds=LATE)
    expect(lines2 <= lines * 1.02 + 5 * n, "the same questions take more work later on", lines_first=lines, lines_later=lines2, **what)
    expect(asked2 == asked, "the same questions take another number of queries later on", first=asked, later=asked2, **what)
    expect(memory2 - memory < 15 + len(answers2) + 0.1 * n * LATE, "memory grows with the number of inputs", blocks_first=memory, blocks_later=memory2, **what)
    expect(elements2 - elements < 8 + len(answers2), "the data that is kept grows with the number of inputs", elements_first=elements, elements_later=elements2, **what)
    mon.count("dialogues")
    mon.count("rounds", ROUNDS + LATE)
    mon.count("inputs", n * (ROUNDS + LATE))
    mon.count("lines", lines + lines2)
    mon.count("queries", queries[0])
    mon.count("not_understood", sum(1 for a in answers if "understand" in a.lower() or "know" in a.lower()))
    mon.count("failures", answers.count("fault"))
    mon.count("new_applications" if case["fresh"] else "same_application")
    mon.count("locales", 1 if case["options"].get("locales") else 0)
    mon.seen("growth", memory2 - memory)
    mon.seen("growth_of_data", elements2 - elements)
    if n >= 5:
        mon.nontrivial((case["texts"], case["taught"], case["options"], case["world"]))
    mon.sample({"texts": case["texts"], "lines": [lines, lines2], "queries": [asked, asked2], "blocks": [memory, memory2]})


def shrink(case):
    for k in range(len(case["texts"])):
        if len(case["texts"]) > 1:
            yield dict(case, texts=case["texts"][:k] + case["texts"][k + 1:])
    yield dict(case, taught=[])
    yield dict(case, fault=None)
