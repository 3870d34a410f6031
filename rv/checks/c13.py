""" C13: every input gets its own response """
from rv.app import App, InjectedFault, NotDetermined, World, answer, gen_sentence, random_options, random_world, read_rules, text_of
from rv.core import expect, fail
from rv.lib import BasicParser, InferenceRule, SentenceRequest, Solver, Variable, read_grammar

PID = "C13"
RULE = ("dialogues of 5-16 inputs with the application, in which sound sentences are mixed with empty input, unknown words, unfinished sentences, output that cannot be generated, semantics "
        "that fail and a data source that fails at a random call; every response is compared with the one that this very input must get, and the output buffer must be empty after it; "
        "non-trivial: a sound sentence right after a failure; distinct by world and dialogue")
ASSUMPTIONS = ["the output of an input is read before the next one is entered"]
CASES = {"quick": 2500, "thorough": 50000}
FLOORS = {"responses": 18000, "unknown_word": 1500, "unfinished": 1000, "no_sentence": 1000, "ungenerable": 1500, "crashes": 600, "output_then_crash": 300, "faults": 400, "after_failure": 4000}

NONSENSE = ["zzq", "xylo9", "'", "%", "dont't", "é", "?!", "catt", "_", "\\"]


RESPONSES = {"unknown_word": "Could not understand:", "not_understood": "Sorry, I don't understand", "no_sentence": "No sentence given"}


def gen(rng, i, tier):
    world = random_world(rng)
    steps = []
    for _ in range(rng.randint(5, 16) if i % 60 != 7 else 60):
        p = rng.random()
        s = gen_sentence(rng, world["entities"])
        if p < 0.5:
            steps.append(("sound", s))
        elif p < 0.62:
            steps.append(("unknown", s, rng.random(), rng.choice(NONSENSE)))
        elif p < 0.70:
            steps.append(("unfinished", s, rng.random()))
        elif p < 0.78:
            steps.append(("empty", rng.choice(["", " ", "\t \n"])))
        elif p < 0.90:
            steps.append(("say", rng.choice(["Mumble.", "Mumble table.", "Mumble unknown.", "Mumble nothing."])))
        elif p < 0.94:
            steps.append(("say", rng.choice(["Crash.", "Crash later.", "Crash table.", "Crash much later."])))
        else:
            steps.append(("fault", s, rng.choice([0, 0, 1, 2, 3, 5, 8])))
    return {"world": world, "options": dict(random_options(rng), buffer_at=rng.randint(0, 4), own_buffer=rng.random() < 0.3), "steps": steps}


def extra_rules():
    return [
        {"syn": "s() -> 'mumble.'", "sem": lambda: [("store", [("output_type", "mumble"), ("output_value", "mumbled")])]},
        {"syn": "s() -> 'mumble' 'table.'", "sem": lambda: [("store", [("output_type", "table"), ("output_table", [["mumbled"]], [None])])]},
        {"syn": "s() -> 'mumble' 'unknown.'", "sem": lambda: [("store", [("output_type", "list"), ("output_list", ["id-of-nobody"])])]},
        {"syn": "s() -> 'mumble' 'nothing.'", "sem": lambda: [("intent_nothing",)]},
        {"syn": "s() -> 'crash.'", "sem": lambda: [("no_such_predicate", 1)]},
        # some output is stored before the failure
        {"syn": "s() -> 'crash' 'later.'", "sem": lambda: [("store", [("output_type", "value"), ("output_value", "crashed")]), ("no_such_predicate", 1)]},
        {"syn": "s() -> 'crash' 'table.'", "sem": lambda: [("store", [("output_type", "table"), ("output_table", [["crashed"]], ["c"])]), ("intent_crash",)]},
        {"syn": "s() -> 'crash' 'much' 'later.'", "sem": lambda: [("store", [("output_type", "list"), ("output_list", ["crashed"])]), ("equals", 1, 1), ("store", [("output_value", "crashed"), ("no_such_predicate", 2)])]},
    ]


def parser_response(text):
    """ what a new parser says about a text that is not a sentence """
    result = BasicParser(read_grammar(read_rules() + extra_rules())).process(SentenceRequest(text))
    expect(result.error_type in RESPONSES and not result.products, "a text that is not a sentence is parsed", text=text, error=result.error_type)
    return RESPONSES[result.error_type] + "".join(" " + str(a) for a in result.error_args)


def run(case, mon):
    app = App(case["world"], dict(case["options"], extra=extra_rules()))
    app.inferences.insert_rule(InferenceRule(("intent_nothing",), []))
    app.inferences.insert_rule(InferenceRule(("intent_crash",), [("store", [("output_value", "crashed")]), ("no_such_predicate", 1)]))
    world = World(**case["world"])
    before = None
    history = []
    for step in case["steps"]:
        kind = step[0]
        expected = None
        if kind in ("sound", "fault", "unknown", "unfinished"):
            text = text_of(step[1])
        if kind == "sound":
            try:
                expected = answer(step[1], world)
            except NotDetermined:
                continue
        elif kind == "unknown":
            words = text.split(" ")
            k = int(step[2] * len(words))
            words[k] = step[3]
            text = " ".join(words)
            expected = parser_response(text)
        elif kind == "unfinished":
            words = text[:-1].split(" ")
            text = " ".join(words[:1 + int(step[2] * len(words))])
            expected = parser_response(text)
        elif kind == "empty":
            text = step[1]
            expected = parser_response(text)
        elif kind == "say":
            text = step[1]
        details = dict(input=text, history=history[-8:], options=case["options"])
        outcome = None
        if kind == "fault":
            app.facts.fault = step[2]
        try:
            response = app.ask(text)
        except Exception as e:
            outcome = e
            response = None
        mon.event(kind, text, repr(response), repr(outcome)[:100])
        history.append((text, response if outcome is None else repr(outcome)[:80]))
        if kind == "fault":
            hit = app.facts.fault is None
            app.facts.fault = None
            if not hit:
                # the fault came too late: an ordinary input
                try:
                    expected = answer(step[1], world)
                except NotDetermined:
                    expected = response
                kind = "sound"
            else:
                expect(isinstance(outcome, InjectedFault), "a failing data source goes unnoticed, or as another failure", response=response, outcome=repr(outcome), **details)
                mon.count("faults")
        elif kind == "say":
            expect(outcome is not None, "an input without output that can be generated got a response", response=response, **details)
            mon.count("crashes" if "Crash" in text else "ungenerable")
        if expected is not None:
            if outcome is not None:
                raise outcome
            if response != expected:
                fail("the response is not the response to this input", observed=response, expected=expected, after=before, **details)
            mon.count("responses")
            if kind != "sound":
                mon.count({"unknown": "unknown_word", "empty": "no_sentence"}.get(kind, kind))
            elif before not in (None, "sound"):
                mon.count("after_failure")
                mon.nontrivial((case["world"], history))
                mon.sample({"history": history[-3:]})
        left = left_over(app)
        if "Crash " in text:
            mon.count("output_then_crash")
        if kind in ("fault",) or "Crash" in text:
            expect(not left, "an input that failed left output behind", left=left, **details)
        else:
            expect(not left, "the output is still there after it was read", left=left, **details)
        if expected is not None and len(history) % 3 == 0:
            # what has been read is not read again
            try:
                again = app.system.read_output()
            except Exception:
                again = None
            expect(again != expected, "a response can be read twice", observed=again, **details)
            mon.count("read_again")
        before = kind


def left_over(app):
    solver = Solver(app.model)
    left = []
    for predicate, n in [("output_type", 1), ("output_value", 1), ("output_list", 1), ("output_table", 2), ("output_unknown_word", 1), ("output_name_not_found", 1), ("output_value_with_unit", 2)]:
        for r in solver.solve([(predicate, *[Variable(f"X{k}") for k in range(n)])]):
            left.append((predicate, r))
    return left


def shrink(case):
    for k in range(len(case["steps"])):
        yield dict(case, steps=case["steps"][:k] + case["steps"][k + 1:])
    yield dict(case, options=dict(case["options"], optimize=False, sized=False))
