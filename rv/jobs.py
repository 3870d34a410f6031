""" workloads whose results are written down as text, so that they can be compared between processes """
import ast
import json
import sys

from rv.lib import *
from rv import cfg
from rv.refsolve import Fail, RefSolver
from rv.app import App, gen_sentence, random_options, random_world, text_of


def gen_job(rng, tier="quick"):
    kind = rng.choice(["dialogue", "dialogue", "parse", "query", "words", "rules"])
    if kind == "dialogue":
        world = random_world(rng)
        texts = []
        for _ in range(rng.randint(3, 8)):
            p = rng.random()
            text = text_of(gen_sentence(rng, world["entities"]))
            if p < 0.1:
                text = text.replace(" ", " xyzzy ", 1)
            elif p < 0.15:
                text = ""
            texts.append(text)
        return {"kind": kind, "world": world, "options": random_options(rng), "texts": texts}
    if kind == "parse":
        rules = cfg.random_grammar(rng, size=rng.randint(2, 4), boosts=rng.random() < 0.5)
        ref = cfg.Reference(rules)
        texts = [t for t in (cfg.random_text(rng, rules, ref, 12) for _ in range(4)) if t and ref.total(t) <= 60]
        return {"kind": kind, "rules": rules, "texts": texts + ["zz"]}
    if kind == "query":
        from rv.checks import c10
        while True:
            case = c10.gen(rng, rng.randint(0, 99), tier)
            try:
                # not a cross product that takes forever
                RefSolver(c10.all_tables(case), limit=5000).solve(case["atoms"], {})
                return {"kind": kind, "case": case}
            except Fail:
                continue
    if kind == "words":
        from rv.checks import c14
        return {"kind": kind, "case": c14.gen(rng, 0, tier)}
    from rv.checks import c08
    return {"kind": kind, "case": c08.gen(rng, 0, tier)}


def transcript(job, logger=None):
    """ what can be observed of a job, as a list of strings """
    try:
        return globals()["job_" + job["kind"]](job, logger)
    except RecursionError:
        return ["recursion"]


def attempt(f):
    try:
        return repr(f())
    except Exception as e:
        return type(e).__name__ + ": " + str(e)


def job_dialogue(job, logger):
    app = App(job["world"], job["options"])
    lines = []
    for text in job["texts"]:
        request = SentenceRequest(text, logger) if logger else SentenceRequest(text)
        lines.append(attempt(lambda: app.system.enter(request)))
        lines.append(attempt(app.system.read_output))
        for processor in (app.parser, app.composer, app.executor):
            for product in request.get_alternative_products(processor):
                output = product.get_output()
                lines.append(str(output) if processor is app.parser else repr(from_atoms(output)))
    lines.append(repr(app.facts.writes))
    return lines


def job_parse(job, logger):
    grammar = read_grammar([dict({"syn": cfg.render_rule(r)}, **({"boost": r[4]} if r[4] else {})) for r in job["rules"]])
    parser = BasicParser(grammar)
    lines = []
    for text in job["texts"]:
        request = SentenceRequest(text, logger) if logger else SentenceRequest(text)
        result = request.exec_process(parser)
        lines.append(repr((result.error_type, result.error_args)))
        lines.extend(repr(cfg.canonical(p.get_output())) for p in result.products)
    return lines


def job_query(job, logger):
    from rv.checks import c10
    case = job["case"]
    model = c10.make_model(case)
    optimized = c10.optimized(case, model)
    solver = Solver(model, log_stats=logger is not None)
    # the same query as the meaning of a sentence
    parser = BasicParser(read_grammar([{"syn": "s() -> 'ask'", "sem": lambda: to_atoms(case["atoms"])}]))
    composer = SemanticComposer(parser)
    executor = AtomExecutor(composer, model)
    system = System(model=model, input_pipeline=[FindOne(parser), FindOne(composer), FindAll(executor)])
    request = SentenceRequest("ask", logger) if logger else SentenceRequest("ask")
    asked = [attempt(lambda: system.enter(request))]
    asked += [repr(p.bindings) for p in request.get_alternative_products(executor)]
    return asked + [repr(from_atoms(optimized)), attempt(lambda: solver.solve(optimized)), attempt(lambda: solver.solve(to_atoms(case["atoms"])))]


def job_words(job, logger):
    from rv.checks import c14
    case = job["case"]
    buffer = BasicOutputBuffer()
    model = Model([TableModule(case["tables"]), buffer])
    generator = BasicGenerator(write_grammar([c14.simple(r) for r in case["rules"]]), model, buffer)
    lines = []
    for output in case["outputs"]:
        Solver(model, log_stats=logger is not None).solve([("store", [("output_type", output[0]), ("output_value", output[1])])])
        lines.append(attempt(generator.generate_output))
    return lines


def job_rules(job, logger):
    from rv.checks import c08
    return c08.transcript(job["case"], logger is not None)


def main():
    """ a child process: reads jobs, and writes the transcripts """
    jobs = ast.literal_eval(sys.stdin.read())
    json.dump([transcript(j) for j in jobs], sys.stdout)


if __name__ == "__main__":
    main()
