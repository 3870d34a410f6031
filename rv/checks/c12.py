""" C12: the blocks of a pipeline try the alternatives that they should, in order """
from rv.core import expect, fail
from rv.lib import BasicOutputBuffer, FindAll, FindOne, Model, ProcessResult, Relation, SentenceRequest, SomeProcessor, System, TryFirst

PID = "C12"
RULE = ("pipelines of 1-5 blocks of random kinds over scripted processors: for each combination of predecessor products a processor returns an error or 1-4 products; the sequence of "
        "process calls with the active products of all predecessors, the value that enter returns, the stored error and the collected alternatives are compared with a reference run; "
        "non-trivial: a failing alternative is followed by another; distinct by pipeline and script")
ASSUMPTIONS = ["a processor that gives no error gives at least one product"]
CASES = {"quick": 150000, "thorough": 400000}
FLOORS = {"calls": 80000, "runs": 25000, "errors": 5000, "successes": 10000, "backtracked": 5000, "collected": 3000, "long_runs": 300}

BLOCKS = {"one": FindOne, "first": TryFirst, "all": FindAll}
ERRORS = ["e1", "e2", "e3", "e4", "not_understood", "unknown_word", "no_sentence"]


def gen(rng, i, tier):
    kinds = [rng.choice(["one", "one", "first", "all"]) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))]
    p_error = rng.choice([0.1, 0.3, 0.5, 0.7])
    width = rng.choice([1, 2, 3, 4])
    if i % 100 == 3:
        # many alternatives
        kinds = kinds[:2] if rng.random() < 0.7 else kinds[:3]
        width = rng.choice([8, 15, 30, 70]) if len(kinds) < 3 else 8
        p_error = rng.choice([0.5, 0.9, 0.97])
    elif i % 100 == 4:
        # many blocks
        kinds = [rng.choice(["one", "one", "first", "all"]) for _ in range(rng.randint(6, 12))]
        width, p_error = rng.choice([(1, 0.03), (2, 0.3)])

    def node(depth):
        if rng.random() < p_error * (0.4 if depth == 0 else 1):
            return ("error", rng.choice(ERRORS), [rng.choice(["x", "y", 7, "Zed"]) for _ in range(rng.randint(0, 2))])
        return ("products", [node(depth + 1) if depth + 1 < len(kinds) else None for _ in range(rng.randint(1, width))])
    scripts = [node(0) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.2:
        scripts = scripts + scripts[:1]
    return {"kinds": kinds, "scripts": scripts, "keep": rng.random() < 0.4, "equal": rng.random() < 0.3}


class Product:
    def __init__(self, path):
        self.path = path

    def get_output(self):
        return output_of(self.path)

    def log(self, logger):
        logger.add(str(self.path))


class EqualProduct(Product):
    """ products that are equal are still different alternatives """

    def __eq__(self, other):
        return isinstance(other, EqualProduct) and len(self.path) == len(other.path)

    def __hash__(self):
        return len(self.path)


def output_of(path):
    """ some outputs are false, or empty """
    k = path[-1]
    return [("output", path), ("output", path), [], 0, "", False, [{}]][k] if k < 7 else ("output", path)


class Processor(SomeProcessor):
    def __init__(self, depth, before, world):
        super().__init__()
        self.depth, self.before, self.world = depth, before, world

    def get_name(self):
        return f"processor {self.depth}"

    def process(self, request):
        paths = [request.get_current_product(p).path for p in self.before]
        self.world["calls"].append((self.depth, tuple(paths)))
        path = paths[-1] if paths else ()
        node = self.world["script"]
        for k in path:
            node = node[1][k]
        if node[0] == "error":
            return ProcessResult([], node[1], list(node[2]))
        # a processor may keep its products, and give the same ones again
        key = (self.depth, path, id(node))
        if key in self.world["kept"]:
            return ProcessResult(self.world["kept"][key][0], "")
        products = [(EqualProduct if self.world["equal"] else Product)(path + (k,)) for k in range(len(node[1]))]
        self.world["given"].append((products, list(products)))
        if self.world["keep"]:
            self.world["kept"][key] = (products, node)
        return ProcessResult(products, "")


def reference(kinds, script):
    calls, collected, state = [], {}, {"last": None, "backtracked": False}

    def run(depth, node, path):
        """ returns None on success, or the error """
        if depth == len(kinds):
            state["last"] = path
            return None
        calls.append((depth, tuple(path[:k + 1] for k in range(depth))))
        if node[0] == "error":
            return node
        number = len(node[1])
        products = [path + (k,) for k in range(number)]
        if kinds[depth] == "all":
            collected[depth] = collected.get(depth, []) + products
        else:
            collected[depth] = products
        results = []
        for k in range(number):
            if results and results[-1] is not None:
                state["backtracked"] = True
            results.append(run(depth + 1, node[1][k], path + (k,)))
            if kinds[depth] == "first" or (kinds[depth] == "one" and results[-1] is None):
                break
        if any(r is None for r in results):
            return None
        return results[0]

    error = run(0, script, ())
    return calls, error, collected, state


def run(case, mon):
    world = {"calls": [], "script": None, "keep": case.get("keep"), "equal": case.get("equal"), "kept": {}, "given": []}
    processors = []
    for depth in range(len(case["kinds"])):
        processors.append(Processor(depth, list(processors), world))
    buffer = ErrorBuffer()
    model = Model([buffer])
    system = System(model=model, input_pipeline=[BLOCKS[k](p) for k, p in zip(case["kinds"], processors)])
    for script in case["scripts"]:
        world["calls"] = []
        world["script"] = script
        buffer.stored = []
        request = SentenceRequest("some text")
        output = system.enter(request)
        calls, error, collected, state = reference(case["kinds"], script)
        mon.event("run", script, world["calls"], buffer.stored, output)
        details = {"blocks": case["kinds"], "script": script}
        if world["calls"] != calls:
            fail("the processors were not called for the alternatives that they should be called for", observed=world["calls"], expected=calls, **details)
        mon.count("calls", len(calls))
        mon.count("runs")
        if error is None:
            expect(buffer.stored == [], "an error is stored although an alternative succeeded", stored=buffer.stored, **details)
            expect(output == output_of(state["last"]) and type(output) is type(output_of(state["last"])), "the output is not that of the last processor's successful product", observed=output, expected=state["last"], **details)
            mon.count("successes")
        else:
            expected = [("output_type", (error[1],)), ("output_" + error[1], tuple(error[2]))]
            expect(buffer.stored == expected, "the stored error is not the first error", observed=buffer.stored, expected=expected, **details)
            expect(output is None, "a failed request has an output", observed=output, **details)
            mon.count("errors")
        for products, copy in world["given"]:
            expect([p.path for p in products] == [p.path for p in copy], "the list of products of a processor is changed", observed=[p.path for p in products], expected=[p.path for p in copy], **details)
        mon.count("given", len(world["given"]))
        for depth, products in collected.items():
            observed = [p.path for p in request.get_alternative_products(processors[depth])]
            expect(observed == products, "the alternative products of a processor are not those that its block considered", processor=depth, observed=observed, expected=products, **details)
            if case["kinds"][depth] == "all":
                mon.count("collected")
        if len(calls) > 12:
            mon.count("long_runs")
        if state["backtracked"]:
            mon.count("backtracked")
            mon.nontrivial((case["kinds"], script))
            mon.sample({"blocks": case["kinds"], "script": script, "calls": calls})


class ErrorBuffer(BasicOutputBuffer):
    """ takes any error, and keeps what is stored """

    def __init__(self):
        super().__init__()
        self.stored = []
        self.add_relation(Relation("output_type", arguments=["type"], write_function=self.keep))
        for e in ERRORS:
            self.add_relation(Relation("output_" + e, write_function=self.keep))

    def keep(self, values, context):
        self.stored.append((context.relation.predicate, tuple(values)))


def shrink(case):
    for s in case["scripts"]:
        if len(case["scripts"]) > 1:
            yield dict(case, scripts=[s])
