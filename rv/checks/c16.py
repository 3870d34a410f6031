""" C16: what is stored is stored exactly as often as it is said, where it can be stored """
from collections import Counter

from rv.core import expect, fail
from rv.lib import (AtomExecutor, BasicParser, FindAll, FindOne, Model, Relation, SemanticComposer, SentenceRequest, Solver, SomeModule, System, TryFirst, Variable,
                    BasicQueryOptimizer, from_atoms, read_grammar, to_atoms)
from richard.data_source.SimpleDataSource import SimpleDataSource
from richard.module.SimpleMemoryModule import SimpleMemoryModule
from richard.core.constants import E1, E2, e1

PID = "C16"
RULE = ("three workloads: memory modules with relations that have functions of their own, stored in and queried; conjunctions with store actions (several atoms, nested values, relations that are written by none, one or more modules), whose writes are counted against a reference join; "
        "and sentences whose rules have dialog atoms, executable atoms and semantics, through pipelines of all kinds of blocks, whose effects are logged in order; "
        "non-trivial: at least two solutions store something, or a sentence has dialog and executable atoms; distinct by case")
ASSUMPTIONS = ["a rule has executable atoms of its own, or takes those of its constituents: which of both is not combined"]
CASES = {"quick": 60000, "thorough": 300000}
FLOORS = {"stores": 8000, "writes": 13000, "sentences": 9000, "dialog_atoms": 12000, "exec_atoms": 8000, "found_again": 3000, "memory_queries": 3000, "memory_found": 1000, "own_writes": 1000, "unbound_refused": 300, "unknown": 200, "ambiguous": 2000, "cannot_be_written": 1000}

POOL = ["a", "b", "c", "x'y", 3, 0, ""]


def gen(rng, i, tier):
    if i % 20 == 3:
        return gen_memory(rng)
    if rng.random() < 0.55:
        return gen_store(rng)
    return gen_sentence(rng)


def gen_store(rng):
    pool = rng.sample(POOL, rng.randint(2, 4))
    arity = {"p": 1, "q": 2, "r": 2}
    tables = {t: [list(r) for r in {tuple(rng.choice(pool) for _ in range(n)) for _ in range(rng.randint(0, 4))}] for t, n in arity.items()}
    tables = {t: sorted(rows, key=repr) for t, rows in tables.items()}
    names = ["X", "Y", "Z"]
    prefix = []
    for _ in range(rng.randint(0, 3)):
        t = rng.choice("pqr")
        prefix.append((t, *[("?" + rng.choice(names)) if rng.random() < 0.8 else rng.choice(pool) for _ in range(arity[t])]))
    bound = sorted({a for atom in prefix for a in atom[1:] if isinstance(a, str) and a.startswith("?")})

    def value(depth=0):
        p = rng.random()
        if p < 0.6 and bound:
            return rng.choice(bound)
        if p < 0.68 and depth == 0:
            return [value(1) for _ in range(rng.randint(0, 3))]
        if p < 0.76 and depth == 0:
            return rng.choice([[("p", value(1)), ("q", value(1), value(1))], (value(1), value(1)), [(value(1), 1), ("?X", value(1))]])
        return rng.choice(pool)
    stores = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        stores.append(("store", [(w, *[value() for _ in range(n)]) for w, n in [rng.choice([("w1", 1), ("w2", 2), ("both", 2), ("w1", 1), ("w2", 2), ("both", 2), ("readonly", 1)]) for _ in range(rng.randint(0, 3))]]))
    suffix = [(t, *["?" + rng.choice(names) for _ in range(arity[t])]) for t in rng.sample("pqr", rng.randint(0, 1))]
    return {"kind": "store", "tables": tables, "atoms": prefix + stores + suffix, "prefix": len(prefix), "stores": len(stores),
            "binding": {"X": rng.choice(pool)} if rng.random() < 0.3 else {}, "unknown": rng.random() < 0.05}


def gen_memory(rng):
    """ a memory module, of which some relations are read or written by functions of their own """
    relations = {f"m{k}": (rng.randint(1, 3), rng.random() < 0.4, rng.random() < 0.4) for k in range(rng.randint(1, 4))}
    steps = []
    for _ in range(rng.randint(4, 12)):
        p = rng.random()
        if p < 0.55:
            steps.append(("store", [(n, *[rng.choice(POOL) for _ in range(relations[n][0])]) for n in [rng.choice(sorted(relations)) for _ in range(rng.randint(1, 3))]]))
        elif p < 0.93:
            n = rng.choice(sorted(relations))
            steps.append(("query", (n, *[rng.choice(["?A", "?B", "?C", rng.choice(POOL)]) for _ in range(relations[n][0])])))
        else:
            steps.append(("clear",))
    return {"kind": "memory", "relations": relations, "steps": steps, "sqlite": rng.random() < 0.5}


def gen_sentence(rng):
    words = {}
    for k in range(rng.randint(1, 4)):
        words[f"w{k}"] = {"dialog": [rng.choice(["isa", "seen", "said"]) for _ in range(rng.randint(0, 3))], "callable": rng.random() < 0.3, "exec": rng.randint(0, 2), "sem": rng.randint(0, 2),
                          "shared": rng.random() < 0.3}
    return {"kind": "sentence", "words": words, "sentences": [[rng.choice(sorted(words)) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))],
            "blocks": [rng.choice(["one", "first", "all"]) for _ in range(3)], "root_exec": rng.choice([0, 0, 0, 0, 0, 0, 0, 1, 1, 2]), "ambiguous": rng.random() < 0.4, "root_dialog": rng.random() < 0.3,
            "optimize": rng.random() < 0.3}


class Writer(SomeModule):
    def __init__(self, name, writable, readonly, log):
        super().__init__()
        self.name, self.log = name, log
        for w in writable:
            self.add_relation(Relation(w, query_function=self.query, write_function=self.write))
        for w in readonly:
            self.add_relation(Relation(w, query_function=self.query))

    def query(self, values, context):
        return []

    def write(self, values, context):
        self.log.append((self.name, context.relation.predicate, tuple(from_atoms(v) for v in values)))


class Reader(SomeModule):
    def __init__(self, tables):
        super().__init__()
        self.tables = tables
        for t in tables:
            self.add_relation(Relation(t, query_function=self.query))

    def query(self, values, context):
        return [list(r) for r in self.tables[context.relation.predicate] if all(v is None or v == x for v, x in zip(values, r))]


def join(atoms, tables, binding):
    if not atoms:
        return [binding]
    result = []
    for row in tables[atoms[0][0]]:
        b = dict(binding)
        ok = True
        for a, v in zip(atoms[0][1:], row):
            if isinstance(a, str) and a.startswith("?"):
                ok = ok and b.setdefault(a[1:], v) == v
            else:
                ok = ok and a == v
        if ok:
            result.extend(join(atoms[1:], tables, b))
    return result


def bind(value, binding):
    if isinstance(value, str) and value.startswith("?"):
        return binding.get(value[1:], value)
    if isinstance(value, list):
        return [bind(v, binding) for v in value]
    if isinstance(value, tuple):
        return tuple(bind(v, binding) for v in value)
    return value


def run(case, mon):
    {"store": run_store, "memory": run_memory, "sentence": run_sentence}[case["kind"]](case, mon)


class Memory(SimpleMemoryModule):
    def __init__(self, case, log):
        self.case, self.log = case, log
        super().__init__()
        for name, (n, own_query, own_write) in case["relations"].items():
            functions = {}
            if own_query:
                functions["query_function"] = self.own_query
            if own_write:
                functions["write_function"] = self.own_write
            self.add_relation(Relation(name, arguments=["a", "b", "c"][:n], **functions))

    def clear(self):
        if self.case["sqlite"]:
            super().clear()
            for name, (n, _, _) in self.case["relations"].items():
                self.data_source.connection.execute(f"CREATE TABLE {name} ({', '.join(['a', 'b', 'c'][:n])})")
        else:
            self.data_source = SimpleDataSource()

    def own_query(self, values, context):
        return [["own"] * len(values)]

    def own_write(self, values, context):
        self.log.append((context.relation.predicate, *values))


def run_memory(case, mon):
    log, own, rows = [], [], {n: [] for n in case["relations"]}
    module = Memory(case, log)
    solver = Solver(Model([module]))
    for step in case["steps"]:
        if step[0] == "store":
            solver.solve([("store", to_atoms(step[1]))])
            for atom in step[1]:
                if case["relations"][atom[0]][2]:
                    own.append(atom)
                else:
                    rows[atom[0]].append(list(atom[1:]))
        elif step[0] == "clear":
            module.clear()
            rows = {n: [] for n in rows}
        else:
            name = step[1][0]
            held = [["own"] * len(step[1][1:])] if case["relations"][name][1] else rows[name]
            got = {tuple(sorted(b.items())) for b in solver.solve(to_atoms([step[1]]))}
            want = {tuple(sorted(b.items())) for b in join([step[1]], {name: held}, {})}
            expect(got == want, "a memory module does not hold what was stored in it", query=step[1], observed=sorted(got, key=repr), expected=sorted(want, key=repr), relations=case["relations"], steps=case["steps"], sqlite=case["sqlite"])
            mon.count("memory_queries")
            mon.count("memory_found", len(want))
        expect(log == own, "a function of a relation of its own is not called for what is stored", observed=log, expected=own, relations=case["relations"], step=step)
    plain = [n for n in sorted(rows) if not case["relations"][n][2]]
    if plain and case["sqlite"]:
        # a variable that is not bound cannot be stored, and that is not passed over
        name = plain[0]
        try:
            solver.solve([("store", to_atoms([(name, "?Unbound", "a", "b")[:1 + case["relations"][name][0]]]))])
        except Exception:
            mon.count("unbound_refused")
        else:
            fail("a store of an unbound variable is passed over", relation=name, relations=case["relations"])
        expect(len(module.data_source.select(name, ["a"], [None])) == len(rows[name]), "a store that failed has stored something", relation=name)
    mon.count("own_writes", len(own))
    mon.event("memory", len(own), {n: len(r) for n, r in rows.items()})


WRITERS = {"m1": (["w1", "both"], ["readonly"]), "m2": (["w2", "both"], ["w1"]), "m3": ([], ["w2"]), "m4": (["both"], ["readonly"])}


def run_store(case, mon):
    log = []
    model = Model([Reader(case["tables"])] + [Writer(n, w, r, log) for n, (w, r) in WRITERS.items()])
    atoms = to_atoms(case["atoms"])
    if case["unknown"]:
        atoms = to_atoms(case["atoms"][:case["prefix"]]) + [("store", [("no_such_relation", 1)])]
        solutions = join(case["atoms"][:case["prefix"]], case["tables"], case["binding"])
        try:
            Solver(model).solve(atoms, dict(case["binding"]))
        except Exception as e:
            expect("no_such_relation" in str(e) and solutions, "an exception that does not name the unknown relation", error=repr(e), atoms=case["atoms"])
            mon.count("unknown")
        else:
            expect(not solutions, "an atom that no module knows was stored without complaint", atoms=from_atoms(atoms), tables=case["tables"])
        return
    before = repr(atoms)
    try:
        got = Solver(model).solve(atoms, dict(case["binding"]))
        refused = None
    except Exception as e:
        refused = e
    expect(repr(atoms) == before, "the atoms were changed", atoms=case["atoms"])
    # every solution of what comes before stores its atoms once
    expected = Counter()
    solutions = join(case["atoms"][:case["prefix"]], case["tables"], case["binding"])
    for b in solutions:
        for store in case["atoms"][case["prefix"]:case["prefix"] + case["stores"]]:
            for atom in store[1]:
                for name, (writable, _) in WRITERS.items():
                    if atom[0] in writable:
                        expected[repr((name, atom[0], tuple(bind(v, b) for v in atom[1:])))] += 1
    observed = Counter(repr(e) for e in log)
    mon.event("store", case["atoms"], log)
    if solutions and any(atom[0] == "readonly" for store in case["atoms"][case["prefix"]:case["prefix"] + case["stores"]] for atom in store[1]):
        expect(refused is not None, "an atom that no module can write was stored without complaint", atoms=case["atoms"], tables=case["tables"])
        expect("readonly" in str(refused), "the exception does not name the relation that cannot be written", error=repr(refused), atoms=case["atoms"])
        expect(not observed - expected, "more was written than was to be stored", atoms=case["atoms"], observed=sorted(observed.items()), expected=sorted(expected.items()))
        mon.count("cannot_be_written")
        return
    if refused is not None:
        raise refused
    if observed != expected:
        fail("what was written is not what was to be stored", atoms=case["atoms"], binding=case["binding"], observed=sorted(observed.items()), expected=sorted(expected.items()), tables=case["tables"])
    mon.count("stores")
    mon.count("writes", len(log))
    plain = [a for a in case["atoms"] if a[0] != "store"]
    answers = join(plain, case["tables"], case["binding"])
    expect(Counter(repr(sorted(b.items())) for b in got) == Counter(repr(sorted(b.items())) for b in answers), "storing changes the solutions", atoms=case["atoms"], observed=got, expected=answers)
    if len(solutions) > 1 and log:
        mon.nontrivial((case["tables"], case["atoms"], case["binding"]))
        mon.sample({"atoms": case["atoms"], "writes": log[:4]})


class Effects(SomeModule):
    """ logs what a sentence does, in order """

    def __init__(self, log):
        super().__init__()
        self.log = log
        for d in ["isa", "seen", "said", "root"]:
            self.add_relation(Relation(d, query_function=self.query, write_function=self.write))
        self.add_relation(Relation("act", query_function=self.act))
        self.add_relation(Relation("look", query_function=self.look))
        self.memory = []

    def query(self, values, context):
        return [list(r[1:]) for r in self.memory if r[0] == context.relation.predicate and all(v is None or v == x for v, x in zip(values, r[1:]))]

    def write(self, values, context):
        self.log.append(("dialog", context.relation.predicate, *values))
        self.memory.append((context.relation.predicate, *values))

    def act(self, values, context):
        self.log.append(("exec", *values))
        return [[None] * len(values)]

    def look(self, values, context):
        a = context.arguments[0]
        known = tuple(sorted(r[2] for r in self.memory if r[0] == "isa" and isinstance(a, Variable) and r[1] == a.name))
        self.log.append(("sem", a.name if isinstance(a, Variable) else a, values[1], values[2], known))
        return [["thing", None, None]]


def rules_of(case):
    rules = [
        {"syn": "l(E1) -> n(E1) 'and' l(E2)", "sem": lambda n, l: n + l},
        {"syn": "l(E1) -> n(E1)", "sem": lambda n: n},
        {"syn": "top(E1) -> l(E1)", "sem": lambda l: l},
    ]
    if case["root_dialog"]:
        rules[1]["dialog"] = [("root", e1)]
    if case["root_exec"]:
        rules[2]["exec"] = (lambda l: [("act", "root", len(l))]) if case["root_exec"] == 1 else lambda l: list(l)
    rules.append({"syn": "s(E1) -> top(E1) '!'", "sem": lambda top: top})
    for w, word in case["words"].items():
        rules.append(noun_rule(w, word, f"n(E1) -> '{w}'", ""))
        if case["ambiguous"]:
            rules.append(noun_rule(w, word, f"n(E1) -> m(E1)", "m") if w == "w0" else None)
            rules.append({"syn": f"m(E1) -> '{w}'", "sem": lambda w=w: [("look", E1, w, 0)]} if w == "w0" else None)
    return [r for r in rules if r]


def noun_rule(w, word, syn, mark):
    # what is said of no entity in particular is the same atom each time
    dialog = [(d, e1, f"{w}{k}{mark}") if d != "said" else (d, f"{w}{k}{mark}") for k, d in enumerate(word["dialog"])]
    sem = [("look", E1, w + mark, k) for k in range(word["sem"])]
    exec = [("act", w + mark, k) for k in range(word["exec"])]
    rule = {"syn": syn, "sem": (lambda *c: list(sem)), "dialog": (lambda *c: list(dialog)) if word["callable"] else dialog}
    if exec:
        rule["exec"] = lambda *c: list(exec)
    return rule


def run_sentence(case, mon):
    log = []
    effects = Effects(log)
    model = Model([effects])
    grammar = read_grammar(rules_of(case))
    parser = BasicParser(grammar)
    composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model) if case["optimize"] else None)
    executor = AtomExecutor(composer, model)
    blocks = [{"one": FindOne, "first": TryFirst, "all": FindAll}[b] for b in case["blocks"]]
    system = System(model=model, input_pipeline=[b(p) for b, p in zip(blocks, [parser, composer, executor])])
    for words in case["sentences"]:
        log.clear()
        effects.memory.clear()
        request = SentenceRequest(" and ".join(words) + " !")
        system.enter(request)
        readings = 1
        if case["ambiguous"]:
            readings = 2 ** words.count("w0")
            mon.count("ambiguous")
        if case["blocks"][0] != "all":
            readings = 1
        mon.event("sentence", words, list(log))
        details = dict(words=words, case=case, log=log)
        # each reading has its effects once
        products = request.get_alternative_products(parser)
        considered = products if case["blocks"][0] == "all" else products[:1]
        expected = Counter()
        for product in considered:
            for leaf in leaves(product.parse_tree):
                expected.update(effects_of(case, *leaf))
            if case["root_dialog"]:
                expected[("dialog", "root")] += 1
        if case["root_exec"]:
            # the executable atoms of a rule take the place of those of its constituents
            expected = Counter({k: n for k, n in expected.items() if k[0] != "exec"})
            for product in considered:
                number = sum(case["words"][w]["sem"] for w, m in leaves(product.parse_tree))
                if case["root_exec"] == 1:
                    expected[("exec", "root", number)] += 1
            if case["root_exec"] == 2:
                # they happen to be the same as the semantics, and both are executed
                expected = Counter({k: 2 * n if k[0] == "sem" else n for k, n in expected.items()})
                mon.count("exec_is_sem")
        observed = Counter(strip(e) for e in log)
        if observed != expected:
            fail("the effects of a sentence did not happen as often as they should", observed=sorted(observed.items(), key=repr), expected=sorted(expected.items(), key=repr), **details)
        expect(len(considered) == readings, "the number of readings", observed=len(considered), expected=readings, **details)
        order = {"dialog": 0, "exec": 1, "sem": 2}
        descents = sum(1 for a, b in zip(log, log[1:]) if order[b[0]] < order[a[0]])
        expect(descents < max(1, len(considered)), "dialog atoms are stored before the executable atoms, and these are executed before the semantics", **details)
        # the entity that is stored is the variable of the semantics
        for e in log:
            if e[0] == "sem":
                w = e[2]
                base = w[:-1] if w.endswith("m") else w
                word = case["words"].get(base)
                needed = {f"{w[:2]}{k}{'m' if w.endswith('m') else ''}" for k, d in enumerate(word["dialog"]) if d == "isa"} if word else set()
                if not (case["ambiguous"] and base == "w0"):
                    expect(needed <= set(e[4]), "the entity that was stored is not the one that the semantics speaks of", entity=e[1], needed=needed, found=e[4], **details)
                    mon.count("found_again")
        mon.count("sentences")
        mon.count("dialog_atoms", sum(1 for e in log if e[0] == "dialog"))
        mon.count("exec_atoms", sum(1 for e in log if e[0] == "exec"))
        if len({e[0] for e in log}) == 3:
            mon.nontrivial((case, words))
            mon.sample({"words": words, "log": log[:8]})


def strip(e):
    if e[0] == "dialog":
        return ("dialog", e[1]) if e[1] == "root" else ("dialog", e[1], e[-1])
    if e[0] == "exec":
        return tuple(e)
    return ("sem", e[2], e[3])


def effects_of(case, w, mark):
    word = case["words"][w]
    m = "m" if mark == "m" else ""
    return ([("dialog", d, f"{w}{k}{m}") for k, d in enumerate(word["dialog"])] + [("exec", w + m, k) for k in range(word["exec"])] + [("sem", w + m, k) for k in range(word["sem"])])


def leaves(tree):
    """ the nouns of a parse tree, with the rule that read them """
    if tree.category == "n":
        child = tree.children[0]
        if child.category == "m":
            return [(child.children[0].form, "m")]
        return [(child.form, "")]
    result = []
    for c in tree.children:
        result.extend(leaves(c))
    return result


def shrink(case):
    if case["kind"] == "sentence":
        for k in range(len(case["sentences"])):
            if len(case["sentences"]) > 1:
                yield dict(case, sentences=[case["sentences"][k]])
        for w in case["words"]:
            for key in ("dialog", "exec", "sem"):
                if case["words"][w][key]:
                    yield dict(case, words=dict(case["words"], **{w: dict(case["words"][w], **{key: [] if key == "dialog" else 0})}))
