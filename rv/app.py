"""
A small question-answering application, built from the library's parts in the way of its documentation, and an independent
evaluation of its sentences: a sentence is an abstract form, which gives its text, and its answer in a world of sets.
"""
import re
import sqlite3

from rv.lib import *
from richard.block.FindOne import FindOne
from richard.core.constants import Body, E1, E2, E3, Range, e1, e2
from richard.processor.language_selector.LanguageSelector import LanguageSelector
from richard.processor.language_selector.Multilingual import Multilingual
from richard.grammar.en_us_write import get_en_us_write_grammar

NOUNS = ["cat", "dog", "fish", "bird", "animal"]
ADJECTIVES = ["red", "small", "old"]
VERBS = ["chase", "like", "see", "own"]
NAMES = ["anna", "bert", "carl", "dora", "emil", "fred"]
# who is there in a crowd only
MORE_NAMES = ["gina", "hugo", "iris", "jack", "kate", "lars", "mona", "nick", "olga", "paul"]
NUMBERS = ["zero", "one", "two", "three", "four", "five"]

RULES = """
# intents
intent_yn(Body) :- ( scoped(Body), store(output_type('yes')) ; store(output_type('no')) ).
intent_list(E1, Body) :- find_all(E1, Body, Elements), store(output_type('list'), output_list(Elements)).
intent_value(E1, Body) :- find_one(E1, Body, Result), store(output_type('value'), output_value(Result)).
intent_ok() :- store(output_type('ok')).

# reaching someone along a chain
follow(A, B) :- lead(B, A).
follow(A, B) :- lead(C, A), follow(C, B).
"""


def read_rules():
    def verb_rules():
        for v in VERBS:
            yield {"syn": f"tv(E1, E2) -> '{v}'", "sem": lambda v=v: [(v, E1, E2)]}
            yield {"syn": f"tv3(E1, E2) -> '{v}s'", "sem": lambda v=v: [(v, E1, E2)]}
        yield {"syn": "tv(E1, E2) -> 'follow'", "sem": lambda: [("follow", E1, E2)]}
        yield {"syn": "tv3(E1, E2) -> 'follows'", "sem": lambda: [("follow", E1, E2)]}

    rules = [
        {"syn": "s(E1) -> 'is' proper_noun(E1) 'a' nbar(E1)~'?'", "sem": lambda proper_noun, nbar: [("intent_yn", proper_noun + nbar)]},
        {"syn": "s(E1) -> 'is' proper_noun(E1) adj(E1)~'?'", "sem": lambda proper_noun, adj: [("intent_yn", proper_noun + adj)]},
        {"syn": "s(E1) -> 'is' 'there' np(E1)~'?'", "sem": lambda np: [("intent_yn", apply(np, []))]},
        {"syn": "s(E1) -> 'does' np(E1) vp(E1)~'?'", "sem": lambda np, vp: [("intent_yn", apply(np, vp))]},
        {"syn": "s(E1) -> 'which' nbar(E1) vp3(E1)~'?'", "sem": lambda nbar, vp3: [("intent_list", e1, nbar + vp3)]},
        {"syn": "s(E1) -> 'who' vp3(E1)~'?'", "sem": lambda vp3: [("intent_list", e1, [("entity", E1)] + vp3)]},
        {"syn": "s(E1) -> 'which' nbar(E1) 'does' np(E2) tv(E2, E1)~'?'", "sem": lambda nbar, np, tv: [("intent_list", e1, nbar + apply(np, tv))]},
        {"syn": "s(E1) -> 'how' 'many' nbars(E2) vp(E2)~'?'", "sem": lambda nbars, vp: [("intent_value", e1, [("count", E1, nbars + [("scoped", vp)])])]},
        {"syn": "s(E1) -> 'how' 'heavy' 'is' proper_noun(E2)~'?'", "sem": lambda proper_noun: [("intent_value", e1, proper_noun + [("weigh", E2, E1)])]},
        {"syn": "s(E1) -> 'what' 'is' 'the' 'total' 'weight' 'of' 'the' nbars(E2)~'?'", "sem": lambda nbars: [("intent_value", e1, [("sum", E1, E3, nbars + [("weigh", E2, E3)])])]},
        {"syn": "s(E1) -> 'which' nbar(E1) 'is' 'the' superlative(E1)~'?'", "sem": lambda nbar, superlative: [("intent_list", e1, apply(superlative, nbar))]},

        {"syn": "s() -> proper_noun(E1) tv3(E1, E2) proper_noun(E2)~'.'", "sem": lambda pn1, tv3, pn2: pn1 + pn2 + [("store", tv3), ("intent_ok",)]},
        {"syn": "s() -> proper_noun(E1) 'leads' proper_noun(E2)~'.'", "sem": lambda pn1, pn2: pn1 + pn2 + [("store", [("lead", E1, E2)]), ("intent_ok",)]},
        {"syn": "s() -> proper_noun(E1) 'is' 'a' noun(E1)~'.'", "sem": lambda proper_noun, noun: proper_noun + [("store", noun), ("intent_ok",)]},
        {"syn": "s() -> 'every' noun(E1) 'is' 'a' noun(E1)~'.'", "sem": lambda noun1, noun2: [("learn_rule", noun2[0], noun1), ("intent_ok",)]},

        {"syn": "vp(E1) -> tv(E1, E2) np(E2)", "sem": lambda tv, np: apply(np, tv)},
        {"syn": "vp(E1) -> 'not' tv(E1, E2) np(E2)", "sem": lambda tv, np: [("not", apply(np, tv))]},
        {"syn": "vp3(E1) -> tv3(E1, E2) np(E2)", "sem": lambda tv3, np: apply(np, tv3)},
        {"syn": "vp3(E1) -> 'does' 'not' tv(E1, E2) np(E2)", "sem": lambda tv, np: [("not", apply(np, tv))]},

        {"syn": "np(E1) -> proper_noun(E1)", "sem": lambda proper_noun: SemanticTemplate([Body], proper_noun + Body)},
        {"syn": "np(E1) -> det(E1) nbar(E1)", "sem": lambda det, nbar: SemanticTemplate([Body], apply(det, nbar, Body))},
        {"syn": "det(E1) -> 'a'", "sem": lambda: SemanticTemplate([Range, Body], Range + Body)},
        {"syn": "det(E1) -> 'every'", "sem": lambda: SemanticTemplate([Range, Body], [("all", E1, Range, Body)])},
        {"syn": "det(E1) -> 'no'", "sem": lambda: SemanticTemplate([Range, Body], [("none", Range + Body)])},
        {"syn": "det(E1) -> number(E1)", "sem": lambda number: SemanticTemplate([Range, Body], [("det_equals", Range + [("scoped", Body)], number)])},
        {"syn": "det(E1) -> 'more' 'than' number(E1)", "sem": lambda number: SemanticTemplate([Range, Body], [("det_greater_than", Range + [("scoped", Body)], number)])},
        {"syn": "det(E1) -> 'less' 'than' number(E1)", "sem": lambda number: SemanticTemplate([Range, Body], [("det_less_than", Range + [("scoped", Body)], number)])},

        {"syn": "nbar(E1) -> noun(E1)", "sem": lambda noun: noun},
        {"syn": "nbar(E1) -> adj(E1) nbar(E1)", "sem": lambda adj, nbar: adj + nbar},
        {"syn": "nbar(E1) -> noun(E1) 'that' vp3(E1)", "sem": lambda noun, vp3: noun + [("scoped", vp3)]},
        {"syn": "nbars(E1) -> noun(E1)+'s'", "sem": lambda noun: noun},
        {"syn": "nbars(E1) -> adj(E1) nbars(E1)", "sem": lambda adj, nbars: adj + nbars},
        {"syn": "superlative(E1) -> 'heaviest'", "sem": lambda: SemanticTemplate([Body], [("arg_max", E1, E2, Body + [("weigh", E1, E2)])])},
        {"syn": "superlative(E1) -> 'lightest'", "sem": lambda: SemanticTemplate([Body], [("arg_min", E1, E2, Body + [("weigh", E1, E2)])])},
        {"syn": "number(E1) -> /\\d+/", "sem": lambda token: int(token)},
    ]
    rules += [{"syn": f"number(E1) -> '{n}'", "sem": lambda k=k: k} for k, n in enumerate(NUMBERS)]
    rules += [{"syn": f"noun(E1) -> '{n}'", "sem": lambda n=n: [(n, E1)], "dialog": [("dialog_isa", e1, n)]} for n in NOUNS]
    rules += [{"syn": f"adj(E1) -> '{a}'", "sem": lambda a=a: [(a, E1)]} for a in ADJECTIVES]
    rules += [{"syn": f"proper_noun(E1) -> '{n}'", "sem": lambda n=n: [("resolve_name", n, E1)]} for n in NAMES + MORE_NAMES]
    rules += list(verb_rules())
    return rules


def write_rules(names_of):
    return get_en_us_write_grammar() + [
        {"syn": "s() -> 'yes'", "if": [("output_type", "yes")]},
        {"syn": "s() -> 'no'", "if": [("output_type", "no")]},
        {"syn": "s() -> 'ok'", "if": [("output_type", "ok")]},
        {"syn": "s() -> text(E1)", "if": [("output_type", "value"), ("output_value", E1)]},
        {"syn": "s() -> format(E1)", "if": [("output_type", "list"), ("output_list", E1)],
         "format": lambda elements: ", ".join(sorted(names_of[e] for e in elements)) or "nobody"},
    ]


def translated(text):
    """ a sentence or a rule's word in the other language: all words but names start with a z """
    return re.sub(r"[A-Za-z]+", lambda m: m.group(0) if m.group(0).lower() in NAMES + MORE_NAMES else "z" + m.group(0), text)


def translated_rules(rules):
    def syn(text):
        return re.sub(r"'([a-z]+)'", lambda m: m.group(0) if m.group(1) == "s" else "'" + translated(m.group(1)) + "'", text)
    return [dict(rule, syn=syn(rule["syn"])) for rule in rules]


class InjectedFault(Exception):
    pass


class Facts(SomeModule):
    def __init__(self, source, sized):
        super().__init__()
        self.source = source
        self.writes = []
        self.fault = None       # the number of calls after which a query fails
        self.hook = None        # called at each query
        self.faults = 0
        for n in NOUNS + ADJECTIVES + ["entity"]:
            self.table(n, ["id"], sized, [100])
        for v in VERBS + ["lead"]:
            self.table(v, ["id1", "id2"], sized, [50, 50])
        self.table("weigh", ["id", "value"], sized, [100, 100])
        self.table("resolve_name", ["name", "id"], sized, [100, 100])

    def table(self, name, columns, sized, sizes):
        extra = {"relation_size": 100, "argument_sizes": sizes} if sized else {}
        self.add_relation(Relation(name, arguments=columns, query_function=self.query, write_function=self.write, **extra))

    def query(self, values, context):
        if self.hook:
            self.hook()
        if self.fault is not None:
            self.fault -= 1
            if self.fault < 0:
                self.fault = None
                self.faults += 1
                raise InjectedFault("the data source is not available")
        return self.source.select(context.relation.predicate, context.relation.arguments, values)

    def write(self, values, context):
        self.writes.append((context.relation.predicate, tuple(values)))
        self.source.insert(context.relation.predicate, context.relation.arguments, values)


class World:
    """ sets: nouns and adjectives hold entities, verbs hold pairs """

    def __init__(self, entities, unary, binary, weight):
        self.entities = list(entities)      # names
        self.unary = {k: set(v) for k, v in unary.items()}
        self.binary = {k: set(map(tuple, v)) for k, v in binary.items()}
        self.weight = dict(weight)
        self.rules = []                     # (sub, super) between nouns

    def members(self, noun):
        result = set(self.unary.get(noun, ()))
        for sub, sup in self.rules:
            if sup == noun:
                result |= self.members(sub)
        return result

    def pairs(self, verb):
        if verb == "follow":
            result = {(b, a) for a, b in self.binary.get("lead", ())}
            while True:
                more = {(a, d) for a, b in result for c, d in result if b == c} - result
                if not more:
                    return result
                result |= more
        return self.binary.get(verb, set())


def random_world(rng):
    n = rng.randint(2, len(NAMES))
    entities = rng.sample(NAMES, n)
    unary = {x: [e for e in entities if rng.random() < rng.choice([0.2, 0.5, 0.8])] for x in NOUNS + ADJECTIVES}
    binary = {v: [(a, b) for a in entities for b in entities if rng.random() < rng.choice([0.1, 0.3, 0.6])] for v in VERBS}
    order = sorted(entities)
    binary["lead"] = [(a, b) for i, a in enumerate(order) for b in order[i + 1:] if rng.random() < 0.3]
    weights = rng.sample(range(1, 100), n)
    return {"entities": entities, "unary": unary, "binary": binary, "weight": {e: w for e, w in zip(entities, weights)}}


def crowded_world(rng):
    """ many entities, who lead each other in a long line """
    entities = rng.sample(NAMES + MORE_NAMES, len(NAMES + MORE_NAMES))
    unary = {x: [e for e in entities if rng.random() < rng.choice([0.1, 0.3, 0.8])] for x in NOUNS + ADJECTIVES}
    binary = {v: [(a, b) for a in entities for b in entities if rng.random() < rng.choice([0.02, 0.1, 0.2])] for v in VERBS}
    order = sorted(entities)
    binary["lead"] = list(zip(order, order[1:]))
    return {"entities": entities, "unary": unary, "binary": binary, "weight": {e: w for e, w in zip(entities, rng.sample(range(1, 100), len(entities)))}}


class OwnBuffer(BasicOutputBuffer):
    """ an application may extend the buffer with relations of its own """

    def __init__(self):
        super().__init__()
        self.add_relation(Relation("output_own", query_function=lambda values, context: []))


class App:
    def __init__(self, world, options, rules=None, grammar=None, parser=None):
        self.ids = {name: "id-" + name for name in world["entities"]}
        self.names_of = {v: k for k, v in self.ids.items()}
        kind = options.get("store", "sqlite")
        if kind == "sqlite":
            self.source = Sqlite3DataSource(sqlite3.connect(":memory:", check_same_thread=False))
            c = self.source.connection
            for x in NOUNS + ADJECTIVES + ["entity"]:
                c.execute(f"CREATE TABLE {x} (id TEXT)")
            for v in VERBS + ["lead"]:
                c.execute(f"CREATE TABLE {v} (id1 TEXT, id2 TEXT)")
            c.execute("CREATE TABLE weigh (id TEXT, value INTEGER)")
            c.execute("CREATE TABLE resolve_name (name TEXT, id TEXT)")
        else:
            self.source = SimpleDataSource()
        for e in world["entities"]:
            self.source.insert("entity", ["id"], [self.ids[e]])
            self.source.insert("resolve_name", ["name", "id"], [e, self.ids[e]])
            self.source.insert("weigh", ["id", "value"], [self.ids[e], world["weight"][e]])
        for x, members in world["unary"].items():
            for e in members:
                self.source.insert(x, ["id"], [self.ids[e]])
        for v, pairs in world["binary"].items():
            for a, b in pairs:
                self.source.insert(v, ["id1", "id2"], [self.ids[a], self.ids[b]])
        self.facts = Facts(self.source, options.get("sized", False))
        self.inferences = InferenceModule()
        from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
        for rule in SimpleInferenceRuleParser().parse(RULES)[0]:
            self.inferences.insert_rule(rule)
        self.buffer = OwnBuffer() if options.get("own_buffer") else BasicOutputBuffer()
        self.context = BasicDialogContext()
        self.grammar = grammar or read_grammar((rules or read_rules()) + options.get("extra", []))
        self.parser = parser or BasicParser(self.grammar)
        first = []
        if options.get("locales"):
            grammars = {"base": lambda: self.grammar, "z": lambda: read_grammar(translated_rules(rules or read_rules()))}
            self.selector = LanguageSelector(list(options["locales"]))
            self.parser = Multilingual({locale: BasicParser(grammars[locale]()) for locale in options["locales"]}, self.selector)
            first = [FindOne(self.selector)]
        modules = [self.facts, self.inferences, self.context, GrammarModule(self.grammar)]
        modules.insert(options.get("buffer_at", 2), self.buffer)
        self.model = Model(modules)
        self.composer = SemanticComposer(self.parser, query_optimizer=BasicQueryOptimizer(self.model) if options.get("optimize") else None)
        self.executor = AtomExecutor(self.composer, self.model)
        blocks = [{"one": FindOne, "first": TryFirst}[b] for b in options.get("blocks", ["one", "one", "one"])]
        self.generator = BasicGenerator(write_grammar(write_rules(self.names_of)), self.model, self.buffer)
        self.system = System(model=self.model, input_pipeline=first + [b(p) for b, p in zip(blocks, [self.parser, self.composer, self.executor])], output_generator=self.generator)

    def ask(self, text, logger=None):
        request = SentenceRequest(text, logger) if logger else SentenceRequest(text)
        self.system.enter(request)
        return self.system.read_output()


def random_options(rng):
    return {"store": rng.choice(["sqlite", "sqlite", "simple"]), "optimize": rng.random() < 0.5, "sized": rng.random() < 0.5,
            "blocks": [rng.choice(["one", "first"]) for _ in range(3)]}


# --- sentences

def gen_np(rng, names, depth):
    p = rng.random()
    if p < 0.3:
        return ("name", rng.choice(names))
    det = rng.choice(["a", "a", "every", "no", ("n", rng.randint(0, 3)), ("more", rng.randint(0, 3)), ("less", rng.randint(1, 4))])
    return ("det", det, gen_nbar(rng, names, depth))


def gen_nbar(rng, names, depth):
    p = rng.random()
    if p < 0.2:
        return ("adj", rng.choice(ADJECTIVES), gen_nbar(rng, names, depth))
    if p < 0.4 and depth < 2:
        return ("that", rng.choice(NOUNS), gen_vp(rng, names, depth + 1))
    return ("noun", rng.choice(NOUNS))


def gen_vp(rng, names, depth):
    return (rng.choice(["pos", "pos", "pos", "neg"]), rng.choice(VERBS + ["follow"]), gen_np(rng, names, depth))


def simple_nbar(rng):
    n = ("noun", rng.choice(NOUNS))
    return ("adj", rng.choice(ADJECTIVES), n) if rng.random() < 0.3 else n


def gen_sentence(rng, names):
    kind = rng.choice(["isa", "is", "there", "does", "does", "does", "which", "which", "who", "whom", "many", "many", "heavy", "total", "super",
                       "teach", "teach", "lead", "teach_isa", "rule"])
    if kind == "isa":
        return (kind, rng.choice(names), gen_nbar(rng, names, 0))
    if kind == "is":
        return (kind, rng.choice(names), rng.choice(ADJECTIVES))
    if kind == "there":
        np = gen_np(rng, names, 0)
        return (kind, np)
    if kind == "does":
        return (kind, gen_np(rng, names, 0), gen_vp(rng, names, 0))
    if kind == "which":
        return (kind, gen_nbar(rng, names, 1), gen_vp(rng, names, 0))
    if kind == "who":
        return (kind, gen_vp(rng, names, 0))
    if kind == "whom":
        return (kind, simple_nbar(rng), gen_np(rng, names, 1), rng.choice(VERBS + ["follow"]))
    if kind == "many":
        return (kind, simple_nbar(rng), gen_vp(rng, names, 0))
    if kind == "heavy":
        return (kind, rng.choice(names))
    if kind == "total":
        return (kind, simple_nbar(rng))
    if kind == "super":
        return (kind, gen_nbar(rng, names, 1), rng.choice(["heaviest", "lightest"]))
    if kind == "teach":
        return (kind, rng.choice(names), rng.choice(VERBS), rng.choice(names))
    if kind == "lead":
        a, b = sorted(rng.sample(sorted(names), 2))
        return (kind, a, b)
    if kind == "teach_isa":
        return (kind, rng.choice(names), rng.choice(NOUNS))
    if kind == "rule":
        i, j = sorted(rng.sample(range(len(NOUNS)), 2))
        return (kind, NOUNS[i], NOUNS[j])


def text_np(np):
    if np[0] == "name":
        return np[1]
    det = np[1]
    if isinstance(det, tuple):
        word = NUMBERS[det[1]] if det[1] % 2 else str(det[1])
        det = {"n": "", "more": "more than ", "less": "less than "}[det[0]] + word
    return det + " " + text_nbar(np[2])


def text_nbar(n):
    if n[0] == "noun":
        return n[1]
    if n[0] == "adj":
        return n[1] + " " + text_nbar(n[2])
    return n[1] + " that " + text_vp3(n[2])


def text_vp(vp):
    return ("not " if vp[0] == "neg" else "") + vp[1] + " " + text_np(vp[2])


def text_vp3(vp):
    return ("does not " + vp[1] if vp[0] == "neg" else vp[1] + "s") + " " + text_np(vp[2])


def text_of(s):
    kind = s[0]
    if kind == "isa":
        return f"Is {s[1]} a {text_nbar(s[2])}?"
    if kind == "is":
        return f"Is {s[1]} {s[2]}?"
    if kind == "there":
        return f"Is there {text_np(s[1])}?"
    if kind == "does":
        return f"Does {text_np(s[1])} {text_vp(s[2])}?"
    if kind == "which":
        return f"Which {text_nbar(s[1])} {text_vp3(s[2])}?"
    if kind == "who":
        return f"Who {text_vp3(s[1])}?"
    if kind == "whom":
        return f"Which {text_nbar(s[1])} does {text_np(s[2])} {s[3]}?"
    if kind == "many":
        return f"How many {text_nbar(s[1])}s {text_vp(s[2])}?"
    if kind == "heavy":
        return f"How heavy is {s[1]}?"
    if kind == "total":
        return f"What is the total weight of the {text_nbar(s[1])}s?"
    if kind == "super":
        return f"Which {text_nbar(s[1])} is the {s[2]}?"
    if kind == "teach":
        return f"{s[1]} {s[2]}s {s[3]}."
    if kind == "lead":
        return f"{s[1]} leads {s[2]}."
    if kind == "teach_isa":
        return f"{s[1]} is a {s[2]}."
    if kind == "rule":
        return f"Every {s[1]} is a {s[2]}."


class NotDetermined(Exception):
    pass


def set_of(n, world):
    if n[0] == "noun":
        return world.members(n[1])
    if n[0] == "adj":
        return world.unary.get(n[1], set()) & set_of(n[2], world)
    return {e for e in world.members(n[1]) if holds_vp(n[2], e, world)}


def quantify(np, test, world):
    if np[0] == "name":
        return test(np[1])
    det, domain = np[1], set_of(np[2], world)
    number = sum(1 for e in domain if test(e))
    if det == "a":
        return number > 0
    if det == "every":
        if not domain:
            raise NotDetermined()
        return number == len(domain)
    if det == "no":
        return number == 0
    return {"n": number == det[1], "more": number > det[1], "less": number < det[1]}[det[0]]


def holds_vp(vp, subject, world):
    result = quantify(vp[2], lambda e: (subject, e) in world.pairs(vp[1]), world)
    return not result if vp[0] == "neg" else result


def listed(names):
    return ", ".join(sorted(names)) or "nobody"


def answer(s, world):
    """ the answer in the world, and the change of the world """
    kind = s[0]
    yes = lambda b: "yes" if b else "no"
    if kind == "isa":
        return yes(s[1] in set_of(s[2], world))
    if kind == "is":
        return yes(s[1] in world.unary.get(s[2], ()))
    if kind == "there":
        return yes(quantify(s[1], lambda e: True, world))
    if kind == "does":
        return yes(quantify(s[1], lambda e: holds_vp(s[2], e, world), world))
    if kind == "which":
        return listed(e for e in set_of(s[1], world) if holds_vp(s[2], e, world))
    if kind == "who":
        return listed(e for e in world.entities if holds_vp(s[1], e, world))
    if kind == "whom":
        return listed(e for e in set_of(s[1], world) if quantify(s[2], lambda x: (x, e) in world.pairs(s[3]), world))
    if kind == "many":
        return str(sum(1 for e in set_of(s[1], world) if holds_vp(s[2], e, world)))
    if kind == "heavy":
        return str(world.weight[s[1]])
    if kind == "total":
        return str(sum(world.weight[e] for e in set_of(s[1], world)))
    if kind == "super":
        domain = set_of(s[1], world)
        if not domain:
            return "nobody"
        return (max if s[2] == "heaviest" else min)(domain, key=lambda e: world.weight[e])
    if kind == "teach":
        world.binary.setdefault(s[2], set()).add((s[1], s[3]))
    if kind == "lead":
        world.binary.setdefault("lead", set()).add((s[1], s[2]))
    if kind == "teach_isa":
        world.unary.setdefault(s[2], set()).add(s[1])
    if kind == "rule":
        world.rules.append((s[1], s[2]))
    return "ok"
