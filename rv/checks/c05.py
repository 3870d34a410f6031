""" C05: semantic composition connects exactly the variables that the grammar connects """
from rv.core import expect, fail
from rv.lib import (BasicParser, FindOne, ReifiedVariable, SemanticComposer, SemanticTemplate, SentenceRequest, System, Variable, apply, read_grammar)

PID = "C05"
RULE = ("random grammars whose rules have variables in common with their constituents, local variables, nested semantics, templates, regular expression "
        "tokens, reified variables, dialog and exec atoms; random derivations, several sentences per composer; non-trivial: at least two rules and three "
        "variables; distinct by composed meaning")
ASSUMPTIONS = ["whether the exec atoms of a rule are added to those of its constituents or replace them is not specified: both are accepted",
               "reified variables are variables of the rule's syntax", "a value that is filled in for a part of a template holds no part that is filled in later"]
CASES = {"quick": 18000, "thorough": 120000}
FLOORS = {"sentences": 15000, "variables": 60000, "templates_applied": 1500, "nested": 5000, "rule_used_twice": 3000, "templates_of_templates": 300, "nested_exec": 300, "constituent_exec": 300, "large": 3}

# categories: name -> (arity, kind) ; kind 'list' returns a list of atoms, 'template' a SemanticTemplate(Range, Body), 'token' a word


def gen(rng, i, tier):
    if i % 1500 == 7:
        return gen_large(rng)
    nvars = ["E1", "E2", "E3", "V", "Entity"] + (["E4", "Event", "Q"] if rng.random() < 0.2 else [])
    wide = [4, 5] if rng.random() < 0.2 else []
    cats = {"s": (rng.choice([0, 1, 1, 2, 3] + wide), "list", ())}
    for k in range(rng.randint(2, 5)):
        cats["c" + str(k)] = (rng.choice([0, 1, 1, 2, 2, 3] + wide), "list", ())
    if rng.random() < 0.5:
        cats["det"] = (rng.choice([0, 1]), "template", rng.choice([("Range", "Body"), ("Range", "Body"), ("Body",), ("Range", "Body", "Scope"), ("Scope", "Body", "Range", "Rest")]))
        if rng.random() < 0.6:
            cats["np"] = (rng.choice([0, 1, 2]), "template", rng.choice([("Body",), ("Body",), ("Range", "Body")]))
    rules = []
    marker = 0
    for cat in cats:
        arity = cats[cat][0]
        for _ in range(rng.randint(1, 3)):
            marker += 1
            leaf_rule = False
            rules.append(make_rule(rng, cat, cats, "k" + str(marker), nvars, leaf_rule))
        marker += 1
        rules.append(make_rule(rng, cat, cats, "k" + str(marker), nvars, True))
    sentences = [derive(rng, rules, "s", cats, 0) for _ in range(rng.randint(2, 4))]
    return {"rules": rules, "sentences": [s for s in sentences if s]}


def gen_large(rng):
    """ a sentence with hundreds of variables """
    cats = {"s": (1, "list", ()), "c0": (rng.choice([1, 2]), "list", ())}
    nvars = ["E1", "E2", "E3", "V", "Entity"]
    locals_ = ["?" + v for v in ("L1", "L2", "L3")]
    n = len(nvars[:cats["c0"][0]])
    rules = [{"cat": "s", "head": ["E1"], "marker": "k1", "children": [("rel", "c0", nvars[:n])], "body": [("child", 0), ("atom", "p1", ["?E1"])], "template": (), "dialog": None, "dialog_callable": False, "exec": None},
             {"cat": "c0", "head": nvars[:n], "marker": "k2", "children": [("rel", "c0", rng.sample(nvars, n))], "template": (), "exec": None,
              "body": [("atom", "p2", ["?E1"] + locals_), ("child", 0)], "dialog": [("d1", ["?L4"])] if rng.random() < 0.5 else None, "dialog_callable": False},
             {"cat": "c0", "head": nvars[:n], "marker": "k3", "children": [], "body": [("atom", "p3", ["?E1", "?L1"])], "template": (), "dialog": None, "dialog_callable": False, "exec": None}]
    tree = (2, [])
    for _ in range(rng.randint(40, 180)):
        tree = (1, [tree])
    return {"rules": rules, "sentences": [(0, [tree])]}


def make_rule(rng, cat, cats, marker, nvars, leaf):
    arity, kind, slots = cats[cat]
    head = rng.sample(nvars, arity)
    children = []
    if not leaf and (kind == "list" or cat == "np"):
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.2:
                children.append(("tok", rng.random() < 0.3))
            else:
                child = "det" if cat == "np" and rng.random() < 0.5 else rng.choice([c for c in cats if c != "s"])
                children.append(("rel", child, [rng.choice(nvars[:rng.randint(1, len(nvars))]) for _ in range(cats[child][0])]))
    syntax_vars = sorted(set(head) | {v for c in children if c[0] == "rel" for v in c[2]})
    usable = syntax_vars + ["L1", "L2"] + (["E5"] if rng.random() < 0.3 else [])

    def terms(n):
        result = []
        for _ in range(n):
            kind = rng.random()
            if kind < 0.7:
                result.append("?" + rng.choice(usable))
            elif kind < 0.8:
                result.append(rng.choice(["john", "E1", 5, 2.5, "$1", ""]))
            elif kind < 0.88 and syntax_vars:
                result.append(("reified", rng.choice(syntax_vars)))
            else:
                toks = [k for k, c in enumerate(children) if c[0] == "tok"]
                result.append(("tokref", rng.choice(toks)) if toks else "?" + rng.choice(usable))
        return result

    def pieces(depth, remaining):
        result = []
        for _ in range(rng.randint(1, 2)):
            result.append(("atom", "p" + str(rng.randint(1, 5)), terms(rng.randint(0, 3))))
        if depth < 3 and rng.random() < 0.4:
            result.append(("nest", "not" if rng.random() < 0.5 else "count", terms(rng.randint(0, 1)), pieces(depth + 1, remaining)))
        rng.shuffle(result)
        return result

    body = pieces(0, children)
    spliced = [k for k, c in enumerate(children) if c[0] == "rel" and cats[c[1]][1] == "list"]
    for k in spliced:
        place = rng.random()
        if place < 0.6:
            body.insert(rng.randint(0, len(body)), ("child", k))
        elif place < 0.85:
            body.append(("nest", "none", [], [("child", k)] + ([("atom", "q", terms(1))] if rng.random() < 0.5 else [])))
        else:
            body.append(("child", k))
            body.append(("nest", "scoped", terms(1), [("child", k)]))
    open_slots = list(slots)
    for k, c in enumerate(children):
        if c[0] == "rel" and cats[c[1]][1] == "template":
            parts = [pieces(2, children) for _ in cats[c[1]][2]]
            if open_slots and rng.random() < 0.7:
                # a template that is made of a template
                parts[-1].insert(rng.randint(0, len(parts[-1])), ("slot", open_slots.pop()))
                if rng.random() < 0.5:
                    parts[-1] = parts[-1][-1:] if parts[-1][-1][0] == "slot" else parts[-1]
            body.insert(rng.randint(0, len(body)), ("apply", k, parts))
    if kind == "template":
        if len(open_slots) > 1 and rng.random() < 0.6:
            body.insert(rng.randint(0, len(body)), ("nest2", "all", terms(1), [("slot", open_slots[0])], [("slot", open_slots[1])] + pieces(2, children)))
            open_slots = open_slots[2:] + (open_slots[:1] if rng.random() < 0.3 else [])
        for slot in open_slots + ([rng.choice(slots)] if rng.random() < 0.2 else []):
            if rng.random() < 0.5:
                body.insert(rng.randint(0, len(body)), ("slot", slot))
            else:
                body.insert(rng.randint(0, len(body)), ("nest", "none", terms(1), pieces(3, children) + [("slot", slot)]))
    # local variables may be anywhere: also in the dialog or exec atoms only
    anywhere = ["?" + v for v in syntax_vars] + ["?L1", "?L2", "?L3"]
    dialog = None
    if rng.random() < 0.35:
        dialog = [("d" + str(rng.randint(1, 3)), [rng.choice(anywhere + ["x"] + [("reified", v) for v in syntax_vars]) for _ in range(rng.randint(1, 2))])
                  for _ in range(rng.randint(1, 2))]
    execute = None
    if rng.random() < (0.5 if cat == "s" else 0.08):
        execute = [("x" + str(rng.randint(1, 3)), [rng.choice(anywhere + [1]) for _ in range(rng.randint(1, 2))]) for _ in range(rng.randint(1, 2))]
    return {"cat": cat, "head": head, "marker": marker, "children": children, "body": body, "template": slots,
            "dialog": dialog, "dialog_callable": rng.random() < 0.5, "exec": execute}


def derive(rng, rules, cat, cats, depth):
    options = [k for k, r in enumerate(rules) if r["cat"] == cat and (depth < 4 or not r["children"])]
    k = rng.choice(options)
    return (k, [derive(rng, rules, c[1], cats, depth + 1) if c[0] == "rel" else rng.choice(LOOSE) if c[1] else "v" + str(rng.randint(1, 99)) for c in rules[k]["children"]])


# words that are matched by a regular expression, to the letter
LOOSE = [" v1", "v2 ", "E1", "$1", "V 3", "Body", "'v", "0", " "]


def spell(tree, rules):
    k, children = tree
    return " ".join([rules[k]["marker"]] + [spell(c, rules) if spec[0] == "rel" else "<" + c + ">" if spec[1] else c for spec, c in zip(rules[k]["children"], children)])


# ---- the real grammar


from richard.core.constants import Body, Range

SLOTS = {"Range": Range, "Body": Body, "Scope": ["__$Scope$__"], "Rest": ["__$Rest$__"]}


def real_rule(rule):
    syn = rule["cat"] + "(" + ", ".join(rule["head"]) + ") -> '" + rule["marker"] + "'"
    for child in rule["children"]:
        syn += (" '<'+/[^>]+/+'>'" if child[1] else " /v\\d+/") if child[0] == "tok" else " " + child[1] + "(" + ", ".join(child[2]) + ")"

    def term(t, values):
        if isinstance(t, tuple):
            return ReifiedVariable(t[1]) if t[0] == "reified" else values[t[1]]
        if isinstance(t, str) and t.startswith("?"):
            return Variable(t[1:])
        return t

    def atoms(pieces, values):
        result = []
        for p in pieces:
            if p[0] == "slot":
                result += SLOTS[p[1]]
            elif p[0] == "atom":
                result.append((p[1], *[term(t, values) for t in p[2]]))
            elif p[0] == "nest":
                result.append((p[1], *[term(t, values) for t in p[2]], atoms(p[3], values)))
            elif p[0] == "nest2":
                result.append((p[1], *[term(t, values) for t in p[2]], atoms(p[3], values), atoms(p[4], values)))
            elif p[0] == "child":
                result += values[p[1]]
            elif p[0] == "apply":
                result += apply(values[p[1]], *[atoms(part, values) for part in p[2]])
        return result

    def sem(*values):
        result = atoms(rule["body"], values)
        return SemanticTemplate([SLOTS[n] for n in rule["template"]], result) if rule["template"] else result

    entry = {"syn": syn, "sem": sem}
    if rule["dialog"]:
        dialog = [(name, *[term(t, ()) for t in args]) for name, args in rule["dialog"]]
        entry["dialog"] = (lambda *values: list(dialog)) if rule["dialog_callable"] else dialog
    if rule["exec"]:
        entry["exec"] = lambda *values: [(name, *[term(t, ()) for t in args]) for name, args in rule["exec"]]
    return entry


# ---- the reference: a variable is the node of the derivation that introduces it, and its name there


def expected(tree, rules, incoming, path, out):
    k, children = tree
    rule = rules[k]
    env = dict(zip(rule["head"], incoming))

    def var(name):
        if name not in env:
            env[name] = (path, name)
        return env[name]

    values = []
    for n, (spec, child) in enumerate(zip(rule["children"], children)):
        if spec[0] == "tok":
            values.append(child)
        else:
            values.append(expected(child, rules, [var(v) for v in spec[2]], path + (n,), out))

    def term(t):
        if isinstance(t, tuple):
            return ("reified", var(t[1])) if t[0] == "reified" else values[t[1]]
        if isinstance(t, str) and t.startswith("?"):
            return ("var", var(t[1:]))
        return ("value", t)

    def atoms(pieces):
        result = []
        for p in pieces:
            if p[0] == "slot":
                result.append(("slot", p[1]))
            elif p[0] == "atom":
                result.append(("atom", p[1], [wrap(term(t)) for t in p[2]]))
            elif p[0] == "nest":
                result.append(("atom", p[1], [wrap(term(t)) for t in p[2]] + [("list", atoms(p[3]))]))
            elif p[0] == "nest2":
                result.append(("atom", p[1], [wrap(term(t)) for t in p[2]] + [("list", atoms(p[3])), ("list", atoms(p[4]))]))
            elif p[0] == "child":
                result += values[p[1]]
            elif p[0] == "apply":
                out["applied"] += 1
                if rule["template"]:
                    out["templates_of_templates"] += 1
                result += fill(values[p[1]], dict(zip(rules[children[p[1]][0]]["template"], [atoms(part) for part in p[2]])))
        return result

    def wrap(t):
        return t if isinstance(t, tuple) else ("value", t)

    result = atoms(rule["body"])
    if rule["dialog"]:
        for name, args in rule["dialog"]:
            out["dialog"].append(("atom", name, [wrap(term(t)) for t in args]))
    below = [e for e in out["exec"] if e[0][:len(path)] == path]
    if rule["exec"]:
        if below:
            out["nested_exec"] += 1
        out["exec"] += [(path, ("atom", name, [wrap(term(t)) for t in args])) for name, args in rule["exec"]]
        out["replaced"] |= {id(e) for e in below}
    return result


def fill(template, slots):
    result = []
    for p in template:
        if p[0] == "slot":
            result += slots[p[1]]
        elif p[0] == "atom":
            result.append(("atom", p[1], [("list", fill(t[1], slots)) if t[0] == "list" else t for t in p[2]]))
    return result


class Matcher:
    """ equality up to a one-to-one renaming of variables """

    def __init__(self):
        self.names, self.ids = {}, {}

    def variable(self, ident, name):
        if self.names.setdefault(ident, name) != name:
            return f"one variable of the grammar, {ident}, became the two variables {self.names[ident]} and {name}"
        if self.ids.setdefault(name, ident) != ident:
            return f"two variables of the grammar, {self.ids[name]} and {ident}, became the same variable {name}"
        return None

    def atoms(self, want, got):
        if not isinstance(got, list) or len(want) != len(got):
            return f"{len(want)} atoms expected, observed: {got}"
        for w, g in zip(want, got):
            if not isinstance(g, tuple) or g[0] != w[1] or len(g) - 1 != len(w[2]):
                return f"expected atom {w}, observed {g}"
            for t, a in zip(w[2], g[1:]):
                problem = self.term(t, a)
                if problem:
                    return problem
        return None

    def term(self, t, a):
        if t[0] == "list":
            return self.atoms(t[1], a)
        if t[0] == "var":
            return self.variable(t[1], a.name) if isinstance(a, Variable) else f"variable expected, observed {a!r}"
        if t[0] == "reified":
            return self.variable(t[1], a) if isinstance(a, str) else f"the name of a variable expected, observed {a!r}"
        if type(a) is not type(t[1]) or a != t[1]:
            return f"the value {t[1]!r} became {a!r}"
        return None


def depth_of(atoms):
    return max([0] + [1 + depth_of(t[1]) for a in atoms if a[0] == "atom" for t in a[2] if t[0] == "list"])


def used(tree):
    yield tree[0]
    for child in tree[1]:
        if isinstance(child, tuple):
            yield from used(child)


def run(case, mon):
    rules = case["rules"]
    parser = BasicParser(read_grammar([real_rule(r) for r in rules]))
    composer = SemanticComposer(parser)
    system = System(input_pipeline=[FindOne(parser), FindOne(composer)])
    earlier = set()
    for tree in case["sentences"]:
        text = spell(tree, rules)
        request = SentenceRequest(text)
        semantics = system.enter(request)
        product = request.get_current_product(composer)
        expect(product is not None, "the sentence is not understood", text=text)
        head = rules[tree[0]]["head"]
        root = [((), "head" + str(k)) for k in range(len(head))]
        out = {"dialog": [], "exec": [], "replaced": set(), "applied": 0, "templates_of_templates": 0, "nested_exec": 0}
        want = expected(tree, rules, root, (0,), out)
        m = Matcher()
        returned = list(product.return_variables)
        expect(len(returned) == len(root), "wrong number of return variables", returned=returned)
        problem = None
        for ident, name in zip(root, returned):
            problem = problem or m.variable(ident, name)
        problem = problem or m.atoms(want, semantics)
        problem = problem or same_atoms_any_order(m, out["dialog"], product.inferences)
        if not problem:
            problem = same_atoms_any_order(m, [a for e, a in [(e, e[1]) for e in out["exec"]] if id(e) not in out["replaced"]], product.executable, "exec")
            if problem and out["replaced"] and not same_atoms_any_order(m, [e[1] for e in out["exec"]], product.executable, "exec"):
                problem = None
        if not problem and len(out["exec"]) > 1 and not out["replaced"] and len({e[0] for e in out["exec"]}) == 1:
            # the exec atoms of one rule come in the order of the rule
            problem = m.atoms([e[1] for e in out["exec"]], product.executable)
        mon.event("compose", text, str(semantics)[:300])
        if problem:
            fail("the meaning does not follow from the grammar", problem=problem, text=text, observed=semantics, dialog=product.inferences,
                 exec=product.executable, expected=want, rules=[rules[k] for k in sorted(set(used(tree)))])
        names = set(m.ids)
        expect(not names & earlier, "a variable is shared with an earlier sentence", shared=sorted(names & earlier), text=text)
        earlier |= names
        mon.count("sentences")
        mon.count("variables", len(names))
        mon.count("templates_applied", out["applied"])
        mon.count("templates_of_templates", out["templates_of_templates"])
        mon.count("nested_exec", out["nested_exec"])
        if any(e[0] != (0,) for e in out["exec"]):
            mon.count("constituent_exec")
        if len(names) > 120:
            mon.count("large")
        if depth_of(want) > 0:
            mon.count("nested")
        uses = list(used(tree))
        if len(uses) > len(set(uses)):
            mon.count("rule_used_twice")
        if len(uses) > 1 and len(names) > 2:
            mon.nontrivial((want, text))
        mon.sample({"text": text, "meaning": str(semantics)[:600]})


def same_atoms_any_order(m, want, got, kind="dialog"):
    """ dialog atoms: which comes first is not fixed; tries all pairings (the semantics have fixed most variables before) """
    if not isinstance(got, list) or len(want) != len(got):
        return f"{len(want)} {kind} atoms expected, observed: {got}"
    names, ids = dict(m.names), dict(m.ids)

    def match(k, rest):
        if k == len(want):
            return True
        tried = []
        for n, g in enumerate(rest):
            if g in tried:
                continue
            tried.append(g)
            before = dict(m.names), dict(m.ids)
            if m.atoms([want[k]], [g]) is None and match(k + 1, rest[:n] + rest[n + 1:]):
                return True
            m.names, m.ids = before
        return False

    if match(0, list(got)):
        return None
    m.names, m.ids = names, ids
    return f"the {kind} atoms {want} are expected, observed: {got}"


def shrink(case):
    if len(case["sentences"]) > 1:
        for k in range(len(case["sentences"])):
            yield dict(case, sentences=case["sentences"][:k] + case["sentences"][k + 1:])
