"""
Reference model of read grammars: random grammars, their rendering in the notation of the library, the set of all
derivations of a text, and how far a text can be read. Written from the documentation; shares no code with the library.

A rule is (ant, nargs_vars, items, seps, boost):
    item: ('rel', category, (vars...)) | ('word', word, optional) | ('re', regexp)
    seps[k] stands between items k and k+1: ' ' (one space), '+' (nothing), '~' (an optional space)
"""
import itertools
import re


def quote(word, style="'"):
    return style + word.replace(style, "\\" + style) + style


def render_item(item, style="'"):
    if item[0] == "rel":
        return item[1] + "(" + ", ".join(item[2]) + ")"
    if item[0] == "re":
        return "/" + item[1].replace("/", "\\/") + "/"
    return quote(item[1], style) + ("?" if item[2] else "")


def render_rule(rule, styles=None):
    ant, variables, items, seps = rule[:4]
    text = ant + "(" + ", ".join(variables) + ") -> "
    for k, item in enumerate(items):
        style = styles[k % len(styles)] if styles else "'"
        text += render_item(item, style)
        if k < len(seps):
            text += {" ": " ", "+": "+", "~": " ~ "}[seps[k]]
    return text


def variants(rule):
    """ the alternatives without optional words; an omitted word takes the separator before it along (for the first: the one after it) """
    items, seps = rule[2], rule[3]
    optional = [k for k, item in enumerate(items) if item[0] == "word" and item[2]]
    result = []
    for drop in itertools.chain.from_iterable(itertools.combinations(optional, n) for n in range(len(optional) + 1)):
        kept = [k for k in range(len(items)) if k not in drop]
        if not kept:
            continue
        lines = [[]]
        for pos, k in enumerate(kept):
            if pos > 0:
                sep = seps[k - 1]
                if sep == " ":
                    lines = [line + [("word", " ", False)] for line in lines]
                elif sep == "~":
                    lines = [line + [("word", " ", False)] for line in lines] + lines
            lines = [line + [items[k]] for line in lines]
        for line in lines:
            if line not in result:
                result.append(line)
    return result


class Reference:
    def __init__(self, rules):
        self.rules = rules
        self.index = {}
        for r, rule in enumerate(rules):
            key = (rule[0], len(rule[1]))
            self.index.setdefault(key, []).extend((r, v) for v in variants(rule))
        self.leaf_memo = {}

    def start(self, text):
        self.text = text
        # a letter of which the lower case form has two characters is no part of any word
        self.lower = "".join(c.lower() if len(c.lower()) == 1 else "\0" for c in text)
        self.tree_memo = {}
        self.count_memo = {}
        self.leaf_memo = {}

    def leaf_ends(self, item, i):
        key = (item[0], item[1], i)
        if key not in self.leaf_memo:
            if item[0] == "word":
                n = len(item[1])
                ends = [i + n] if self.lower[i:i + n] == item[1].lower() and i + n <= len(self.text) else []
            else:
                pattern = re.compile(item[1])
                ends = [k for k in range(i + 1, len(self.text) + 1) if pattern.fullmatch(self.text[i:k])]
            self.leaf_memo[key] = ends
        return self.leaf_memo[key]

    # number of derivations of a category for text[i:j]
    def count(self, key, i, j):
        memo = (key, i, j)
        if memo not in self.count_memo:
            self.count_memo[memo] = 0
            self.count_memo[memo] = sum(self.count_line(line, 0, i, j) for _, line in self.index.get(key, []))
        return self.count_memo[memo]

    def count_line(self, line, n, i, j):
        item = line[n]
        last = n == len(line) - 1
        rest = len(line) - 1 - n
        total = 0
        if item[0] == "rel":
            key = (item[1], len(item[2]))
            for k in ([j] if last else range(i + 1, j - rest + 1)):
                if k <= i:
                    continue
                c = self.count(key, i, k)
                if c:
                    total += c * (1 if last else self.count_line(line, n + 1, k, j))
        else:
            for k in self.leaf_ends(item, i):
                if last:
                    total += 1 if k == j else 0
                elif k < j:
                    total += self.count_line(line, n + 1, k, j)
        return total

    def trees(self, key, i, j):
        """ tree: (category, nargs, children, rule number, variables) ; leaf: ('word'|'re', category, form) """
        memo = (key, i, j)
        if memo not in self.tree_memo:
            result = []
            for r, line in self.index.get(key, []):
                for children in self.line_trees(line, 0, i, j):
                    result.append((key[0], key[1], tuple(children), r, (self.rules[r][1], *[item[2] for item in line if item[0] == "rel"])))
            self.tree_memo[memo] = result
        return self.tree_memo[memo]

    def line_trees(self, line, n, i, j):
        item = line[n]
        last = n == len(line) - 1
        if item[0] == "rel":
            key = (item[1], len(item[2]))
            for k in ([j] if last else range(i + 1, j)):
                if k <= i or not self.count(key, i, k):
                    continue
                rests = [[]] if last else list(self.line_trees(line, n + 1, k, j))
                for tree in self.trees(key, i, k) if rests else []:
                    for rest in rests:
                        yield [tree] + rest
        else:
            for k in self.leaf_ends(item, i):
                form = item[1] if item[0] == "word" else self.text[i:k]
                leaf = (item[0], item[1], form)
                if last:
                    if k == j:
                        yield [leaf]
                elif k < j:
                    for rest in self.line_trees(line, n + 1, k, j):
                        yield [leaf] + rest

    def start_keys(self):
        return sorted(key for key in self.index if key[0] == "s")

    def total(self, text):
        self.start(text)
        return sum(self.count(key, 0, len(text)) for key in self.start_keys()) if text else 0

    def all_trees(self, text):
        self.start(text)
        return [t for key in self.start_keys() for t in self.trees(key, 0, len(text))] if text else []

    def furthest(self, text):
        """ the furthest position that some left-to-right reading of the text, starting at s, reaches """
        self.start(text)
        n = len(text)
        ends = {}
        for key in self.index:
            for i in range(n + 1):
                ends[key, i] = [j for j in range(i + 1, n + 1) if self.count(key, i, j)]
        reach = {(key, i): 0 for key in self.index for i in range(n + 1)}
        # only what is reachable from s matters, which the recursion below takes care of
        changed = True
        while changed:
            changed = False
            for (key, i), best in reach.items():
                new = best
                for _, line in self.index[key]:
                    current = {i}
                    for item in line:
                        following = set()
                        for q in current:
                            if item[0] == "rel":
                                k = (item[1], len(item[2]))
                                if k in self.index:
                                    new = max(new, reach[k, q])
                                    following.update(ends[k, q])
                            else:
                                e = self.leaf_ends(item, q)
                                following.update(e)
                        if following and item[0] != "rel":
                            new = max(new, max(following))
                        current = following
                        if not current:
                            break
                if new > best:
                    reach[key, i] = new
                    changed = True
        return max([reach[key, 0] for key in self.start_keys()] + [0])


def canonical(node, number=None):
    """ the library's tree in the form of the reference; spaces between words are left out; with the number of the rule, if it has one """
    if len(node.children) == 0:
        kind = "re" if node.rule.antecedent.position_type == "reg-exp" else "word"
        return (kind, node.category, node.form)
    children = tuple(canonical(child, number) for child in node.children)
    rule = node.rule
    variables = (tuple(rule.antecedent.arguments), *[tuple(c.arguments) for c in rule.consequents if c.position_type == "relation"])
    return (node.category, len(rule.antecedent.arguments), tuple(c for c in children if c[:2] != ("word", " ")), variables + ((number(rule),) if number else ()))


def keep_rules(tree, numbers=None):
    """ the reference's tree with rule numbers, and without spaces """
    if is_leaf(tree):
        return tree
    number = numbers[tree[3]] if numbers else tree[3]
    return (tree[0], tree[1], tuple(c for c in (keep_rules(child, numbers) for child in tree[2]) if c[:2] != ("word", " ")), tree[4] + (number,))


def strip_rules(tree):
    """ the reference's tree without rule numbers and spaces """
    if tree[0] in ("word", "re") and len(tree) == 3 and isinstance(tree[2], str):
        return tree
    return (tree[0], tree[1], tuple(c for c in (strip_rules(child) for child in tree[2]) if c[:2] != ("word", " ")), tree[4])


def is_leaf(tree):
    return len(tree) == 3 and isinstance(tree[2], str)


def score(tree, rules):
    """ (boost, number of regular expression leaves, depth) of a reference tree """
    if is_leaf(tree):
        return 0, 1 if tree[0] == "re" else 0, 1
    boost, regs, depth = rules[tree[3]][4], 0, 0
    for child in tree[2]:
        b, r, d = score(child, rules)
        boost += b
        regs += r
        depth = max(depth, d)
    return boost, regs, depth + 1


WORDS = ["a", "b", "ab", "ba", "the", "aa", "in", "x", "it's", "e-mail", "b.", "één", "über", "a b", "USA", "Mr.", "B", "(", "?", "\""]
REGS = [r"\d+", r"[a-b]+", r"[A-Z]\w*", r"\w+", r"[ab]{2}", r"\d{2}", r"[a-z]+", r"a[0-9]?", r"[ab]+c", r"\w+ \w+", r"[A-Z][a-z]*", r"\w[^ ]*", r"(ab)+", r"a/b", r"[^ab ]+", r"a|ab|b", r"\w+?", r"(a|ab)(b|ba)?", r"[ab]*?b"]


def random_grammar(rng, size=None, regs=True, boosts=False, optionals=True):
    """ no empty rules, no cycles, all rules different in syntax """
    n = size or rng.randint(2, 5)
    scale = rng.choice([1, 1, 1, 50, 1000, 1000000]) if boosts else 1
    cats = [("s", 1)] + [(rng.choice(["np", "vp", "n", "v", "pp", "adj"]) + str(k), rng.choice([0, 1, 1, 2])) for k in range(1, n)]
    words = rng.sample(WORDS, rng.randint(2, 5))
    if rng.random() < 0.3:
        # categories that are spelled like words, or like names that a parser may use by itself
        names = rng.sample([w for w in words if w.isascii() and w.isalpha()] + ["gamma", "delta", "terminal", "root", "start", "relation"], k=min(n - 1, 2))
        cats[1:1 + len(names)] = [(name, rng.choice([0, 0, 1])) for name in names]
    passing = rng.random() < 0.3
    keys = []
    for k, (cat, arity) in enumerate(cats):
        keys.append((cat, arity, k))
        if rng.random() < 0.2:
            keys.append((cat, (arity + 1) % 3, k))      # the same category with another number of arguments
            if rng.random() < 0.3:
                keys.append((cat, rng.choice([(arity + 2) % 3, 3, 4]), k))
    reg_choice = rng.sample(REGS, rng.randint(1, 3))
    rules = []
    seen = set()

    def var(k):
        return "E" + str(k)

    def add(cat, arity, level, items, seps):
        boost = rng.choice([0, 0, 0, 1, 2, -1]) * scale + (rng.choice([0, 0, 1]) if scale > 1 else 0) if boosts else 0
        # repeated words next to optional ones: leaving out the one or the other would be the same
        words_used = [k[1] for k in items if k[0] == "word"]
        if len(set(words_used)) < len(words_used):
            items = [(k[0], k[1], False) if k[0] == "word" else k for k in items]
        rule = (cat, tuple(var(k + 1) for k in range(arity)), tuple(items), tuple(seps), boost)
        # rules may differ in their variables only
        forms = {repr([i[:2] if i[0] != "rel" else ("rel", i[1], len(i[2]), i[2] if passing else 0) for i in v]) for v in variants(rule)}
        signatures = {(cat, arity, f) for f in forms}
        if signatures & seen or not forms:
            return
        seen.update(signatures)
        rules.append(rule)

    def leaf(allow_optional):
        if regs and rng.random() < 0.25:
            return ("re", rng.choice(reg_choice))
        return ("word", rng.choice(words), allow_optional and optionals and rng.random() < 0.25)

    def relation(min_level=None):
        options = [k for k in keys if min_level is None or k[2] > min_level]
        if not options:
            return None
        cat, arity, _ = rng.choice(options)
        if rng.random() < 0.04:
            arity = (arity + 1) % 3
        return ("rel", cat, tuple(rng.choice(["E1", "E2", "E3"]) for _ in range(arity)))

    for cat, arity, level in keys:
        for _ in range(rng.randint(1, 4)):
            shape = rng.random()
            if shape < 0.25:
                items = [leaf(False)]
            elif shape < 0.4:
                item = relation(level)
                items = [item or leaf(False)]
            else:
                items = [relation() if rng.random() < 0.55 else leaf(True) for _ in range(rng.randint(2, 4) if rng.random() < 0.97 else rng.randint(5, 7))]
            seps = [rng.choice([" ", " ", " ", "+", "~"]) for _ in range(len(items) - 1)]
            # what remains without the optional words may not be a single relation, as that could be a cycle, and not nothing
            if len(items) > 1:
                fixed_leafs = [k for k in items if k[0] != "rel" and not (k[0] == "word" and k[2])]
                relations = [k for k in items if k[0] == "rel"]
                if not fixed_leafs and len(relations) < 2:
                    items = [(k[0], k[1], False) if k[0] == "word" else k for k in items]
            add(cat, arity, level, items, seps)
        if rng.random() < 0.85:
            add(cat, arity, level, [("word", rng.choice(words), False)], [])
    if passing:
        for rule in rng.sample(rules, min(2, len(rules))):
            items = [("rel", item[1], tuple(rng.sample(["E1", "E2", "E3", "E4", "E5"], len(item[2])))) if item[0] == "rel" else item for item in rule[2]]
            add(rule[0], len(rule[1]), 0, items, list(rule[3]))
    if rng.random() < 0.25:
        # rules that differ in nothing but the case of a regular expression
        for rule in [r for r in rules if any(item[0] == "re" for item in r[2])][:2]:
            add(rule[0], len(rule[1]), 0, [("re", item[1].swapcase()) if item[0] == "re" else item for item in rule[2]], list(rule[3]))
    rng.shuffle(rules)
    return rules


def random_text(rng, rules, ref, limit=18):
    """ a text that some derivation produces, or None """
    def expand(key, depth):
        options = ref.index.get(key, [])
        if not options or depth > 9:
            return None
        if depth > 4:
            options = sorted(options, key=lambda o: sum(1 for i in o[1] if i[0] == "rel"))[:max(1, len(options) // 2)]
        _, line = rng.choice(options)
        text = ""
        for item in line:
            if item[0] == "rel":
                part = expand((item[1], len(item[2])), depth + 1)
                if part is None:
                    return None
            elif item[0] == "word":
                part = item[1]
            else:
                part = random_match(rng, item[1])
            text += part
            if len(text) > limit * 2:
                return None
        return text
    for _ in range(12):
        keys = ref.start_keys()
        if not keys:
            return None
        text = expand(rng.choice(keys), 0)
        if text is not None and 0 < len(text) <= limit:
            return text
    return None


POOL = ["1", "12", "3", "a", "b", "ab", "ba", "aab", "abc", "Ab", "John", "J", "x", "a1", "abab", "a/b", "cd", "the ab", "it", "z_1", "b-b", "12 a", "bac", "7x", "AB", "B", "CAB", "-", "?!"]


def random_match(rng, pattern):
    options = [p for p in POOL if re.fullmatch(pattern, p)]
    return rng.choice(options) if options else "a"


def disturb(rng, text):
    """ whitespace, case and spelling variations of a text """
    kind = rng.random()
    if kind < 0.35:
        return text
    if kind < 0.5:
        return "".join(c.upper() if rng.random() < 0.5 else c for c in text)
    if kind < 0.65:
        return re.sub(" ", lambda m: rng.choice([" ", "  ", "\t", "\n", " \t ", "\r\n", "\u00a0", "\x0c", "\u2028 ", "\u3000", "\x0b"]), text)
    if kind < 0.9 and text:
        k = rng.randrange(len(text))
        op = rng.random()
        if op < 0.3:
            return text[:k] + text[k + 1:]
        if op < 0.6:
            return text[:k] + rng.choice("ab xz1?A") + text[k:]
        if op < 0.75:
            return text[:k]
        if op < 0.85:
            return text + rng.choice([" ", "  ", "?", " zzz", "a", " nothing else matters"])
        return text[:k] + rng.choice("ab xz1?A") + text[k + 1:]
    if kind < 0.93:
        return rng.choice(["", " ", "\t\n", "?"])
    return "".join(rng.choice("ab ab x1") for _ in range(rng.randint(1, 10)))
