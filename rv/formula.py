"""
Random well-moded lists of atoms over typed tables: a variable is bound before an atom needs its value, and a variable that
occurs inside a nested body is either local to that body or bound before it.
"""
import itertools

POOL = ["a", "b", "c", "d", "o'brien", "", "x y", "A", "1", "None", "é", "Variable", "z" * 70, "y" * 450 + "1", "y" * 450 + "2"]


class Formulas:
    def __init__(self, rng, schema, pool, numbers, apart=False, names=None, big=None, rules=None, reuse=0.1, max_depth=3, texts=False):
        self.rng = rng
        self.schema = schema          # name -> list of column types: e(ntity) or n(umber)
        self.pool = pool
        self.numbers = numbers
        self.apart = apart            # computed variables stay out of the tables
        self.names = names or []      # names that resolve_name knows
        self.big = big or []          # relations that give a ResultIterator
        self.reuse = reuse            # how often a local variable gets a name that was used before
        self.max_depth = max_depth
        self.texts = texts            # the numbers are texts: they can be compared, but not calculated with
        self.counter = 0
        self.used = []

    def fresh(self, typ, bound):
        rng = self.rng
        if not self.apart and self.used and rng.random() < self.reuse:
            v, t = rng.choice(self.used)
            if t == typ and v not in bound:
                return v
        self.counter += 1
        v = {"e": "E", "n": "N", "c": "C", "l": "L"}[typ] + str(self.counter)
        self.used.append((v, typ))
        return v

    def constant(self, typ):
        return self.rng.choice(self.pool) if typ == "e" else self.rng.choice(self.numbers)

    def pick(self, bound, types):
        options = [v for v, t in bound.items() if t in types]
        return self.rng.choice(options) if options else None

    def table_atom(self, bound, must=None):
        rng = self.rng
        names = [n for n in sorted(self.schema) if must is None or must in self.schema[n]]
        if not names:
            return None
        name = rng.choice(names)
        args = []
        columns = self.schema[name]
        forced = rng.choice([k for k, t in enumerate(columns) if t == must]) if must else None
        made = None
        for k, t in enumerate(columns):
            if k == forced:
                made = self.fresh(t, bound)
                bound[made] = t
                args.append("?" + made)
                continue
            p = rng.random()
            v = self.pick(bound, (t,) if self.apart else (t, "c") if t == "n" else (t,))
            if p < 0.15:
                args.append(self.constant(t))
            elif p < 0.6 and v is not None:
                args.append("?" + v)
            else:
                v = self.fresh(t, bound)
                bound[v] = t
                args.append("?" + v)
        return ((name, *args), made) if must else (name, *args)

    def conjunction(self, bound, length, depth, only_tables=False):
        """ makes atoms and extends bound """
        atoms = []
        for _ in range(length):
            if only_tables or self.rng.random() < (0.45 if depth else 0.5):
                atoms.append(self.table_atom(bound))
            else:
                atom = self.core_atom(bound, depth)
                if atom is not None:
                    atoms.append(atom)
        return atoms

    def body(self, bound, depth, must=None, extra=2):
        """ a nested body; its local variables are not bound outside of it """
        inner = dict(bound)
        atoms, made = [], None
        if must:
            pair = self.table_atom(inner, must)
            if pair is None:
                return None, None, None
            atom, made = pair
            atoms = [atom]
        n = self.rng.choice([0, 0, 1, 1, 2][:3 + extra]) if must else self.rng.choice([1, 1, 2, 2, 3])
        atoms += self.conjunction(inner, n, depth + 1)
        if self.apart is False and must and self.rng.random() < 0.3:
            self.rng.shuffle(atoms) if all(a[0] in self.schema for a in atoms) else None
        return atoms, made, inner

    def counted(self, bound, depth):
        if self.big and self.rng.random() < 0.1:
            name = self.rng.choice(self.big)
            return [(name, "?" + self.fresh("e", bound))]
        return self.body(bound, depth)[0]

    def number_term(self, bound):
        v = self.pick(bound, ("n",) if self.texts else ("n", "c"))
        if v is not None and self.rng.random() < 0.6:
            return "?" + v
        return self.constant("n")

    def new(self, bound, typ="c"):
        v = self.fresh(typ, bound)
        return v

    def core_atom(self, bound, depth):
        rng = self.rng
        kinds = ["equals", "equals", "greater_than", "less_than", "multiply", "let"]
        if self.names:
            kinds += ["resolve_name", "resolve_name"]
        if depth < self.max_depth:
            kinds += ["count", "sum", "avg", "arg_min", "arg_max", "percentage", "not", "not", "none", "scoped",
                      "det_equals", "det_greater_than", "det_less_than", "all", "all", "find_all", "find_one"]
            q = rng.random()
            if q < 0.1:
                kinds = ["$disjunction"]
            elif q < 0.14:
                kinds = ["destructure"]
        kind = rng.choice(kinds)
        if self.texts and kind in ("multiply", "sum", "avg"):
            kind = "less_than"
        if kind == "resolve_name":
            v = self.fresh("e", bound)
            bound[v] = "e"
            return ("resolve_name", rng.choice(self.names), "?" + v)
        if kind == "equals":
            t = rng.choice("en")
            v = self.pick(bound, (t,))
            if v is None:
                return None
            p = rng.random()
            if p < 0.3:
                other = self.constant(t)
            elif p < 0.6:
                other = "?" + self.pick(bound, (t,))
            elif self.apart:
                new = self.new(bound)
                bound[new] = "x"
                other = "?" + new
            else:
                new = self.fresh(t, bound)
                bound[new] = t
                other = "?" + new
            pair = ["?" + v, other]
            rng.shuffle(pair)
            return ("equals", *pair)
        if kind in ("greater_than", "less_than"):
            return (kind, self.number_term(bound), self.number_term(bound))
        if kind == "multiply":
            x, y = self.number_term(bound), self.number_term(bound)
            v = self.new(bound)
            bound[v] = "c"
            return ("multiply", x, y, "?" + v)
        if kind == "let":
            value = self.number_term(bound)
            v = self.new(bound)
            bound[v] = "c"
            return ("let", "?" + v, value)
        if kind in ("count",):
            body = self.counted(bound, depth)
            v = self.new(bound)
            bound[v] = "c"
            return ("count", "?" + v, body)
        if kind == "percentage":
            one, two = self.counted(bound, depth), self.counted(bound, depth)
            v = self.new(bound)
            bound[v] = "c"
            return ("percentage", "?" + v, one, two)
        if kind in ("sum", "avg"):
            body, made, inner = self.body(bound, depth, "n")
            if body is None:
                return None
            if self.apart is False and rng.random() < 0.2:
                other = self.pick(bound, ("n",))
                made = other or made
            if made not in bound:
                bound[made] = "y"  # what it holds afterwards is not specified
            v = self.new(bound)
            bound[v] = "c"
            return (kind, "?" + v, "?" + made, body)
        if kind in ("arg_min", "arg_max"):
            options = [n for n in sorted(self.schema) if "n" in self.schema[n] and "e" in self.schema[n]]
            if not options:
                return None
            name = rng.choice(options)
            inner = dict(bound)
            columns = self.schema[name]
            e = rng.choice([k for k, t in enumerate(columns) if t == "e"])
            n = rng.choice([k for k, t in enumerate(columns) if t == "n"])
            args = []
            for k, t in enumerate(columns):
                v = self.fresh(t, inner)
                inner[v] = t
                args.append("?" + v)
                if k == e:
                    ev = v
                if k == n:
                    nv = v
            if ev == nv:
                return None
            body = [(name, *args)] + self.conjunction(inner, rng.choice([0, 0, 1]), depth + 1)
            if self.apart:
                bound[ev] = bound[nv] = "x"
            else:
                bound[ev], bound[nv] = "e", "n"
            return (kind, "?" + ev, "?" + nv, body)
        if kind == "$disjunction":
            # what the alternatives bind stays bound, but which of them does is not known
            made = [self.body(bound, depth) for _ in range(rng.choice([1, 2, 2, 3]))]
            for _, _, inner in made:
                for v, t in inner.items():
                    if v not in bound or t == "y":
                        bound[v] = "y" if t == "y" or self.apart else "x"
            return (kind, [atoms for atoms, _, _ in made])
        if kind == "destructure":
            # takes an atom apart; its form agrees with the structure
            atom, structure, made = [], [], {}
            name = rng.choice(sorted(self.schema))
            for t in self.schema[name]:
                v = self.pick(bound, (t,))
                if v is not None and rng.random() < 0.6:
                    atom.append("?" + v)
                else:
                    atom.append(self.constant(t))
                    if rng.random() < 0.2:
                        structure.append(atom[-1])
                        continue
                again = [v for v in made if made[v] == t]
                new = rng.choice(again) if again and rng.random() < 0.15 else self.fresh(t, dict(bound, **made))
                made[new] = t
                structure.append("?" + new)
            for v, t in made.items():
                bound[v] = "x" if self.apart else t
            return (kind, [(name, *atom)], name, *structure)
        if kind in ("not", "none", "scoped"):
            return (kind, self.body(bound, depth)[0])
        if kind.startswith("det_"):
            return (kind, self.counted(bound, depth), rng.choice([0, 1, 1, 2, 3, 5]) if self.texts or rng.random() < 0.7 else self.number_term(bound))
        if kind == "all":
            t = rng.choice("een")
            body, made, inner = self.body(bound, depth, t, 0)
            if body is None:
                return None
            scope = dict(bound, **{made: t})
            test = self.conjunction(scope, rng.choice([1, 1, 2]), depth + 1)
            bound[made] = "x" if self.apart else t
            return ("all", "?" + made, body, test)
        if kind in ("find_all", "find_one"):
            t = rng.choice("een")
            body, made, inner = self.body(bound, depth, t)
            if body is None:
                return None
            wanted = made
            if rng.random() < 0.4:
                local = sorted(v for v in inner if inner[v] in "en" and not (self.apart and v in bound))
                wanted = [made] + rng.sample(local, min(len(local), rng.randint(0, 2)))
                outer = sorted(v for v in bound if bound[v] in "en" and v not in wanted)
                if self.apart and outer and rng.random() < 0.4:
                    wanted.append(rng.choice(outer))
                if rng.random() < 0.1:
                    wanted.append("Unknown")
            v = self.fresh("l", bound)
            bound[v] = "l"
            return (kind, wanted, body, "?" + v)
        raise Exception(kind)


def random_tables(rng, pool, numbers, n_tables=None, max_rows=8, wide=0.0):
    schema, tables = {}, {}
    for k in range(n_tables or rng.randint(1, 4)):
        name = "r" + str(k)
        columns = [rng.choice("een") for _ in range(rng.choice([1, 1, 2, 2, 2, 3]) if not wide or rng.random() > wide else rng.randint(4, 10))]
        rows = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, max_rows])):
            row = [rng.choice(pool) if c == "e" else rng.choice(numbers) for c in columns]
            if row not in rows:
                rows.append(row)
        schema[name], tables[name] = columns, rows
    return schema, tables


def predicates(atoms):
    for atom in atoms:
        if isinstance(atom, tuple) and atom:
            yield atom[0]
            for a in atom[1:]:
                if isinstance(a, list):
                    yield from predicates([x for x in a if isinstance(x, tuple)])
                    for x in a:
                        if isinstance(x, list):
                            yield from predicates([y for y in x if isinstance(y, tuple)])


def variables(term):
    if isinstance(term, str):
        return {term[1:]} if term.startswith("?") else set()
    if isinstance(term, (list, tuple)):
        result = set()
        for t in term:
            result |= variables(t)
        return result
    return set()


ALIKE = ["".join(x) for n in (1, 2, 3, 4, 5, 6) for x in itertools.product("qQ", repeat=n)]


def naming(rng):
    """ a way to rename variables: names may be short, long, as the composer makes them, or alike """
    p = rng.random()
    if p < 0.5:
        return lambda name: name
    if p < 0.65:
        return lambda name: "$" + name
    if p < 0.85:
        prefix = rng.choice(["Entity_number_", "Variable", "SomeVeryLongNameOfAVariableThatGoesOnAndOn", "Ünï", "E1 "])
        return lambda name: prefix + name
    known = {}
    return lambda name: known.setdefault(name, ALIKE[len(known)])


def rename(x, new):
    """ gives the variables of atoms other names, where they are named as well """
    if isinstance(x, tuple) and x and x[0] in ("find_all", "find_one") and len(x) == 4:
        return (x[0], [new(n) for n in x[1]] if isinstance(x[1], list) else new(x[1]), rename(x[2], new), rename(x[3], new))
    if isinstance(x, tuple):
        return tuple(rename(y, new) for y in x)
    if isinstance(x, list):
        return [rename(y, new) for y in x]
    if isinstance(x, str) and x.startswith("?"):
        return "?" + new(x[1:])
    return x
