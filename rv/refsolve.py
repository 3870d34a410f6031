"""
Reference model of query evaluation, written from the documentation of the predicates. Atoms are plain: '?X' is a variable.
A solution is a dict variable -> value. The set of solutions is what counts, not their order.
"""


def is_var(term):
    return isinstance(term, str) and term.startswith("?")


def value(term, binding):
    return binding.get(term[1:]) if is_var(term) else term


def dedup(solutions):
    result, seen = [], set()
    for s in solutions:
        key = tuple(sorted((k, freeze(v)) for k, v in s.items()))
        if key not in seen:
            seen.add(key)
            result.append(s)
    return result


def freeze(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    return (type(v).__name__, v)


class Fail(Exception):
    pass


class RefSolver:
    def __init__(self, tables, rules=None, big=None, limit=60000):
        self.tables = tables        # name -> list of rows
        self.rules = rules or {}    # name -> list of (head args, body)
        self.big = big or {}        # name -> number of results
        self.work = 0
        self.limit = limit          # steps, after which it gives up

    def solve(self, atoms, binding):
        solutions = [dict(binding)]
        for atom in atoms:
            following = []
            for s in solutions:
                following.extend(self.atom(atom, s))
            solutions = dedup(following)
        return solutions

    def number(self, body, binding):
        if len(body) == 1 and body[0][0] in self.big:
            return self.big[body[0][0]]
        return len(self.solve(body, binding))

    def atom(self, atom, b):
        self.work += 1
        if self.work > self.limit:
            raise Fail("too much work")
        name, args = atom[0], atom[1:]
        method = getattr(self, "do_" + name.strip("$"), None)
        if method:
            return method(args, b)
        result = []
        for row in self.tables.get(name, []):
            s = self.match(args, row, b)
            if s is not None:
                result.append(s)
        for head, body in self.rules.get(name, []):
            result.extend(self.rule(head, body, args, b))
        return dedup(result)

    def match(self, args, row, b):
        s = dict(b)
        for arg, v in zip(args, row):
            if is_var(arg):
                if arg[1:] in s:
                    if s[arg[1:]] != v:
                        return None
                else:
                    s[arg[1:]] = v
            elif arg != v:
                return None
        return s

    counter = 0

    def rule(self, head, body, args, b):
        """ rename the rule apart, unify its head with the call, and solve its body """
        RefSolver.counter += 1
        suffix = "'" + str(RefSolver.counter)
        rename = lambda t: rename_term(t, suffix)
        inner = {}
        higher = {}
        for h, a in zip([rename(h) for h in head], args):
            v = value(a, b)
            if is_var(a) and v is None:
                continue
            if is_var(h):
                if isinstance(v, list):
                    higher[h] = v
                    continue
                if h[1:] in inner and inner[h[1:]] != v:
                    return []
                inner[h[1:]] = v
            elif h != v:
                return []
        new_body = [substitute(rename(a), higher) for a in body]
        if higher:
            inner = dict(b, **inner)     # a passed body may refer to the caller's variables
        result = []
        for s in self.solve(new_body, inner):
            row = []
            for h, a in zip([rename(h) for h in head], args):
                if is_var(h):
                    row.append(a if h in higher else s.get(h[1:], "?unbound"))
                else:
                    row.append(h)
            if "?unbound" in [r for r in row if isinstance(r, str)]:
                # nothing is known of this one; the others are consequences
                continue
            m = self.match([a if not isinstance(a, list) else "?_ignored" for a in args],
                           [None if isinstance(a, list) else r for a, r in zip(args, row)], b)
            if m is not None:
                m.pop("_ignored", None)
                result.append(m)
        return result

    # --- predicates of the core module

    def do_equals(self, args, b):
        x, y = value(args[0], b), value(args[1], b)
        if x is None:
            return [dict(b, **{args[0][1:]: y})]
        if y is None:
            return [dict(b, **{args[1][1:]: x})]
        return [b] if x == y else []

    def do_greater_than(self, args, b):
        return [b] if value(args[0], b) > value(args[1], b) else []

    def do_less_than(self, args, b):
        return [b] if value(args[0], b) < value(args[1], b) else []

    def do_multiply(self, args, b):
        return [dict(b, **{args[2][1:]: value(args[0], b) * value(args[1], b)})]

    def do_let(self, args, b):
        return [dict(b, **{args[0][1:]: value(args[1], b)})]

    def do_count(self, args, b):
        return [dict(b, **{args[0][1:]: self.number(args[1], b)})]

    def do_sum(self, args, b):
        return [dict(b, **{args[0][1:]: sum(s[args[1][1:]] for s in self.solve(args[2], b))})]

    def do_avg(self, args, b):
        values = [s[args[1][1:]] for s in self.solve(args[2], b)]
        return [dict(b, **{args[0][1:]: sum(values) / len(values)})] if values else []

    def extreme(self, args, b, best):
        solutions = self.solve(args[2], b)
        if not solutions:
            return []
        v = best(s[args[1][1:]] for s in solutions)
        entities = {s[args[0][1:]] for s in solutions if s[args[1][1:]] == v}
        if len(entities) > 1:
            raise Fail("a tie: which entity is returned is not determined")
        return [dict(b, **{args[0][1:]: entities.pop(), args[1][1:]: v})]

    def do_arg_min(self, args, b):
        return self.extreme(args, b, min)

    def do_arg_max(self, args, b):
        return self.extreme(args, b, max)

    def do_percentage(self, args, b):
        whole = self.number(args[2], b)
        return [dict(b, **{args[0][1:]: self.number(args[1], b) * 100.0 / whole})] if whole else []

    def do_not(self, args, b):
        return [] if self.solve(args[0], b) else [b]

    do_none = do_not

    def do_scoped(self, args, b):
        return [b] if self.solve(args[0], b) else []

    def do_det_equals(self, args, b):
        return [b] if self.number(args[0], b) == value(args[1], b) else []

    def do_det_greater_than(self, args, b):
        return [b] if self.number(args[0], b) > value(args[1], b) else []

    def do_det_less_than(self, args, b):
        return [b] if self.number(args[0], b) < value(args[1], b) else []

    def do_all(self, args, b):
        var = args[0][1:]
        entities = []
        for s in self.solve(args[1], b):
            if s[var] not in entities:
                entities.append(s[var])
        if all(self.solve(args[2], dict(b, **{var: e})) for e in entities):
            return [dict(b, **{var: e}) for e in entities]
        return []

    def collected(self, args, b):
        wanted = value(args[0], b)
        result = []
        for s in self.solve(args[1], b):
            if not isinstance(wanted, list) and wanted not in s:
                continue
            item = [s.get(w) for w in wanted] if isinstance(wanted, list) else s[wanted]
            if item not in result:
                result.append(item)
        return result

    def do_find_all(self, args, b):
        return [dict(b, **{args[2][1:]: Unordered(self.collected(args, b))})]

    def do_find_one(self, args, b):
        items = self.collected(args, b)
        if len(items) > 1:
            raise Fail("which one is returned is not determined")
        return [dict(b, **{args[2][1:]: items[0]})] if items else []

    def do_disjunction(self, args, b):
        for disjunct in args[0]:
            solutions = self.solve(disjunct, b)
            if solutions:
                return solutions
        return []


    def do_destructure(self, args, b):
        s = dict(b)
        atom = args[0][0]
        if len(atom) != len(args) - 1:
            raise Fail("an atom of another form")
        for term, part in zip(atom, args[1:]):
            v = value(term, b)
            if is_var(part) and part[1:] not in b:
                if part[1:] in s and s[part[1:]] != v:
                    return []
                s[part[1:]] = v
            elif value(part, b) != v:
                raise Fail("an atom of another form")
        return [s]


class Unordered(list):
    """ a list of which the order is not determined """


def rename_term(t, suffix):
    if is_var(t):
        return t + suffix
    if isinstance(t, list):
        return [rename_term(x, suffix) for x in t]
    if isinstance(t, tuple):
        return tuple(rename_term(x, suffix) for x in t)
    return t


def substitute(t, mapping):
    if isinstance(t, str):
        return mapping.get(t, t)
    if isinstance(t, list):
        return [substitute(x, mapping) for x in t]
    if isinstance(t, tuple):
        return tuple(substitute(x, mapping) for x in t)
    return t


def norm(v):
    """ a comparable form of a value in a solution """
    if isinstance(v, bool) or v is None:
        return ("c", repr(v))
    if isinstance(v, (int, float)):
        # equal numbers have one form; floats are compared in 12 digits, because the order of a sum is not specified
        return ("n", str(v)) if isinstance(v, int) and abs(v) >= 10 ** 11 else ("n", "%.12g" % v)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, list):
        return ("l",) + tuple(norm(x) for x in v)
    if isinstance(v, tuple):
        return ("t",) + tuple(norm(x) for x in v)
    return ("o", repr(v))


def solution_key(s, unordered=()):
    return tuple(sorted((k, tuple(["l"] + sorted((norm(x) for x in v), key=repr)) if k in unordered and isinstance(v, list) else norm(v)) for k, v in s.items()))


def unordered_vars(atoms):
    """ variables that hold a collected list """
    found = set()
    for atom in atoms:
        if isinstance(atom, tuple):
            if atom and atom[0] == "find_all":
                found.add(atom[3][1:])
            for a in atom:
                if isinstance(a, list):
                    found |= unordered_vars(a)
        elif isinstance(atom, list):
            found |= unordered_vars(atom)
    return found
