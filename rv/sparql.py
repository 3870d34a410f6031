""" a stand-in for the requests library, with a SPARQL endpoint for queries of one triple pattern and language filters """
import json
import re
import sys
import types

TOKEN = re.compile(r"""\s+|(?P<iri><[^<>"{}|^`\\\s]*>)|(?P<var>[?$]\w+)
|(?P<string>'''(?:[^'\\]|\\.|'(?!''))*'''|\"\"\"(?:[^"\\]|\\.|"(?!""))*\"\"\"|'(?:[^'\\\n\r]|\\.)*'|"(?:[^"\\\n\r]|\\.)*")
|(?P<lang>@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*)|(?P<number>[+-]?(?:\d+\.\d+|\d+|\.\d+)(?:[eE][+-]?\d+)?)|(?P<name>[A-Za-z_][\w-]*:[\w.-]*|[A-Za-z_]\w*)|(?P<punct>!=|[{}().,;=*])""", re.X)

ESCAPES = {"t": "\t", "n": "\n", "r": "\r", "b": "\b", "f": "\f", '"': '"', "'": "'", "\\": "\\"}


class BadRequest(Exception):
    pass


class NotModelled(Exception):
    """ SPARQL that the stand-in does not know """


def tokens(query):
    # code points are replaced before anything else; a backslash that is itself escaped does not start one
    query = re.sub(r"\\u([0-9A-Fa-f]{4})|\\U([0-9A-Fa-f]{8})|\\.", lambda m: chr(int(m.group(1) or m.group(2), 16)) if m.group(1) or m.group(2) else m.group(), query, flags=re.S)
    result, pos = [], 0
    while pos < len(query):
        if query[pos] == "#":
            end = query.find("\n", pos)
            pos = len(query) if end < 0 else end
            continue
        m = TOKEN.match(query, pos)
        if not m:
            raise BadRequest(f"malformed query at {query[pos:pos + 20]!r}")
        if m.lastgroup:
            result.append((m.lastgroup, m.group()))
        pos = m.end()
    return result


def unescape(text):
    body = text[3:-3] if text[:3] in ("'''", '"""') else text[1:-1]

    def one(m):
        if m.group(1) not in ESCAPES:
            raise BadRequest("unknown escape in " + text)
        return ESCAPES[m.group(1)]
    return re.sub(r"\\(.)", one, body, flags=re.S)


def parse(query):
    """ -> (selected variables or '*', triple pattern, [(variable, language)]) """
    ts = tokens(query)
    pos = 0

    def peek(k=0):
        return ts[pos + k] if pos + k < len(ts) else (None, None)

    def word(w):
        return peek()[1] is not None and peek()[1].upper() == w

    def take(w=None):
        nonlocal pos
        t = peek()
        if t[0] is None or (w is not None and t[1].upper() != w):
            raise BadRequest(f"expected {w}, found {t[1]}")
        pos += 1
        return t

    while word("PREFIX"):
        take(), take(), take()
    take("SELECT")
    if word("DISTINCT") or word("REDUCED"):
        take()
    if word("*"):
        take()
        selected = "*"
    else:
        selected = []
        while peek()[0] == "var":
            selected.append(take()[1])
        if not selected:
            raise BadRequest("nothing selected")
    if word("WHERE"):
        take()
    take("{")
    triple, filters = None, []

    def term():
        kind, text = take()
        if kind == "string":
            value = unescape(text)
            lang = take()[1][1:] if peek()[0] == "lang" else None
            return ("literal", value, lang)
        if kind == "number":
            return ("number", float(text))
        if kind in ("iri", "var", "name"):
            return (kind, text[1:-1] if kind == "iri" else text)
        raise BadRequest(f"not a term: {text}")

    def lang_call():
        name = take()[1].upper()
        if name != "LANG":
            raise NotModelled("function " + name)
        take("(")
        v = take()
        take(")")
        return v[1]

    while not word("}"):
        if word("FILTER"):
            take()
            wrapped = word("(")
            if wrapped:
                take()
            if word("LANGMATCHES"):
                take()
                take("(")
                v = lang_call()
                take(",")
                lang = unescape(take()[1])
                take(")")
            elif word("LANG"):
                v = lang_call()
                take("=")
                lang = unescape(take()[1])
            elif peek()[0] == "string":
                lang = unescape(take()[1])
                take("=")
                v = lang_call()
            else:
                raise NotModelled("filter " + str(peek()))
            if wrapped:
                take(")")
            filters.append((v, lang))
        else:
            if triple is not None:
                raise NotModelled("a second triple")
            triple = (term(), term(), term())
        while word("."):
            take()
    take("}")
    if pos != len(ts):
        raise BadRequest(f"unexpected {peek()[1]}")
    if triple is None:
        raise BadRequest("no pattern")
    return selected, triple, filters


def matches(term, value, binding):
    if term[0] == "var":
        if term[1] in binding:
            return binding[term[1]] == value
        binding[term[1]] = value
        return True
    if term[0] == "number":
        return value[0] == "number" and float(value[1]) == term[1]
    return term == value


def evaluate(query, triples):
    selected, (s, p, o), filters = parse(query)
    rows = []
    for ts, tp, to in triples:
        b = {}
        if not (matches(s, ts, b) and matches(p, ("name", tp), b) and matches(o, to, b)):
            continue
        ok = True
        for v, lang in filters:
            if v not in b:
                raise BadRequest(f"filter on unknown variable {v}")
            ok = ok and b[v][0] == "literal" and (b[v][2] or "") == lang
        if not ok:
            continue
        row = {}
        for v in (sorted(b) if selected == "*" else selected):
            if v in b:
                row[v[1:]] = as_json(b[v])
        rows.append(row)
    return rows


def as_json(value):
    if value[0] == "literal":
        return {"type": "literal", "value": value[1], **({"xml:lang": value[2]} if value[2] else {})}
    if value[0] == "number":
        return {"type": "literal", "datatype": "http://www.w3.org/2001/XMLSchema#decimal", "value": str(value[1])}
    return {"type": "uri", "value": value[1]}


class Response:
    def __init__(self, status, text):
        self.status_code, self.text = status, text
        self.ok = status < 400
        self.content = text.encode("utf-8", "surrogatepass")
        self.headers = {}

    def json(self, **options):
        return json.loads(self.text)

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError(f"{self.status_code}: {self.text}")


class HTTPError(IOError):
    pass


class Endpoint:
    """ answers requests; 'faults' is a list of statuses or exceptions, for the requests to come """

    def __init__(self, triples):
        self.triples = {}           # by url
        self.default = triples
        self.requests = []
        self.faults = []
        self.not_modelled = None

    def handle(self, method, url, params=None, data=None, headers=None, **options):
        params = dict(params or data or {})
        self.requests.append({"url": url, "params": params, "headers": dict(headers or {})})
        if self.faults:
            fault = self.faults.pop(0)
            if isinstance(fault, Exception):
                raise fault
            if isinstance(fault, str):
                return Response(200, fault)
            if isinstance(fault, (tuple, list)):
                return Response(*fault)
            if fault is not None:
                return Response(fault, f"status {fault}")
        try:
            rows = evaluate(params["query"], self.triples.get(url, self.default))
        except BadRequest as e:
            return Response(400, str(e))
        except NotModelled as e:
            self.not_modelled = str(e)
            return Response(400, str(e))
        return Response(200, json.dumps({"head": {"vars": []}, "results": {"bindings": rows}}))


def install(endpoint):
    module = types.ModuleType("requests")
    module.get = lambda url, params=None, **options: endpoint.handle("get", url, params, **options)
    module.post = lambda url, data=None, json=None, **options: endpoint.handle("post", url, options.pop("params", None), data=data, **options)
    module.request = lambda method, url, **options: endpoint.handle(method, url, **options)

    class Session:
        headers = {}

        def get(self, url, **options):
            options["headers"] = {**self.headers, **(options.get("headers") or {})}
            return endpoint.handle("get", url, **options)

        def __enter__(self):
            return self

        def __exit__(self, *args):
            pass
    module.Session = Session
    module.HTTPError = HTTPError
    module.exceptions = types.ModuleType("requests.exceptions")
    module.exceptions.RequestException = IOError
    module.exceptions.HTTPError = HTTPError
    sys.modules["requests"] = module
    sys.modules["requests.exceptions"] = module.exceptions
    return module
