""" C17: a SPARQL data source asks for what is selected, and returns what is found """
import json

from rv.core import Inconclusive, expect, fail
from rv.sparql import Endpoint, install

PID = "C17"
RULE = ("random graphs and selects of all combinations of bound and free columns of the kinds id, text, constant and number, with hostile texts and several languages; a stand-in for the "
        "requests library parses the query and evaluates it over the graph; the rows must be the triples that match; failing requests, and answers that are no result, must raise and refused ones name their cause; "
        "non-trivial: a select with a text, or with two languages in the graph; distinct by graph and select")
ASSUMPTIONS = ["subjects that are texts (generalized RDF) stand for selects with several free text columns", "the stand-in endpoint implements the part of SPARQL 1.1 that the library uses: one triple pattern and language filters",
               "ids are valid IRIs, and constants valid terms: they are the application's own"]
CASES = {"quick": 150000, "thorough": 500000}
FLOORS = {"selects": 40000, "rows": 20000, "texts_asked": 10000, "texts_found": 2000, "hostile": 6000, "free": 20000, "refused": 1500, "looks_like_a_result": 1000, "many_rows": 100, "malformed": 1500, "two_texts": 120, "other_language": 5000}

IDS = ["http://ex.org/e1", "http://ex.org/e2", "http://www.wikidata.org/entity/Q42", "urn:x:1", "http://ex.org/a'b", "http://ex.org/%20?q=1&r=2#f"]
TEXTS = ["Amsterdam", "amsterdam", "O'Brien", 'say "hi"', "back\\slash", "\\", "'", "''", "'''", "a'@en", "} . ?x ?y ?z . {", "two\nlines", "cr\rlf", "tab\there", "", " ", "日本", "Zoë", "#x", "\\n", "\\'",
         "x' . } #", "{}", "%s", "\\u0041", "e\\", "?term1", "12", "$1", "007", "1.50", "+5", " 5 ", "1e3", "TRUE", "None", "0", "-0", "x" * 300 + "1", "x" * 300 + "2"]
LANGS = ["en", "nl", "en-GB", "de"]
PREDICATES = ["rdfs:label", "wdt:P31", "wdt:P19", "ex:p", "ex:is_the_administrative_capital_of", "ex:was_the_administrative_capital_of"]
CONSTANTS = ["wd:Q5", "wd:Q515", "ex:c"]
NUMBERS = [0, 1, -3, 42, 2.5, 1000000]
# answers that are no result
MALFORMED = ["", " ", "{}", "[]", "null", "<html><body>Service unavailable</body></html>", '{"error": "timeout"}', '{"results": {}}', '{"head": {"vars": []}}', '{"head": {"vars": []}, "boolean": true}',
             '{"head": {"vars": ["term1"]}, "results": {"bindings": [{"term1": {"type": "uri", "value": "http', "java.util.concurrent.TimeoutException", '{"results": null}']


def gen(rng, i, tier):
    langs = rng.sample(LANGS, rng.randint(1, 2))
    texts = rng.sample(TEXTS, rng.randint(1, 6))
    ids = rng.sample(IDS, rng.randint(1, 4))
    triples = []
    for _ in range(rng.randint(0, 12)):
        p = rng.random()
        if p < 0.5:
            o = ("literal", rng.choice(texts), rng.choice(langs * 2 + [None]))
        elif p < 0.7:
            o = ("iri", rng.choice(ids))
        elif p < 0.85:
            o = ("name", rng.choice(CONSTANTS))
        else:
            o = ("number", rng.choice(NUMBERS))
        p = rng.random()
        subject = ("iri", rng.choice(ids)) if p < 0.75 else ("name", rng.choice(CONSTANTS)) if p < 0.85 else ("literal", rng.choice(texts), rng.choice(langs * 2 + [None]))
        triples.append((subject, rng.choice(PREDICATES[:2] if rng.random() < 0.8 else PREDICATES), o))
    if i % 500 == 13:
        # many results
        table = rng.choice(PREDICATES)
        for k in range(rng.choice([70, 130, 260, 520, 1050, 2100])):
            triples.append((("iri", "http://ex.org/n%d" % k), table, ("literal", "text %d" % (k % rng.choice([5, 3000])), rng.choice(langs))))
    triples = sorted(set(triples), key=repr)
    selects = []
    if len(triples) > 50:
        selects = [(table, ["id", "text"], [None, None], None), (table, ["id", "text"], [None, "text 1"], None)]
    for _ in range(rng.randint(2, 6)):
        k0 = rng.choice(["id", "id", "id", "constant", "text"])
        k1 = rng.choice(["text", "text", "text", "id", "constant", "number"])
        # most are about something that is there
        like = rng.choice(triples) if triples and rng.random() < 0.7 else None
        v0 = None if rng.random() < 0.5 else {"id": rng.choice(ids), "constant": rng.choice(CONSTANTS), "text": rng.choice(texts)}[k0]
        v1 = None if rng.random() < 0.45 else {"text": rng.choice(texts + [rng.choice(TEXTS)]), "id": rng.choice(ids), "constant": rng.choice(CONSTANTS), "number": rng.choice(NUMBERS)}[k1]
        table = rng.choice(PREDICATES)
        if like:
            table = like[1]
            if like[0][0] == "literal" and rng.random() < 0.7:
                k0 = "text"
                v0 = v0 and like[0][1]
            if v0 is not None and like[0][0] == {"id": "iri", "constant": "name", "text": "literal"}[k0]:
                v0 = like[0][1]
            if v1 is not None and like[2][0] == {"text": "literal", "id": "iri", "constant": "name", "number": "number"}[k1]:
                v1 = like[2][1]
        selects.append((table, [k0, k1], [v0, v1], rng.choice([None] * 18 + [400, 403, 429, 500, 503, "io"] + ["malformed"] * 3 + ["looks"])))
        if selects[-1][-1] == "looks":
            # a failure with a body that could be a result
            body = json.dumps({"head": {"vars": ["term0", "term1"]}, "results": {"bindings": rng.choice([[], [], [{"term0": {"value": "x"}, "term1": {"value": "y"}}]])}})
            selects[-1] = selects[-1][:-1] + ((rng.choice([401, 404, 408, 500, 502, 503, 504, 400, 403, 429]), body),)
        if selects[-1][-1] == "malformed":
            selects[-1] = selects[-1][:-1] + (rng.choice(MALFORMED),)
    return {"triples": triples, "lang": rng.choice(langs), "selects": selects, "wikidata": rng.random() < 0.2, "default_lang": rng.random() < 0.2}


def expected_rows(triples, lang, table, kinds, values):
    rows = []
    for s, p, o in triples:
        if p != table:
            continue
        row = []
        for kind, given, value in zip(kinds, values, (s, o)):
            if given is None:
                if kind == "text" and not (value[0] == "literal" and value[2] == lang):
                    break
                row.append(str(value[1]))
            else:
                wanted = {"text": ("literal", given, lang), "id": ("iri", given), "constant": ("name", given), "number": ("number", given)}[kind]
                if value != wanted and not (kind == "number" and value[0] == "number" and float(value[1]) == float(given)):
                    break
                row.append(given)
        else:
            rows.append(row)
    return rows


def run(case, mon):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from richard.data_source.WikidataDataSource import WikidataDataSource
    endpoint = Endpoint(case["triples"])
    install(endpoint)
    lang = case["lang"]
    if case["wikidata"]:
        source, url, lang = WikidataDataSource(), "https://query.wikidata.org/sparql", "en"
    elif case["default_lang"]:
        source, url, lang = SparqlDataSource("http://ex.org/sparql", headers={"User-Agent": "test", "X": "y"}), "http://ex.org/sparql", "en"
    else:
        source, url = SparqlDataSource("http://ex.org/sparql", headers={"User-Agent": "test", "X": "y"}, lang=lang), "http://ex.org/sparql"
    for table, kinds, values, fault in case["selects"]:
        kinds, values = list(kinds), list(values)
        endpoint.requests = []
        endpoint.faults = [] if fault is None else [IOError("connection reset")] if fault == "io" else [fault]
        details = dict(table=table, columns=kinds, values=values, lang=lang)
        given = (list(kinds), list(values))
        if fault is not None:
            try:
                observed = source.select(table, kinds, values)
            except Exception as e:
                if fault in (400, 403, 429):
                    expect(f"status {fault}" in str(e), "the exception does not tell why the request was refused", status=fault, observed=repr(e), **details)
                mon.count("looks_like_a_result" if isinstance(fault, (tuple, list)) else "malformed" if isinstance(fault, str) and fault != "io" else "refused")
                continue
            fail("a failed request gives rows", status=fault, observed=observed, **details)
        observed = None
        try:
            observed = source.select(table, kinds, values)
        except Exception as e:
            if endpoint.not_modelled:
                raise Inconclusive("the stand-in endpoint does not know: " + endpoint.not_modelled + "; query: " + str(endpoint.requests[-1:]))
            fail("a select raised an exception: " + repr(e), requests=endpoint.requests, **details)
        expected = expected_rows(case["triples"], lang, table, kinds, values)
        mon.event("select", table, kinds, values, len(observed))
        if len(observed) >= 50:
            mon.count("many_rows")
        if sorted(map(repr, observed)) != sorted(map(repr, expected)):
            fail("the rows are not the triples that match", observed=observed, expected=expected, triples=case["triples"], requests=endpoint.requests, **details)
        expect((kinds, values) == given, "the arguments were changed", **details)
        expect(len(endpoint.requests) >= 1, "no request was made", **details)
        for r in endpoint.requests:
            expect(r["url"] == url, "the request went to another place", observed=r["url"], expected=url)
            if case["wikidata"]:
                expect(any(k.lower() == "user-agent" and v for k, v in r["headers"].items()), "no user agent was sent", headers=r["headers"])
            else:
                expect(r["headers"].get("User-Agent") == "test" and r["headers"].get("X") == "y", "the headers of the application were not sent", headers=r["headers"])
            expect("json" in str(r["params"].get("format", "")) or "json" in str(r["headers"].get("Accept", "")), "the result is not asked for in JSON", request=r)
        mon.count("selects")
        if kinds == ["text", "text"] and values == [None, None] and observed:
            mon.count("two_texts")
        mon.count("rows", len(observed))
        mon.count("free", sum(1 for v in values if v is None))
        several = len({o[2] for s, p, o in case["triples"] if o[0] == "literal" and p == table}) > 1
        if several:
            mon.count("other_language")
        if kinds[1] == "text" and values[1] is not None:
            mon.count("texts_asked")
            if observed:
                mon.count("texts_found")
            if not values[1].isalnum():
                mon.count("hostile")
        if (kinds[1] == "text" and values[1] is not None) or several:
            mon.nontrivial((case["triples"], lang, table, kinds, values))
            mon.sample({"query": endpoint.requests[-1]["params"]["query"], "rows": observed[:3]})


def shrink(case):
    for k in range(len(case["selects"])):
        if len(case["selects"]) > 1:
            yield dict(case, selects=[case["selects"][k]])
    for k in range(len(case["triples"])):
        yield dict(case, triples=case["triples"][:k] + case["triples"][k + 1:])
