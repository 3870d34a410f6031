"""
The catalogue of properties: writes properties.jsonl and MANIFEST.json.
    python3 tools/catalogue.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

R = "richard/"
ENTRIES = []


def prop(pid, title, statement, over, quantifier, tests, files, mechanism, technique, note, level="exploration", observe=None, state=None):
    ENTRIES.append({
        "property": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": quantifier},
            "why_tests_cant": tests,
            "anchors": {
                "files": [R + f for f in files],
                "state": state or [],
                "mechanism": [{"name": n, "where": R + w} for n, w in mechanism],
                "observe_at": observe or [],
                "hook_needed": None,
            },
        },
        "check": {
            "property": pid,
            "quick_cmd": f"bash run.sh {pid} quick",
            "thorough_cmd": f"bash run.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": technique,
            "level": level,
            "level_note": note,
        },
    })


EXPLORES = "Held on the executions that were produced and nothing more; the workloads are random with a recorded seed. "

prop("C01", "The parser returns exactly the derivations of the sentence",
     "For every grammar and every sentence, the parser accepts the sentence exactly when the grammar derives it, and then its products are exactly the derivation trees of the sentence, each once, with the words of the sentence as leaves in order. White space between words, and the order of the rules in the grammar, make no difference to the set of trees.",
     ["inputs", "programs"], "all read grammars (quoted words, optional words, regular expressions, joined constituents, recursion, ambiguity) and all sentences",
     "The parser tests hold a few grammars of a few rules each, and check one tree per sentence; ambiguity, recursion, arity and separators are combined nowhere.",
     ["processor/parser/earley/EarleyParser.py", "processor/parser/earley/tree_extract.py", "processor/parser/earley/entity/Chart.py", "processor/parser/BasicParser.py", "entity/GrammarRules.py"],
     [("Earley chart: predict, scan, complete", "processor/parser/earley/EarleyParser.py"), ("tree extraction from the chart", "processor/parser/earley/tree_extract.py")],
     "monitor with a reference model: independent derivation enumerator (dynamic programming) judges every parse result",
     EXPLORES + "Trusts the reference enumerator, which shares no code with the parser. Rules with identical syntax, empty rules and cyclic unit rules are outside the workload.",
     observe=["products of BasicParser.process"])

prop("C02", "A sentence that cannot be parsed gets the right diagnosis",
     "For every grammar, an empty sentence is answered with the error for no sentence, and any other sentence that has no derivation is answered with an error, never with a product, an exception or silence. The error names the unknown word at the furthest position that any reading of the sentence reaches, or says that the sentence is not understood when all of its words were read.",
     ["inputs", "programs"], "all grammars and all texts that the grammar does not derive, including truncated, garbled and empty ones",
     "One test checks one unknown word; the furthest position depends on all partial readings of the sentence.",
     ["processor/parser/BasicParser.py", "processor/parser/earley/EarleyParser.py", "processor/parser/earley/unknown_word.py"],
     [("last position of the chart that was reached", "processor/parser/earley/unknown_word.py"), ("error types of the parser", "processor/parser/BasicParser.py")],
     "monitor with a reference model: furthest position reached by any prefix derivation judges the reported error",
     EXPLORES + "Trusts the reference enumerator for the furthest position.")

prop("C03", "Alternative readings come in order of preference",
     "For every ambiguous sentence the alternative parse trees are returned in the documented order of preference: the greatest sum of boosts first, then the least number of parts that were matched by a regular expression, then the deepest tree. The first of them is the one that is tried first. Ordering never loses, adds or changes a tree.",
     ["inputs", "programs"], "all grammars with boosts, regular expressions and ambiguity, and all sentences",
     "The tests hold one ambiguous sentence; the order of more than two readings with mixed criteria is not touched.",
     ["processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py", "processor/parser/tree_sort_heuristics/SortByBoost.py", "processor/parser/tree_sort_heuristics/SortByRegExpCount.py", "processor/parser/tree_sort_heuristics/SortByTreeDepth.py"],
     [("successive sorts", "processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py")],
     "monitor with a reference model: scores recomputed from the returned trees judge their order",
     EXPLORES + "The scores are recomputed from the observed trees.")

prop("C04", "The notation of grammar rules means what it says",
     "A read grammar rule accepts exactly the texts that its notation describes: quoted words literally, optional words present or absent together with their separator, joined parts without a space, parts with an optional space with or without it, and regular expressions over the whole of what they match. A rule text that is not well-formed is refused with a message.",
     ["inputs", "programs"], "all rules made of words, optional words, constituents, regular expressions and separators, in any layout and quoting",
     "The tests parse a handful of rules; optional words and separators occur in one or two combinations.",
     ["processor/parser/helper/SimpleGrammarRulesParser.py", "entity/GrammarRules.py", "entity/GrammarRule.py", "entity/RuleConstituent.py"],
     [("rule parser", "processor/parser/helper/SimpleGrammarRulesParser.py"), ("expansion of optional words and separators", "entity/GrammarRules.py")],
     "monitor with a reference model: enumerated texts per rule, judged by an independent reading of the notation",
     EXPLORES + "An omitted optional word takes the separator before it along (or the one after it if it comes first): that convention is the library's own.")

prop("C05", "Composition binds the variables of a reading as the grammar connects them",
     "For every parse tree the composed semantics consists of the semantics of the rules of that tree, in which two variables are the same exactly when the rule heads and constituents of the tree connect them. Variables that are local to one constituent are never shared with another constituent or with another occurrence of the same rule; templates, nested atoms, executable atoms and inferences included.",
     ["inputs", "programs"], "all grammars with semantics (nested atoms, templates, exec and inference parts) and all their parse trees",
     "The composer tests unify variables in three sentences, without nesting, repetition of rules or templates in templates.",
     ["processor/semantic_composer/SemanticComposer.py", "processor/semantic_composer/helper/VariableGenerator.py", "type/SemanticTemplate.py", "processor/parser/helper/grammar_functions.py"],
     [("variable map per tree node", "processor/semantic_composer/SemanticComposer.py")],
     "monitor with a reference model: union-find over the parse tree judges the composed atoms up to renaming",
     EXPLORES + "Compared up to a bijection of variables.")

prop("C06", "Solving a list of atoms is a relational join",
     "For every model and every list of atoms, solving returns exactly the bindings that extend the given binding and satisfy all atoms, each once; it does so for any spread of a relation's rows over modules and data sources. The given binding and atoms are never changed.",
     ["inputs", "programs", "configurations"], "all tables, all conjunctions with constants, shared and repeated variables, all initial bindings, all spreads over modules",
     "The solver test joins two tables in one query.",
     ["core/Solver.py", "core/Model.py", "core/atoms.py"],
     [("left to right join with binding propagation", "core/Solver.py"), ("all modules that know the relation are asked", "core/Model.py")],
     "monitor with a reference model: independent join over the plain tables judges every result set",
     EXPLORES + "Trusts a reference evaluator of about 250 lines.")

exec(open(os.path.join(VERIF, "tools", "catalogue2.py")).read()) if os.path.exists(os.path.join(VERIF, "tools", "catalogue2.py")) else None


def main():
    present = [e for e in ENTRIES if os.path.exists(os.path.join(VERIF, "rv", "checks", e["property"]["id"].lower() + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for e in present:
            assert len(e["property"]["title"]) <= 80, e["property"]["title"]
            f.write(json.dumps(e["property"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash run.sh setup",
        "checks": [e["check"] for e in present],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed: the monitors observe the public interfaces (data sources, modules, processors and generators are pluggable by design). "
                 "Exit 2 of a check means inconclusive: its monitors observed less than the floor that is set for them.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
