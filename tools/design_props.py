"""
Writes DESIGN.md: tools/design_head.md, a section per property made of the check itself and of the notes below, and tools/design_tail.md.
    PYTHONPATH=/repo:. python3 tools/design_props.py
"""
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

NOTES = {
    "C01": ("Derivations are enumerated by dynamic programming over (category, arity, span) and compared as sets of trees with the parser's products; each case is also parsed with shuffled rules and other white space.",
            "Ambiguity, left recursion, arity and separators in one grammar: the places where Earley implementations go wrong (prediction after completion, nullable separators, duplicate states)."),
    "C02": ("The furthest position is computed from all viable prefixes, not from a chart. The error type, its argument and the absence of products are compared.",
            "Which word is named depends on every partial reading, which no test looks at."),
    "C03": ("Boosts, regular expression counts and depths are recomputed from the reference derivations; the observed order must be sorted by them, and hold the same trees as without sorting.",
            "Orders of more than two readings with criteria that pull in different directions."),
    "C04": ("All texts that join any selection of a rule's parts by nothing, a space or a wrong character are tried against the rule; the reading of the notation is the reference's own.",
            "Combinations of optional words, separators, escapes and layout."),
    "C05": ("Variables of the composed atoms are judged up to a bijection: a union-find over the tree says which occurrences must be the same; the matching backtracks over equal atoms.",
            "Sharing shows only when a rule occurs twice, below another rule, or in a second sentence."),
    "C06": ("An independent nested-loop join with set semantics; relations are spread over modules and stores; inputs are compared before and after.", "All binding patterns and repeated variables, equal texts of different values."),
    "C07": ("The documented meaning of each predicate, evaluated recursively; bindings that leak from a body, results that are duplicated, and changed arguments are seen as differences.",
            "Falsy values, ties, empty bodies, huge counts, three levels of nesting."),
    "C08": ("SLD evaluation with renaming apart; queries with variable names that clash with those of rules; rules learned in between; the set of rules is compared before and after.",
            "Variable capture and sharing of rules between uses."),
    "C09": ("Programs are generated as structures, written in random layout by an independent writer, read back and compared; each is also damaged, and must then be refused.", "The notation is infinite; the tests read a few files."),
    "C10": ("Answers for the root variables before and after optimization and of the reference; sizes right, wrong, absent.", "An unsound rearrangement shows for particular sizes and bodies only."),
    "C11": ("Multisets of atoms (nested ones too); every goal of every part and body must be the cheapest of those left given what is bound; isolated parts must not touch the answer, and what is not isolated must be connected to it.",
            "The order is a function of sizes and bindings that no test varies."),
    "C12": ("Scripted processors; a reference run of the blocks gives the sequence of calls with the active products, the result, and the error that is stored.", "All shapes of backtracking over 1-5 blocks."),
    "C13": ("Dialogues with failing inputs; each response is compared with the one that this input must get in the current world; the buffer is inspected after each.", "What remains of a failure shows one or more inputs later."),
    "C14": ("A reference derivation with rule preference, bindings, formats and post functions; several outputs for one generator.", "Histories of used rules; values that are falsy; parts that fail late."),
    "C15": ("A list of records judges histories over all data sources. MySQL and PostgreSQL run against a stand-in of their driver.", "Hostile values and their combination with deletes."),
    "C16": ("Writes are counted per module against a reference join; effects of sentences are logged in order through all kinds of blocks.", "Exactly-once through backtracking."),
    "C17": ("The stand-in endpoint evaluates the query that was really sent; rows are compared with the matching triples; failures must raise.", "Injection, language filters, malformed answers."),
    "C18": ("Processes that die at any executed line or byte of a write, failing writes, damaged files, racing threads and processes; afterwards rows must be right, and be cached.", "Crash points and races are not testable by example."),
    "C19": ("An independent CSV writer; records and old contents are compared as multisets.", "Quotes, separators and line ends within fields."),
    "C20": ("Transcripts of jobs (dialogues, parses, optimized queries, rule programs, responses) from processes with other hash seeds, repeated, and logged.", "Order of sets differs between processes; tests run in one."),
    "C21": ("Transcripts of applications that are interleaved, nested in each other's queries or threaded, against each alone.", "Shared state shows with two applications only."),
    "C22": ("Each parse against a new parser with the grammar of that moment, and the reference derivations.", "Histories of learning."),
    "C23": ("Probes in programs log the active contexts; an independent interpreter predicts the log.", "Nesting, failures and exceptions inside contexts."),
    "C24": ("The reference run of C12's blocks over the results of a parser per language; dialogues in two languages.", "Overlap of languages and refusals by later processors."),
    "C25": ("Set-theoretic evaluation of each sentence in a world that changes by what is taught; configurations at random.", "End to end: faults of any part that change an answer."),
    "C26": ("Results are recorded at the processors; the log is parsed back into questions, sections, trees, atoms and counts, and compared.", "Nothing looks at the log."),
    "C27": ("Rounds of the same questions; executed lines, queries and allocated blocks of round 16 against round 4 (observed difference: 0 lines, at most 11 blocks). Dead references that sqlite3 keeps to its last 200 cursors are subtracted.",
            "Leaks and growth show after many inputs."),
    "C28": ("Lines per doubled size: bound 10 for what may be cubic (observed at most 5), 12 for random grammars (8), 3 for what is linear (2), 5.5 in between (4). The count is cut off in the run, so exponential work ends quickly.",
            "Tests have one size."),
    "C29": ("A reference evaluation tells whether the misplaced atom is reached at all.", "Where a mistake sits decides whether and how it is reported."),
}

import re


def main():
    seeds = {}
    for path in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
        meta = json.load(open(path))
        seeds.setdefault(meta["property"], []).append(os.path.basename(os.path.dirname(path)))
    out = [open(VERIF + "/tools/design_head.md").read()]
    for line in open(VERIF + "/properties.jsonl"):
        p = json.loads(line)
        pid = p["id"]
        module = importlib.import_module("rv.checks." + pid.lower())
        how, why = NOTES[pid]
        out.append(f"\n### {pid} {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append("*Monitored:* " + how + "\n")
        out.append("*Workload:* " + module.RULE + ".\n")
        out.append("*Beyond tests:* " + why + "\n")
        if getattr(module, "ASSUMPTIONS", None):
            out.append("*Bounds and assumptions:* " + "; ".join(module.ASSUMPTIONS) + ".\n")
        out.append(f"*Cases:* {module.CASES['quick']} quick, {module.CASES['thorough']} thorough (stopped after 780 s). *Planted:* " + (", ".join(seeds.get(pid, [])) or "none that survives the tests") + ".\n")
    out.append(open(VERIF + "/tools/design_tail.md").read())
    with open(VERIF + "/DESIGN.md", "w") as f:
        f.write("\n".join(out))


main()
