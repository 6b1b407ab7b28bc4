#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the specification, the renderer that turns specified syntax trees into Rust text and the driver that "
         "records outcomes. ")
PIPE = "TLA+ specification of the pipeline; TLC validates traces recorded from the real library"
CLAIMED = {}


def claim(prop, technique, note):
    CLAIMED[prop] = (technique, note)


for p, what in {
    "C01": "values of every row equal the denotation of the source formula at the reported component values",
    "C02": "which functions and blocks are extracted",
    "C03": "documented component ranges",
    "C04": "totality: no panic and no hang, error or result exactly as specified",
    "C05": "component values chosen by each method, and which pairs fail",
    "C06": "no corner (all, up to 5 components) and no sampled inner point has a greater increase than the reported one",
    "C07": "one row per selected key, in order, comparing the right definitions",
    "C08": "classification, in the chosen dimension only",
    "C09": "percentages, against exact fractions of big naturals",
    "C10": "the filter, exactly",
    "C11": "the order, at the resolution of 0.001 points, stability and idempotence",
    "C13": "warnings",
}.items():
    claim(p, PIPE, "Bounded exploration of generated inputs, judged exactly by the specification (" + what + "). " + TRUST)
for p, what in {
    "C12": "histories: a run and the run without the failing definitions, and lists of files on disk",
    "C14": "displayed numbers, against exact intervals",
    "C15": "printed equations, parsed back and compared with the source formula",
    "C17": "database and overhead files and file detection",
    "C26": "histories: repeated, permuted and exchanged runs",
}.items():
    claim(p, "TLA+ specification; TLC validates traces recorded from the real library",
          "Bounded exploration of generated inputs, judged exactly by the specification (" + what + "). " + TRUST)

claim("C16", "TLA+ specification of the report; TLC validates recorded runs of the command line",
      "Bounded exploration of generated inputs and command lines: every printed cell is judged against the rows, and the rows "
      "against the specification of the pipeline. " + TRUST)

GIT = "TLA+ specification of both repositories; TLC model checking, and replay of TLC's histories in real repositories"
claim("C18", GIT,
      "The steps of a comparison are model checked against what refs denote, for small repositories. Histories simulated from the "
      "specification are replayed with real git repositories and the real library and command line; TLC judges every comparison "
      "and the state that it leaves. " + TRUST)
claim("C20", GIT + ", with faults",
      "As C18, with faults: failing git commands (before or after their effect), a killed comparison, a locked index, an unreachable "
      "remote, no git. Contacts to the remote are counted by the upload-pack that the remote is configured with. " + TRUST)
claim("C19", "TLA+ specification of globs; TLC validates traces recorded from real repositories",
      "Bounded exploration of generated trees (links, folders named like files, odd names) and patterns, judged exactly by the "
      "specification. " + TRUST)

WEB = "TLA+ specification of the service; TLC model checking, and replay of TLC's histories on the real service"
for p, what in {
    "C21": "which refs, files and rows an answer is computed from",
    "C22": "when an answer may come from the cache",
    "C23": "every request is answered, whatever was asked before",
    "C25": "the lists of branches, tags and repositories",
}.items():
    claim(p, WEB,
          "The handling of concurrent requests (permit, cache, clock, remote changes) is model checked for few clients. Histories "
          "simulated from the specification are replayed on the real service with real repositories, a clock under control and "
          "faults; TLC judges every answer (" + what + "). " + TRUST)
claim("C24", "TLA+ specification of the result page; TLC validates pages recorded from the real service",
      "Bounded exploration of generated comparisons with odd names of files, branches and filters: everything that a page shows is "
      "judged against the rows, and the rows against the specification of the pipeline. " + TRUST)

claim("C27", "TLA+ specification of terms and scopes; TLC validates traces recorded from the real library",
      "Bounded exploration of generated terms and scopes, judged exactly by the specification, whose own laws are checked on every "
      "case. " + TRUST)
claim("C28", "TLA+ specification of what is offered; TLC validates names and pages recorded from the real library and service",
      "Bounded exploration of names and of services with generated sets of repositories, judged exactly by the specification. " + TRUST)

claim("C29", "TLA+ specification of the pages' scripts; TLC model checking, and validation of visits recorded from the real scripts",
      "The scripts of the pages served by the real service run in node, in a small document with stand-ins for jQuery, the data table "
      "and the service, whose answers come in any order. Generated visits are judged step by step. " + TRUST)

claim("C31", "TLA+ specification of the start of the service; TLC validates runs recorded from the real program",
      "Bounded exploration of generated configurations (repositories, origins, folders, ports, certificates), each of them tried with the "
      "real program and probed over HTTP and HTTPS. " + TRUST)
claim("C30", "TLA+ specification of the outcomes of the command line; TLC validates runs recorded from the real program",
      "Bounded exploration of command lines with generated files, repositories and flaws; how each run may end follows from the "
      "specification, whose parser model decides which of the files are weight files. " + TRUST)

claim("C32", "TLA+ specification of checkouts and resets over uncommitted work; TLC model checking, and validation of comparisons recorded from real repositories",
      "TLC checks the specification exhaustively in a small scope (2 files, 3 contents). Generated repositories with staged, unstaged and "
      "untracked changes are compared with the real code and real git, and state and outcome after each comparison are judged. " + TRUST)

NOT_YET = "not claimed yet: the check is still being built"

if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl")) as fh:
        props = [json.loads(x)["id"] for x in fh if x.strip()]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p,
                     "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                     "evidence_file": "evidence/%s.json" % p,
                     "technique": CLAIMED[p][0], "level": "model_checking", "level_note": CLAIMED[p][1]}
                    for p in props if p in CLAIMED],
         "not_applicable": [{"property": p, "reason": NOT_YET} for p in props if p not in CLAIMED]}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
