#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing the list of checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (own choice-tape engine with shrinking), "
ROUND = PBT + "round trip against an independent encoder of the binlog format"
NET = PBT + "conversations of the real client with a mock server over loopback"
NOTE = ("Random search with a fixed number of cases per run, repeatable from VERIF_SEED: no violation among the generated cases, "
        "not a proof. Trusts the oracle in harness/src written from the MySQL/MariaDB documentation. ")
C = {
 "C01": (ROUND, "exploration", NOTE + "Cells are checked inside whole row events, so that misplaced bytes show as well."),
 "C02": (ROUND, "exploration", NOTE + "All 1,580 DECIMAL(p,s) layouts are drawn by turns."),
 "C03": (ROUND, "exploration", NOTE + "All types and precisions; negative TIME values must be errors."),
 "C04": (ROUND, "exploration", NOTE + "Includes values above 16 MB and text that is not UTF-8, which must be an error."),
 "C05": (ROUND, "exploration", NOTE + "Tables of 1 to about 1,100 columns, all image subsets and NULL patterns."),
 "C06": (PBT + "stateful histories against a model of the table definitions", "exploration", NOTE),
 "C07": (ROUND, "exploration", NOTE + "All twelve optional metadata fields in any order and size."),
 "C08": (ROUND, "exploration", NOTE + "Two known findings (text that is not UTF-8) are listed in known_findings.txt and checked by directed cases."),
 "C09": (PBT + "metamorphic relation between encodings of the same history, file and stream", "exploration", NOTE),
 "C10": (PBT + "generated files cut at any byte, against the list of events written", "fault_enumeration", NOTE + "All cut offsets are enumerated for small files and sampled for large ones."),
 "C11": ("structure-aware mutation fuzzing (own choice-tape engine with shrinking) of single events, sequences and files, with panic, memory and CPU oracles", "exploration", NOTE),
 "C12": (PBT + "model-based: a set of (source, id) against parse, print and add", "exploration", NOTE),
 "C13": (PBT + "model-based: a map of domains against parse, print and add", "exploration", NOTE),
 "C14": (PBT + "stateful histories of transactions against a model of completed GTIDs, directly and over loopback", "exploration", NOTE),
 "C15": (PBT + "crash points: disconnections at any event of generated binlogs served by a mock server", "fault_enumeration", NOTE),
 "C16": (NET + ", which verifies each authentication packet independently", "exploration", NOTE),
 "C17": (NET + ", which records and interprets each request", "exploration", NOTE),
 "C18": (NET + " with an error packet or disconnection injected at each step", "fault_enumeration", NOTE + "Every step of each generated conversation is a fault point."),
 "C19": (NET + " in which any packet is replaced by malformed bytes", "exploration", NOTE),
 "C20": (NET + ", with the stream split and cut at any byte", "fault_enumeration", NOTE),
 "C21": (NET + " that falls silent at any stage or pauses below the limit", "fault_enumeration", NOTE + "Real time: the stages and pauses are sampled, all silent cases run in parallel."),
 "C22": ("mutation fuzzing of text forms (own choice-tape engine with shrinking) with a print-and-parse and no-loss oracle", "exploration", NOTE),
 "C23": (PBT + "crash points: disconnections and reconnections by GTID to a mock server with a generated history", "fault_enumeration", NOTE),
}
import subprocess, sys
done = set(sys.argv[1:]) or set(C)
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
assert props == sorted(C), props
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
    "property": i,
    "quick_cmd": f"bash check.sh {i} quick",
    "thorough_cmd": f"bash check.sh {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": C[i][0],
    "level": C[i][1],
    "level_note": C[i][2].strip(),
 } for i in props if i in done],
 "not_applicable": [{"property": i, "reason": "check still being built"} for i in props if i not in done],
 "notes": "No hooks: everything is observed through the public API, in-memory files and a mock server on loopback. Fixes in /repo are listed in known_findings.txt.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
