#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from jobs import JOBS
NOTE = {
    "C01": "random supported plans from a seeded generator in the model; TLC checks Mean(Print(p)) = p on each, replay checks format/parse/reformat against the code",
    "C02": "seeded one- and two-point mutants of printed documents; Valid/Mean of the specification is the oracle",
    "C03": "all line sequences up to the bound over header/body/blank/malformed lines, plus version metadata",
    "C04": "all line sequences up to the bound over relation and addendum kinds and depths, plus deep random forests",
    "C05": "all stacks of relation kinds x widths x mappings up to the bound",
    "C06": "all line sequences of the extension section up to the bound, and all small tables on the formatter side",
    "C07": "all small extension tables x all spellings of a reference",
    "C08": "plans with faults injected at any part; text, tokens and error count from the specification",
    "C09": "documents with one malformed line at every position, and arbitrary text",
    "C10": "all literal kinds x boundary values x types, calendar arithmetic in the specification",
    "C11": "all type terms up to the bound in every position",
    "C12": "plans x option combinations",
    "C13": "all registration histories up to the bound, and argument lists",
    "C14": "seeded spelling and layout variants of documents",
    "C15": "histories of calls over a shared registry, threads, and root composition",
    "C16": "conversion chains, format selection, failure outcomes of the command line",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in JOBS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
                            "technique": "TLA+ specification model-checked with TLC; every behaviour replayed against the real library",
                            "level": "model_checking", "level_note": NOTE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
