#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the contracts."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
import prove
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
contracts = prove.load_contracts()[0]
BOUNDED = {}
NOTE = {}
MORE = {
    "C25": "; simdjson itself (text to tree, lookups, conversions) is trusted; ill-formed configurations are outside",
    "C27": "; proved for components whose contract says so (the byte-level pre-tokenizer, Split(isolated), Sequence, BPE, "
           "the byte-level decoder, the post-processors) and added tokens of ASCII text that do not strip",
    "C22": "; the value of a token is proved to be the text it stands over, its offsets the alignment of that text, for WordPiece, "
           "added tokens and BPE (unique ids, no suffix, no byte fallback, an unknown token that no merge consumes), with any "
           "normalizer and pre-tokenizer, byte-level ones included",
}
PART = {p.split(":")[0]: p for p in ()}


def theorems(i):
    out = []
    for k, c in contracts.items():
        for lab in c.get("ensures", {}):
            ps, _, name = lab.partition(":")
            if i in ps.split(","):
                out.append("%s: %s" % (k, name))
        if c.get("spec") and i in c.get("props", "").split(","):
            out.append("%s: value" % k)
    return out


checks = []
for p in props:
    i = p["id"]
    c = {"property": i, "quick_cmd": "python3 run_check.py " + i,
         "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + i}
    if i in BOUNDED or i in NOTE:
        c["technique"] = "bounded check of the executable property on the real code, beside the contracts of its stages (Verus)"
        c["level"] = "exploration"
        c["level_note"] = BOUNDED.get(i) or NOTE[i]
    else:
        c["technique"] = ("contracts on the real code, discharged by Verus (Z3) on the functions extracted from clang's AST "
                          "on every run; bounded harness to replay a failed obligation as an input")
        c["level"] = "proof"
        c["level_note"] = ("proved for all inputs from the current source, function by function; assumes the models of std and "
                           "ICU in tools/prelude.rs, tools/icu.rs and tools/cxxcalls.py, mathematical signed arithmetic and "
                           "the preconditions listed in DESIGN.md (also in the evidence); if a change moves the code out of "
                           "the translated subset only the bounded harness decides")
        c["level_note"] += MORE.get(i, "")
        c["theorems"] = theorems(i)
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. See DESIGN.md."},
          open(H + "/MANIFEST.json", "w"), indent=1)
