#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property the analyser has rules for."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.run([here + "/check.sh", "list"], check=True, stdout=subprocess.DEVNULL)
ids = subprocess.run([here + "/.bin/analyzer", "list"], check=True, capture_output=True, text=True).stdout.split()
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
na = {
 "N01": "the reference encodings are not in this repository; agreement with other implementations is a statement about their output bytes, which no analysis of this source can decide",
 "N02": "a statement about the hardness of cryptographic problems, not about the source",
 "N03": "the library does not promise it and takes no locks: no source-level rule could show that unsynchronised calls are equivalent to some sequence",
 "N04": "depends on when the file system and device make renames and data durable; the source (rename without fsync) does not determine it",
 "N05": "a distribution property of SHA-256 over unknown inputs, which no static argument in reach bounds",
 "N06": "the meaning of a pattern is that of the standard library's filepath.Match; comparing it with another language's fnmatch is outside this source (C13 decides how the code uses it)",
}
TECH = "path-sensitive abstract interpretation over Go SSA (value numbering, branch facts, loop summaries to a fixpoint), checking accept conditions and effects per path"
SPECIAL = {}
try:
    SPECIAL = json.load(open(here + "/tools/techniques.json"))
except FileNotFoundError:
    pass
NOTE = ("Decides the property for every path of the anchored entry points, on the source as it is; sound up to the models of the standard library and "
        "third-party calls, the assumption that distinct parameters of one type do not alias unless stated, and the contracts decided by the other listed checks. "
        "An undecided obligation is reported as a violation, never passed.")
checks = []
for p in props:
    if p["id"] in ids:
        s = SPECIAL.get(p["id"], {})
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                       "technique": s.get("technique", TECH), "level": "other", "level_note": s.get("note", NOTE)})
miss = [p["id"] for p in props if p["id"] not in ids and p["id"] not in na]
todo = [{"property": i, "reason": "no check has been built yet"} for i in miss]
m = {"version": 1, "setup_cmd": "./check.sh list", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()] + todo}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks; not built:", miss)
