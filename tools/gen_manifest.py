#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a driver in mc/."""
import json, re, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
for f in glob.glob(here + '/mc/*.go'):
    ids |= set(re.findall(r'register\("(P\d\d)"', open(f).read()))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
notes = json.load(open(here + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in ids:
        n = notes.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": n.get("technique", "exhaustive enumeration of executions of the real code, compared with a reference model"),
            "level": "model_checking",
            "level_note": n.get("note", "Every choice sequence within the stated bounds is executed on the real code and compared with an independent reference model. Trusts the reference model, the Go toolchain and the harness; says nothing beyond the bounds."),
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. Every check rebuilds the checker from /repo's working tree. Replay a violation with ./run.sh Pxx -replay evidence/replay-Pxx.json.",
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
