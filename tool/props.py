#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
TRUST = ("Decides the stated structural rule on every path of the resolved program (loops abstracted, correlated branch facts kept); "
         "trusts the clang front end, documented library behaviour and the rule tables in sa/rules. ")


def p(id, title, statement, over, text, why, files, mech, technique, note=""):
    PROPS.append(({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}}, technique, note))


def na(id, title, statement, over, text, why, files, reason):
    NA.append(({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files.split(), "mechanism": []}}, reason))


MC = "src/memcache/sockets.cpp src/memcache/sockets.hpp src/memcache/object.hpp src/memcache/object.cpp cybozu/hash_map.hpp"
exec(open(os.path.join(ROOT, "tool", "props_list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in PROPS + NA:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
man = {
    "version": 1,
    "setup_cmd": "tool/build.sh",
    "checks": [{
        "property": d["id"], "quick_cmd": "python3 sa/check.py " + d["id"], "thorough_cmd": "python3 sa/check.py " + d["id"],
        "technique": t, "level": "other", "level_note": TRUST + n} for d, t, n in PROPS],
    "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
    "notes": "Static analysis only: tool/yx.cpp (libTooling) extracts the resolved program of every translation unit of the real build on "
             "each run, sa/ decides the rules. No hooks in /repo; fix: commits only.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
