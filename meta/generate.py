#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (run by hand after editing)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
import props  # noqa: E402
from knpa import lib  # noqa: E402
import knpa.rules  # noqa: E402,F401

V = os.path.dirname(HERE)
LEVEL_NOTE = ("Static analysis of the type-checked program: decides the structural part of the property that the rule "
              "names, on every path of every instantiation that the build compiles; arithmetic values are not bounded.")


def main():
    out, checks, na = [], [], []
    ids = set()
    for p in props.PROPS:
        assert p["id"] not in ids
        ids.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
               "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        out.append(rec)
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), f
        if "na" in p:
            assert p["id"] not in lib.REGISTRY
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            assert p["id"] in lib.REGISTRY, p["id"]
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": p["tech"], "level": "other", "level_note": p.get("note", LEVEL_NOTE)})
    missing = set(lib.REGISTRY) - ids
    if missing:
        print("rules without a property:", sorted(missing))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for r in out:
            f.write(json.dumps(r) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from knpa import facts; facts.tool_path()\"",
         "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for r in out:
        jsonschema.validate(r, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print(len(out), "properties,", len(checks), "checks,", len(na), "not applicable")


main()
