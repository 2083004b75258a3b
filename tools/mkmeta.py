#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; no check runs it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from meta import META
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for m in META:
        assert len(m["title"]) <= 80, m["title"]
        f.write(json.dumps({
            "id": m["id"], "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["qtext"]},
            "why_tests_cant": m["why"],
            "anchors": {"files": ["orocos_bfl/src/" + x for x in m["files"]],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in m.get("state", [])],
                        "mechanism": [dict(zip(("name", "where"), s)) for s in m["mech"]],
                        "observe_at": m["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for m in META:
    i = m["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification (%s) checked by TLC; behaviours replayed against both builds of the library"
                                    % ", ".join(sorted({r["module"] for r in PROPS[i]["runs"]})),
                       "level": "model_checking",
                       "level_note": m.get("note", "TLC evaluates the property on every state of the exhaustive configurations and on random long behaviours of the "
                                     "larger ones; each behaviour is replayed step by step on the real library (Boost and Eigen builds, address "
                                     "sanitizer) and every observation compared with the exact rational value of the specification. Bounded by "
                                     "the constants in tools/props.py; trusts TLC, Rat.java (self-checked), the harness and IEEE rounding below the stated tolerance.")})
    else:
        na.append({"property": i, "reason": m["na"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the public interface", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Language: TLA+ checked with TLC. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
