#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
AI = "abstract interpretation of the compiler's MIR (bit-provenance dataflow, trace partitioning, no solver)"
NOTE = "static analysis; the verdict holds for every value of the unknown data in each enumerated partition; trusts rustc's MIR, the MIR of std and the models of the allocator and foreign functions; undecided traces are reported in the evidence, never as alarms"


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 absint/main.py %s --tier quick" % p["id"],
               thorough_cmd="python3 absint/main.py %s --tier thorough" % p["id"], technique=p["technique"], level="other", level_note=p["note"])
          for p in P if "technique" in p]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 absint/build.py", checks=checks, not_applicable=NA), f, indent=1)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
