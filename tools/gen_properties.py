#!/usr/bin/env python3
"""Single source of properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": mech, "observe_at": observe}
    if state: a["state"] = state
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
exec(open(__file__.replace("gen_properties.py", "properties_src.py")).read())
for p in P: print(json.dumps(p))
