#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json. Run after editing: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, state=state or [], note=note, na=na))

exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": False}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                       "technique": "deterministic simulation with fault injection: seeded search over operation histories and faults",
                       "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam is outside it (link-time wrapping of malloc/operator new/clock/fork-isolated workers, streams and callbacks the API already takes, the library's own seedable generator)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks share one binary built from /repo's working tree with AddressSanitizer; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
