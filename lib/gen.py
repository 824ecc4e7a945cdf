"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand: python3 lib/gen.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, technique=None, level="proof", note="",
         na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": [observe] if isinstance(observe, str) else observe,
                     "hook_needed": False}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append((d, technique, level, note, na))


ABS = "relational abstract interpretation of the normalised LLVM IR (fat pointers, inferred linear invariants)"

exec(open(os.path.join(V, "lib", "props.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "make -s -j8 -C tool", "checks": [], "not_applicable": []}
    for d, t, l, n, na in P:
        if na:
            man["not_applicable"].append({"property": d["id"], "reason": na})
        else:
            man["checks"].append({"property": d["id"], "quick_cmd": "python3 run.py %s --tier quick" % d["id"],
                                  "thorough_cmd": "python3 run.py %s --tier thorough" % d["id"], "technique": t, "level": l,
                                  "level_note": n})
    man["notes"] = "Known and fixed findings: known-findings.jsonl. Design: DESIGN.md."
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
