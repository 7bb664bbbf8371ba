"""Single source of properties.jsonl and MANIFEST.json: python3 meta/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real code (LLVM IR of /repo, own VC generator, z3/cvc5)"
P = []


def prop(id, title, statement, over, quant, why, files, mech, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(V, "meta", "list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "notes":
     "Every check extracts the functions under contract from /repo's working tree (clang -> LLVM IR), discharges every obligation of its contracts, and "
     "additionally runs the executable form of the contracts on the real code (bounded replay; it supplies the failing input and is never counted as proof)."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.py %s --tier quick" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
                            "technique": TECH, "level": "proof", "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
