#!/usr/bin/env python3
"""One table -> properties.jsonl, checks.json, MANIFEST.json.  Run by hand after editing; never run by a check."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
U = "futures-util/src/"
SM = U + "stream/stream/"
P = []  # (id, title, statement, over, text, why, files, mechanism, units, tags, replay families, extra)


def prop(id, title, statement, over, text, why, files, mech, units=(), tags=("core", "term", "wake"), replay=(), level="proof", note="", **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, units=list(units),
                  tags=list(tags), replay=[r if isinstance(r, dict) else {"pkg": "rp", "family": r} for r in replay], level=level, note=note, kw=kw))


exec(open(os.path.join(V, "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
for p in P:
    for fl in p["files"]:
        assert os.path.exists("/repo/" + fl), fl
checks = {"_trusted": TRUSTED, "_assumptions": ASSUMPTIONS}
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [], "notes": NOTES}
for p in P:
    if p["kw"].get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": p["kw"]["na"]})
        continue
    checks[p["id"]] = {"units": p["units"], "tags": p["tags"], "replay": p["replay"], "level": p["level"], **{k: v for k, v in p["kw"].items()}}
    man["checks"].append({
        "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["kw"].get("technique", "contracts on the extracted real functions, discharged by Verus/Z3; bounded replay on the real code for failing inputs"),
        "level": p["level"], "level_note": p["note"] or LEVEL_NOTE})
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
