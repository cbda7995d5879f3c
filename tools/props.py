#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/config.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UM = "src/GTMesh/UnstructuredMesh/"
MF = UM + "MeshFunctions/"
P, CFG, NA = [], {}, {}


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})


def check(id, technique, note, rule, min_events=None, assumptions=None, **cfg):
    CFG[id] = dict({"technique": technique, "note": note, "rule": rule, "min_events": min_events or {}, "assumptions": assumptions or []}, **cfg)


def na(id, reason):
    NA[id] = reason


here = os.path.dirname(os.path.abspath(__file__))
for part in ("props_mesh.py", "props_io.py", "props_rest.py"):
    p = os.path.join(here, part)
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"))

# scale of the quick case counts under sanitizers, and under valgrind (quick, thorough): uninitialised values
SAN = {"C01": 14, "C02": 14, "C03": 20, "C04": 14, "C05": 12, "C06": 6, "C07": 5, "C08": 7, "C09": 5, "C10": 10, "C11": 20, "C12": 14, "C13": 16, "C14": 30, "C15": 25, "C16": 3, "C17": 40, "C18": 40,
       "C19": 20, "C20": 40, "C21": 60, "C22": 60, "C23": 60, "C24": 30, "C25": 24, "C26": 30, "C27": 6, "C28": 3, "C29": 60, "C30": 10, "C31": 16, "C33": 12, "C34": 2.5}
VG = {i: (.1, .1) for i in SAN if i not in ("C06", "C19", "C20", "C21", "C25", "C26", "C27", "C28", "C30", "C33", "C34")}
for i, s in SAN.items():
    if i in CFG and "runs" not in CFG[i]:
        CFG[i]["runs"] = [{"flavour": "san", "scale": s, "scale_thorough": s}]
        if i in VG:
            CFG[i]["runs"].append({"flavour": "vg", "scale": VG[i][0], "scale_thorough": VG[i][1]})

P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
       "notes": "No hooks: every monitor observes the public API, output streams, written files and sanitizer reports; /repo carries fix: commits only. See DESIGN.md."}
for p in P:
    i = p["id"]
    if i in CFG:
        man["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": CFG[i]["technique"], "level": "exploration", "level_note": CFG[i]["note"]})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
json.dump({k: {a: b for a, b in v.items() if a not in ("technique", "note")} for k, v in sorted(CFG.items())}, open(V + "/harness/config.json", "w"), indent=1)
open(V + "/harness/config.json", "a").write("\n")
print(len(P), "properties,", len(CFG), "checks")
