#!/usr/bin/env python3
"""The property list, kept in one place; writes /verif/properties.jsonl and /verif/MANIFEST.json.
Run after editing; nothing else generates those files."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AW = "ArcWelder/"
GP = "GcodeProcessorLib/"
INV = "ArcWelderInverseProcessor/"
PY = "PyArcWelder/"
PROPS = []

def P(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", state=(), hook=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=list(state), hook=hook, technique=technique, level=level, note=note, na=na))

WELD = [AW + "arc_welder.cpp", AW + "segmented_arc.cpp", AW + "segmented_shape.cpp"]
TRACK = [GP + "gcode_position.cpp", GP + "gcode_parser.cpp", GP + "position.cpp", GP + "extruder.cpp"]
OUT = ["the source file, the target file and the returned results of a conversion, read after it completed"]
TECH = "runtime monitoring: offline trace checker (independent G-code machine as reference) over recorded source/output/results of real conversions"
NOTE = "Held on the generated conversions of the run (counts in the evidence), not on all inputs. Trusted: our G-code reader and machine model, the attribution of output lines to source lines (unique comments, or end points and E for untagged programs), the printed precision as tolerance."
NOTESTS = "The test program converts a handful of fixed files and looks at numbers it prints; nothing compares the output with the source for arbitrary programs and settings."
ANY = "every G-code program of moves and other commands, every valid configuration, every start and home position"

exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

def main():
    sys.path.insert(0, HERE)
    from checks import registry
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
           "notes": "python3 check.py <ID> runs one property; VERIF_SEED and VERIF_TIER select the workload. No hooks: everything is observed at the programs' own boundaries. See DESIGN.md."}
    for p in PROPS:
        if p["na"] or p["id"] not in registry.CHECKS:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check yet"}); continue
        c = {"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "env VERIF_TIER=thorough python3 check.py %s" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
             "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
        assert registry.CHECKS[p["id"]][2] == p["level"], p["id"]
        man["checks"].append(c)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
    try:
        import jsonschema
    except ImportError:
        print("jsonschema not available; run with python3-vt to validate"); return
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    ids = set()
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l); jsonschema.validate(d, sch); assert d["id"] not in ids; ids.add(d["id"])
        n = len([s for s in d["statement"].replace(". ", ".\n").split("\n") if s.strip()])
        if n > 3: print("too many sentences", d["id"], n)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(ids), "properties,", len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
main()
