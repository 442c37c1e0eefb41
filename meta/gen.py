"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
NA = getattr(props, "NA", {})
TECH = "symbolic execution of the real Python source; z3 decides every branch and obligation within bounds; counterexamples replayed on the unmodified code"
NOTE = "Bounded: holds for every value within the bounds stated in the evidence file; nothing is claimed beyond them. Trusted: the symbolic engine (vt/), its models of C-implemented builtins, the idealised crypto/LMDB/serialiser stand-ins (stubs/), z3. Sampled paths and every counterexample are re-run on the uninstrumented code."
out, checks = [], []
for p in props.P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                                 observe_at=p["observe"], hook_needed=None)))
    if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")) and p["id"] not in NA:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt run.py %s quick" % p["id"],
                           thorough_cmd="python3-vt run.py %s thorough" % p["id"],
                           technique=p["technique"] or TECH, level="model_checking",
                           level_note=(p["note"] + " " if p["note"] else "") + NOTE))
    elif p["id"] not in NA:
        print("WARNING no check for", p["id"])
        NA[p["id"]] = "no check built yet"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
man = dict(version=1, setup_cmd="python3-vt -c 'import z3, sortedcontainers, jsonschema'", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="One runner, run.py; checks/<id>.py holds the cases of each property. No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out:
        jsonschema.validate(o, sch)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(out), "properties,", len(checks), "checks")
# DESIGN.md -----------------------------------------------------------------
design = open(os.path.join(HERE, "DESIGN.in.md")).read()
lines = []
for p in props.P:
    fn = os.path.join(V, "checks", p["id"] + ".py")
    lines.append("### %s %s\n" % (p["id"], p["title"]))
    lines.append(p["statement"] + "\n")
    if p["id"] in NA:
        lines.append("Not decided: %s\n" % NA[p["id"]])
        continue
    ns = {}
    src = open(fn).read()
    import ast as _a
    t = _a.parse(src)
    doc = _a.get_docstring(t) or ""
    for n in t.body:
        if isinstance(n, _a.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            try:
                ns[n.targets[0].id] = _a.literal_eval(n.value)
            except ValueError:
                ns[n.targets[0].id] = "see the check"
    lines.append("How: " + " ".join(doc.split()))
    lines.append("\nBounds: %s.  Outside: %s.%s\n" % (ns.get("BOUNDS", ""), ns.get("OUTSIDE", ""),
                 ("  Assumes: " + "; ".join(ns["ASSUMPTIONS"]) + ".") if ns.get("ASSUMPTIONS") else ""))
kf = json.load(open(os.path.join(V, "known_findings.json")))
dl = ["Repaired (`fix:` commits in /repo):\n"] + ["* " + x for x in kf["fixed"]]
dl += ["\nRecorded, not repaired:\n"] + ["* %s (%s): %s" % (k["id"], k["property"], k["what"]) for k in kf["known"]] if kf["known"] else []
sl = []
sd = os.path.join(V, "seeded")
res = json.load(open(os.path.join(HERE, "seed_results.json"))) if os.path.exists(os.path.join(HERE, "seed_results.json")) else {}
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    sl.append("* %s (%s) %s — needs: %s — %s" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "not run")))
design = design.replace("@PROPS@", "\n".join(lines)).replace("@DEFECTS@", "\n".join(dl)).replace("@SEEDS@", "\n".join(sl))
open(os.path.join(V, "DESIGN.md"), "w").write(design)
