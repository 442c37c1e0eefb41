"""mkseed.py ID...: builds /verif/seeded/ID from meta/seedspec/ID.py and reports
whether it is a valid planted bug and whether the property's quick check sees it."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def quick(pid, wt, only=None):
    ev = os.path.join(V, "evidence", pid + ".json")
    sv = open(ev).read() if os.path.exists(ev) else None
    r = sh("python3-vt run.py %s quick" % pid, cwd=V, env={"VERIF_REPO": wt, "VERIF_CASE": only or ""}, timeout=1500)
    if sv is not None:
        open(ev, "w").write(sv)
    return r


def needed(pid):
    """check modules a check is built from"""
    todo, got = [pid + ".py"], {"__init__.py"}
    while todo:
        f = todo.pop()
        if f not in got:
            got.add(f)
            todo += [x + ".py" for x in re.findall(r"(?:from|import) checks[.](\w+)", open(os.path.join(V, "checks", f)).read())]
            todo += [x.strip() + ".py" for m in re.findall(r"from checks import ([\w, ]+)", open(os.path.join(V, "checks", f)).read()) for x in m.split(",") if x.strip() != "*"]
    return sorted(got)


def main(i, check=True):
    spec = {}
    exec(open(os.path.join(V, "meta/seedspec", i + ".py")).read(), spec)
    d = os.path.join(V, "seeded", i)
    wt = "/tmp/wt_" + i
    shutil.rmtree(wt, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("cp -a /repo " + wt)
    try:
        edits = spec.get("EDITS") or [(spec["FILE"], spec["OLD"], spec["NEW"])]
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            base = sh("git show 1e12bbf:%s" % f, cwd="/repo")[1].splitlines()
            for l in old.splitlines():
                if l not in new.splitlines() and l not in base and l.strip():
                    print(i, "WARNING line is not of the original:", l)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", cwd=wt)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(V, "meta/demokit/kit.py"), d)
        shutil.copytree(os.path.join(V, "stubs"), os.path.join(d, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
        # stand-ins are used without the engine
        found = None
        if "DEMO" not in spec:
            # what the check found, as a history played to the plain code
            found = quick(spec["PROP"], wt, spec.get("ONLY"))
            rp = os.path.join(V, "evidence", "replay_%s.json" % spec["PROP"])
            if found[0] != 1:
                print(i, "MISSED", found[1][-300:])
                shutil.rmtree(d)
                return
            r = json.load(open(rp))
            os.makedirs(os.path.join(d, "checks"))
            for f in needed(spec["PROP"]):
                shutil.copy(os.path.join(V, "checks", f), os.path.join(d, "checks"))
            spec["DEMO"] = "kit.play(%r, %r, %r)\n" % (spec["PROP"], r["case"], r["inputs"])
        open(os.path.join(d, "demo.py"), "w").write("import kit\n" + spec["DEMO"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec python3-vt "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a, oa = sh(os.path.join(d, "demo.sh"), cwd="/repo")
        b, ob = sh(os.path.join(d, "demo.sh"), cwd=wt)
        ok = a == 0 and b != 0
        print(i, "demo clean=%d patched=%d" % (a, b), "OK" if ok else "BAD\n" + oa[-1500:] + "\n---\n" + ob[-600:])
        if ok:
            print("   patched says:", ob.strip().splitlines()[-1][:200] if ob.strip() else "")
        if any("webdbing" in f or f.startswith("tools") for f, _, _ in edits):
            sh("git apply %s/patch.diff" % d, cwd="/repo")
            r, o = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/repo")
            sh("git checkout -- .", cwd="/repo")
            t = json.load(open("/tmp/seedtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            print("   tests rc", r, str(t)[:0], "failed:", [k for k, v in t.items() if isinstance(v, list) and "fail" in k and v][:3] or o[-300:])
        if check:
            t0 = time.time()
            rc, o = found if found and not spec.get("ONLY") else quick(spec["PROP"], wt)
            print("   check rc=%d %.0fs" % (rc, time.time() - t0), "CAUGHT" if rc == 1 else "MISSED", [l for l in o.splitlines() if "case=" in l or "real code" in l or "ERROR" in l][:2])
            rp = os.path.join(V, "meta/seed_results.json")
            res = json.load(open(rp)) if os.path.exists(rp) else {}
            case = [l.strip() for l in o.splitlines() if "case=" in l]
            res[i] = ("caught by %s, %s" % (spec["PROP"], case[0][:110])) if rc == 1 else "missed by %s" % spec["PROP"]
            json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    nochk = "-n" in args
    for i in args:
        if i != "-n":
            main(i, not nochk)
