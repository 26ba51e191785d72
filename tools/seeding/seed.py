#!/usr/bin/env python3
"""seed.py [--check] [ID..]: (re)creates seeded/<id>/ from the descriptions in
seeds*.py, confirms each (builds, stable tests pass, demonstration fails with it
and passes without) in a scratch copy, and with --check runs the property's
check against it."""
import glob, importlib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, kind="core", also=(), sources=(), program=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, kind=kind, also=also, sources=sources, program=program))
if __name__ == "__main__":
    sys.modules["seed"] = sys.modules["__main__"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeds*.py"))): importlib.import_module(os.path.basename(f)[:-3])
    args = [a for a in sys.argv[1:] if not a.startswith("-")]; check = "--check" in sys.argv
    sh = lambda c, **k: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    for s in SEEDS:
        if args and s["id"] not in args: continue
        d = os.path.join(ROOT, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        tmp = tempfile.mkdtemp(prefix="seed."); r = os.path.join(tmp, "repo")
        sh(["cp", "-a", "/repo", r])
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p, encoding="utf-8", errors="surrogateescape").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w", encoding="utf-8", errors="surrogateescape").write(t.replace(old, new))
        diff = sh(["git", "-C", r, "diff"]).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        shutil.copy(os.path.join(HERE, "demo_%s.sh" % s["kind"]), os.path.join(d, "demo.sh")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if s["kind"] in ("core", "prog", "py"):
            shutil.copy(os.path.join(HERE, "demo_core.hpp"), d); shutil.copytree(os.path.join(ROOT, "stubs"), os.path.join(d, "stubs"))
        if s["kind"] == "py": shutil.copy(os.path.join(HERE, "demo_py.hpp"), d)
        if s["kind"] == "prog":
            shutil.copy(os.path.join(HERE, "demo_prog.hpp"), d); open(os.path.join(d, "sources.txt"), "w").write("".join(x + "\n" for x in s["sources"]))
        if s["program"]: open(os.path.join(d, "program.cpp"), "w").write(s["program"])
        for x in s["also"]: shutil.copytree(os.path.join(ROOT, x), os.path.join(d, os.path.basename(x))) if os.path.isdir(os.path.join(ROOT, x)) else shutil.copy(os.path.join(ROOT, x), d)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo"); bad = sh(["bash", os.path.join(d, "demo.sh")], cwd=r)
        # the build and test scripts are bound to /repo: compile what the build compiles from the copy
        cc = sh(["bash", "-c", "set -e; sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; sed 's#/repo#%s#g' /opt/vp/test.sh > %s/t.sh; bash %s/b.sh >%s/log 2>&1 || { tail -20 %s/log; exit 1; }; bash %s/t.sh %s/o.json >/dev/null 2>&1; cat %s/o.json" % ((r, tmp) * 2 + (tmp,) * 6)])
        ok = good.returncode == 0 and bad.returncode not in (0, 3) and cc.stdout.count("Suite::") == 2 and '"failed": []' in cc.stdout
        print(s["id"], s["prop"], "OK" if ok else "NOT OK good=%d bad=%d tests=%s\n%s\n%s" % (good.returncode, bad.returncode, cc.stdout, good.stdout[-1500:], bad.stdout[-1500:]), flush=True)
        if check:
            k = sh([os.path.join(ROOT, "check.py"), s["prop"]], env=dict(os.environ, VERIF_REPO=r))
            print("   check:", k.returncode, [l[:300] for l in k.stdout.splitlines() if "VIOLATION" in l][:1] or k.stdout[-600:], flush=True)
        shutil.rmtree(tmp)
