#!/usr/bin/env python3
"""Systematic mutation of the sources, to find what the checks miss.

  tools/mutate.py OUT.jsonl WORKERS JOBS FILE=PROP,PROP.. ...

Each worker works on its own copies of /repo and /verif under /tmp/mw.
"""
import json, os, re, shutil, subprocess, sys, threading, queue, random

out, workers, jobs = sys.argv[1], int(sys.argv[2]), sys.argv[3]
plan = [a.split("=") for a in sys.argv[4:]]


SUBS = [(r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r" == ", [" != "]), (r" != ", [" == "]),
        (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"(?<=[(,\s=])0(?=[;),\s])", ["1"]), (r"(?<=[(,\s=+-])1(?=[;),\s])", ["2", "0"]), (r"(?<=[(\s])!(?=[\w(])", [""]),
        (r"\+\+", ["--"]), (r"\.begin\(\)", [".end()"]), (r"\bcos\(", ["sin("]), (r"\bsin\(", ["cos("]), (r"\.tail", [".head"]), (r"\.head", [".tail"]),
        (r"\bceil\(", ["floor("]), (r"\bfloor\(", ["ceil("]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\btransform\(0\)", ["transform(1)"])]


def mutants(path):
    src = open(path).read()
    pos = 0
    depth_comment = False
    res = []
    in_throw = False
    for line in src.split("\n"):
        start = pos
        pos += len(line) + 1
        s = line.strip()
        if depth_comment:
            if "*/" in s: depth_comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: depth_comment = True
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("template") or s.startswith("typedef"): continue
        if s.startswith("throw"): in_throw = True
        if in_throw:
            if s.endswith(";"): in_throw = False
            continue
        code = line
        for rx, reps in SUBS:
            for m in re.finditer(rx, code):
                # not inside a string
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    res.append((start + m.start(), start + m.end(), r, line.strip()))
        if s.endswith(";") and not s.startswith(("return", "throw", "typedef", "using", "const ", "size_t ", "double ", "break")) and line.startswith(" " * 4) and ("(" in s or "=" in s) and src[:start].rstrip().endswith((";", "{", "}", ")", "else", "/")):
            if not re.match(r"^[\w:<>,\s&*]+\([^)]*\)\s*(const)?;$", s) or "->" in s or "." in s or s[0] in "m_" or re.match(r"^\w+\(", s):
                res.append((start + line.index(s), start + len(line), ";", line.strip()))
        m = re.match(r"^\s*(?:else )?(if|while) \((.*)\)\s*\{?$", line)
        if m and m.group(1) == "if":
            a = start + line.index("(") + 1
            e = start + line.rindex(")")
            for r in ("true", "false"):
                res.append((a, e, "(" + src[a:e] + ", " + r + ")" if False else r, line.strip()))
    return src, res


q = queue.Queue()
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r["file"], r["at"], r["new"]))
items = []
for f, props in plan:
    src, ms = mutants("/repo/" + f)
    for m in ms:
        if (f, m[0], m[2]) not in done:
            items.append((f, props.split(","), m))
if os.environ.get("MUT_ONLY"):  # survivors of an earlier run, by their text
    old = {(r["file"], r["text"], r["old"], r["new"]) for r in map(json.loads, open(os.environ["MUT_ONLY"])) if r["status"] == "survived"}
    def key(f, m, s={}):
        if f not in s: s[f] = open("/repo/" + f).read()
        return (f, m[3], s[f][m[0]:m[1]], m[2])
    items = [i for i in items if key(i[0], i[2]) in old]
if os.environ.get("MUT_MAX"):  # a sample
    random.Random(1).shuffle(items); items = items[:int(os.environ["MUT_MAX"])]
for i in items: q.put(i)
print(len(items), "mutants", flush=True)
lock = threading.Lock()


def worker(w):
    d = os.environ.get("MW", "/tmp/mw") + "/%d" % w
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo"); os.makedirs(d + "/verif")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s/repo; git -C /verif archive HEAD | tar x -C %s/verif" % (d, d), shell=True, check=True)
    shutil.rmtree(d + "/verif/seeded", ignore_errors=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS=jobs)
    while True:
        try: f, props, (a, e, r, line) = q.get_nowait()
        except queue.Empty: break
        p = d + "/repo/" + f
        src = open("/repo/" + f).read()
        open(p, "w").write(src[:a] + r + src[e:])
        status, by = "survived", None
        for pr in props:
            try:
                x = subprocess.run(["./check.py", pr], cwd=d + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                status, by = "timeout", pr; break
            if "does not compile" in x.stdout: status = "nocompile"; break
            if x.returncode == 1 and "VIOLATION" in x.stdout: status, by = "killed", pr; break
            if x.returncode != 0: status, by = "rc%d" % x.returncode, pr; break
        open(p, "w").write(src)
        with lock:
            open(out, "a").write(json.dumps({"file": f, "at": a, "line": src[:a].count("\n") + 1, "old": src[a:e], "new": r, "text": line, "status": status, "by": by}) + "\n")
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
