#!/usr/bin/env python3
"""Runs the bounded exhaustive check of one property against /repo's working tree.

  check.py PROPERTY            exit 0: held on everything explored
                               exit 1 + "VIOLATION property=<id> replay=<path>": broken
  check.py --replay FILE       re-executes one recorded counterexample
  check.py --build [HARNESS..] compiles the harnesses

The work is done by C++ harnesses (harness/*.cpp) compiled from /repo's current
sources; this driver builds them, runs their scenarios in parallel worker
processes, turns crashes and endless loops of the code under test into
violations, and writes evidence/<property>.json.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "framework"))
from registry import HARNESSES, PROPERTIES  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ASAN_EXIT = 99
HANG_EXIT = 97


class BuildError(Exception):
    def __init__(self, harness, log):
        super().__init__(f"harness {harness} does not compile")
        self.harness, self.log = harness, log


def expand(s):
    return s.replace("@REPO@", REPO).replace("@VERIF@", VERIF)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def compile_unit(source, flags, objdir):
    """Compiles one source; the object is reused only if the compiler's own list
    of everything it read (command line included) is unchanged."""
    cmd = ["g++"] + flags + ["-c", source]
    key = sha(" ".join(cmd))[:24]
    obj = os.path.join(objdir, key + ".o")
    dep = os.path.join(objdir, key + ".d")
    stamp = os.path.join(objdir, key + ".stamp")

    def fingerprint():
        try:
            text = open(dep).read()
        except OSError:
            return None
        files = text.replace("\\\n", " ").split(":", 1)[1].split()
        h = hashlib.sha256()
        for f in sorted(set(files)):
            if f.startswith("/usr/"):
                continue
            try:
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
            except OSError:
                return None
        return h.hexdigest()

    if os.path.exists(obj) and os.path.exists(stamp):
        fp = fingerprint()
        if fp and open(stamp).read() == fp:
            return obj, None
    tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}"
    log = ""
    for attempt in range(2):
        r = subprocess.run(cmd + ["-o", tmp, "-MMD", "-MF", dep, "-MT", "x"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            os.replace(tmp, obj)
            fp = fingerprint()
            if fp:
                with open(stamp, "w") as f:
                    f.write(fp)
            return obj, None
        log = r.stdout
        if "error:" in log:
            break
        time.sleep(2)
    return None, log


def build(names):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    objdir = os.path.join(BUILD, "obj")
    todo = []
    for n in names:
        h = HARNESSES[n]
        flags = [expand(f) for f in h["flags"]]
        for s in h["sources"] + h.get("lib", []):
            todo.append((n, expand(s), flags))
    units = {}
    for n, s, f in todo:
        units.setdefault((s, tuple(f)), None)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {k: ex.submit(compile_unit, k[0], list(k[1]), objdir) for k in units}
    out = {}
    for n in names:
        h = HARNESSES[n]
        flags = tuple(expand(f) for f in h["flags"])
        objs, lib = [], []
        for s in h["sources"] + h.get("lib", []):
            obj, log = futs[(expand(s), flags)].result()
            if obj is None:
                raise BuildError(n, f"--- {expand(s)}\n{log}")
            (objs if s in h["sources"] else lib).append(obj)
        if lib:  # as a library: only what is used gets linked
            ar = os.path.join(BUILD, f"{n}.{os.getpid()}.a")
            if os.path.exists(ar):
                os.remove(ar)
            subprocess.run(["ar", "rcs", ar] + lib, check=True)
            objs += [ar]
        exe = os.path.join(BUILD, n)
        tmp = f"{exe}.{os.getpid()}"
        link = ["g++"] + [expand(f) for f in h.get("ldflags", [])] + objs + ["-o", tmp] + [expand(l) for l in h.get("libs", [])]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if lib:
            os.remove(ar)
        if r.returncode != 0:
            raise BuildError(n, "--- link\n" + r.stdout)
        os.replace(tmp, exe)
        out[n] = exe
    return out


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=%d:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096" % ASAN_EXIT
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=%d" % ASAN_EXIT
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    return env


PROCS = set()
LOCK = threading.Lock()
STOP = threading.Event()


def run_proc(cmd, timeout):
    if STOP.is_set():
        return None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=run_env(),
                         start_new_session=True)
    with LOCK:
        PROCS.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return "timeout", out.decode(errors="replace"), err.decode(errors="replace")
    finally:
        with LOCK:
            PROCS.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def read_case(path):
    with open(path, "rb") as f:
        data = f.read()
    magic, n, _ = struct.unpack_from("<IIQ", data, 0)
    return list(struct.unpack_from("<%dH" % n, data, 16)) if n else []


def describe_crash(code, err):
    if code == HANG_EXIT:
        return "the code under test does not terminate (no progress)"
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        return "memory error: " + m.group(1)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "undefined behaviour: " + m.group(1)
    m = re.search(r"Assertion `[^\n]*", err)
    if m:
        return "assertion failed: " + m.group(0)
    m = re.search(r"terminate called[^\n]*(\n[^\n]*what[^\n]*)?", err)
    if m:
        return m.group(0).replace("\n", " ")
    if isinstance(code, int) and code < 0:
        return "killed by signal %d" % -code
    return "process ended with status %s" % code


def run_task(exe, prop, scenario, tier, shard, shards, tmp, budget, hang):
    tag = f"{prop}-{scenario}-{shard}".replace("/", "_")
    out = os.path.join(tmp, tag + ".json")
    case = os.path.join(tmp, tag + ".case")
    cmd = [exe, "--property", prop, "--scenario", scenario, "--tier", tier, "--shard", str(shard),
           "--shards", str(shards), "--out", out, "--case", case, "--hang", str(hang)]
    if budget:
        cmd += ["--budget", str(budget)]
    r = run_proc(cmd, None)
    if r is None:
        return {"stopped": True}
    code, so, err = r
    if code in (0, 1) and os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        return res
    if STOP.is_set():
        return {"stopped": True}
    if isinstance(code, int) and (code == ASAN_EXIT or code == HANG_EXIT or code < 0 and code != -9 or code == 134):
        choices = read_case(case)
        # replay alone, with a longer limit for a hang, before believing it
        out2 = out + ".replay"
        c2 = [exe, "--property", prop, "--scenario", scenario, "--tier", tier, "--out", out2, "--case", case,
              "--hang", str(hang * 3), "--replay", ",".join(map(str, choices))]
        r2 = run_proc(c2, hang * 3 + 60)
        if r2 is None:
            return {"stopped": True}
        code2, _, err2 = r2
        if code2 == 0:
            if code == HANG_EXIT:
                return {"error": f"{prop}/{scenario}: hang did not replay"}
            again = None
            if not re.search(r"AddressSanitizer: |runtime error: |Assertion ", err):
                # a crash that depends on what is left in memory: believed if the whole run crashes again
                again = run_proc(cmd, None)
                if again is None:
                    return {"stopped": True}
            if again and not (isinstance(again[0], int) and (again[0] < 0 and again[0] != -9 or again[0] in (134, ASAN_EXIT))):
                return {"error": f"{prop}/{scenario}: crash did not replay: {describe_crash(code, err)}\n{err[-2000:]}"}
            # a sanitizer report stands by itself: the code under test keeps hidden state between executions
            return {"violation": True, "message": describe_crash(code, err) + " (only after other executions in the same process)",
                    "choices": choices, "trace": [], "property": prop, "scenario": scenario, "stderr": err[-4000:]}
        if code2 == 1:
            with open(out2) as f:
                rr = json.load(f)
            msg, trace = rr["message"], rr["trace"]
        else:
            msg, trace = describe_crash(code2, err2), []
        return {"violation": True, "message": msg, "choices": choices, "trace": trace, "property": prop,
                "scenario": scenario, "stderr": err2[-4000:]}
    return {"error": f"{prop}/{scenario}: harness ended with {code}: {err[-2000:]}"}


def scenario_list(exe):
    r = run_proc([exe, "--list"], 120)
    if r is None or r[0] != 0:
        raise RuntimeError(f"{exe} --list failed: {r}")
    res = []
    for line in r[1].splitlines():
        p, n, shards, thorough, rule = line.split("\t", 4)
        res.append((p, n, int(shards), thorough == "1", rule))
    return res


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def report_violation(prop, record):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9_.-]", "_", f"{prop}-{record.get('scenario', 'build')}")
    path = os.path.join(d, name + ".json")
    with open(path, "w") as f:
        json.dump(record, f, indent=1)
    print(f"{prop}: {record.get('message', '')}")
    for l in record.get("trace", [])[-40:]:
        print("   ", l)
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def check(prop, tier):
    t0 = time.time()
    spec = PROPERTIES[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        exes = build(spec["harnesses"])
    except BuildError as e:
        pure = HARNESSES[e.harness].get("pure", False)
        lines = [l for l in e.log.splitlines() if "error" in l or "undefined reference" in l]
        sys.stderr.write("\n".join(l[:300] for l in lines[:12]) + "\n")
        if pure:
            report_violation(prop, {"property": prop, "scenario": "build", "message":
                             "a public interface can no longer be instantiated by its users (does not compile)",
                             "trace": [l for l in e.log.splitlines() if "error" in l][:20]})
            return 1
        print(f"ERROR: {e}", flush=True)
        return 2
    build_s = time.time() - t0
    tasks = []
    rules = []
    for h in spec["harnesses"]:
        exe = exes[h]
        for p, n, shards, th, rule in scenario_list(exe):
            if p != prop or (th and tier != "thorough"):
                continue
            rules.append(f"{n}: {rule}" if rule else n)
            for s in range(shards):
                tasks.append((h, exe, n, s, shards))
    if not tasks:
        print(f"ERROR: no scenario for {prop}")
        return 2
    tmp = tempfile.mkdtemp(prefix="verif-", dir=BUILD)
    budget = spec.get("budget", {}).get(tier, 0)
    hang = spec.get("hang", 30)
    results, bad, errors = [], None, []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(run_task, exe, prop, n, tier, s, shards, tmp, budget, hang): (h, n, s)
                    for h, exe, n, s, shards in tasks}
            for f in cf.as_completed(futs):
                h, n, s = futs[f]
                r = f.result()
                r["harness"] = h
                if r.get("violation"):
                    if bad is None:
                        bad = r
                    STOP.set()
                    with LOCK:
                        for p in list(PROCS):
                            kill(p)
                elif r.get("error"):
                    errors.append(r["error"])
                elif not r.get("stopped"):
                    results.append(r)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    agg = {"executions": 0, "transitions": 0, "checks": 0, "pruned": 0, "complete": 0}
    states, outcomes = 0, 0
    capped = False
    per = {}
    hs, ho = {}, {}
    samples = []
    for r in results:
        for k in agg:
            agg[k] += r[k]
        capped |= r["capped"]
        p = per.setdefault(r["scenario"], {"executions": 0, "transitions": 0, "states": 0, "outcomes": 0, "max_depth": 0, "wall_s": 0.0, "capped": False})
        p["executions"] += r["executions"]
        p["transitions"] += r["transitions"]
        p["max_depth"] = max(p["max_depth"], r["max_depth"])
        p["wall_s"] = round(max(p["wall_s"], r["wall_s"]), 2)
        p["capped"] |= r["capped"]
        if r["shards"] > 1:
            hs.setdefault(r["scenario"], set()).update(r["state_hashes"])
            ho.setdefault(r["scenario"], set()).update(r["outcome_hashes"])
        else:
            p["states"] += r["states"]
            p["outcomes"] += r["outcomes"]
        if r["shard"] == 0 and r["samples"]:
            samples.append({"scenario": r["scenario"], "trace": r["samples"][-1]})
    for k in per:
        if k in hs:
            per[k]["states"] = len(hs[k])
            per[k]["outcomes"] = len(ho[k])
        states += per[k]["states"]
        outcomes += per[k]["outcomes"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    level = spec["level"]
    cov = {"samples": samples[:12] or [{"note": "no passing execution"}], "scenarios": per,
           "exhaustive": bool(not capped and not bad and not errors),
           "property_evaluations": agg["checks"], "pruned_by_state_matching": agg["pruned"],
           "rule": "; ".join(rules)}
    if level == "model_checking":
        cov.update(states=states, transitions=agg["transitions"],
                   traces_validated_against_impl=agg["complete"], distinct_outcomes=outcomes)
    else:
        cov.update(evaluations=agg["complete"], distinct_nontrivial=outcomes, states=states, transitions=agg["transitions"])
        cov["rule"] += ". Non-trivial and distinct: counted by the hash of what the code under test answered."
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2),
          "violations": 1 if bad else 0, "violation_message": bad["message"] if bad else None}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        bad["tier"] = tier
        report_violation(prop, bad)
        return 1
    if errors:
        print("ERROR:", "\n".join(errors), flush=True)
        return 2
    for k in known_findings(prop):
        if k.get("status") != "fixed":
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: held; {agg['complete']} executions, {agg['transitions']} transitions, {states} states, "
          f"{outcomes} distinct outcomes, {agg['checks']} checks, {time.time()-t0:.1f} s (build {build_s:.1f} s)"
          + (" [time-capped]" if capped else ""))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if r.get("scenario") == "build":
        print("build failure; run the check again")
        return 1
    exe = build([r["harness"]])[r["harness"]]
    cmd = [exe, "--property", r["property"], "--scenario", r["scenario"], "--tier", r.get("tier", "quick"),
           "--replay", ",".join(map(str, r["choices"]))]
    return subprocess.run(cmd, env=run_env()).returncode


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        try:
            build(a[1:] or list(HARNESSES))
        except BuildError as e:
            lines = [l for l in e.log.splitlines() if "error" in l or "undefined reference" in l]
            print(e, "\n" + "\n".join(l[:300] for l in lines[:12]))
            return 2
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main())
