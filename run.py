#!/usr/bin/env python3
"""Build and run one check:  run.py <property id> [quick|thorough]   |   run.py --replay <file>   |   run.py --setup"""
import hashlib, json, os, subprocess, sys, tempfile, time, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CAITLYN_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

BUILD = os.path.join(HERE, "build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["-std=c++11", "-g0", "-w", "-include", "cstdint", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "harness")]
LIBDBG = ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=0:symbolize=0:quarantine_size_mb=4:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0:symbolize=0", LC_ALL="C", TZ="UTC")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_objs(jobs):
    """jobs: list of (src, obj, cmd). Cached by the hash of the preprocessed source. Returns (ok, log)."""
    os.makedirs(BUILD, exist_ok=True)
    procs = []
    for src, obj, cmd in jobs:
        pre = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode == 0:
            key = hashlib.sha256(pre.stdout + repr(cmd).encode()).hexdigest()
            try:
                if open(obj + ".key").read() == key and os.path.exists(obj):
                    continue
            except OSError:
                pass
        else:
            key = None
        for f in (obj, obj + ".key"):
            if os.path.exists(f):
                os.remove(f)
        procs.append((src, obj, key, subprocess.Popen(cmd + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    ok, log = True, ""
    for src, obj, key, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            ok = False
            log += "== %s\n%s\n" % (src, out)
        elif key:
            with open(obj + ".key", "w") as f:
                f.write(key)
    return ok, log


def sources(b):
    return [b["src"]] + b.get("extra", [])


def build(pid, b):
    """Build one harness binary.  Returns (binary or None, log)."""
    cxx = b.get("cxx", "g++")
    std = b.get("std")
    base = [x for x in BASE]
    if std:
        base[0] = "-std=" + std
    san = b.get("san", SAN)
    if b.get("sched"):
        return build_sched(b, base)
    opt = b.get("opt", "-O1")
    flags = base + [opt] + san + b.get("lib", LIBDBG) + b.get("flags", [])
    name = b.get("name", os.path.basename(b["src"]).rsplit(".", 1)[0])
    jobs = []
    objs = []
    for s in sources(b):
        src = os.path.join(HERE, s)
        obj = os.path.join(BUILD, "%s.%s.o" % (name, os.path.basename(s)))
        jobs.append((src, obj, [cxx] + flags))
        objs.append(obj)
    for s, fl in b.get("plain", []):
        src = os.path.join(HERE, s)
        obj = os.path.join(BUILD, "%s.%s.o" % (name, os.path.basename(s)))
        jobs.append((src, obj, [b.get("plain_cxx", cxx)] + fl + ["-I" + os.path.join(HERE, "mc")]))
        objs.append(obj)
    if b.get("main", True):
        src = os.path.join(HERE, "mc/main.cpp")
        obj = os.path.join(BUILD, "main.%s.o" % ("san" if san else "plain"))
        jobs.append((src, obj, ["g++", "-std=c++11", "-g0", "-w", "-O1", "-I" + os.path.join(HERE, "mc")] + (SAN if san else [])))
        objs.append(obj)
    ok, log = compile_objs(jobs)
    if not ok:
        return None, log
    exe = os.path.join(BUILD, name + ".exe")
    r = sh([b.get("ld", cxx)] + san + objs + ["-o", exe, "-lpthread"] + b.get("link", []))
    if r.returncode != 0:
        return None, r.stdout
    return exe, ""


WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock",
        "pthread_rwlock_unlock", "pthread_once", "sched_yield", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "memcmp", "strlen", "memchr"]


def build_sched(b, base):
    """A harness run under the controlled scheduler: instrumented by clang for ThreadSanitizer, linked with mc/sched.cpp instead of its runtime."""
    inst = ["clang++"] + base + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DMC_NO_ALLOC_HOOK"] + b.get("flags", [])
    name = b.get("name", os.path.basename(b["src"]).rsplit(".", 1)[0])
    jobs, objs = [], []
    for s in sources(b):
        obj = os.path.join(BUILD, "%s.%s.o" % (name, os.path.basename(s)))
        jobs.append((os.path.join(HERE, s), obj, inst))
        objs.append(obj)
    obj = os.path.join(BUILD, "main.sched.o")
    jobs.append((os.path.join(HERE, "mc/main.cpp"), obj, inst))
    objs.append(obj)
    obj = os.path.join(BUILD, "sched.o")
    jobs.append((os.path.join(HERE, "mc/sched.cpp"), obj, ["g++", "-std=c++11", "-g0", "-w", "-O2", "-DMC_NO_ALLOC_HOOK", "-fno-builtin-memcmp", "-fno-builtin-strlen", "-I" + os.path.join(HERE, "mc")]))
    objs.append(obj)
    ok, log = compile_objs(jobs)
    if not ok:
        return None, log
    exe = os.path.join(BUILD, name + ".exe")
    r = sh(["g++"] + objs + ["-o", exe, "-lpthread"] + ["-Wl,--wrap=" + w for w in WRAP] + b.get("link", []))
    return (exe, "") if r.returncode == 0 else (None, r.stdout)


def toolchain_ok():
    os.makedirs(BUILD, exist_ok=True)
    t = os.path.join(BUILD, "sanity.cpp")
    with open(t, "w") as f:
        f.write("#include <string>\n#include <vector>\nint main(){std::vector<std::string> v(1);return (int)v[0].size();}\n")
    r = sh(["g++", "-std=c++11"] + SAN + [t, "-o", t + ".exe"])
    return r.returncode == 0


def known_for(pid):
    res = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt"), errors="replace"):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) sig=(.*?) :: (.*)$", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def violation(pid, name, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.%s.txt" % (pid, name))
    with open(p, "w") as f:
        f.write(text)
    print(text[:2500])
    print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, HERE)))
    sys.stdout.flush()


def run_check(pid, tier):
    c = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_for(pid)
    budget = float(os.environ.get("MC_BUDGET") or c.get("budget", {}).get(tier, 240 if tier == "quick" else 3000))
    rc = 0
    stats = []
    bins = [b for b in c["bins"] if tier == "thorough" or not b.get("thorough_only")]
    for b in bins:
        exe, log = build(pid, b)
        if exe is None:
            if toolchain_ok():
                violation(pid, "compile", "property %s\nA client program that uses only the library's public interface (%s) no longer compiles or links against the current tree:\n%s" % (pid, b["src"], log[:8000]))
                rc = 1
                break
            print("toolchain failure\n" + log[:2000])
            return 2
        out = os.path.join(BUILD, "%s.%s.stats.json" % (pid, os.path.basename(exe)))
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "--tier", tier, "--property", pid, "--out", out, "--replay-dir", "replays", "--budget", str(budget / len(bins)), "--workers", os.environ.get("MC_WORKERS") or "8"] + b.get("args", [])
        for sig, _ in known:
            cmd += ["--known", sig]
        if b.get("only"):
            cmd += ["--only", b["only"]]
        env = dict(ENV, VERIF_SEED=str(seed), VERIF_TIER=tier, MC_VERIF=HERE)
        env.update(b.get("env", {}))
        p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if b.get("quiet") else subprocess.STDOUT, text=True, errors="replace")
        viol = False
        for line in p.stdout:
            if line.startswith("VIOLATION "):
                viol = True
            sys.stdout.write(line)
        p.wait()
        if viol or p.returncode == 1:
            if not viol:
                violation(pid, "run", "property %s: %s reported failure without detail" % (pid, b["src"]))
            rc = 1
        elif p.returncode != 0:
            print("harness %s ended with status %s" % (b["src"], p.returncode))
            return 2
        try:
            st = json.load(open(out))
            st["bin"] = os.path.basename(b["src"])
            stats.append(st)
        except (OSError, ValueError):
            print("no statistics from %s" % b["src"])
            if rc == 0:
                return 2
        if rc:
            break
    seen = {}
    for st in stats:
        for k, v in st.get("known", {}).items():
            seen[k] = seen.get(k, 0) + v
    if rc == 0:
        for sig, text in known:
            if seen.get(sig):
                print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (pid, text, seen[sig]))
    write_evidence(pid, c, tier, seed, stats, time.time() - t0, rc, seen)
    print("%s %s: %s in %.1fs" % (pid, tier, "held on everything explored" if rc == 0 else "VIOLATED", time.time() - t0))
    return rc


def write_evidence(pid, c, tier, seed, stats, wall, rc, seen):
    def tot(k):
        return sum(int(s.get(k, 0)) for s in stats)
    samples, sections = [], []
    for s in stats:
        for x in s.get("sections", []):
            sections.append({k: v for k, v in x.items() if k != "samples"})
            for t in x.get("samples", [])[:1]:
                samples.append({"section": x["name"], "history": t})
    samples = samples[:12]
    cov = {"exhaustive": bool(stats) and all(s.get("exhaustive") for s in stats), "samples": samples, "sections": sections,
           "distinct_outcomes": tot("outcomes"), "bounds": c.get("bounds", {}).get(tier, c.get("bounds", {}).get("quick", "")),
           "unreproduced_worker_deaths": tot("unreproduced")}
    if c["level"] == "fault_enumeration":
        cov.update(evaluations=tot("executions"), distinct_nontrivial=tot("states"), rule=c["rule"], comparisons=tot("transitions"))
    else:
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"))
        if c.get("rule"):
            cov["rule"] = c["rule"]
    if seen:
        cov["known_findings_observed"] = {k: v for k, v in seen.items() if v}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if rc else 0}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    path = os.path.join(HERE, path) if not os.path.isabs(path) else path
    pid = os.path.basename(path).split(".")[0]
    sec = os.path.basename(path).split(".")[1]
    for b in CHECKS[pid]["bins"]:
        exe, log = build(pid, b)
        if exe is None:
            print(log)
            return 1
        names = sh([exe, "--list"], env=ENV).stdout.split()
        if sec in names:
            return subprocess.run([exe, "--replay", path, "--property", pid] + b.get("args", []), cwd=HERE, env=dict(ENV, MC_VERIF=HERE, **b.get("env", {}))).returncode
    print("no binary has section", sec)
    return 2


def main():
    if sys.argv[1] == "--setup":
        sys.exit(0 if toolchain_ok() else 1)
    scratch = tempfile.mkdtemp(prefix="caitlyn-mc-")
    ENV["MC_SCRATCH"] = scratch
    try:
        if sys.argv[1] == "--replay":
            rc = replay(sys.argv[2])
        else:
            rc = run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
