#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check): mutate.py WORKERS OUT [file-regex [limit-per-file]]
Mutates the library in private copies, runs the checks mapped to the file until one reports a violation, and for
mutants no check reports, the repository's own tests. Results: one JSON line per mutant in OUT."""
import sys, os, re, json, subprocess, shutil, random, multiprocessing as mp
W = int(sys.argv[1]); OUT = sys.argv[2]; RX = sys.argv[3] if len(sys.argv) > 3 else "."; LIM = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
ROOT = "/tmp/mut"
MAP = [("__Core/Char/Char.h", "C01 C05"), ("__Core/Char/Utility.h", "C06 C31"), ("__Core/String/String.h", "C04 C03 C02 C05 C07 C06"), ("StringBuilder.h", "C08"), ("String/Utility.h", "C09 C13"),
       ("Kmp.h", "C04"), ("BigInteger.h", "C10 C11"), ("BigFloat.h", "C12"), ("JsonParser.h", "C13 C14"), ("JsonData.h", "C16 C15 C17 C13"), ("Json.h", "C16 C14 C13"), ("Serializing/Json/Utility.h", "C14"), ("Expected.h", "C18 C19"), ("Unexpected.h", "C18"),
       ("UniquePointer.h", "C20"), ("SharedPointer.h", "C20 C22 C21"), ("WeakPointer.h", "C22 C21"), ("RawPointer.h", "C20"), ("File.h", "C23 C24"), ("Stream.h", "C25"), ("__Testing/", "C26 C27"), ("Random.h", "C28"), ("Comparators.h", "C29"), ("MapUtility.h", "C33"), ("/Traits/", "C30"), ("SizeCalculation.h", "C36"), ("Limits.h", "C36"), ("__Caitlyn/Types.h", "C36"), ("Application.h", "C35 C39"), ("Memory/", "C20"), ]
OPS = [(r"(?<![=!<>+\-*/&|])==(?!=)", "!="), (r"!=", "=="), (r"(?<![<\-])<=", "<"), (r"(?<![>\-])>=", ">"), (r" < ", " <= "), (r" > ", " >= "), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"--(?=\w)", "++"), (r"(?<=[( ])!(?=[\w(])", ""), (r"\bmin\b(?=[(<])", "max"), (r"\bmax\b(?=[(<])", "min"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"), (r"\b(0x[0-9A-F]+|[1-9]\d+)\b", None), (r" \+= ", " -= "), (r" -= ", " += "), (r"\bbegin\(", "rbegin("), (r"nullptr;", "nullptr; //"), (r"std::move\(([\w.]+)\)", r"\1"), (r"\bcontinue;", "break;"), (r"\bbreak;", ""), (r"acq_rel", "relaxed"), (r"acquire", "relaxed")]
def muts(path, text):
    lines = text.split("\n"); out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("#", "//", "template", "using", "*", "/*", "namespace", "friend", "typename", "__CAITLYN", "static_assert", "class", "struct", "enum", "public", "private")): continue
        code = l.split("//")[0]
        for rx, rep in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                r = (("0x%X" % (int(m.group(0), 0) + 1)) if rep is None else m.expand(rep))
                if "template" in code or ("<typename" in code): continue
                out.append((i, l, l[:m.start()] + r + l[m.end():]))
        if s.endswith(";") and not re.match(r"(return|const|static|auto|typename|SizeType|String|bool|int|char|constexpr|goto|break|continue|case|default|}|using|[A-Z]\w*(<.*>)? \w+( =|\{|;))", s) and re.match(r"[\w*+\-:(]", s):
            out.append((i, l, re.sub(r"\S.*", ";", l)))
        if re.match(r"if \(.*\)$", s): out.append((i, l, re.sub(r"if \(.*\)", "if (true)", l))); out.append((i, l, re.sub(r"if \(.*\)", "if (false)", l)))
        if re.match(r"while \(.*\)$", s): out.append((i, l, re.sub(r"while \((.*)\)", r"if (\1)", l)))
    seen = set(); res = []
    for t in out:
        if (t[0], t[2]) not in seen and t[1] != t[2]: seen.add((t[0], t[2])); res.append(t)
    return res
def sh(c, to=None, env=None):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=to, env=env); return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else ""
def work(job):
    rel, i, a, b, checks, n = job
    w = mp.current_process()._identity[0] % W; R = "%s/r%d" % (ROOT, w); V = "%s/v%d" % (ROOT, w); p = R + "/include/Caitlyn/" + rel; orig = open("/repo/include/Caitlyn/" + rel).read(); L = orig.split("\n"); assert L[i] == a; L[i] = b; open(p, "w").write("\n".join(L))
    res = dict(file=rel, line=i + 1, old=a.strip(), new=b.strip())
    try:
        env = dict(os.environ, CAITLYN_REPO=R)
        if n != "full": env.update(MC_BUDGET="40", MC_WORKERS="1")
        for c in checks.split():
            rc, o = sh("cd %s && timeout -k 5 400 python3 run.py %s quick" % (V, c), 450, env)
            if rc == 1 and "VIOLATION property=" in o:
                if ".compile.txt" in o: res["verdict"] = "build"
                else:
                    m = re.findall(r"VIOLATED \[.*", o); res["verdict"] = "killed"; res["by"] = c; res["why"] = (m[-1] if m else "")[:120]
                return res
            if rc != 0: res["verdict"] = "noanswer"; res["by"] = c; res["why"] = o[-200:]; return res
        rc, o = sh("bash %s/test%d.sh %s/o%d.json" % (ROOT, w, ROOT, w), 400); t = o.strip().split("\n")[-1]
        res["verdict"] = "SURVIVED" if t.startswith("41 passed, 0 failed") else "tests"; res["why"] = t[-100:]
        return res
    finally: open(p, "w").write(orig)
def main():
    shutil.rmtree(ROOT, ignore_errors=True); os.makedirs(ROOT)
    for w in range(W):
        sh("cp -a /repo %s/r%d; rm -rf %s/r%d/_build; mkdir %s/v%d; cd /verif; tar cf - --exclude .git --exclude seeded --exclude build . | tar xf - -C %s/v%d" % (ROOT, w, ROOT, w, ROOT, w, ROOT, w))
        for n in ("build", "test"):
            t = open("/opt/vp/%s.sh" % n).read().replace("/opt/vp/build.sh", "%s/build%d.sh" % (ROOT, w)).replace("/repo", "%s/r%d" % (ROOT, w)); open("%s/%s%d.sh" % (ROOT, n, w), "w").write(t)
    jobs = []; rnd = random.Random(7)
    for d, _, fs in os.walk("/repo/include/Caitlyn"):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), "/repo/include/Caitlyn")
            if not re.search(RX, rel): continue
            ck = [c for k, c in MAP if k in rel]
            if not ck: continue
            m = muts(rel, open(os.path.join(d, f)).read())
            if len(m) > LIM: m = rnd.sample(m, LIM)
            jobs += [(rel, i, a, b, ck[0], n) for n, (i, a, b) in enumerate(m)]
    if os.environ.get("COUNT"): 
        from collections import Counter
        for k, v in sorted(Counter(j[0] for j in jobs).items()): print(v, k)
        print(len(jobs)); return
    if os.environ.get("FULL"):   # the survivors of an earlier campaign again, with the full quick checks
        jobs = []
        for l in open(os.environ["FULL"]):
            r = json.loads(l)
            if r["verdict"] == "SURVIVED":
                src = open("/repo/include/Caitlyn/" + r["file"]).read().split("\n"); n = min([i for i, l in enumerate(src) if l.strip() == r["old"]] or [-1], key=lambda i: abs(i - r["line"] + 1))
                if n >= 0: jobs.append((r["file"], n, src[n], r["new"], [c for k, c in MAP if k in r["file"]][0], "full"))
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT): r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    jobs = [j for j in jobs if (j[0], j[1] + 1, j[3].strip()) not in done]; rnd.shuffle(jobs)
    with mp.Pool(W) as pool, open(OUT, "a") as f:
        for r in pool.imap_unordered(work, jobs): f.write(json.dumps(r) + "\n"); f.flush()
main()
