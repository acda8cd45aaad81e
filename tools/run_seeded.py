#!/usr/bin/env python3
"""Development aid: runs every planted bug's check on a copy of /repo with the bug and notes what is reported in tools/seeded_results.json.
run_seeded.py [WORKERS [ids...]]"""
import json, os, re, subprocess, sys, shutil
from multiprocessing.pool import ThreadPool
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = int(sys.argv[1]) if len(sys.argv) > 1 else 1; only = sys.argv[2:]
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
out = H + "/tools/seeded_results.json"
try: res = json.load(open(out))
except OSError: res = {}
ids = [d for d in sorted(os.listdir(H + "/seeded")) if not only or d in only]
free = list(range(W))
def one(d):
    w = free.pop(); R = "/tmp/rs/r%d" % w; V = "/tmp/rs/v%d" % w
    try:
        if not os.path.exists(R): sh("mkdir -p /tmp/rs; git clone -q /repo %s; mkdir %s; cd %s && tar cf - --exclude .git --exclude seeded --exclude build . | tar xf - -C %s" % (R, V, H, V))
        sh("git -C %s checkout -q -- ." % R); a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, H, d))
        if a.returncode: return d, "patch does not apply"
        p = json.load(open(H + "/seeded/%s/meta.json" % d))["property"]; o = sh("cd %s && CAITLYN_REPO=%s timeout 890 python3 run.py %s quick" % (V, R, p))
        if o.returncode == 1 and "VIOLATION property=" + p in o.stdout:
            m = re.findall(r"VIOLATED \[([^\]]*)\]|signature: (.*)", o.stdout); s = [x[0] or x[1] for x in m]; return d, "%s (%s)" % (p, s[-1][:50] if s else "compile")
        return d, "MISSED (rc %d)" % o.returncode
    finally: free.append(w)
shutil.rmtree("/tmp/rs", ignore_errors=True)
for d, r in ThreadPool(W).imap_unordered(one, ids): res[d] = r; print(d, r, flush=True)
res = {d: r for d, r in res.items() if os.path.exists(H + "/seeded/" + d)}
json.dump(res, open(out, "w"), indent=1, sort_keys=True); shutil.rmtree("/tmp/rs", ignore_errors=True)
