#!/usr/bin/env python3
"""quiet.py SPEC.py [-c CHECKS] [ids…]: applies behaviour-preserving edits to scratch clones and runs the checks, which have to stay quiet."""
import sys, os, json, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
args = sys.argv[1:]
checks = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
if "-c" in args:
    i = args.index("-c"); checks = args[i + 1].split(","); del args[i:i + 2]
refs = runpy.run_path(args[0])["REFS"]
ids = args[1:]
def one(b):
    r = "/tmp/mut/q-" + b["id"]
    shutil.rmtree(r, ignore_errors=True)
    sh("mkdir -p /tmp/mut; git clone -q --shared /repo %s" % r)
    out = []
    for f, old, new in b["edits"]:
        p = r + "/" + f
        s = open(p).read()
        if s.count(old) != b.get("count", 1) and not b.get("multi"):
            shutil.rmtree(r, ignore_errors=True)
            return "%-28s EDIT %d matches of %r" % (b["id"], s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    c = sh("cd %s && for t in %s; do g++ -std=c++17 -fsyntax-only -I include -I src $t || exit 1; done" % (r, b.get("compile", "")))
    if c.returncode: out.append("COMPILE " + c.stderr[:300])
    for k in checks if not c.returncode else ():
        c = sh("cd %s && VERIF_REPO=%s timeout 900 python3 sa/check.py %s" % (V, r, k))
        if c.returncode:
            rules = [l.split()[1] for l in c.stdout.splitlines() if l.startswith("  rule")]
            out.append("%s:%d %s" % (k, c.returncode, " ".join(rules[:4]) if rules else c.stdout[-150:] + c.stderr[-300:]))
    shutil.rmtree(r, ignore_errors=True)
    return "%-28s %s" % (b["id"], "; ".join(out) or "quiet")
todo = [b for b in refs if not ids or b["id"] in ids]
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, todo): print(r, flush=True)
