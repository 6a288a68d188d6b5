#!/usr/bin/env python3
"""all.py [prefix…]: runs the check of every planted bug (or of those whose id or property starts with a prefix) against a scratch copy carrying it."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
ids = sorted(i for i in os.listdir(V + "/seeded") if os.path.exists(V + "/seeded/" + i + "/meta.json"))
def one(i):
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    if len(sys.argv) > 1 and not any(i.startswith(a) or m["property"].startswith(a) for a in sys.argv[1:]): return None
    r = "/tmp/mut/a-" + i
    shutil.rmtree(r, ignore_errors=True)
    sh("mkdir -p /tmp/mut; git clone -q --shared /repo %s" % r if not os.path.exists(r) else "true")
    a = sh("git -C %s apply %s/patch.diff" % (r, d))
    c = sh("cd %s && VERIF_REPO=%s timeout 900 python3 sa/check.py %s" % (V, r, m["property"]))
    shutil.rmtree(r, ignore_errors=True)
    rules = [l.split()[1] for l in c.stdout.splitlines() if l.startswith("  rule")]
    return "%-34s %s %s %s" % (i, m["property"], "NOAPPLY" if a.returncode else {0: "missed", 1: "CAUGHT"}.get(c.returncode, "BROKEN " + c.stdout[-200:]), " ".join(rules[:3]))
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, ids):
        if r: print(r, flush=True)
