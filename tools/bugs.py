#!/usr/bin/env python3
"""bugs.py [id ...]: run the check of each planted bug's property on a scratch copy with the bug applied"""
import os, sys, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
CHK = os.environ.get("CHECKS")
def one(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="bug")
    try:
        subprocess.check_call(["git", "clone", "-q", "-s", "/repo", w + "/r"])
        subprocess.check_call(["cp", "-r", V + "/vc", V + "/oracle", w + "/"])
        if os.path.exists(V + "/known-findings.txt"):
            shutil.copy(V + "/known-findings.txt", w)
        subprocess.check_call(["git", "-C", w + "/r", "apply", d + "/patch.diff"])
        out = ""
        for c in (CHK or m["property"]).split(","):
            p = subprocess.run(["python3-vt", w + "/vc/check.py", c, "quick"], cwd=w, env=dict(os.environ, VERIF_REPO=w + "/r", VERIF_JOBS="4"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out += p.stdout.decode(errors="replace")
            if p.returncode:
                rp = w + "/replays/%s.txt" % c
                if os.path.exists(rp):
                    out += "\n".join("      " + l[:200] for l in open(rp).read().splitlines()[2:9]) + "\n"
        return i, m["property"], out
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
    for i, p, out in ex.map(one, ids):
        print("== %s (%s): %s" % (i, p, ("CAUGHT" + (" (no input)" if "no-failing-input" in out else "")) if "VIOLATION" in out else "MISSED"))
        print("   " + out.strip().replace("\n", "\n   ")[:1500], flush=True)
