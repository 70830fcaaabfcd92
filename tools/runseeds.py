#!/usr/bin/env python3
"""runseeds.py [ID...]: runs each planted bug's check against a scratch copy of /repo with the bug."""
import json, os, subprocess, sys, tempfile, shutil, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(H + "/seeded/*"))
for i in ids:
    d = H + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="rs-")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=w + "/repo")
        e = dict(os.environ, VC_REPO=w + "/repo", VC_OUT=w)
        r = subprocess.run([H + "/check.py", prop, "--tier", "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode("utf8", "replace").strip().split("\n")
        v = [l for l in o if l.startswith("VIOLATION")]
        print("%-24s %s exit %d %s" % (i, prop, r.returncode, "CAUGHT" + (" (no input)" if "no-failing" in v[0] else " with input") if v else "MISSED"))
        for l in o:
            if not l.startswith("VIOLATION"):
                print("      " + l[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.stdout.flush()
