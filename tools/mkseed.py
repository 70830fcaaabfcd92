#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG FLAGS SPEC.json: makes seeded/ID from edits [(file, old, new)], a demo test and texts,
after checking in a scratch copy that it builds, passes the tests, and that the demo tells it apart."""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(cmd, cwd, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace")

def make(sid, prop, edits, demo, needs, breaks, pkg="", flags=""):
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        r = w + "/repo"
        d = w + "/d"
        os.makedirs(d)
        t = open(H + "/tools/demo_template.sh").read().replace("@PKG@", '"%s"' % pkg).replace("@FLAGS@", flags)
        open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(demo)
        rc0, o0 = run(d + "/demo.sh", r)
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(r + "/" + f, "w").write(s.replace(old, new))
        rc, diff = run("git diff", r)
        gp = w + "/gp/src/github.com/mit-dci"
        os.makedirs(gp); os.symlink(r, gp + "/zksigma")
        env = "cd %s/zksigma && HOME=/root GO111MODULE=off GOPATH=%s/gp GOFLAGS= GOPROXY=off GOWORK=off " % (gp, w)
        rc1, o1 = run(env + "go build . ./btcec ./wire", r)
        rc2, o2 = run(env + "go test -vet=off -count=1 . ./btcec ./wire", r)
        rc3, o3 = run(d + "/demo.sh", r)
        ok = rc0 == 0 and rc1 == 0 and rc2 == 0 and rc3 != 0
        print(sid, "demo before:", rc0, "build:", rc1, "tests:", rc2, "demo after:", rc3, "OK" if ok else "BAD")
        if not ok:
            for n, o, x in (("before", o0, rc0), ("build", o1, rc1), ("tests", o2, rc2), ("after", o3, rc3)):
                if (n == "after") == (x == 0):
                    print("---", n, o[-1500:])
            return False
        out = H + "/seeded/" + sid
        os.makedirs(out, exist_ok=True)
        for f in ("demo.sh", "demo_test.go"):
            shutil.copy(d + "/" + f, out + "/" + f)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
