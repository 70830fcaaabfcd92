#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]: decide one property of /repo's current tree."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
OUT = os.environ.get("VC_OUT", HERE)
sys.path.insert(0, HERE)
IMPORT = "github.com/mit-dci/zksigma"


def sh(cmd, env=None, cwd=None, timeout=None):
    try:
        r = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf-8", "replace") + "\n[timeout]"


def goenv(work):
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME") or "/root", GO111MODULE="off", GOPATH=work + "/gopath", GOFLAGS="", GOPROXY="off",
             GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED=os.environ.get("CGO_ENABLED", "1"))
    return e


def exporter(work):
    src = HERE + "/ssaexport"
    h = hashlib.sha256()
    for f in sorted(glob.glob(src + "/*.go")) + [src + "/go.mod"]:
        h.update(open(f, "rb").read())
    out = "%s/.cache/ssaexport-%s" % (HERE, h.hexdigest()[:16])
    if os.path.exists(out):
        return out, ""
    e = goenv(work)
    e.pop("GO111MODULE"); e.pop("GOPATH")
    rc, log = sh(["go", "build", "-mod=vendor", "-o", work + "/ssaexport", "."], env=e, cwd=src, timeout=600)
    if rc:
        return None, log
    try:
        os.makedirs(HERE + "/.cache", exist_ok=True)
        shutil.copy(work + "/ssaexport", out + ".tmp%d" % os.getpid())
        os.rename(out + ".tmp%d" % os.getpid(), out)
        return out, ""
    except OSError:
        return work + "/ssaexport", ""


def export(work):
    exe, log = exporter(work)
    if exe is None:
        return None, "building the exporter failed: " + log[-2000:]
    rc, log = sh(["sh", "-c", '"$0" "$1" > "$2" 2> "$2.err"', exe, REPO, work + "/ssa.json"], env=goenv(work), cwd=REPO, timeout=300)
    if rc:
        return None, "exporting the code failed: " + open(work + "/ssa.json.err").read()[-2000:]
    return work + "/ssa.json", ""


# ------------------------------------------------------------------ proofs

PROG = None


def run_section(i, pid):
    from vc import registry
    from vc.oblig import Proof
    from vc.logic import STATS
    t0 = time.time()
    name, fn, args = registry.SPECS[pid].sections[i]
    p = Proof(PROG)
    try:
        p.section(name, fn, *args)
    except Exception:
        p.undecided(name, "internal: " + traceback.format_exc()[-2500:])
    p.finish()
    return dict(obs=[(o.name, o.status, o.detail, o.backend) for o in p.obs], contracts=sorted(p.contracts),
                models=sorted(p.models), functions=sorted(p.functions), notes=sorted(p.notes),
                z3=STATS.get("z3_calls", 0), z3_s=STATS.get("z3_time", 0.0), wall=time.time() - t0, name=name)


def run_proofs(pid, ssa, limit):
    global PROG
    from vc import registry
    from vc.ssa import Program
    sys.setrecursionlimit(20000)
    spec = registry.SPECS[pid]
    if not spec.sections:
        return []
    PROG = Program(ssa)
    res = []
    ex = ProcessPoolExecutor(max_workers=min(8, len(spec.sections)), mp_context=mp.get_context("fork"))
    futs = {ex.submit(run_section, i, pid): i for i in range(len(spec.sections))}
    done = set()
    try:
        for f in as_completed(futs, timeout=limit):
            done.add(f)
            try:
                res.append(f.result())
            except Exception as e:
                n = spec.sections[futs[f]][0]
                res.append(dict(obs=[(n, "undecided", "the prover process ended: %s" % e, "")], contracts=[], models=[], functions=[],
                                notes=[], z3=0, z3_s=0.0, wall=0, name=n))
    except TimeoutError:
        pass
    for f, i in futs.items():
        if f not in done:
            n = spec.sections[i][0]
            res.append(dict(obs=[(n, "undecided", "time limit of %d s" % limit, "")], contracts=[], models=[], functions=[], notes=[],
                            z3=0, z3_s=0.0, wall=limit, name=n))
    for pr in list((ex._processes or {}).values()):
        try:
            pr.kill()
        except Exception:
            pass
    ex.shutdown(wait=False, cancel_futures=True)
    return res


# ------------------------------------------------------------------ harness

def build_harness(pid, spec, work, hpkg, files):
    """go test -c with the harness files in an overlay; returns (binary, log)"""
    if not spec.harness:
        return None, "no harness"
    pkg = {"zksigma": "", "btcec": "/btcec", "wire": "/wire"}[hpkg]
    d = work + "/gopath/src/" + IMPORT + pkg
    rep, optional = {}, []
    for f in [x for x in os.listdir("%s/harness/%s" % (HERE, hpkg)) if x in ("common_test.go", "csigma_test.go")] + files:
        rep["%s/zz_vc_%s" % (d, f)] = "%s/harness/%s/%s" % (HERE, hpkg, f)
        if f.endswith("_int_test.go"):
            optional.append("%s/zz_vc_%s" % (d, f))     # uses unexported functions, which may have been renamed
    # the repository's own test files are not needed, and a changed one must not get in the way
    for f in glob.glob(REPO + pkg + "/*_test.go"):
        rep["%s/%s" % (d, os.path.basename(f))] = ""
    ov = "%s/overlay-%s-%s.json" % (work, pid, hpkg)
    json.dump({"Replace": rep}, open(ov, "w"))
    out = "%s/harness-%s-%s" % (work, pid, hpkg)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if spec.race:
        cmd.append("-race")
    rc, log = sh(cmd + [IMPORT + pkg], env=goenv(work), cwd=d, timeout=600)
    if rc and optional:
        for f in optional:
            del rep[f]
        json.dump({"Replace": rep}, open(ov, "w"))
        rc, log = sh(cmd + [IMPORT + pkg], env=goenv(work), cwd=d, timeout=600)
    if rc or not os.path.exists(out):
        return None, log
    return out, ""


def consts_of(ssa):
    try:
        t = open(ssa).read()
    except Exception:
        return ""
    vals = set()
    for m in re.finditer(r'"(?:const|int|value|v)":\s*"(-?\d{1,90})"', t):
        vals.add(int(m.group(1)))
    vals |= {int(m.group(1), 16) for m in re.finditer(r'"([0-9a-fA-F]{40,80})"', t)}
    big = sorted(v for v in vals if abs(v) > 8)
    return ",".join(map(str, big[:400]))


def run_harness(pid, spec, exe, hpkg, work, tier, seeds, consts, limit):
    """Returns a list of (kind, text) failures, the number of cases, and notes."""
    fails, cases, notes = [], 0, []

    def one(seed):
        cf = "%s/case-%s-%s-%d" % (work, pid, hpkg, seed)
        cwd = "%s/cwd-%s-%d" % (work, hpkg, seed)
        os.makedirs(cwd, exist_ok=True)
        e = goenv(work)
        e.update(VERIF_SEED=str(seed), VC_TIER=tier, VC_CASEFILE=cf, VC_CONSTS=consts, GOMAXPROCS="4", GOTRACEBACK="single",
                 GORACE="halt_on_error=0 exitcode=66", GOMEMLIMIT="6GiB")
        rc, log = sh([exe, "-test.run", "^%s$" % spec.harness, "-test.timeout", "%ds" % limit], env=e, cwd=cwd, timeout=limit + 60)
        return seed, rc, log, (open(cf).read() if os.path.exists(cf) else "")

    with ThreadPoolExecutor(max_workers=4) as tp:
        for seed, rc, log, case in tp.map(one, seeds):
            fl = re.findall(r"^VCFAIL\|([^|]*)\|(.*)$", log, re.M)
            for t, x in fl:
                fails.append(("seed %d" % seed, x))
            m = re.search(r"^VCDONE\|(\d+)$", log, re.M)
            if m:
                cases += int(m.group(1))
            if "WARNING: DATA RACE" in log:
                i = log.index("WARNING: DATA RACE")
                fails.append(("seed %d" % seed, "data race: " + log[i:i + 1500]))
            elif not m and not fl:
                mm = re.search(r"^(panic: .*|fatal error: .*)$", log, re.M)
                if mm and pid == "C33" and "crypto/rand: failed to read random data" in mm.group(1):
                    # crypto/rand.Read ends the program when there is no randomness; these cases come last
                    notes.append("Encrypt ends the program without randomness")
                    continue
                if "[timeout]" in log or "test timed out" in log:
                    # every case has its own hang limit; running out of time as a whole is no verdict
                    notes.append("the harness ran out of time (seed %d)" % seed)
                elif mm:
                    st = [l.strip() for l in log[mm.start():].split("\n") if ".go:" in l and "zz_vc" not in l and "/usr/" not in l][:2]
                    fails.append(("seed %d" % seed, "the process ended: %s %s; case: %s" % (mm.group(1)[:300], " ".join(st), case)))
                else:
                    notes.append("the harness gave no answer (exit %s): %s" % (rc, log[-500:]))
    return fails, cases, notes


# ------------------------------------------------------------------ main

def known_findings(pid):
    out = []
    f = HERE + "/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from vc import registry
    spec = registry.SPECS[pid]
    work = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    try:
        code = decide(pid, spec, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def decide(pid, spec, tier, seed, work, t0):
    os.makedirs(work + "/gopath/src/" + os.path.dirname(IMPORT))
    os.symlink(REPO, work + "/gopath/src/" + IMPORT)
    tp = ThreadPoolExecutor(max_workers=4)
    fb = [(hp, tp.submit(build_harness, pid, spec, work, hp, fl)) for hp, fl in spec.harnesses]
    ssa, err = export(work)
    built = [(hp,) + f.result() for hp, f in fb]
    notes = []
    if ssa is None:
        notes.append(err)
    consts = consts_of(ssa) if ssa else ""
    seeds = [seed] if tier == "quick" else [seed + i for i in range(4)]
    fh = [tp.submit(run_harness, pid, spec, exe, hp, work, tier, seeds, consts, 300 if tier == "quick" else 700) for hp, exe, _ in built if exe]
    plimit = 500 if tier == "quick" else 800
    res = run_proofs(pid, ssa, plimit) if ssa else []
    hf, cases = [], 0
    for f in fh:
        a, b, c = f.result()
        hf += a
        cases += b
        notes += c
    for hp, exe, blog in built:
        if spec.harness and not exe:
            notes.append("the %s harness does not build against this tree, so the verdict rests on the obligations alone: " % hp + blog[-800:])

    obs = [(r["name"], o) for r in res for o in r["obs"]]
    failed = [o for _, o in obs if o[1] == "failed"]
    und = [o for _, o in obs if o[1] == "undecided"]
    ok = [o for _, o in obs if o[1] == "proved"]

    # known findings
    kf = known_findings(pid)
    printed = set()
    unlisted_h = []
    for s, x in hf:
        hit = None
        for key, what in kf:
            if x.startswith("[%s]" % key):
                hit = (key, what)
        if hit:
            printed.add(hit[0])
        else:
            unlisted_h.append((s, x))
    unlisted_p = []
    for o in failed:
        if any(("[%s]" % key) in o[0] for key, _ in kf):
            printed |= {key for key, _ in kf if ("[%s]" % key) in o[0]}
        else:
            unlisted_p.append(o)
    for key, what in kf:
        if key in printed:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))

    violation = bool(unlisted_h or unlisted_p)
    rp = None
    if violation:
        os.makedirs(OUT + "/replay", exist_ok=True)
        rp = "%s/replay/%s.json" % (OUT, pid)
        json.dump(dict(property=pid, tier=tier, seed=seed,
                       failing_inputs=[dict(run=s, input=x) for s, x in unlisted_h[:50]],
                       how_to_replay="cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.py %s  (the harness test %s runs the listed inputs against the real code)"
                       % (seed, tier, pid, spec.harness),
                       failed_obligations=[dict(obligation=o[0], verifier_output=o[2], backend=o[3]) for o in unlisted_p[:60]],
                       undecided=[dict(obligation=o[0], why=o[2]) for o in und[:20]], notes=notes), open(rp, "w"), indent=1)

    cov = dict(obligations=len(ok) + len(failed) + len(und), discharged=len(ok),
               checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, tier),
               undischarged=[o[0] for o in failed] + [o[0] + " (undecided: " + o[2][:200] + ")" for o in und],
               backends={b or "-": sum(1 for o in ok if o[3] == b) for b in sorted({o[3] for o in ok})},
               functions_under_contract=sorted({f for r in res for f in r["functions"]}),
               contracts_used=sorted({f for r in res for f in r["contracts"]}),
               trusted_base=sorted({"model: " + f for r in res for f in r["models"]}) + TRUST + spec.assume,
               solver=dict(z3_calls=sum(r["z3"] for r in res), z3_s=round(sum(r["z3_s"] for r in res), 2),
                           prover_cpu_s=round(sum(r["wall"] for r in res), 2)),
               bounded_conformance=dict(label="bounded: concrete runs of the real code, never counted as proved",
                                        test=spec.harness, cases=cases, failures=len(unlisted_h)),
               samples=[o[0] for o in ok[:12]], notes=notes + sorted({n for r in res for n in r["notes"]}))
    if und:
        cov["bounded_stand_in"] = "obligations out of the verifier's reach on this tree; the bounded conformance run above stands in for them"
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=spec.assume, wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    os.makedirs(OUT + "/evidence", exist_ok=True)
    tmp = "%s/evidence/.%s.%d" % (OUT, pid, os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, "%s/evidence/%s.json" % (OUT, pid))

    print("%s: %d obligations, %d discharged, %d failed, %d undecided; harness %d cases, %d failures; %.1f s"
          % (pid, cov["obligations"], len(ok), len(failed), len(und), cases, len(hf), time.time() - t0))
    for n in notes:
        print("note: " + n.replace("\n", " ")[:600])
    for o in und[:5]:
        print("undecided: %s: %s" % (o[0], o[2].replace("\n", " ")[:300]))
    for o in unlisted_p[:5]:
        print("failed: %s: %s" % (o[0], o[2].replace("\n", " ")[:500]))
    for s, x in unlisted_h[:5]:
        print("failing input (%s): %s" % (s, x[:500]))
    if violation:
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if unlisted_h else " no-failing-input-found"))
        return 1
    return 0


TRUST = ["the go/ssa front end (vendored golang.org/x/tools) and the exporter /verif/ssaexport",
         "the verification condition generator and polynomial normaliser /verif/vc", "z3 4.8.12"]

if __name__ == "__main__":
    main()
