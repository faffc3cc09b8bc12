#!/usr/bin/env python3
"""Decides one property against /repo's working tree: check.py PID [quick|thorough].

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not give an answer.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
sys.dont_write_bytecode = True
import suites

RAPID = "/root/go/pkg/mod/pgregory.net/rapid@v1.3.0"


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e["PATH"]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0", GOWORK="off")
    e.pop("CLOUDFLARE_API_TOKEN", None)
    for k in ("LISTEN_FDS", "LISTEN_PID", "LISTEN_FDNAMES", "NOTIFY_SOCKET"):
        e.pop(k, None)
    return e


def overlay(work, extra):
    """Everything of the harness that is laid over the source tree."""
    rep = {}
    hz = os.path.join(VERIF, "harness")
    for d in sorted(os.listdir(hz)):
        p = os.path.join(hz, d)
        if not os.path.isdir(p) or d.startswith("in") or d in ("shim", "rewrite"):
            continue
        for f in glob.glob(p + "/*.go"):
            rep[f"{REPO}/src/zverif/{d}/{os.path.basename(f)}"] = f
    for f in glob.glob(RAPID + "/*.go"):
        if not f.endswith("_test.go"):
            rep[f"{REPO}/src/zverif/rapid/{os.path.basename(f)}"] = f
    rep[f"{REPO}/src/ferryd/core/zz_verif_shim.go"] = hz + "/shim/core_shim.go"
    rep[f"{REPO}/src/ferryd/jobs/zz_verif_shim.go"] = hz + "/shim/jobs_shim.go"
    rep.update(extra)
    path = os.path.join(work, "overlay.json")
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def run(cmd, env, cwd, timeout, log=None):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -99, (x.stdout or b"").decode("utf8", "replace")


def seed_of(base, k):
    s = (base * 1000003 + k * 7919 + 17) & 0x7FFFFFFF
    return s or 1


def repo_status():
    p = subprocess.run(["git", "-C", REPO, "status", "--porcelain"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.stdout


def crash_in_code(out):
    """A crash of the test process whose innermost named frame is the code under test's."""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV)", out, re.M)
    if not m or "test timed out" in out or "out of memory" in out or "HARNESS-ERROR" in out:
        return False
    tail = out[m.start():]
    g = re.search(r"^goroutine \d+.*?\n(.*?)(\n\n|\Z)", tail, re.M | re.S)
    if not g:
        return False
    for line in g.group(1).splitlines():
        if line.startswith("\t"):
            continue
        if "/src/zverif/" in line or "verif" in line.lower() and "getsolus" in line:
            return False
        if "getsolus/ferryd/src/" in line:
            return True
    return False


def main():
    if len(sys.argv) < 2:
        die("usage: check.py PID [quick|thorough]")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if pid not in suites.SUITES:
        die("no suite for " + pid)
    t0 = time.time()
    before = repo_status()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    fast = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else work
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=fast)
    code = 2
    try:
        code = check(pid, tier, seed, work, scratch, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    if repo_status() != before and code == 0:
        die("the working tree of the repository changed while the check ran")
    sys.exit(code)


def check(pid, tier, seed, work, scratch, t0):
    env = goenv()
    suite = suites.SUITES[pid]
    runs = suite["runs"]
    built = {}
    for r in runs:
        key = (r["pkg"], r.get("rewrite", False))
        if key in built:
            continue
        extra = {}
        for src, dst in suites.INPACKAGE.get(r["pkg"], []):
            for f in glob.glob(os.path.join(VERIF, "harness", src, "*.go")):
                extra[f"{REPO}/{dst}/zz_verif_{os.path.basename(f)}"] = f
        wd = os.path.join(work, "b%d" % len(built))
        os.mkdir(wd)
        if r.get("rewrite"):
            ov = overlay(wd, {})
            tool = os.path.join(wd, "rewrite")
            rc, out = run(["go", "build", "-o", tool, os.path.join(VERIF, "harness", "rewrite", "main.go")], env, REPO, 600)
            if rc != 0:
                die("the rewriter does not build:\n" + out[-3000:])
            os.mkdir(wd + "/rw")
            rc, out = run([tool, REPO, wd + "/rw"], env, REPO, 300)
            if rc != 0:
                die("the rewriter fails:\n" + out[-3000:])
            extra.update(json.loads(out.strip().splitlines()[-1]))
        ov = overlay(wd, extra)
        target = suites.TARGET.get(r["pkg"], "./src/zverif/" + r["pkg"])
        binp = os.path.join(wd, "test.bin")
        e = env
        flags = []
        rc, out = run(["go", "test", "-vet=off", "-overlay", ov] + flags + ["-c", "-o", binp, target], e, REPO, 700)
        if rc != 0 or not os.path.exists(binp):
            die("the harness does not build:\n" + out[-6000:])
        built[key] = (binp, ov)
    fakebin = os.path.join(work, "fakebin")
    if any(r.get("fakexz", True) for r in runs):
        os.mkdir(fakebin)
        _, ov = next(iter(built.values()))
        rc, out = run(["go", "build", "-overlay", ov, "-ldflags", "-s -w", "-o", fakebin + "/fakexz", "./src/zverif/fakexz"], env, REPO, 600)
        if rc != 0:
            die("fakexz does not build:\n" + out[-3000:])
        for n in ("xz", "unxz", "zstd"):
            os.symlink("fakexz", os.path.join(fakebin, n))
    bins = {}
    if any(r.get("bins") for r in runs):
        os.chmod(work, 0o711)
        bd = os.path.join(work, "bins")
        os.mkdir(bd, 0o755)
        for n in ("ferryd", "ferryctl"):
            rc, out = run(["go", "build", "-o", os.path.join(bd, n), "./src/" + n], env, REPO, 600)
            if rc != 0:
                die("%s does not build:\n%s" % (n, out[-3000:]))
            os.chmod(os.path.join(bd, n), 0o755)
            bins["VERIF_" + n.upper()] = os.path.join(bd, n)
    if tier == "build":
        print("built", pid)
        return 0
    tot = {"evaluations": 0, "hashes": {}, "labels": {}, "samples": [], "foreign": {}, "known": {}, "rules": [], "foreign_msg": []}
    budget = suite.get("budget", {}).get(tier, 25 if tier == "quick" else 240)
    jobs = []
    for ri, r in enumerate(runs):
        shards = r.get("shards", 8)
        n = r["checks"][tier]
        rounds = 1 if tier == "quick" else r.get("rounds", 6)
        for rd in range(rounds):
            for k in range(shards):
                jobs.append((rd, ri, k, r, n))
    jobs.sort(key=lambda j: (j[0], j[1], j[2]))
    running, viol, errors = [], None, []
    maxpar = 8
    env_base = dict(env)
    limit = 800 if tier == "quick" else 3000
    done_rounds = 0
    while (jobs or running) and viol is None and not errors:
        while jobs and len(running) < maxpar:
            rd, ri, k, r, n = jobs[0]
            if rd > 0 and time.time() - t0 > budget:
                jobs = []
                break
            jobs.pop(0)
            e = dict(env_base)
            tag = "%d-%d-%d" % (ri, rd, k)
            if r.get("fakexz", True):
                e["PATH"] = fakebin + ":" + e["PATH"]
            sc = os.path.join(scratch, tag)
            os.mkdir(sc)
            cwd = os.path.join(work, "cwd" + tag)
            os.mkdir(cwd)
            e.update(VERIF_PID=pid, VERIF_TIER=tier, VERIF_OUT=os.path.join(work, "out" + tag), VERIF_SCRATCH=sc, TMPDIR=sc,
                     VERIF_SHARD=str(k), VERIF_SHARDS=str(r.get("shards", 8)), VERIF_SEED=str(seed), VERIF_ROUND=str(rd), VERIF_N=str(n),
                     GOMEMLIMIT="3GiB", GOTRACEBACK="all")
            e.update(bins)
            e.update(r.get("env", {}))
            binp, _ = built[(r["pkg"], r.get("rewrite", False))]
            s = seed_of(seed, rd * 1000 + ri * 100 + k)
            e["VERIF_CASESEED"] = str(s)
            cmd = [binp, "-test.run", "^%s$" % r["test"], "-test.timeout", "%ds" % limit, "-rapid.seed=%d" % s, "-rapid.checks=%d" % n,
                   "-rapid.nofailfile", "-rapid.shrinktime=%s" % r.get("shrink", "20s")]
            outf = open(os.path.join(work, "log" + tag), "wb")
            p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=outf, stderr=subprocess.STDOUT, start_new_session=True)
            running.append((p, tag, s, r, n, e))
        time.sleep(0.02)
        for item in list(running):
            p, tag, s, r, n, e = item
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > limit + 60:
                    errors.append("shard %s does not end" % tag)
                continue
            running.remove(item)
            out = open(os.path.join(work, "log" + tag), "rb").read().decode("utf8", "replace")
            vf = e["VERIF_OUT"] + ".viol"
            st = None
            if os.path.exists(e["VERIF_OUT"]):
                st = json.load(open(e["VERIF_OUT"]))
                merge(tot, st)
            if rc == 0:
                if st is None:
                    errors.append("shard %s wrote nothing" % tag)
                continue
            if "HARNESS-ERROR" in out:
                errors.append(out[-3000:])
            elif os.path.exists(vf):
                v = json.load(open(vf))
                viol = dict(v, seed=s, test=r["test"], pkg=r["pkg"], checks=n, log=out[-12000:])
            elif crash_in_code(out):
                viol = dict(property=pid, message="the code under test crashes the process", ops=[], seed=s, test=r["test"], pkg=r["pkg"], checks=n, log=out[-12000:])
            else:
                errors.append("shard %s ends with %d:\n%s" % (tag, rc, out[-4000:]))
    # one violation is enough; let the others go
    for p, *_ in running:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    write_evidence(pid, tier, seed, tot, time.time() - t0, 1 if viol else 0, suite)
    if viol:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d-%d.json" % (pid, viol["seed"], os.getpid()))
        viol["replay_cmd"] = "VERIF_SEED=%d %s/bin/check.py %s %s" % (seed, VERIF, pid, tier)
        json.dump(viol, open(path, "w"), indent=1)
        print(viol["message"])
        for o in viol["ops"]:
            print("   ", o)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        die("\n".join(errors))
    for k in sorted(tot["known"]):
        txt = suites.known(VERIF, pid, k)
        if txt is None:
            die("an unlisted finding was reported as known: " + k)
        print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    nt = len(tot["hashes"])
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, tot["evaluations"], nt, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for k in sorted(tot["labels"]):
            print("   ", k, tot["labels"][k])
        print("    foreign", tot["foreign"], *tot["foreign_msg"][:3], sep="\n      ")
    if tot["evaluations"] == 0 or nt == 0:
        die("nothing that counts was explored")
    return 0


def merge(tot, st):
    tot["evaluations"] += st["evaluations"]
    for a in ("hashes", "labels", "foreign", "known"):
        for k, n in (st[a] or {}).items():
            tot[a][k] = tot[a].get(k, 0) + n
    tot["foreign_msg"] += st.get("foreign_msg") or []
    if len(tot["samples"]) < 4:
        tot["samples"] += (st["samples"] or [])[:2]
    if st["rule"] and st["rule"] not in tot["rules"]:
        tot["rules"].append(st["rule"])


def write_evidence(pid, tier, seed, tot, wall, nviol, suite):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": suites.LEVEL.get(pid, "exploration"),
        "coverage": {
            "evaluations": tot["evaluations"], "distinct_nontrivial": len(tot["hashes"]),
            "rule": " | ".join(tot["rules"]) or "none", "samples": tot["samples"][:4],
            "events": {k: v for k, v in sorted(tot["labels"].items())},
            "other_properties_seen_broken": tot["foreign"], "known_findings_reproduced": tot["known"],
        },
        "assumptions": suite.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol,
    }
    tmp = os.path.join(d, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


main()
