#!/usr/bin/env python3
"""Driver of the checks: check.py run PROP | replay FILE | list.

Builds the harness of a property together with /repo's working tree, explores
every section of its space in parallel, and writes evidence/PROP.json.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time, glob, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
T0 = time.time()
PROP = ""


def goenv(scratch=None):
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOTRACEBACK="all", GO111MODULE="on", CGO_ENABLED=os.environ.get("CGO_ENABLED", "1"))
    e.pop("GODEBUG", None)
    if scratch:
        cache = os.path.join(HERE, ".cache", "go-build")
        try:
            os.makedirs(cache, exist_ok=True)
            with open(os.path.join(cache, ".w"), "w"):
                pass
        except OSError:
            cache = os.path.join(scratch, "go-build")
        e["GOCACHE"] = cache
        e["GOTMPDIR"] = scratch
    return e


class CheckError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


# ---- properties ----

def registry():
    with open(os.path.join(HERE, "registry.json")) as f:
        return json.load(f)


def findings():
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


# ---- overlay ----

def base_overlay(prop):
    """Maps the framework and the harness of prop into the module tree."""
    m = {}
    src = os.path.join(HERE, "src")
    for d in ("enum", "ref", "prod"):
        for f in glob.glob(os.path.join(src, d, "**", "*.go"), recursive=True):
            m[os.path.join(REPO, "zzmc", os.path.relpath(f, src))] = f
    return m


def generate(g, scratch, tier):
    """Builds a tool of the repository and lets a generator of the framework
    run it; what that leaves in tree/ becomes part of the overlay."""
    tool, gen, out = os.path.join(scratch, "tool"), os.path.join(scratch, "gen"), os.path.join(scratch, "gen.out")
    m = {os.path.join(REPO, "zzmc/gen", os.path.basename(f)): f for f in glob.glob(os.path.join(HERE, g["src"], "gen", "*.go"))}
    ov = os.path.join(scratch, "gen.json")
    with open(ov, "w") as f:
        json.dump({"Replace": m}, f)
    for o, pkg in ((tool, g["tool"]), (gen, "./zzmc/gen")):
        rc, so, se = sh(["go", "build", "-buildvcs=false", "-overlay", ov, "-o", o, pkg], env=goenv(scratch), cwd=REPO)
        if rc != 0:
            raise CheckError("build failed:\n" + so + se)
    os.mkdir(out)
    rc, so, se = sh([gen, tool, os.path.join(HERE, g["src"]), out, tier], env=goenv(scratch), cwd=out)
    if rc != 0:
        raise CheckError("generation failed:\n" + so + se)
    tree = os.path.join(out, "tree")
    r = {}
    for d, _, fs in os.walk(tree):
        for f in fs:
            r[os.path.join(REPO, os.path.relpath(d, tree), f)] = os.path.join(d, f)
    return r


def slice_overlay(s, scratch):
    """Overlay entries for the compilable part of a package, see src/slice."""
    env = goenv(scratch)
    tool, out, ov = os.path.join(scratch, "slice"), os.path.join(scratch, "slice-out"), os.path.join(scratch, "slice.json")
    rc, so, se = sh(["go", "build", "-buildvcs=false", "-o", tool, "."], env=dict(env, GOFLAGS="-mod=mod"), cwd=os.path.join(HERE, "src", "slice"))
    if rc != 0:
        raise CheckError("the slicer does not build:\n" + so + se)
    rc, so, se = sh([tool, "-repo", REPO, "-pkg", s["pkg"], "-at", s["at"], "-with", os.path.join(HERE, s["with"]), "-out", out, "-ovout", ov, "-swap", s.get("swap", ""), "-also", ",".join(os.path.join(HERE, d) + "=" + at for d, at in s.get("also", {}).items())], env=env, cwd=REPO)
    if rc != 0:
        raise CheckError(so + se)
    return json.load(open(ov))["Replace"]


def build_enum(prop, reg, scratch, tier="quick"):
    m = base_overlay(prop)
    hdir = os.path.join(HERE, "src", "h", prop.lower())
    at = reg.get("at", "zzmc/h/" + prop.lower())
    for f in glob.glob(os.path.join(hdir, "*.go")):
        m[os.path.join(REPO, at, os.path.basename(f))] = f
    for dst, s in reg.get("overlay", {}).items():
        m[os.path.join(REPO, dst)] = os.path.join(HERE, s)
    if "gen" in reg:
        m.update(generate(reg["gen"], scratch, tier))
    if "slice" in reg:
        m.update(slice_overlay(reg["slice"], scratch))
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": m}, f)
    out = os.path.join(scratch, prop + ".bin")
    rc, so, se = sh(["go", "build", "-buildvcs=false", "-overlay", ov, "-o", out, "./" + at], env=goenv(scratch), cwd=REPO)
    if rc != 0:
        raise CheckError("build failed:\n" + so + se)
    return out


# ---- enum sections ----

def run_section(binp, sec, shard, tier, scratch, seconds, extra=(), timeout=None):
    out = os.path.join(scratch, "rep-%s-%d-%d.json" % (sec, shard, os.getpid() * 0 + int(time.time() * 1e6) % 10**9))
    env = goenv(scratch)
    env["VERIF_SCRATCH"] = scratch
    env["GOGC"] = "200"
    cmd = [binp, "-run", sec, "-shard", str(shard), "-tier", tier, "-out", out, "-seconds", str(seconds)] + list(extra)
    try:
        rc, so, se = sh(cmd, env=env, cwd=scratch, timeout=timeout or seconds + 120)
    except subprocess.TimeoutExpired:
        return None, "timeout", ""
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
        os.unlink(out)
    return rep, rc, se[-4000:]


def explore_enum(prop, reg, binp, tier, scratch, budget):
    try:
        rc, so, se = sh([binp, "-list"], env=goenv(scratch), cwd=scratch, timeout=120)
    except subprocess.TimeoutExpired:
        rc, so, se = 1, "", "no end within 120 s"
    if rc != 0:
        # a crash before any case: package initialisation is broken
        return [], [{"section": "init", "case": "", "msg": "the program fails during initialisation:\n" + se[-1500:]}]
    secs = json.loads(so.strip().split("\n")[-1])
    jobs = [(s["name"], i) for s in secs for i in range(s["shards"])]
    reps, vios = [], []
    fresh = []  # sections with a sure violation that is no known finding

    def sure(v):
        # timing-based verdicts must reproduce
        if not v["msg"].startswith("the case "):
            return True
        if fresh:
            return False  # there is something to report already
        rep, rc, err = run_section(binp, v["section"], v.get("shard", 0), tier, scratch, budget, extra=["-only", v["case"]])
        return bool(rep and rep.get("violations"))

    def one(j):
        if fresh:
            return None, []
        rep, rc, err = run_section(binp, j[0], j[1], tier, scratch, budget)
        if rep is None and not fresh:
            tr = os.path.join(scratch, "trace-%s-%d" % j)
            rep2, rc2, err2 = run_section(binp, j[0], j[1], tier, scratch, budget, extra=["-trace", tr])
            if rep2 is None and rc2 != "timeout":
                case = open(tr, "rb").read().decode("utf8", "replace") if os.path.exists(tr) else ""
                fresh.append(j)
                return None, [{"section": j[0], "shard": j[1], "case": case, "msg": "the process dies (%s):\n%s" % (rc2, head(err2 or err))}]
            rep = rep2
        if rep is None:
            return {"section": j[0], "shard": j[1], "states": 0, "transitions": 0, "traces": 0, "samples": [], "bounds": [], "exhaustive": False, "violations": [], "note": "no answer"}, []
        vs = [v for v in (dict(v, shard=j[1]) for v in (rep.get("violations") or [])) if sure(v)]
        if any(not is_known(prop, v) for v in vs):
            fresh.append(j)
        return rep, vs

    with cf.ThreadPoolExecutor(8) as ex:
        for rep, vs in ex.map(one, jobs):
            if rep:
                reps.append(rep)
            vios += vs
    # a section in which nothing was run shows nothing
    for name in set(s["name"] for s in secs):
        rs = [r for r in reps if r["section"] == name]
        if rs and not vios and all(not r["transitions"] and not r["traces"] and not r.get("note") for r in rs):
            raise CheckError("section %s explored nothing" % name)
    return reps, vios


def head(s, n=1500):
    return s if len(s) < n else s[:n]


# ---- reporting ----

def is_known(prop, v):
    for f in findings():
        if f.get("status") == "known" and f.get("property") == prop and f.get("section") == v["section"] and f.get("case") == v["case"]:
            return f
    return None


def report(prop, reg, tier, reps, vios, level, extra_cov, wall):
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(old)
    fresh = []
    for v in vios:
        k = is_known(prop, v)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", v["case"])))
        else:
            fresh.append(v)
    samples = []
    for r in reps:
        for s in (r.get("samples") or [])[:3]:
            if len(samples) < 12:
                samples.append(s)
    bounds = sorted(set("%s: %s" % (r["section"], b) for r in reps for b in (r.get("bounds") or [])))
    cov = {
        "states": sum(r["states"] for r in reps),
        "transitions": sum(r["transitions"] for r in reps),
        "traces_validated_against_impl": sum(r["traces"] for r in reps),
        "samples": samples,
        "exhaustive": bool(reps) and all(r["exhaustive"] for r in reps),
        "bounds": bounds,
        "sections": [{k: r.get(k) for k in ("section", "shard", "states", "transitions", "traces", "exhaustive", "wall_s", "note")} for r in reps],
    }
    cov.update(extra_cov)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": reg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "violation": v}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  section %s, case %s" % (v["section"], head(v["case"], 400)))
        print("  " + head(v["msg"], 1200).replace("\n", "\n  "))
    print("%s: %d states, %d transitions, %d traces, exhaustive=%s, %.1f s" % (prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], wall))
    return 1 if fresh else 0


def run(prop, tier):
    global PROP
    PROP = prop
    reg = registry()[prop]
    budget = 200 if tier == "quick" else 600
    scratch = tempfile.mkdtemp(prefix="flyverif-")
    try:
        if reg["kind"] == "mc":
            import mcdrive
            reps, vios, cov = mcdrive.explore(sys.modules["__main__"], prop, reg, tier, scratch, budget)
        else:
            binp = build_enum(prop, reg, scratch, tier)
            reps, vios = explore_enum(prop, reg, binp, tier, scratch, budget)
            cov = {"distinct_rule": "states are distinct reference states or outcomes reached, transitions are calls of the implementation that were compared with the reference, traces are inputs or operation histories run on the implementation"}
            if "mc" in reg:
                # the concurrent part, in a harness of its own
                import mcdrive
                reps2, vios2, cov2 = mcdrive.explore(sys.modules["__main__"], prop, reg["mc"], tier, scratch, budget)
                reps, vios = reps + reps2, vios + vios2
                cov2["concurrent_distinct_rule"] = cov2.pop("distinct_rule", "")
                cov.update(cov2)
        return report(prop, reg, tier, reps, vios, "model_checking", cov, time.time() - T0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    global PROP
    PROP = d["property"]
    prop, v, tier = d["property"], d["violation"], d["tier"]
    reg = registry()[prop]
    scratch = tempfile.mkdtemp(prefix="flyverif-")
    try:
        if reg["kind"] == "mc" or "choices" in v:
            import mcdrive
            return mcdrive.replay(sys.modules["__main__"], prop, reg.get("mc", reg), tier, scratch, v)
        binp = build_enum(prop, reg, scratch, tier)
        rep, rc, err = run_section(binp, v["section"], v.get("shard", 0), tier, scratch, 200, extra=["-only", v["case"]])
        if rep is None:
            print("the process dies (%s)\n%s" % (rc, err))
            return 1
        for x in rep.get("violations") or []:
            print("section %s, case %s\n%s" % (x["section"], x["case"], x["msg"]))
            return 1
        print("the case passes")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        try:
            sys.exit(run(a[1], tier))
        except CheckError as e:
            print(e)
            sys.exit(2)
    if a and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "list":
        print("\n".join(registry()))
        return
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
