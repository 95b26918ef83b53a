"""Builds a concurrent harness with instrumented packages and explores every
scenario of it under the controlled scheduler."""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, time


def _overlay(drv, prop, reg, scratch):
    src = os.path.join(drv.HERE, "src")
    m = {}
    for d in ("mc", "msync", "matomic", "mtime", "mcontext", "ref", "zoo", "prod"):
        for f in glob.glob(os.path.join(src, d, "**", "*.go"), recursive=True):
            m[os.path.join(drv.REPO, "zzmc", os.path.relpath(f, src))] = f
    at = reg.get("at", "zzmc/h/" + prop.lower())
    for f in glob.glob(os.path.join(src, "h", reg.get("hdir", prop.lower()), "*.go")):
        m[os.path.join(drv.REPO, at, os.path.basename(f))] = f
    for dst, s in reg.get("overlay", {}).items():
        m[os.path.join(drv.REPO, dst)] = os.path.join(drv.HERE, s)
    if "slice" in reg:
        m.update(drv.slice_overlay(reg["slice"], scratch))
    p = os.path.join(scratch, "ov1.json")
    with open(p, "w") as f:
        json.dump({"Replace": m}, f)
    return p, "./" + at


def build(drv, prop, reg, scratch, race=True):
    """Returns (normal binary, race binary or None)."""
    env = drv.goenv(scratch)
    ov1, target = _overlay(drv, prop, reg, scratch)
    instr = os.path.join(scratch, "instr")
    rc, so, se = drv.sh(["go", "build", "-buildvcs=false", "-o", instr, "."], env=dict(env, GOFLAGS="-mod=mod"), cwd=os.path.join(drv.HERE, "src", "instr"))
    if rc != 0:
        raise drv.CheckError("instrumenter does not build:\n" + so + se)
    ov2 = os.path.join(scratch, "ov2.json")
    rc, so, se = drv.sh([instr, "-repo", drv.REPO, "-overlay", ov1, "-target", target, "-out", os.path.join(scratch, "instr-out"), "-ovout", ov2, "-skip", ",".join(reg.get("skip", []))], env=env, cwd=drv.REPO)
    if rc != 0:
        raise drv.CheckError("instrumentation failed:\n" + so + se)
    out = os.path.join(scratch, prop + ".bin")

    def one(args):
        extra, o = args
        rc, so, se = drv.sh(["go", "build", "-buildvcs=false", "-overlay", ov2, "-o", o] + extra + [target], env=env, cwd=drv.REPO)
        if rc != 0:
            raise drv.CheckError("build failed:\n" + so + se)
        return o

    jobs = [([], out)]
    if race:
        mod = "flychain"
        jobs.append((["-race", "-gcflags=%s/zzmc/mc=-race=false" % mod], out + ".race"))
    with cf.ThreadPoolExecutor(2) as ex:
        res = list(ex.map(one, jobs))
    return res[0], (res[1] if race else None)


def run_one(drv, binp, sec, tier, scratch, seconds, extra=(), race=False):
    out = os.path.join(scratch, "rep-%s-%d.json" % ("".join(c if c.isalnum() else "_" for c in sec), time.monotonic_ns()))
    env = drv.goenv(scratch)
    env["VERIF_SCRATCH"] = scratch
    env["GOMAXPROCS"] = "1"
    env["VERIF_PROP"] = drv.PROP
    if race:
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=2"
    cmd = [binp, "-run", sec, "-tier", tier, "-out", out, "-seconds", str(seconds)] + list(extra)
    try:
        rc, so, se = drv.sh(cmd, env=env, cwd=scratch, timeout=seconds + 150)
    except subprocess.TimeoutExpired:
        return None, "timeout", ""
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
        os.unlink(out)
    return rep, rc, se


def _race_text(se):
    i = se.find("WARNING: DATA RACE")
    return se[i:i + 1800] if i >= 0 else ""


def _key(sec, v, se=""):
    return {"section": sec, "case": v["case"], "msg": v["msg"], "kind": v["kind"], "choices": v["choices"], "race": v.get("race", False), "trace": v.get("trace") or []}


def explore(drv, prop, reg, tier, scratch, budget):
    t0 = time.time()
    norm, race = build(drv, prop, reg, scratch, reg.get("race", True))
    tb = time.time() - t0
    rc, so, se = drv.sh([norm, "-list", "-tier", tier], env=dict(drv.goenv(scratch), VERIF_PROP=prop), cwd=scratch)
    if rc != 0:
        return [], [{"section": "init", "case": "", "msg": "the program fails during initialisation:\n" + se[-1500:], "kind": "init", "choices": [], "race": False}], {}
    secs = [s["name"] for s in json.loads(so.strip().split("\n")[-1])]
    quick = tier == "quick"
    per = reg.get("seconds", {}).get(tier, 12 if quick else 150)
    rper = 4 if quick else 30
    end = t0 + budget
    reps, vios = [], []
    jobs = [(s, False) for s in secs] + ([(s, True) for s in secs] if race else [])

    def one(j):
        sec, israce = j
        left = end - time.time()
        secs_ = max(1.0, min(rper if israce else per, left))
        extra = ["-bound", "1" if quick else "2"] if israce else []
        rep, rc, se = run_one(drv, race if israce else norm, sec, tier, scratch, secs_, extra, israce)
        return j, rep, rc, se

    racecov = {"scenarios": 0, "schedules": 0, "reports": 0}
    with cf.ThreadPoolExecutor(8) as ex:
        for (sec, israce), rep, rc, se in ex.map(one, jobs):
            if rep is None:
                note = "no answer" if rc == "timeout" else "the process died: %s %s" % (rc, se[-1500:])
                if rc != "timeout":
                    # a Go fatal error (concurrent map access, out of memory) ends the process
                    fatal = se.find("fatal error:")
                    if fatal >= 0:
                        again = run_one(drv, race if israce else norm, sec, tier, scratch, per, (), israce)
                        if again[0] is None and "fatal error:" in again[2]:
                            vios.append({"section": sec, "case": se[fatal:].split("\n")[0], "msg": se[fatal:fatal + 1500], "kind": "fatal", "choices": [], "race": israce})
                            continue
                if not israce:
                    reps.append({"section": sec, "shard": 0, "states": 0, "transitions": 0, "traces": 0, "samples": [], "bounds": [], "exhaustive": False, "note": note})
                continue
            for v in rep.get("violations") or []:
                k = _key(sec, v)
                if v["kind"] == "datarace":
                    k["msg"] += "\n" + _race_text(se)
                    racecov["reports"] += 1
                # confirm by replaying the schedule in a new process
                r2, rc2, se2 = run_one(drv, race if israce else norm, sec, tier, scratch, 60, ["-replay", ",".join(map(str, v["choices"])) or "-"], israce)
                vs2 = (r2 or {}).get("violations") or []
                if not vs2 and v["kind"] != "hang" and rc2 != "timeout" and not (v["kind"] == "datarace" and racecov["reports"]):
                    rep["note"] = "violation not confirmed by replay"
                    continue
                if vs2 and not k["trace"]:
                    k["trace"] = vs2[0].get("trace") or []
                if k["trace"]:
                    k["msg"] += "\nschedule:\n  " + "\n  ".join(k["trace"][-60:])
                vios.append(k)
            if israce:
                racecov["scenarios"] += 1
                racecov["schedules"] += rep["traces"]
            else:
                reps.append(rep)
    # one report per scenario is enough
    seen, out = set(), []
    for v in vios:
        if (v["section"], v["kind"]) in seen:
            continue
        seen.add((v["section"], v["kind"]))
        out.append(v)
    cov = {
        "distinct_rule": "states are distinct happens-before fingerprints of scheduling points, transitions are executed scheduling steps, traces are executions of the real instrumented code; every execution runs the implementation itself, so each explored trace is validated by construction",
        "distinct_outcomes": sum(r.get("outcomes", 0) for r in reps),
        "race_pass": racecov,
        "scenarios_exhaustive_without_preemption_bound": sum(1 for r in reps if r["exhaustive"]),
        "scenarios": len(reps),
        "build_s": round(tb, 1),
    }
    return reps, out, cov


def replay(drv, prop, reg, tier, scratch, v):
    norm, race = build(drv, prop, reg, scratch, bool(v.get("race")))
    binp = race if v.get("race") else norm
    rep, rc, se = run_one(drv, binp, v["section"], tier, scratch, 100, ["-replay", ",".join(map(str, v["choices"])) or "-"], bool(v.get("race")))
    if rep is None:
        print("the process dies (%s)\n%s" % (rc, se[-3000:]))
        return 1
    for x in rep.get("violations") or []:
        print("scenario %s: %s\n%s\nschedule:\n  %s" % (v["section"], x["kind"], x["msg"], "\n  ".join(x.get("trace") or [])))
        if x["kind"] == "datarace":
            print(_race_text(se))
        return 1
    print("the schedule passes")
    return 0
