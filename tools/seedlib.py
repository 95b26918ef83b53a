"""Makes one planted bug: patches a scratch copy of /repo, confirms that it
builds, passes the stable tests and that its demonstration tells the two trees
apart, stores it under /verif/seeded, and runs the check of its property."""
import json, os, re, shutil, subprocess, sys, tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO_SH = """#!/bin/bash
# cwd is /repo: builds main.go inside the module through an overlay and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/@AT@/main.go":"%s/main.go"}}' "$PWD" "$here" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./@AT@ || exit 8
cd "$t" && timeout 120 ./demo
"""


# For package rpc, which does not build as a whole: the demonstration carries
# the slicer and compiles what there is of the package.
DEMO_RPC = """#!/bin/bash
# cwd is /repo: builds main.go with the compilable part of package rpc through an overlay and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/slicer" && cp "$here/slicer.go" "$t/slicer/main.go" && printf 'module slice\\n\\ngo 1.18\\n' > "$t/slicer/go.mod" || exit 9
mkdir "$t/with" && cp "$here/stubs.go" "$here/bridge.go" "$t/with/" || exit 9
(cd "$t/slicer" && go build -o "$t/slice" .) || exit 9
"$t/slice" -repo "$PWD" -pkg rpc -at zzslice/rpc -with "$t/with" -out "$t/out" -ovout "$t/ov0.json" -swap log=flychain/log || exit 8
sed "s|\\"Replace\\": {|\\"Replace\\": {\\"$PWD/zzdemo/main.go\\":\\"$here/main.go\\",|" "$t/ov0.json" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./zzdemo || exit 8
cd "$t" && timeout 120 ./demo
"""


def sh(cmd, cwd, timeout=600, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf8", "replace")


def stable(cwd):
    rc, out = sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vxE 'flychain/(rpc|internal/cmdtest)')", cwd)
    passed = set()
    for l in out.split("\n"):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            passed.add(d["Package"] + "/" + d["Test"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - passed)


def seed(id, prop, edits, demo, needs, breaks, at="zzdemo", check=True, base_loops=2, also=(), rpc=False):
    t = tempfile.mkdtemp(prefix="flyseed-")
    wt = os.path.join(t, "wt")
    try:
        subprocess.run(["git", "clone", "-q", REPO, wt], check=True)
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "FAIL: the old text occurs", s.count(old), "times in", f)
                return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], wt)
        rc, out = sh("go build $(go list -e ./... | grep -vxE 'flychain/(rpc|internal/cmdtest)')", wt)
        if rc:
            print(id, "FAIL: does not build\n", out)
            return False
        # the removed lines must come from the original repository
        base = "f683b4a"
        for f, old, new in edits:
            rc, orig = sh(["git", "show", base + ":" + f], wt)
            lines = set(x.strip() for x in orig.split("\n"))
            for l in old.split("\n"):
                if l.strip() and l.strip() not in lines and l not in new:
                    print(id, "NOTE: line is not of the original:", l)
        miss = stable(wt)
        if miss:
            print(id, "FAIL: stable tests fail", miss)
            return False
        d = os.path.join(t, "demo")
        os.makedirs(d)
        open(os.path.join(d, "main.go"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@AT@", at))
        names = ["main.go", "demo.sh"]
        if rpc:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_RPC)
            for a, b in (("src/slice/main.go", "slicer.go"), ("src/rpcslice/stubs.go", "stubs.go"), ("src/rpcslice/bridge.go", "bridge.go")):
                shutil.copy(os.path.join(H, a), os.path.join(d, b))
                names.append(b)
        for i in range(base_loops):
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], REPO)
            if rc:
                print(id, "FAIL: the demo fails on the unchanged tree\n", out[-2000:])
                return False
            rc, out = sh(["bash", os.path.join(d, "demo.sh")], wt)
            if rc == 0 or rc in (8, 9):
                print(id, "FAIL: the demo exits", rc, "with the patch\n", out[-2000:])
                return False
        dst = os.path.join(H, "seeded", id)
        os.makedirs(dst, exist_ok=True)
        for n in names:
            shutil.copy(os.path.join(d, n), dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        res = []
        for p in (prop,) + tuple(also) if check else ():
            rc, out = sh([sys.executable, os.path.join(H, "check.py"), "run", p], H, env=dict(os.environ, VERIF_REPO=wt, VERIF_TIER="quick"), timeout=900)
            first = [l for l in out.split("\n") if l.startswith("  ") or l.startswith("build")][:3]
            res.append("%s %s" % (p, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % p in out else "MISSED rc=%d %s" % (rc, out[-300:])))
            if rc == 1:
                res.append(" | ".join(x.strip()[:160] for x in first))
        print(id, "ok:", *res)
        return True
    finally:
        shutil.rmtree(t, ignore_errors=True)
