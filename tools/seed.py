"""Plants bugs: seed.py ID... (or nothing for all new ones) confirms each and writes seeded/ID; seed.py -c ID... also runs its check.

A bug is kept if it applies, builds, passes the stable tests, and its demo passes without and fails with it.
Works on copies of /repo below /tmp; bugs are defined in tools/bugs.py.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
TOP = os.path.dirname(HERE)
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")

PRE = """#!/bin/bash
# Run in the repository; exits 0 if the property holds in the situation below.
set -e
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
go build -o "$d/bin/" ./cmd/...
rt="$d/bin/rtcg-read-traces" ms="$d/bin/rtcg-make-stms" gen="$d/bin/rtcg-gen"
fail() { echo "BROKEN: $*" >&2; exit 1; }
"""

# Runs a Go program (beside the demo) as a command of the module.
GORUN = """gorun() { # FILE ARGS...
  local f=$1; shift
  echo "{\\"Replace\\": {\\"$repo/cmd/zz-demo/main.go\\": \\"$here/$f\\"}}" > "$d/overlay.json"
  go build $GOEXTRA -overlay "$d/overlay.json" -o "$d/demo" ./cmd/zz-demo
  "$d/demo" "$@"
}
"""


def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stable(repo):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rc, out = sh("go test -json ./...", repo)
    got = {}
    for line in out.split("\n"):
        try:
            o = json.loads(line)
        except ValueError:
            continue
        if o.get("Test") and o["Action"] in ("pass", "fail", "skip"):
            got[o["Package"] + "/" + o["Test"]] = o["Action"]
    return [t for t in base if got.get(t) != "pass"]


def plant(bug, check):
    bid, prop = bug["id"], bug["property"]
    w = tempfile.mkdtemp(prefix="rtcg-seed-", dir="/tmp")
    try:
        repo = os.path.join(w, "repo")
        subprocess.run(["git", "worktree", "list"], cwd="/repo", stdout=subprocess.DEVNULL)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sdir = os.path.join(w, "s")
        os.mkdir(sdir)
        demo = os.path.join(sdir, "demo.sh")
        with open(demo, "w") as f:
            f.write(PRE + (GORUN if bug.get("files") else "") + bug["demo"].strip("\n") + "\n")
        os.chmod(demo, 0o755)
        for n, text in bug.get("files", {}).items():
            with open(os.path.join(sdir, n), "w") as f:
                f.write(text.lstrip("\n"))
        rc, out = sh(["bash", demo], repo, 300)
        if rc != 0:
            return "demo fails on the unchanged tree:\n" + out[-1500:]
        for fn, old, new in bug["edits"]:
            p = os.path.join(repo, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return "%d matches in %s for %r" % (s.count(old), fn, old[:80])
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        rc, out = sh("gofmt -l cmd internal", repo)
        if out.strip():
            sh("gofmt -w " + " ".join(out.split()), repo)
        rc, patch = sh(["git", "diff", "--no-color"], repo)
        rc, out = sh("go build ./... && go vet ./... && go build -o bin/ ./cmd/...", repo)
        if rc != 0:
            return "does not build:\n" + out[-1500:]
        bad = stable(repo)
        if bad:
            return "breaks tests: %s" % bad[:5]
        rc, out = sh(["bash", demo], repo, 300)
        if rc == 0:
            return "demo passes with the bug:\n" + out[-1500:]
        msg = "kept (%s)" % out.strip().split("\n")[-1][:150]
        dst = os.path.join(TOP, "seeded", bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(sdir, dst)
        with open(os.path.join(dst, "patch.diff"), "w") as f:
            f.write(patch)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump(dict(property=prop, needs=bug["needs"], what_it_breaks=bug["breaks"]), f, indent=1)
            f.write("\n")
        if check:
            for c in ([prop] if check == "own" else check.split(",")):
                rc, out = sh(["python3", "run.py", c], TOP, 900, dict(ENV, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                lines = [x for x in out.split("\n") if x.startswith("VIOLATION")]
                first = out.split("\n")[out.split("\n").index(lines[0]) + 1].strip() if lines else ""
                msg += "\n    %s: rc %d, %d violation lines  %s" % (c, rc, len(lines), first[:150])
                if rc not in (0, 1):
                    msg += out[-600:]
        return msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    import bugs
    args = sys.argv[1:]
    check = None
    if args and args[0] == "-c":
        check, args = "own", args[1:]
    elif args and args[0].startswith("-c"):
        check, args = args[0][2:], args[1:]
    for b in bugs.BUGS:
        if (args and b["id"] in args) or (not args and not os.path.exists(os.path.join(TOP, "seeded", b["id"], "patch.diff"))):
            print(b["id"], b["property"] + ":", plant(b, check), flush=True)


main()
