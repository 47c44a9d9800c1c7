"""mutate.py [-c CHECKS] [-jN] [ID-PREFIX...]: plants each mutant in a copy of /repo and runs the check of its property (or CHECKS)."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seed
import mutants, mutants2, mutants3, mutants4, mutants5, mutants6

M = {x[0]: x for m in (mutants, mutants2, mutants3, mutants4, mutants5, mutants6) for x in m.M}.values()


def one(mut, checks):
    mid, prop, edits = mut
    w = tempfile.mkdtemp(prefix="rtcg-mut-", dir="/tmp")
    try:
        repo = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for fn, old, new in edits:
            p = os.path.join(repo, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return "%-20s %d matches in %s for %r" % (mid, s.count(old), fn, old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, out = seed.sh("go build ./... && go vet ./... && go build -o bin/ ./cmd/...", repo)
        if rc != 0:
            return "%-20s does not build: %s" % (mid, out[-400:])
        bad = seed.stable(repo)
        if bad:
            return "%-20s found by the tests (%d)" % (mid, len(bad))
        res = []
        for c in checks or [prop]:
            rc, out = seed.sh(["python3", "run.py", c], seed.TOP, 900, dict(seed.ENV, VERIF_REPO=repo, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_NO_EVIDENCE="1"))
            ls = out.split("\n")
            lines = [i for i, x in enumerate(ls) if x.startswith("VIOLATION")]
            first = ls[lines[0] + 1].strip() if lines and lines[0] + 1 < len(ls) else ""
            res.append("%s rc %d %s %s" % (c, rc, "caught" if rc == 1 and lines else "MISSED" if rc == 0 else "??? " + out[-300:], first[:110]))
        return "%-20s %s" % (mid, "; ".join(res))
    except Exception as e:
        return "%-20s %r" % (mid, e)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(argv):
    checks, jobs, ids = None, 2, []
    it = iter(argv)
    for a in it:
        if a == "-c":
            checks = next(it).split(",")
        elif a.startswith("-j"):
            jobs = int(a[2:])
        else:
            ids.append(a)
    todo = [x for x in M if not ids or any(x[0].startswith(i) for i in ids)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda x: one(x, checks), todo):
            print(r, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
