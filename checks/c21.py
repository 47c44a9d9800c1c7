"""C21: independent uses of the libraries can run in parallel."""
import json
import os

import common


def main():
    chk = common.Check("C21", "exploration",
                       "rounds of 2 to 10 goroutines that start together without other synchronisation, under Go's race detector and varying GOMAXPROCS: each runs "
                       "the whole pipeline (read, name, expand, write, read, collapse, factorise, validate, build, load a configuration, generate) on inputs of its own, or read-only "
                       "operations on shared objects; each result is compared with that of running alone; non-trivial if a pipeline got past reading",
                       ["the race detector reports conflicting accesses that happen in a run without an order between them, whatever their timing"])
    exe = common.harness("parallel", race=True, shared=("gogen.go",))
    e = dict(os.environ, GORACE="halt_on_error=0 exitcode=66")

    def one(i):
        seed = int(common.digest(["C21", common.SEED, i])[:12], 16)
        d = common.newdir("w")
        res = common.run([exe, str(seed), str(chk.scale(60, 500)), d], cpu=chk.scale(800, 6000), timeout=chk.scale(1200, 7000), env=e)
        finished = False
        for line in res.out.split(b"\n"):
            if not line.startswith(b"{"):
                continue
            o = json.loads(line)
            if o["t"] == "fail":
                chk.fail(o["what"], o.get("case"), seed=seed)
            elif o["t"] == "done":
                finished = True
                with chk.lock:
                    chk.evals += o["evals"]
                    chk.seen.update(o["seen"])
                    chk.samples += (o["samples"] or [])[:max(0, 4 - len(chk.samples))]
                for k, v in o["counts"].items():
                    chk.count(k, v)
                for k, v in o["notes"].items():
                    with chk.lock:
                        chk.extra["distinct_" + k] = max(chk.extra.get("distinct_" + k, 0), v)
        if b"WARNING: DATA RACE" in res.err:
            t = res.errtext
            a = t.index("WARNING: DATA RACE")
            chk.fail("data race:\n" + t[a:a + 3000], dict(seed=seed))
        elif not finished and not chk.viol:
            if "panic" in res.errtext or "fatal error" in res.errtext:
                chk.fail("the run died:\n" + res.errtext[:3000], dict(seed=seed))
            else:
                raise common.Inconclusive("the harness ended with status %d: %s" % (res.rc, res.errtext[-1500:]))

    common.pmap(one, range(6), jobs=6)
    return chk.finish(200)
