"""Shared machinery of the checks: scratch space, building from /repo, running the tools under watch, verdicts, evidence.

Verdicts are three-valued.  A check ends with
  exit 0 - held on everything explored (and enough was observed),
  exit 1 - a monitor saw a violation (VIOLATION line, witness under replay/),
  exit 2 - inconclusive: could not build, a watchdog fired, or too little was observed.
"""
import atexit
import concurrent.futures
import errno
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = min(8, os.cpu_count() or 2)
UID = 61234  # the tools run as this user, who owns nothing but the scratch directory

MB = 1 << 20
FSIZE = 64 * MB      # no run may write a bigger file (stdout and stderr included)
PATIENCE_S = 90      # seconds for which a check goes on after the first violation
CPU_S = 60           # processor seconds after which a run counts as not ending by itself
WATCHDOG_S = 300     # wall-clock watchdog: firing is inconclusive, never a violation


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------- scratch

_scratch = None


def scratch():
    """The scratch directory of this check: owned by the unprivileged user, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rtcg-verif-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        os.chmod(_scratch, 0o755)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_dirn = 0
_lock = threading.Lock()


def newdir(tag="d"):
    """A fresh directory that the unprivileged user may write in."""
    global _dirn
    with _lock:
        _dirn += 1
        n = _dirn
    d = os.path.join(scratch(), "%s%d" % (tag, n))
    os.mkdir(d)
    own(d)
    return d


def own(path):
    if os.geteuid() == 0:
        os.chown(path, UID, UID, follow_symlinks=False)


def own_tree(path):
    own(path)
    for root, ds, fs in os.walk(path):
        for n in ds + fs:
            own(os.path.join(root, n))


def write(path, data):
    """Writes a file (and its directories) as the unprivileged user's."""
    d = os.path.dirname(path)
    made = []
    while d and not os.path.isdir(d):
        made.append(d)
        d = os.path.dirname(d)
    for m in reversed(made):
        os.mkdir(m)
        own(m)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    own(path)
    return path


# ---------------------------------------------------------------------------------------------- running

class Result:
    __slots__ = ("rc", "out", "err", "argv")

    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv = rc, out, err, argv

    @property
    def text(self):
        return self.out.decode("utf-8", "replace")

    @property
    def errtext(self):
        return self.err.decode("utf-8", "replace")

    def brief(self):
        return dict(argv=[str(a)[:300] for a in self.argv], rc=self.rc, stdout=self.text[:1500], stderr=self.errtext[:1500])


def _limits(cpu=CPU_S):
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, FSIZE))
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def popen(argv, **kw):
    """subprocess.Popen, patient while another thread's child still holds a script just written open for writing."""
    for _ in range(200):
        try:
            return subprocess.Popen(argv, **kw)
        except OSError as e:
            if e.errno != errno.ETXTBSY:
                raise
            time.sleep(.02)
    raise Inconclusive("%r stays busy" % argv[:1])


def run(argv, stdin=b"", cwd=None, env=None, user=True, stdout_path=None, timeout=WATCHDOG_S, stdin_path=None, stdin_fd=None, pass_fds=(), cpu=CPU_S):
    """Runs argv to its end as the unprivileged user; stdin is always a finite file.

    A process that uses up its processor-time or file-size allowance is ended by the kernel and so reports
    rc = -SIGXCPU / -SIGKILL / -SIGXFSZ: that is an observation about it.  The wall-clock watchdog is not.
    """
    fi = tempfile.TemporaryFile()
    if isinstance(stdin, str):
        stdin = stdin.encode("utf-8")
    if stdin_path is not None:
        fi.close()
        fi = open(stdin_path, "rb")
    elif stdin_fd is not None:
        fi.close()
        fi = os.fdopen(stdin_fd, "rb", closefd=False)
    elif stdin:
        fi.write(stdin)
        fi.seek(0)
    fo = open(stdout_path, "wb") if stdout_path else tempfile.TemporaryFile()
    fe = tempfile.TemporaryFile()
    e = dict(os.environ) if env is None else dict(env)
    kw = {}
    if user and os.geteuid() == 0:
        kw = dict(user=UID, group=UID, extra_groups=[])
        if env is None or e.get("HOME") == os.environ.get("HOME"):
            e["HOME"] = scratch()
    try:
        p = popen(argv, stdin=fi, stdout=fo, stderr=fe, cwd=cwd or scratch(), env=e, preexec_fn=lambda: _limits(cpu),
                             start_new_session=True, pass_fds=pass_fds, **kw)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Inconclusive("watchdog (%d s) fired for %r" % (timeout, argv[:6]))
        out = b""
        if not stdout_path:
            fo.seek(0)
            out = fo.read(FSIZE)
        fe.seek(0)
        err = fe.read(FSIZE)
        return Result(rc, out, err, argv)
    finally:
        fi.close()
        fo.close()
        fe.close()


def pmap(fn, items, jobs=None):
    """Runs fn over items on threads; results in order; the first exception is raised."""
    def one(x):
        if current is not None and current.viol and time.time() > current.since + PATIENCE_S:
            raise Inconclusive("stopped early, as violations have been seen")
        return fn(x)

    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(one, list(items)))


# ---------------------------------------------------------------------------------------------- building

GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOENV)
    return e


def go(args, **kw):
    p = subprocess.run(["go"] + args, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise Inconclusive("go %s failed:\n%s" % (" ".join(args), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout


_bin = {}


def tools(race=False):
    """Builds the three tools from /repo's working tree; returns the directory that holds them."""
    if race not in _bin:
        d = os.path.join(scratch(), "bin-race" if race else "bin")
        os.mkdir(d)
        go(["build"] + (["-race"] if race else []) + ["-o", d + "/", "./cmd/..."])
        for n in ("rtcg-read-traces", "rtcg-make-stms", "rtcg-gen"):
            if not os.path.exists(os.path.join(d, n)):
                raise Inconclusive("no %s was built" % n)
            os.chmod(os.path.join(d, n), 0o755)
        _bin[race] = d
    return _bin[race]


def tool(name, race=False):
    return os.path.join(tools(race), name)


def harness(name, race=False, shared=()):
    """Builds harness/<name>/*.go as a command inside the module (through an overlay: /repo is not touched)."""
    src = os.path.join(VERIF, "harness", name)
    repl = {}
    for f in sorted(os.listdir(src)):
        if f.endswith(".go"):
            repl[os.path.join(REPO, "cmd", "zz-verif-" + name, f)] = os.path.join(src, f)
    for f in ("report.go",) + tuple(shared):
        repl[os.path.join(REPO, "cmd", "zz-verif-" + name, f)] = os.path.join(VERIF, "lib", f)
    ov = os.path.join(scratch(), "overlay-%s.json" % name)
    with open(ov, "w") as f:
        json.dump({"Replace": repl}, f)
    out = os.path.join(scratch(), "zz-" + name + ("-race" if race else ""))
    go(["build"] + (["-race"] if race else []) + ["-overlay", ov, "-o", out, "./cmd/zz-verif-" + name])
    os.chmod(out, 0o755)
    return out


def run_harness(chk, name, cases, procs, race=False, shared=(), cpu=200, args=(), env=None, optional=False):
    """Runs a reporting harness in procs processes with different seeds and merges what they report.

    optional: if the libraries no longer have the functions the harness calls, the check makes do with the tools.
    """
    try:
        exe = harness(name, race, shared)
    except Inconclusive as e:
        if not optional:
            raise
        tools()  # the code itself must build
        log("%s: harness %s left out: %s" % (chk.prop, name, e))
        chk.extra["harness_left_out"] = name
        return
    e = dict(os.environ)
    e.update(env or {})

    def one(i):
        seed = int(digest([chk.prop, name, SEED, i])[:12], 16)
        res = run([exe, str(seed), str(cases)] + [str(a) for a in args], cpu=cpu, env=e, timeout=800)
        finished = False
        for line in res.out.split(b"\n"):
            if not line.startswith(b"{"):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "fail":
                chk.fail(d["what"], d.get("case"), harness=name, seed=seed, cases=cases)
            elif d["t"] == "done":
                finished = True
                with chk.lock:
                    chk.evals += d["evals"]
                    chk.seen.update(d["seen"])
                    for s in d["samples"] or []:
                        if len(chk.samples) < 4:
                            chk.samples.append(s)
                for k, v in d["counts"].items():
                    chk.count(k, v)
                for k, v in d["notes"].items():
                    with chk.lock:
                        chk.extra["distinct_" + k] = max(chk.extra.get("distinct_" + k, 0), v)
        if b"WARNING: DATA RACE" in res.err:
            chk.fail("data race reported:\n" + res.errtext[:3000], dict(harness=name, seed=seed, cases=cases))
        elif (not finished or res.rc != 0) and not chk.viol:
            t = res.errtext
            if "panic:" in t or "fatal error:" in t or res.rc < 0:
                chk.fail("the harness died (status %d):\n%s" % (res.rc, t[:3000]), dict(harness=name, seed=seed, cases=cases))
            else:
                raise Inconclusive("harness %s ended with status %d: %s" % (name, res.rc, t[-2000:]))

    pmap(one, range(procs))


# ---------------------------------------------------------------------------------------------- snapshots

def snapshot(top, skip=()):
    """Everything below top: path -> (type, mode, content or target).  Links are not followed."""
    snap = {}
    stack = [top]
    while stack:
        d = stack.pop()
        for ent in os.scandir(d):
            rel = os.path.relpath(ent.path, top)
            if rel in skip:
                continue
            st = ent.stat(follow_symlinks=False)
            if ent.is_symlink():
                snap[rel] = ("link", 0, os.readlink(ent.path))
            elif ent.is_dir(follow_symlinks=False):
                snap[rel] = ("dir", st.st_mode & 0o7777, "")
                stack.append(ent.path)
            else:
                with open(ent.path, "rb") as f:
                    snap[rel] = ("file", st.st_mode & 0o7777, f.read())
    return snap


def snapdiff(a, b):
    """Paths removed, added and changed between two snapshots."""
    return (sorted(set(a) - set(b)), sorted(set(b) - set(a)), sorted(k for k in a if k in b and a[k] != b[k]))


# ---------------------------------------------------------------------------------------------- verdict

def digest(x):
    if not isinstance(x, bytes):
        x = json.dumps(x, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")
    return hashlib.sha256(x).hexdigest()[:16]


current = None  # the Check that is running


def shorten(x, n=400):
    """Cuts long texts out of a sample."""
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "..."
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in list(x.items())[:20]}
    if isinstance(x, (list, tuple)):
        return [shorten(v, n) for v in x[:20]]
    return x


class Check:
    def __init__(self, prop, level, rule, assumptions=()):
        global current
        current = self
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.seen = set()
        self.samples = []
        self.extra = {}
        self.viol = []
        self.known_hit = []
        self.lock = threading.Lock()
        self.known = self._known()
        self.thorough = TIER == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *tag):
        return random.Random("%s:%d:%s" % (self.prop, SEED, ":".join(map(str, tag))))

    def _known(self):
        res = {}
        path = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("finding:") and "property=%s " % self.prop in line:
                    key = line.split("key=", 1)[1].split()[0]
                    res[key] = line.strip()
        return res

    def saw(self, key, nontrivial=True, sample=None, n=1):
        """Counts one evaluated case; key identifies it for the distinct count."""
        with self.lock:
            self.evals += n
            if nontrivial:
                self.seen.add(digest(key))
            if sample is None and nontrivial and len(self.samples) < 2 and isinstance(key, (str, bytes)):
                sample = key.decode("utf-8", "replace") if isinstance(key, bytes) else key
            if sample is not None and len(self.samples) < 4 and (len(self.samples) < 2 or self.evals % 37 == 0):
                self.samples.append(sample)

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def note(self, name, member):
        """Counts distinct members observed under name."""
        with self.lock:
            self.extra.setdefault("distinct_" + name, set()).add(member)

    def fail(self, what, case=None, key=None, **detail):
        """Records a violation with its witness."""
        with self.lock:
            if key is not None and key in self.known:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                return
            if len(self.viol) >= 50:
                return
            d = os.path.join(VERIF, "replay", self.prop)
            os.makedirs(d, exist_ok=True)
            w = dict(property=self.prop, seed=SEED, tier=TIER, what=what, case=case, detail=detail)
            path = os.path.join(d, digest(w) + ".json")
            with open(path, "w") as f:
                json.dump(w, f, indent=1, default=repr)
                f.write("\n")
            if not self.viol:
                self.since = time.time()
            self.viol.append((what, path))

    def expect(self, cond, what, case=None, **detail):
        if not cond:
            self.fail(what, case, **detail)
        return bool(cond)

    def finish(self, minimum=1):
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.seen), rule=self.rule, samples=[shorten(s) for s in self.samples])
        for k, v in sorted(self.extra.items()):
            cov[k] = len(v) if isinstance(v, set) else v
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr, ensure_ascii=True)
            f.write("\n")
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        for what, path in self.viol[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what.replace("\n", "\n  ")[:1500])
        log("%s: %d evaluations, %d distinct, %d violations, %.1f s" % (self.prop, self.evals, len(self.seen), len(self.viol), time.time() - self.t0))
        sys.stdout.flush()
        if self.viol:
            return 1
        if len(self.seen) < minimum:
            log("%s: INCONCLUSIVE: only %d distinct cases observed, wanted %d" % (self.prop, len(self.seen), minimum))
            return 2
        return 0
