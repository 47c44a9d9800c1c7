"""C19: a failed read or write is never reported as success."""
import json
import os
import resource
import shutil
import subprocess
import tempfile

import cfg
import common
import cppgen
import model
import pipe

WRITES = "write,pwrite64,writev,copy_file_range,sendfile,splice"
READS = "read,pread64,readv,copy_file_range,sendfile,splice"
ROOT = os.geteuid() == 0


def can_trace():
    if not ROOT and os.environ.get("VERIF_NOSTRACE"):
        return False
    if shutil.which("strace") is None or os.environ.get("VERIF_NOSTRACE"):
        return False
    d = common.newdir("st")
    try:
        res = common.run(["strace", "-f", "-o", os.path.join(d, "log"), "-e", "inject=write:error=EIO", "-e", "trace=write", "/bin/echo", "x"], cwd=d)
    except OSError:
        return False
    try:
        return res.rc != 0 and "INJECTED" in open(os.path.join(d, "log")).read()
    except OSError:
        return False


def main():
    chk = common.Check("C19", "fault_enumeration",
                       "for random suites and configurations, every file and directory a run writes and every file it reads, one at a time: failing opens, "
                       "reads, writes (from the first or a later call on), closes and directory creations injected by system call, and natural faults (full devices, "
                       "directories in place of files and the reverse, forbidden permissions, file size limits, closed pipes); a run that met a fault must fail and "
                       "say so, and a run that ends with 0 must have written everything; non-trivial if a fault was met",
                       ["an error from closing an output file means that its bytes may not have been written", "reading stops at the end of a JSON or XML document"])
    common.tools()
    trace = can_trace()
    chk.extra["system_calls_injected"] = trace
    if not trace:
        common.log("C19: system calls cannot be injected here; natural faults only")

    def inject(argv, path, calls, error, when, d, **kw):
        """Runs argv with faults on path; (result, number of faults met)."""
        lg = os.path.join(d, "log%d" % chk_next())
        spec = "inject=%s:error=%s%s" % (calls, error, ":when=" + when if when else "")
        res = common.run(["strace", "-f", "-qq", "-o", lg, "-P", path, "-e", "trace=" + calls, "-e", spec] + argv, **kw)
        try:
            with open(lg, errors="replace") as f:
                n = f.read().count("(INJECTED)")
            os.unlink(lg)
        except OSError:
            n = 0
        return res, n

    counter = [0]

    def chk_next():
        with chk.lock:
            counter[0] += 1
            return counter[0]

    def judge(res, met, what, case):
        if met:
            chk.count("faults_met")
            chk.expect(res.rc != 0, "%s, but the run reports success" % what, case, **res.brief())
            chk.expect(res.err.strip() or res.rc < 0, "%s, but nothing is said on stderr" % what, case, **res.brief())
        return met

    def scenario(r, i, small=False):
        d = common.newdir("g")
        _, ms, suite = cppgen.gen_suite(r, ntests=1 if small else r.randint(1, 2))
        used = sorted(suite["types"])
        cpps = []
        for k, v in enumerate(r.sample(("animate", "ros"), 1 if small or i % 3 == 1 else 2)):
            over = [(c, "T") for c in used if r.random() < .6] or [(c, "T") for c in used[:1]] if r.random() < .75 else []
            cpps.append(cfg.cpp(v, [("x.h", False)], over, i % 4 != 2 or r.random() < .5, i % 3 != 2 or r.random() < .5))
        text = cfg.plain(cpps)
        if i % 2:  # too long to be read at once
            at = r.choice([k + 1 for k, c in enumerate(text) if c == ">" and not text[:k].endswith("?")][1:-1])
            text = text[:at] + "\n<!-- %s -->\n" % ("much to say " * r.choice((400, 1000, 6000))) + text[at:]
        conf = common.write(os.path.join(d, "cfg", "gen.xml"), text)
        for c in cpps:
            common.write(os.path.join(d, "cfg", c["variant"], "src", "convert", "convert.cpp"), "// user's\n" * r.choice((1, 3000)))
        sfile = pipe.wstms(os.path.join(d, "cfg"), suite)
        ref = os.path.join(d, "ref")
        res = pipe.gen(ref, conf, sfile)
        case = dict(suite=suite, cpps=cpps)
        if not chk.expect(res.rc == 0, "generation failed for a well-formed suite and configuration", case, **res.brief()):
            return None
        return d, conf, sfile, cppgen.tree_of(ref), case, cpps, suite

    def in_full(out, fresh):
        have = cppgen.tree_of(out) if os.path.isdir(out) else {}
        return sorted(p for p, e in fresh.items() if have.get(p, ("", 0, ""))[::2] != e[::2])

    def gen_injected(i):
        r = chk.rng("gen", i)
        s = scenario(r, i)
        if s is None:
            return
        d, conf, sfile, fresh, case, cpps, suite = s
        n = 0
        jobs = []
        for p, e in sorted(fresh.items()):
            if e[0] == "file":
                jobs += [(p, "openat,open,creat", "EACCES", "", "opening"), (p, "openat,open,creat", "EMFILE", "", "opening"), (p, WRITES, "ENOSPC", "", "writing"), (p, WRITES, "EIO", "%d+" % r.choice((2, 3, 5, 9)), "writing later parts of"), (p, "close", "EIO", "", "closing")]
                if r.random() < .3:
                    jobs.append((p, WRITES, "EDQUOT", str(r.randint(1, 12)), "writing a part of"))
            elif e[0] == "dir":
                jobs.append((p, "mkdirat,mkdir", "ENOSPC", "", "making"))
        for k, (p, calls, err, when, what) in enumerate(jobs):
            out = os.path.join(d, "o%d" % k)
            res, met = inject([common.tool("rtcg-gen"), "-output", out, conf, sfile], os.path.join(out, p), calls, err, when, d)
            full = in_full(out, fresh) if res.rc == 0 else []
            if res.rc == 0 and not full and when and p.endswith("convert.cpp"):
                met = 0  # copying inside the kernel failed, and Go's library then finished the copy by reading and writing
            judge(res, met, "%s %s failed with %s" % (what, p, err), case)
            chk.expect(res.rc != 0 or not full, "the run reports success, but %r aren't there in full" % full, case)
            if met:
                n += 1
                chk.note("fault_points", (what, os.path.basename(p) if e[0] == "file" else "dir", err))
            shutil.rmtree(out, ignore_errors=True)
        reads = [(conf, "the configuration"), (sfile, "the state machines")]
        for c in cpps:
            if any(x in suite["types"] for x, _ in c["channels"]):
                reads.append((os.path.join(d, "cfg", c["variant"], "src", "convert", "convert.cpp"), "convert.cpp"))
        for p, what in reads:
            for calls, err, when in (("openat,open", "EACCES", ""), (READS, "EIO", ""), (READS, "EIO", "2+")):
                out = os.path.join(d, "r")
                res, met = inject([common.tool("rtcg-gen"), "-output", out, conf, sfile], p, calls, err, when, d)
                full = in_full(out, fresh) if res.rc == 0 else []
                if res.rc != 0 or full or when == "":  # a failing read at the very end doesn't matter if everything was there
                    judge(res, met, "reading %s failed (%s on %s)" % (what, err, calls.split(",")[0]), case)
                chk.expect(not full, "the run reports success, but %r aren't there in full" % full, case)
                if met:
                    n += 1
                    chk.note("fault_points", ("reading", what, err))
                shutil.rmtree(out, ignore_errors=True)
        chk.saw(repr((i, case)), n > 0, sample=dict(files=len(fresh), faults_met=n), n=len(jobs))
        shutil.rmtree(d, ignore_errors=True)

    def gen_natural(i):
        r = chk.rng("natural", i)
        s = scenario(r, i, small=r.random() < .3)
        if s is None:
            return
        d, conf, sfile, fresh, case, cpps, suite = s
        files = sorted(p for p, e in fresh.items() if e[0] == "file")
        dirs = sorted(p for p, e in fresh.items() if e[0] == "dir")
        n = 0

        def attempt(k, what, prepare, met=True, lim=None, argv=None):
            out = os.path.join(d, "o%s" % k)
            prepare(out)
            common.own_tree(out) if os.path.isdir(out) and not os.path.islink(out) else None
            kw = {}
            res = limited(argv or [common.tool("rtcg-gen"), "-output", out, conf, sfile], lim) if lim is not None else common.run(argv or [common.tool("rtcg-gen"), "-output", out, conf, sfile])
            full = in_full(out, fresh) if res.rc == 0 else []
            judge(res, met, what, case)
            chk.expect(not full, "%s, and the run reports success, but %r aren't there in full" % (what, full), case, **res.brief())
            chk.note("natural_faults", what.split(" ")[0])
            subprocess.run(["chmod", "-R", "u+rwx", out], stderr=subprocess.DEVNULL)
            shutil.rmtree(out, ignore_errors=True)

        for k, p in enumerate(files):
            kind = r.choice(("full", "dir", "readonly", "dangling"))

            def prep(out, p=p, kind=kind):
                q = os.path.join(out, p)
                os.makedirs(os.path.dirname(q))
                if kind == "full":
                    os.symlink("/dev/full", q)
                elif kind == "dir":
                    os.mkdir(q)
                elif kind == "dangling":
                    os.symlink("/nonexistent/dir/file", q)
                else:
                    with open(q, "w") as f:
                        f.write("old\n")
                    os.chmod(q, 0o444)
            attempt("f%d" % k, "%s in place of %s" % ({"full": "full-device", "dir": "directory", "readonly": "read-only-file", "dangling": "dangling-link"}[kind], p), prep)
            n += 1
        for k, p in enumerate(dirs):
            kind = r.choice(("file", "forbidden"))

            def prep(out, p=p, kind=kind):
                q = os.path.join(out, p)
                os.makedirs(os.path.dirname(q))
                if kind == "file":
                    with open(q, "w") as f:
                        f.write("in the way\n")
                else:
                    os.mkdir(q)
                    os.chmod(q, 0o555)
            writes_in = any(os.path.dirname(f) == p for f in files + dirs)
            attempt("d%d" % k, "%s in place of %s" % ("file" if kind == "file" else "unwritable-directory", p), prep, met=kind == "file" or writes_in)
            n += 1
        sizes = sorted({len(fresh[f][2]) for f in files})
        for k in range(6):
            cap = r.choice((0, 1, 100, 1000, max(sizes) - 300, r.randint(0, max(sizes))))
            attempt("s%d" % k, "limited to files of %d bytes" % cap, lambda out: None, met=cap < max(sizes) - 200, lim=cap)  # (dates vary in length)
            n += 1
        attempt("m", "missing input", lambda out: None, argv=[common.tool("rtcg-gen"), "-output", os.path.join(d, "om"), conf, os.path.join(d, "nosuch.json")])
        attempt("n", "missing configuration", lambda out: None, argv=[common.tool("rtcg-gen"), "-output", os.path.join(d, "on"), os.path.join(d, "nosuch.xml"), sfile])
        attempt("p", "directory as configuration", lambda out: None, argv=[common.tool("rtcg-gen"), "-output", os.path.join(d, "op"), d, sfile])
        need = [c["variant"] for c in cpps if any(x in suite["types"] for x, _ in c["channels"])]
        for v in need:
            cv = os.path.join(d, "cfg", v, "src", "convert", "convert.cpp")
            os.rename(cv, cv + ".away")
            attempt("c", "missing convert.cpp for %s" % v, lambda out: None)
            os.mkdir(cv)
            attempt("c", "directory in place of the user's convert.cpp for %s" % v, lambda out: None)
            os.rmdir(cv)
            os.rename(cv + ".away", cv)
            os.chmod(cv, 0)
            if ROOT:
                attempt("c", "unreadable convert.cpp for %s" % v, lambda out: None)
            os.chmod(cv, 0o644)
        for p in (conf, sfile):
            os.chmod(p, 0)
            if ROOT:
                attempt("u", "unreadable %s" % os.path.basename(p), lambda out: None)
            os.chmod(p, 0o644)
        chk.saw(repr(("natural", i, case)), True, n=n)
        shutil.rmtree(d, ignore_errors=True)

    def limited(argv, cap, **kw):
        """Runs argv so that no file may grow beyond cap bytes (its stderr is a pipe)."""
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (common.CPU_S, common.CPU_S + 5))
            resource.setrlimit(resource.RLIMIT_FSIZE, (cap, cap))
        so = kw.pop("stdout", subprocess.PIPE)
        u = dict(user=common.UID, group=common.UID, extra_groups=[]) if ROOT else {}
        p = subprocess.run(argv, stdin=kw.pop("stdin", subprocess.DEVNULL), stdout=so, stderr=subprocess.PIPE, preexec_fn=lim, cwd=common.scratch(), timeout=common.WATCHDOG_S, **u)
        return common.Result(p.returncode, p.stdout or b"", p.stderr, argv)

    def filters(i):
        r = chk.rng("filters", i)
        d = common.newdir("f")
        big = i % 3 == 0
        al = ["ch%d.%s.%d" % (k, r.choice(("in", "out", "call")), r.randint(0, 99)) for k in range(6)]
        csv = "".join(",".join(r.choice(al) for _ in range(r.randint(1, 9))) + "\n" for _ in range(r.randint(300, 600) if big else r.randint(1, 5)))
        kinds = {}
        for a in al:
            kinds.setdefault(a.rsplit(".", 1)[0].split(".")[0], a)
        tests = pipe.read_traces(csv)
        stms = pipe.make_stms(tests.out)
        case = dict(csv=csv[:3000])
        if not chk.expect(tests.rc == 0 and stms.rc == 0, "the filters failed on well-formed traces (%d, %d)" % (tests.rc, stms.rc), case, stderr=tests.errtext + stms.errtext):
            return
        n = 0
        for name, text, ref in (("rtcg-read-traces", csv.encode(), tests.out), ("rtcg-make-stms", tests.out, stms.out)):
            exe = common.tool(name)
            inp = common.write(os.path.join(d, name + ".in"), text)
            outp = os.path.join(d, name + ".out")

            def check(res, met, what, path=None, name=name, ref=ref):
                judge(res, met, "%s: %s" % (name, what), case)
                if path and res.rc == 0:
                    with open(path, "rb") as f:
                        chk.expect(f.read() == ref, "%s: %s, the run reports success, but its output isn't all there" % (name, what), case)
                chk.note("filter_faults", (name, what.split(":")[0]))
            with open("/dev/full", "wb") as full:
                check(popen([exe, inp], full), True, "stdout is a full device")
            with open(inp, "rb") as ro:
                check(popen([exe, inp], ro), True, "stdout isn't open for writing")
            rd, wr = os.pipe()
            os.close(rd)
            check(popen([exe, inp], wr), True, "stdout is a closed pipe")
            os.close(wr)
            for cap in {0, 1, len(ref) // 2, len(ref) - 1, r.randint(0, len(ref) - 1), len(ref)}:
                with open(outp, "wb") as f:
                    common.own(outp)
                    res = limited([exe, inp], cap, stdout=f)
                check(res, cap < len(ref), "stdout takes only part of the output: %d of %d" % (cap, len(ref)), outp)
                n += 1
            check(common.run([exe, os.path.join(d, "nosuch")]), True, "missing input")
            check(common.run([exe, d]), True, "directory as input")
            with tempfile.TemporaryDirectory(dir=d) as td:
                fd = os.open(td, os.O_RDONLY)
                check(popen([exe], subprocess.PIPE, stdin=fd), True, "directory as stdin")
                os.close(fd)
            os.chmod(inp, 0)
            if ROOT:
                check(common.run([exe, inp]), True, "unreadable input")
            os.chmod(inp, 0o644)
            n += 6
            if trace:
                for calls, err, when in (("openat,open", "EACCES", ""), ("openat,open", "EMFILE", ""), (READS, "EIO", ""), (READS, "EIO", "2"), (READS, "EIO", "3")):
                    res, met = inject([exe, inp], inp, calls, err, when, d)
                    # rtcg-make-stms needn't read beyond the end of the document
                    if not (res.rc == 0 and res.out == ref and when and name == "rtcg-make-stms"):
                        check(res, met, "reading failed: %s %s" % (err, when))
                    n += bool(met)
                for when in ("", "1", "2"):
                    open(outp, "wb").close()
                    common.own(outp)
                    res, met = inject([exe, inp], outp, "write", r.choice(("ENOSPC", "EIO", "EDQUOT")), when, d, stdout_path=outp)
                    check(res, met, "writing failed: call %s" % (when or "any"))
                    n += bool(met)
        chk.saw(repr(case), n > 0, n=n)
        shutil.rmtree(d, ignore_errors=True)

    def popen(argv, out, stdin=subprocess.DEVNULL):
        u = dict(user=common.UID, group=common.UID, extra_groups=[]) if ROOT else {}
        p = subprocess.run(argv, stdin=stdin, stdout=out, stderr=subprocess.PIPE, cwd=common.scratch(), preexec_fn=lambda: common._limits(), timeout=common.WATCHDOG_S, **u)
        return common.Result(p.returncode, p.stdout or b"", p.stderr, argv)

    if trace:
        common.pmap(gen_injected, range(chk.scale(30, 250)))
    common.pmap(gen_natural, range(chk.scale(45, 400)))
    common.pmap(filters, range(chk.scale(45, 300)))
    if not chk.viol and chk.extra.get("faults_met", 0) < 500:
        raise common.Inconclusive("only %d faults were met" % chk.extra.get("faults_met", 0))
    return chk.finish(40)
