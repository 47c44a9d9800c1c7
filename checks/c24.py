"""C24: the tools compose the same way by file, pipe or script."""
import json
import os
import shutil
import socket
import threading
import time

import cfg
import common
import cppgen
import model
import pipe

TOOLS = ("rtcg-read-traces", "rtcg-make-stms", "rtcg-gen")
SENTINEL = b"never read\n" * 500


def undated(top):
    return cppgen.tree_of(top) if os.path.isdir(top) else {}


def main():
    chk = common.Check("C24", "exploration",
                       "random traces, suites and configurations (a fifth of them broken), each given to its tool as a relative, absolute or oddly named file, as '-' and by omission, "
                       "the latter two from a file and from a pipe fed in pieces, options in any order; rtcg.sh run in a directory laid out like the repository, by file and by "
                       "stdin, compared with the three tools in turn; every number of arguments and many malformed options, with a monitored stdin, stdout and directory; "
                       "non-trivial if the input is valid and outputs were compared",
                       ["sh is the system's"])
    bindir = common.tools()

    def feed(data, pieces):
        """A pipe that gets data in pieces; returns its read end."""
        rd, wr = os.pipe()

        def go():
            try:
                n = max(1, len(data) // pieces)
                for i in range(0, len(data), n):
                    os.write(wr, data[i:i + n])
                    time.sleep(.002)
            except BrokenPipeError:
                pass
            finally:
                os.close(wr)
        t = threading.Thread(target=go)
        t.start()
        return rd, t

    def call(argv, how, data, r, **kw):
        """Runs argv with data on stdin (or in the named pipe "@FIFO" among the arguments), given as how says."""
        if how == "fifo":
            d = common.newdir("ff")
            fifo = os.path.join(d, "in")
            os.mkfifo(fifo)
            common.own(fifo)

            def go():
                try:
                    with open(fifo, "wb", buffering=0) as f:
                        n = max(1, len(data) // 3)
                        for k in range(0, len(data), n):
                            f.write(data[k:k + n])
                except BrokenPipeError:
                    pass
            t = threading.Thread(target=go)
            t.start()
            try:
                return common.run([fifo if a == "@FIFO" else a for a in argv], stdin=b"zz: not.in.this", **kw)
            finally:
                fd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)  # in case nobody has opened it
                while t.is_alive():
                    try:
                        os.read(fd, 1 << 16)
                    except BlockingIOError:
                        pass
                    t.join(.01)
                os.close(fd)
                shutil.rmtree(d)
        if how == "offset":  # a file of which somebody has read the beginning already
            d = common.newdir("of")
            path = common.write(os.path.join(d, "in"), b"zz: not.in.this\n" * 5 + data)
            fd = os.open(path, os.O_RDONLY)
            os.lseek(fd, 16 * 5, os.SEEK_SET)
            try:
                return common.run(argv, stdin_fd=fd, **kw)
            finally:
                os.close(fd)
                shutil.rmtree(d)
        if how == "socket":
            ours, theirs = socket.socketpair()

            def send():
                try:
                    time.sleep(.02)  # the tool is there before its input
                    ours.sendall(data)
                except OSError:
                    pass
                finally:
                    ours.close()
            t = threading.Thread(target=send)
            t.start()
            try:
                return common.run(argv, stdin_fd=theirs.fileno(), **kw)
            finally:
                theirs.close()
                t.join()
        if how == "pipe":
            rd, t = feed(data, r.choice((2, 5, 13)))
            try:
                return common.run(argv, stdin_fd=rd, **kw)
            finally:
                os.close(rd)
                t.join()
        return common.run(argv, stdin=data, **kw)

    def oddname(r, ext):
        return r.choice(("in%s", "in put%s", "-%s", "--%s", "~%s", "$HOME%s", "*%s", "-x%s", "a;b%s", "$(x)%s", "%%s%s", "\u00e9%s", "in%s.-", "'q'%s", '"q"%s')).replace("%s", ext)

    def any_traces(r):
        chans, traces, alphabet = {}, [], []
        while len(alphabet) < r.randint(3, 9):
            e = model.any_event(r)
            if chans.setdefault(e[0], type(e[2])) is type(e[2]) and e not in alphabet:
                alphabet.append(e)
        for k in range(r.choice((0, 1, 2, 4, 8))):
            traces.append(dict(name="t%d" % k if r.random() < .7 else "", prefix=[r.choice(alphabet) for _ in range(r.randint(0, 6))], forbid=r.choice(alphabet)))
        if traces and r.random() < .04:
            traces = [dict(t, name="") for t in traces * (1 + 700 // len(traces))]  # more than a pipe holds
        return model.render_traces(r, traces)

    def broken(r, data):
        """Something that may or may not still be valid."""
        data = bytearray(data)
        if not data:
            return bytes(r.randint(0, 255) for _ in range(3))
        for _ in range(r.randint(1, 3)):
            i = r.randrange(len(data))
            k = r.random()
            if k < .4:
                del data[i:]
            elif k < .7:
                data[i:i + 1] = bytes([r.choice(b'"{}[],:.x0\n')])
            else:
                data[i:i] = bytes([r.choice(b'"{}[],:.x0\n')])
            if not data:
                break
        return bytes(data)

    def ways(r, d, name, data):
        """(label, arguments, how stdin is given, what is on stdin)"""
        path = common.write(os.path.join(d, name), data)
        other = b"this is not the input"
        rel = os.path.join(".", name)
        res = [("absolute path", [path], "file", other), ("relative path", [rel], "file", other), ("path through ..", [os.path.join("..", os.path.basename(d), name)], "pipe", other),
               ("- from a file", ["-"], "file", data), ("- from a pipe", ["-"], "pipe", data), ("nothing, from a file", [], "file", data), ("named pipe", ["@FIFO"], "fifo", data), ("nothing, from a pipe", [], "pipe", data),
               ("nothing, from the middle of a file", [], "offset", data), ("- from the middle of a file", ["-"], "offset", data), ("- from a socket", ["-"], "socket", data), ("nothing, from a socket", [], "socket", data)]
        picked = r.sample(res[1:], chk.scale(4, 8))
        if name != "-":
            picked.insert(r.randint(0, len(picked)), ("plain name", [name], "file", other))
        return [res[0]] + picked

    def filters(i):
        r = chk.rng("filters", i)
        d = common.newdir("f")
        text = any_traces(r).encode("utf-8", "surrogatepass")
        trees = {"t%d" % k: model.random_tree(r, depth=3) for k in range(r.randint(0, 3))}
        for tool, data, ext in ((TOOLS[0], text, ".csv"), (TOOLS[1], pipe.suite_text(trees).encode("utf-8"), ".json")):
            if r.random() < .2:
                data = broken(r, data)
            name = oddname(r, ext) if r.random() < .8 else "-"
            before = None
            base = None
            for label, args, how, stdin in ways(r, d, name, data):
                if before is None:
                    before = common.snapshot(d)
                res = call([common.tool(tool)] + args, how, stdin, r, cwd=d)
                case = dict(tool=tool, args=args, how=label, input=data[:20000].decode("utf-8", "replace"))
                got = (res.rc, res.out)
                if base is None:
                    base = got
                    chk.note("filter_status", (tool, res.rc))
                else:
                    chk.expect(got == base, "%s with the input as %s: status %d and %d bytes, but %d and %d with it as an absolute path" % (tool, label, res.rc, len(res.out), base[0], len(base[1])), case, **res.brief())
                chk.expect((res.err.strip() == b"") == (res.rc == 0), "%s: status %d but stderr %r" % (tool, res.rc, res.errtext[:200]), case)
                chk.count("tool_runs")
                chk.note("ways", (tool, label))
            gone, new, changed = common.snapdiff(before, common.snapshot(d))
            chk.expect(not (gone or new or changed), "%s touched files: %r %r %r" % (tool, gone, new, changed), dict(tool=tool, input=data[:20000].decode("utf-8", "replace")))
            chk.saw(data, base[0] == 0 and len(data) > 40)
        shutil.rmtree(d, ignore_errors=True)

    def conf_for(r, suite):
        cpps = [cfg.cpp(v, [(cfg.xml_text(r, 1), r.random() < .5) for _ in range(r.choice((0, 1)))], [(c, "T") for c in sorted(suite["types"]) if r.random() < .3],
                        r.random() < .6, r.random() < .5) for v in r.sample(("animate", "ros"), r.choice((1, 2)))]
        return cfg.plain(cpps)

    def aux(d):
        for v in ("animate", "ros"):
            common.write(os.path.join(d, v, "src", "convert", "convert.cpp"), "// user's for %s\n" % v)

    def generator(i):
        r = chk.rng("generator", i)
        d = common.newdir("g")
        _, _, suite = cppgen.gen_suite(r, ntests=r.randint(1, 3), hostile=True, real=True)
        conf = conf_for(r, suite)
        data = json.dumps(suite).encode("utf-8")
        bad = r.random()
        if bad < .1:
            data = broken(r, data)
        elif bad < .2:
            conf = conf.replace("</rtcg-gen>", r.choice(("", "</x>", "<cpp variant='nope'/></rtcg-gen>")))
        cname = r.choice(("gen.xml", "my conf.xml", "g*.xml", "$HOME.xml"))
        common.write(os.path.join(d, cname), conf)
        aux(d)
        sname = oddname(r, ".json") if r.random() < .8 else "-"
        base = None
        n = 0
        for label, args, how, stdin in ways(r, d, sname, data):
            n += 1
            out = r.choice(("out", "o ut", "deep/er/out", "-out", "$HOME", "${TMPDIR}x", "~", "o*t", "%20", "out.xml", "x.json", "gen.d", ".hidden", "..x", "\u00e9", "bin", "animate.", "o2/", "o3//x", "o4/./x", "a,b", "")) + (str(n) if r.random() < .5 else "")
            if out == "" or out == "out":
                out, opts = "out", r.choice(([], [], ["-output", "out"]))
            else:
                opts = r.choice((["-output", out], ["--output", out], ["-output=" + out], ["--output=" + out], ["-output", "elsewhere", "-output", out], ["-output", os.path.join(d, out)]))
            opts = [opts] if opts else []
            clean = r.random() < .4
            if clean:
                opts.append([r.choice(("-clean", "--clean", "-clean=true", "-clean=1"))])
            elif r.random() < .3:
                opts.append([r.choice(("-clean=false", "-clean=0"))])
            r.shuffle(opts)
            flags = [a for o in opts for a in o] + (["--"] if r.random() < .2 else [])
            stale = os.path.normpath(os.path.join(d, out, "stale"))
            shutil.rmtree(os.path.join(d, out), ignore_errors=True)
            if r.random() < .5:
                common.write(stale, "old")
            had = os.path.exists(stale)
            before = common.snapshot(d, skip=(out.split("/")[0],))
            res = call([common.tool("rtcg-gen")] + flags + [cname] + args, how, stdin, r, cwd=d)
            case = dict(args=flags + [cname] + args, how=label, stms=data[:20000].decode("utf-8", "replace"), config=conf)
            gone, new, changed = common.snapdiff(before, common.snapshot(d, skip=(out.split("/")[0],)))
            chk.expect(not (gone or new or changed), "generating into %r touched other files: %r %r %r" % (out, gone, new, changed), case, **res.brief())
            tree = undated(os.path.join(d, out))
            if had and res.rc == 0:
                chk.expect(("stale" in tree) == (not clean), "a file that was in the output directory is %s" % ("still there although -clean was given" if clean else "gone although -clean was not given"), case, **res.brief())
            tree.pop("stale", None)
            got = (res.rc == 0, tree)
            if base is None:
                base = got
                chk.note("generator_status", res.rc)
            else:
                gone, new, changed = common.snapdiff(base[1], tree) if res.rc == 0 else ((), (), ())
                chk.expect(got[0] == base[0] and not (gone or new or changed), "rtcg-gen with the input as %s ended with %d, and as an absolute path with %s; missing %r, added %r, different %r" % (label, res.rc, "0" if base[0] else "failure", gone, new, changed), case, **res.brief())
                chk.count("trees_compared")
            chk.expect(res.out == b"", "rtcg-gen wrote to stdout", case, **res.brief())
            chk.expect((res.err.strip() == b"") == (res.rc == 0), "rtcg-gen: status %d but stderr %r" % (res.rc, res.errtext[:200]), case)
            chk.count("tool_runs")
            chk.note("ways", ("rtcg-gen", label))
            if out.split("/")[0] not in ("", "."):
                shutil.rmtree(os.path.join(d, out.split("/")[0]), ignore_errors=True)
        chk.saw(data + conf.encode("utf-8"), base[0])
        shutil.rmtree(d, ignore_errors=True)

    def layout(d, script=True):
        os.mkdir(os.path.join(d, "bin"))
        common.own(os.path.join(d, "bin"))
        for t in TOOLS:
            os.symlink(os.path.join(bindir, t), os.path.join(d, "bin", t))
        with open(os.path.join(common.REPO, "rtcg.sh"), "rb") as f:
            s = f.read()
        os.chmod(common.write(os.path.join(d, "rtcg.sh"), s), 0o755)

    def script(i):
        r = chk.rng("script", i)
        d = common.newdir("s")
        layout(d)
        ch = cppgen.Chans(r, hostile=True)
        conf = conf_for(r, dict(types=ch.types))
        traces = [dict(name=r.choice(("", "t%d" % k)), prefix=[ch.event(r, r.choice(ch.list)) for _ in range(r.randint(0, 6))], forbid=ch.event(r, r.choice(ch.outs()))) for k in range(r.randint(1, 4))]
        text = model.render_traces(r, traces).encode("utf-8", "surrogatepass")
        bad = r.choice(("", "", "", "traces", "missing", "conflict", "config", "no config", "escape"))
        tname, cname = oddname(r, ""), r.choice(("gen.xml", "my conf.xml", "g*.xml", "$HOME.xml", "sub dir/gen.xml", "a`b.xml"))
        if tname.startswith("-"):
            tname = "./" + tname
        if bad == "traces":
            text += b"\nnonsense in here\n"
        elif bad == "conflict":
            text += b"\nzz.in.1, zz.out.word, zz.in\n"
        elif bad == "config":
            conf = conf.replace("</rtcg-gen>", "<cpp variant='nope'/></rtcg-gen>")
        elif bad == "escape":
            text += b"\n../../x: zz.in.1\n"
        common.write(os.path.join(d, tname), text)
        if bad == "missing":
            os.unlink(os.path.join(d, tname))
        if bad != "no config":
            common.write(os.path.join(d, cname), conf)
        aux(os.path.dirname(os.path.join(d, cname)))
        case = dict(traces=text[:20000].decode("utf-8", "replace"), config=conf, config_name=cname, traces_name=tname, broken=bad)
        # by hand
        ok, data = True, text
        if bad == "missing":
            ok = False
        for t in TOOLS[:2]:
            if ok:
                res = common.run([common.tool(t)], stdin=data, cwd=d)
                ok, data = res.rc == 0, res.out
        hand = os.path.join(d, "byhand")
        if ok:
            res = common.run([common.tool("rtcg-gen"), "-output", hand, cname], stdin=data, cwd=d)
            ok = res.rc == 0
        want = undated(hand)
        shutil.rmtree(hand, ignore_errors=True)
        if bad == "":
            chk.expect(ok, "the tools in turn failed for well-formed inputs", case)
        # by script
        out = os.path.join(d, "out")
        calls = [("file", [cname, tname], "file", r.choice((b"zz not this: x", b"zz: a.in.1, b.out.2\n"))), ("named pipe", [cname, "@FIFO"], "fifo", text), ("-", [cname, "-"], "pipe", text), ("stdin", [cname], r.choice(("pipe", "file")), text)]
        if bad == "missing":
            calls = calls[:1]
        for label, args, how, stdin in calls:
            shutil.rmtree(out, ignore_errors=True)
            if not ok and r.random() < .5:
                common.write(os.path.join(out, "stale"), "of another run")
            before = common.snapshot(d, skip=("out",))
            argv = r.choice((["./rtcg.sh"], ["sh", "rtcg.sh"], [os.path.join(d, "rtcg.sh")])) + args
            res = call(argv, how, stdin, r, cwd=d)
            got = undated(out)
            c = dict(case, argv=argv)
            gone, new, changed = common.snapdiff(before, common.snapshot(d, skip=("out",)))
            chk.expect(not (gone or new or changed), "rtcg.sh touched other files: %r %r %r" % (gone, new, changed), c, **res.brief())
            if ok:
                gone, new, changed = common.snapdiff(want, got)
                chk.expect(res.rc == 0, "rtcg.sh (traces by %s) failed where the tools in turn do not" % label, c, **res.brief())
                chk.expect(not (gone or new or changed), "rtcg.sh (traces by %s) and the tools in turn differ: missing %r, added %r, different %r" % (label, gone, new, changed), c, **res.brief())
                chk.count("script_trees_compared")
                chk.count("script_files_compared", len(want))
            else:
                chk.expect(res.rc != 0 and res.err.strip() != b"", "rtcg.sh (traces by %s) ended with %d where one of the tools fails" % (label, res.rc), c, **res.brief())
                chk.count("script_failures_seen")
            chk.note("script_cases", (label, bad))
        chk.saw(text + conf.encode("utf-8"), ok)
        shutil.rmtree(d, ignore_errors=True)

    FLAGS = (["-nope"], ["--nope"], ["-nope=1"], ["-clean=maybe"], ["-clean="], ["-output"], ["-outpu", "x"], ["-Output", "x"], ["-=x"], ["---clean"], ["-clean", "-nope"], ["-output", "x", "-y"], ["-c"], ["-o", "x"])

    def usage(i):
        r = chk.rng("usage", i)
        d = common.newdir("u")
        layout(d)
        common.write(os.path.join(d, "gen.xml"), "<rtcg-gen><cpp variant=\"animate\"><include src=\"x\"/></cpp></rtcg-gen>")
        common.write(os.path.join(d, "in.csv"), "t: a.in.1, b.out.2\n")
        common.write(os.path.join(d, "tests.json"), common.run([common.tool(TOOLS[0]), "in.csv"], cwd=d).out)
        common.write(os.path.join(d, "stms.json"), common.run([common.tool(TOOLS[1]), "tests.json"], cwd=d).out)
        common.write(os.path.join(d, "out", "stale"), "old")
        before = common.snapshot(d)
        words = ["in.csv", "tests.json", "stms.json", "gen.xml", "-", "", "x", "out", "."]

        def some(n):
            return [r.choice(words) for _ in range(n)]
        calls = []
        for t in TOOLS[:2]:
            good = {"rtcg-read-traces": "in.csv", "rtcg-make-stms": "tests.json"}[t]
            for n in (2, 3, 4, 9):
                calls.append(([common.tool(t)] + r.choice((some(n), [good] * n, [good] + some(n - 1), ["-"] * n)), "%d arguments" % n))
        gen = common.tool("rtcg-gen")
        calls.append(([gen], "0 arguments"))
        calls.append(([gen, "-clean"], "0 arguments"))
        calls.append(([gen, "-clean", "-output", "x"], "0 arguments"))
        for n in (3, 4, 7):
            calls.append(([gen] + r.choice(([], ["-clean"], ["-output", "y"])) + ["gen.xml", "stms.json"] + some(n - 2), "%d arguments" % n))
        calls.append(([gen, "gen.xml", "stms.json", "-clean"], "an option after the arguments"))
        calls.append(([gen, "gen.xml", "stms.json", "-output", "x"], "an option after the arguments"))
        for f in r.sample(FLAGS, 6):
            rest = ["gen.xml", "stms.json"] if f != ["-output"] else []
            calls.append(([gen] + r.choice(([], ["-clean"])) + f + rest, "option " + " ".join(f)))
        for n in (0, 3, 4, 8):
            calls.append((r.choice((["./rtcg.sh"], ["sh", "rtcg.sh"])) + (["gen.xml", "in.csv"] + some(n - 2) if n else []), "rtcg.sh, %d arguments" % n))
        for argv, what in calls:
            rd, wr = os.pipe()
            os.write(wr, SENTINEL)
            os.close(wr)
            res = common.run(argv, stdin_fd=rd, cwd=d)
            left = b""
            while True:
                got = os.read(rd, 65536)
                if not got:
                    break
                left += got
            os.close(rd)
            case = dict(argv=argv)
            chk.expect(res.rc > 0, "%s: exit status %r" % (what, res.rc), case, **res.brief())
            chk.expect(b"usage" in res.err.lower() and os.path.basename(argv[1] if argv[0] == "sh" else argv[0]).encode() in res.err, "%s: no usage message on stderr" % what, case, **res.brief())
            chk.expect(res.out == b"", "%s: something was written to stdout" % what, case, **res.brief())
            chk.expect(left == SENTINEL, "%s: %d bytes of stdin were read" % (what, len(SENTINEL) - len(left)), case, **res.brief())
            after = common.snapshot(d)
            gone, new, changed = common.snapdiff(before, after)
            chk.expect(not (gone or new or changed), "%s: files were touched: %r %r %r" % (what, gone, new, changed), case, **res.brief())
            chk.count("usage_errors_seen")
            chk.note("usage_errors", (os.path.basename(argv[0]), what))
            chk.saw(repr(argv), False)
        shutil.rmtree(d, ignore_errors=True)

    def unopened(i):
        """An input that can't be opened is an error, and stdin isn't taken instead."""
        r = chk.rng("unopened", i)
        d = common.newdir("n")
        common.write(os.path.join(d, "gen.xml"), "<rtcg-gen><cpp variant=\"animate\"/></rtcg-gen>")
        for tool, good in ((TOOLS[0], b"t: a.in.1, b.out.2\n"), (TOOLS[1], json.dumps({}).encode()), (TOOLS[2], json.dumps({"tests": {}}).encode())):
            for name in ("", "missing", "missing/in", "gen.xml/in", " -", "--", "-.csv", "*", "~"):
                argv = [common.tool(tool)] + (["gen.xml"] if tool == TOOLS[2] else []) + [name]
                res = call(argv, r.choice(("file", "pipe")), good, r, cwd=d)
                case = dict(argv=argv)
                chk.expect(res.rc == 1, "%s: exit status %r for an input %r that isn't there" % (tool, res.rc, name), case, **res.brief())
                chk.expect(res.err.strip() != b"" and res.out == b"", "%s: an input %r that isn't there: %r on stdout, %r on stderr" % (tool, name, res.out[:100], res.errtext[:100]), case)
                chk.expect(not os.path.exists(os.path.join(d, "out")), "%s: wrote something for an input %r that isn't there" % (tool, name), case)
                chk.count("unopened_inputs")
                chk.saw(repr((tool, name, i)), False)
        for argv in ([common.tool(TOOLS[2]), "", "x.json"], [common.tool(TOOLS[2]), "-", "x.json"], [common.tool(TOOLS[2]), "missing.xml"]):
            res = call(argv, "file", b'{"tests": {}}', r, cwd=d)
            chk.expect(res.rc == 1 and res.err.strip() != b"", "a configuration %r that isn't there: exit status %r" % (argv[1], res.rc), dict(argv=argv), **res.brief())
        shutil.rmtree(d, ignore_errors=True)

    common.pmap(unopened, range(chk.scale(4, 20)))
    common.pmap(filters, range(chk.scale(500, 4000)))
    common.pmap(generator, range(chk.scale(400, 3000)))
    common.pmap(script, range(chk.scale(180, 1200)))
    common.pmap(usage, range(chk.scale(10, 60)))
    return chk.finish(200)
