"""C17: cleaning removes the output directory and nothing else."""
import json
import os
import shutil

import c12
import cfg
import common
import cppgen


def litter(r, out, nest, inside=()):
    """Things that were in the output directory before; (path -> entry) as a snapshot has them."""
    os.makedirs(out, exist_ok=True)
    p = out
    while p != nest and p.startswith(nest):
        common.own(p)
        p = os.path.dirname(p)
    for k in range(r.randint(1, 6)):
        sub = r.choice(("", "", "animate", "animate/src/rtcg", "ros/src", "old/deep/er", ".hidden", "animate/src/convert", "ros/src/gone/src", "bin", "animate/bin", ".git", ".git/objects/ab", "animate/src", "build/CMakeFiles", "devel") + inside)
        common.write(os.path.join(out, sub, r.choice(("f%d" % k, ".f%d" % k, "convert.cpp.bak", "n\u00e4me %d" % k, "package.xml~", "convert.cpp", "convert.h", "Makefile", "main.cpp", "rtcg.cpp", "mine.h", "HEAD", ".gitignore", "CMakeLists.txt", "package.xml", "notes.md", "a.o"))), "old %d\n" % r.randint(0, 10**9) * r.randint(1, 3))
    for k in range(r.choice((0, 0, 1, 2))):
        link = os.path.join(out, r.choice(("", "animate", "old")), "link%d" % k)
        os.makedirs(os.path.dirname(link), exist_ok=True)
        common.own(os.path.dirname(link))
        os.symlink(r.choice((os.path.join(nest, "conf"), os.path.join(nest, "esc.txt"), "../nowhere", "..", os.path.join(nest, "bystanders"), ".")), link)
        common.own(link)
    if r.random() < .2:
        os.chmod(common.write(os.path.join(out, "readonly"), "ro\n"), 0o444)


def main():
    chk = common.Check("C17", "exploration",
                       "runs with and without -clean into output directories that hold older files, links out of them, odd names and modes, at random places of a "
                       "nested scratch tree: snapshots before and after, inside against a fresh generation, outside against itself; runs with unreadable input and "
                       "runs that would clean the current directory or one above it; non-trivial if something was there to be removed or kept",
                       ["without -clean the output directory is not reached through a symbolic link, and generated files don't already exist as links"])
    common.tools()

    def setup(r, i, tag):
        top, nest = c12.nested(r, tag)
        for k in range(3):
            common.write(os.path.join(nest, "bystanders", "d%d" % k, "f"), "b%d\n" % k)
        _, stms, suite = cppgen.gen_suite(r, ntests=r.randint(0, 3))
        used = sorted(suite["types"])
        cpps = [cfg.cpp(v, [], [(c, "T") for c in used if r.random() < .3], r.random() < .5, r.random() < .5) for v in r.sample(("animate", "ros"), r.choice((0, 1, 2, 2)))]
        common.write(os.path.join(nest, "conf", "gen.xml"), cfg.plain(cpps))
        for v in ("animate", "ros"):
            common.write(os.path.join(nest, "conf", v, "src", "convert", "convert.cpp"), "// user\n")
        return top, nest, suite, cpps

    def command(r, clean, arg, conf, sfile):
        argv = [common.tool("rtcg-gen")]
        fl = ([r.choice(("-clean", "--clean", "-clean=true"))] if clean else r.choice(([], ["-clean=false"]))), (r.choice((["-output", arg], ["--output=" + arg], ["-output=" + arg])) if arg is not None else [])
        for f in r.sample(fl, 2):
            argv += f
        return argv + [conf] + ([sfile] if sfile else [])

    def normal(i):
        r = chk.rng("normal", i)
        top, nest, suite, cpps = setup(r, i, "n")
        clean = r.random() < .65
        cwd, arg, at, conf = c12.place(r, nest, here=not clean)
        # a fresh generation, for reference
        ref = os.path.join(top, "ref", "out")
        sfile = common.write(os.path.join(top, "ref", "stms.json"), json.dumps(suite))
        res = common.run([common.tool("rtcg-gen"), "-output", ref, os.path.join(nest, "conf", "gen.xml"), sfile])
        if not chk.expect(res.rc == 0, "generation failed for a well-formed suite and configuration", dict(suite=suite, cpps=cpps), **res.brief()):
            return
        fresh = cppgen.tree_of(ref) if os.path.isdir(ref) else {}
        kind = r.choice(("litter", "litter", "litter", "again", "none", "file"))
        if kind in ("litter", "again"):
            litter(r, at, nest, inside=tuple(os.path.join(v, "src", t, s) for v in ("animate", "ros") for t in suite["tests"] for s in ("include", "src", "")))
        if kind == "again" and os.path.isdir(ref):  # an older generation, with longer files
            for p, e in fresh.items():
                if e[0] == "file":
                    common.write(os.path.join(at, p), e[2] + b"\n// trailing old text\n" * 50)
            for v in sorted(os.listdir(ref)):  # tests that the suite no longer has, variants that the configuration no longer has
                for t in r.sample(("Gone", "gone2", "rtcgx", "zz", "T0"), r.randint(1, 3)):
                    v2 = v if r.random() < .7 else "animate" if v == "ros" else "ros"
                    for p in ("src/main.cpp", "package.xml", "CMakeLists.txt", "include/user.h"):
                        if t not in suite["tests"] and r.random() < .8:
                            common.write(os.path.join(at, v2, "src", t, p), "of a test that is gone\n")
                for p in ("bin/x", "Makefile.user", "src/rtcg/old.h", "src/convert/old.cpp", "src/convert/convert.cpp", "src/rtcg/rtcg.hpp", "Makefile"):
                    if v + "/" + p not in fresh and r.random() < .4:
                        common.write(os.path.join(at, v, p), "older\n")
        if kind == "file" and clean:
            common.write(at, "a file where the output goes\n")
        case = dict(suite=suite, cpps=cpps, output=arg, clean=clean, there=kind)
        old = cppgen.tree_of(at) if os.path.isdir(at) else {}
        sin = r.choice(("file", "stdin", "inside"))
        if sin == "inside" and kind in ("litter", "again"):
            sf = common.write(os.path.join(at, "stms.json"), json.dumps(suite))
            old = cppgen.tree_of(at)
        else:
            sf = sfile if sin == "file" else None
        for k in range(r.choice((0, 1, 2))):  # things beside it that look as if they belonged to it
            p = at + r.choice((".bak", "~", ".old", ".tmp", "2", "-old", ".d"))
            if os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
                common.write(p if r.random() < .5 else os.path.join(p, "f"), "beside %d\n" % k)
        before = c12.outside(top, at)
        res = common.run(command(r, clean, arg, conf, sf), cwd=cwd, stdin=json.dumps(suite), env=c12.around(top))
        gone, new, changed = common.snapdiff(before, c12.outside(top, at))
        chk.expect(not (gone or new or changed), "outside the output directory: removed %r, added %r, changed %r" % (gone, new, changed), case)
        if not chk.expect(res.rc == 0, "the run failed", case, **res.brief()):
            return
        have = cppgen.tree_of(at) if os.path.isdir(at) else {}
        if clean:
            gone, new, changed = common.snapdiff(fresh, have)
            chk.expect(not (gone or new or changed), "after -clean the output directory isn't just what was generated: missing %r, left over %r, different %r" % (gone, new, changed), case)
            chk.expect(not old or len(fresh) > 0 or not have, "leftovers", case)
            chk.count("old_entries_removed", len(set(old) - set(fresh)))
        else:
            mine = {p for p, e in fresh.items() if e[0] == "file"}
            lost = sorted(p for p in old if p not in mine and have.get(p) != old[p])
            chk.expect(not lost, "without -clean, files that aren't generated were removed or changed: %r" % lost, case)
            bad = sorted(p for p in mine if have.get(p, ("", 0, b""))[::2] != fresh[p][::2])
            chk.expect(not bad, "without -clean, generated files differ from a fresh generation: %r" % bad, case)
            chk.count("old_entries_kept", len([p for p in old if p not in mine]))
        chk.count("bystanders_watched", len(before))
        chk.note("situations", (clean, kind, arg))
        chk.saw(repr((case, sorted(old))), bool(old), sample=dict(output=arg, clean=clean, before=sorted(old)[:8], after=len(have)))
        shutil.rmtree(top, ignore_errors=True)

    def stuck(i):
        """Something in the output directory can't be removed: then -clean doesn't succeed."""
        r = chk.rng("stuck", i)
        top, nest, suite, cpps = setup(r, i, "s")
        cwd, arg, at, conf = c12.place(r, nest)
        litter(r, at, nest)
        sub = os.path.join(at, r.choice(("old", "animate", "ros/src", "x/y", ".cache")))
        common.write(os.path.join(sub, "keep"), "can't be removed\n")
        os.chown(sub, 0, 0)
        os.chmod(sub, 0o755)
        sfile = common.write(os.path.join(nest, "conf", "stms.json"), json.dumps(suite))
        case = dict(suite=suite, cpps=cpps, output=arg, stuck=os.path.relpath(sub, at))
        before = c12.outside(top, at)
        res = common.run(command(r, True, arg, conf, sfile), cwd=cwd)
        gone, new, changed = common.snapdiff(before, c12.outside(top, at))
        chk.expect(not (gone or new or changed), "outside the output directory: removed %r, added %r, changed %r" % (gone, new, changed), case)
        if not os.path.exists(os.path.join(sub, "keep")):
            chk.count("could_be_removed_after_all")  # this sandbox lets it
            return
        chk.expect(res.rc == 1 and res.err.strip(), "a file of old can't be removed, but -clean reports success (status %d)" % res.rc, case, **res.brief())
        chk.count("undeletable_directories")
        chk.saw(repr((i, arg)), True)
        shutil.rmtree(top, ignore_errors=True)

    def unreadable(i):
        r = chk.rng("unreadable", i)
        top, nest, suite, cpps = setup(r, i, "u")
        cwd, arg, at, conf = c12.place(r, nest)
        litter(r, at, nest)
        text = json.dumps(suite)
        kind = r.choice(("missing", "directory", "empty", "cut", "wrong type", "no permission", "not json", "bad event", "bad verdict", "null test"))
        sf = os.path.join(nest, "conf", "in.json")
        if kind == "directory":
            sf = os.path.join(nest, "bystanders")
        elif kind != "missing":
            bad = {"empty": "", "cut": text[:r.randint(1, max(1, len(text) - 2))], "wrong type": r.choice(("[]", "3", '"x"', '{"tests":[]}', '{"tests":{"a":{"states":{}}}}')), "no permission": text, "not json": "tests: none\n",
                   "bad event": '{"types":{},"tests":{"a":{"states":[{"id":"initial","transitionSets":[{"channel":"a.sideways","transitions":[]}],"verdicts":{}}]}}}',
                   "bad verdict": '{"types":{},"tests":{"a":{"states":[{"id":"initial","transitionSets":[],"verdicts":{"a":"perhaps"}}]}}}',
                   "null test": '{"types":{},"tests":{"a":null}}'}[kind]
            common.write(sf, bad)
            if kind == "no permission":
                os.chmod(sf, 0)
            elif r.random() < .4:
                sf = None
        case = dict(input=kind, output=arg, cpps=cpps)
        before = common.snapshot(top) if kind != "no permission" or os.geteuid() == 0 else {}
        res = common.run(command(r, True, arg, conf, sf), cwd=cwd, stdin=b"" if sf else bad)
        gone, new, changed = common.snapdiff(before, common.snapshot(top))
        chk.expect(not (gone or new or changed), "with -clean and unreadable input (%s): removed %r, added %r, changed %r" % (kind, gone, new, changed), case, **res.brief())
        chk.expect(res.rc == 1 and res.err.strip(), "unreadable input (%s) is not reported (status %d)" % (kind, res.rc), case, **res.brief())
        chk.note("unreadable_inputs", (kind, sf is None))
        chk.saw(repr((i, kind, arg)), True)
        shutil.rmtree(top, ignore_errors=True)

    def current(i):
        r = chk.rng("current", i)
        top, nest, suite, cpps = setup(r, i, "c")
        here = os.path.join(nest, "work", "here")
        up = r.choice((0, 0, 1, 1, 2, 3))
        below = r.choice((0, 0, 0, 1, 3, 6, 20))  # however far the current directory is below
        for k in range(below):
            here = os.path.join(here, r.choice(("d", "out", "src", ".x")))
            up += r.random() < .7
        if below:
            os.makedirs(here)
            p = here
            while p != os.path.join(nest, "work", "here"):
                common.own(p)
                p = os.path.dirname(p)
        at = here
        for _ in range(up):
            at = os.path.dirname(at)
        start = here
        if r.random() < .3:  # the current directory is reached through a link
            start = os.path.join(top, "link")
            os.symlink(here if r.random() < .5 else os.path.dirname(here), start)
            common.own(start)
            if os.path.realpath(start) != here:
                start = os.path.join(start, os.path.basename(here))
        rel = "/".join([".."] * up) or "."
        arg = r.choice((rel, rel + "/", rel + "/.", "./" + rel, at, at + "/", "x/../" + rel, os.path.join(rel, "zz", ".."), "//" + at, "" if up == 0 else rel, os.path.join(at, os.path.relpath(here, at), rel)))
        arg2 = arg
        litter(r, at, nest)
        sfile = common.write(os.path.join(nest, "conf", "stms.json"), json.dumps(suite))
        case = dict(output=arg2, current=os.path.relpath(start, top), levels_up=up)
        before = common.snapshot(top)
        env = dict(os.environ)
        if r.random() < .5:
            env["PWD"] = start
        res = common.run(command(r, True, arg2, os.path.join(nest, "conf", "gen.xml"), sfile), cwd=start, env=env)
        gone, new, changed = common.snapdiff(before, common.snapshot(top))
        chk.expect(not (gone or changed), "cleaning %r from below it removed %r, added %r, changed %r" % (arg2, gone, new, changed), case, **res.brief())
        chk.expect(res.rc == 1 and res.err.strip(), "cleaning %r, which is or contains the current directory, isn't refused (status %d)" % (arg2, res.rc), case, **res.brief())
        chk.note("ways_to_the_current_directory", (up, start != here, arg2.replace(top, "")))
        chk.saw(repr((i, arg2.replace(top, ""))), True)
        shutil.rmtree(top, ignore_errors=True)

    def linked(i):
        """The output directory's name is a link: what it leads to is not the output directory's."""
        r = chk.rng("linked", i)
        top, nest, suite, cpps = setup(r, i, "k")
        here = os.path.join(nest, "work", "here")
        os.makedirs(here, exist_ok=True)
        common.own(here)
        target = os.path.join(nest, r.choice(("bystanders", "bystanders/d0", "work/elsewhere", "conf")))
        common.write(os.path.join(target, "precious"), "keep\n")
        name = r.choice(("out", "o", "l/nk"))
        link = os.path.join(here, name)
        os.makedirs(os.path.dirname(link), exist_ok=True)
        common.own(os.path.dirname(link))
        os.symlink(target if r.random() < .5 else os.path.relpath(target, os.path.dirname(link)), link)
        os.lchown(link, common.UID, common.UID)
        sfile = common.write(os.path.join(nest, "conf", "stms.json"), json.dumps(suite))
        arg = r.choice((name, "./" + name, link, name + "/", name + "/."))
        case = dict(suite=suite, cpps=cpps, output=arg, link_to=os.path.relpath(target, nest))
        before = c12.outside(top, link)
        res = common.run(command(r, True, arg, os.path.join(nest, "conf", "gen.xml"), sfile), cwd=here)
        gone, new, changed = common.snapdiff(before, c12.outside(top, link))
        gone = [p for p in gone if os.path.join(top, p) != link]
        chk.expect(not (gone or changed), "-clean with an output directory that is a link to another: there it removed %r, changed %r" % (gone, changed), case, **res.brief())
        chk.count("linked_outputs")
        chk.note("linked", (name, arg == name, res.rc))
        chk.saw(repr((i, arg)), True)
        shutil.rmtree(top, ignore_errors=True)

    common.pmap(linked, range(chk.scale(60, 300)))
    common.pmap(normal, range(chk.scale(900, 5000)))
    common.pmap(stuck, range(chk.scale(100, 400)))
    common.pmap(unreadable, range(chk.scale(400, 2000)))
    common.pmap(current, range(chk.scale(500, 2000)))
    return chk.finish(300)
