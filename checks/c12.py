"""C12: generation writes a complete, buildable, confined tree."""
import json
import os
import shutil

import cfg
import common
import cppgen
import model
import pipe

GOOD_NAMES = ["a b", "...", "..x", "x..", "-rf", "$(touch pwned)", "a\\b", "*", "~", "test;", "\u4e2d\u6587", "\u00e9t\u00e9", "a" * 200, "\U0001f600", "'q'", "\"d\"", "%s", "{{.Name}}", "<x>", "&", "c:", "#1", "CON", "-", "rtcg", "convert", "src", "include", "bin", "all", "mkdir", "main", "main.cpp", "rtcg.h", "package.xml", "Makefile", "animate", "ros", "trail ", " lead", "trail.", "tab\t", "UP", "up", "Up", "out", "x.bak", "x~", ".hidden", "_", "0", "null"]
BAD_NAMES = ["", ".", "..", "../esc", "../../esc", "../../../../../esc", "a/b", "a/../b", "a/", "/", "./a", "x/..", "../out2", "..//..//esc", "a//b", "%ABS%/esc", "//", "../..", "../rtcg", "a/../../..", "n\0ul", "b" * 300]


def expected(cpps, tests, used):
    """Files that must be there after a successful run."""
    want = set()
    for c in cpps:
        v = c["variant"]
        want |= {v + "/src/rtcg/rtcg.h", v + "/src/rtcg/rtcg.cpp", v + "/src/convert/convert.h"}
        if any(n in used for n, _ in c["channels"]):
            want.add(v + "/src/convert/convert.cpp")
        for t in tests:
            want.add("%s/src/%s/src/main.cpp" % (v, t))
            if c["catkin"]:
                want |= {"%s/src/%s/package.xml" % (v, t), "%s/src/%s/CMakeLists.txt" % (v, t)}
        if c["makefile"]:
            want.add(v + "/Makefile")
    return want


def place(r, nest, here=False):
    """Where things are: (current directory, output argument or None, where that is, configuration argument)."""
    cwd = os.path.join(nest, "work", "here")
    if here and r.random() < .15:
        arg, at = r.choice(((".", "work/here"), ("./", "work/here"), ("..", "work"), ("x/..", "work/here")))
        return cwd, arg, os.path.join(nest, at), os.path.join(nest, "conf", "gen.xml")
    arg, at = r.choice([(None, "work/here/out"), ("out", "work/here/out"), ("./o/p/q", "work/here/o/p/q"), ("../sib", "work/sib"), ("out/", "work/here/out"), ("x/../y", "work/here/y"),
                        (os.path.join(nest, "abs", "out"), "abs/out"), ("../../deep/./er", "deep/er"), ("sp ace", "work/here/sp ace"), ("-o", "work/here/-o"), (" lead", "work/here/ lead"), ("trail ", "work/here/trail "), ("\u00fcml/\u4e2d", "work/here/\u00fcml/\u4e2d"), ("gen.xml", "work/here/gen.xml"), ("given", "work/here/given")])
    conf = r.choice((os.path.join(nest, "conf", "gen.xml"), "../../conf/gen.xml", "../../conf/./gen.xml"))
    return cwd, arg, os.path.join(nest, at), conf


def outside(top, out):
    """A snapshot of everything that isn't the output directory.  Directories made on the way to it are its own."""
    rel = os.path.relpath(out, top)
    snap = common.snapshot(top, skip=(rel,))
    p = os.path.dirname(rel)
    while p:
        if snap.get(p, ("", 0, ""))[0] == "dir":
            snap.pop(p)
        p = os.path.dirname(p)
    return snap


def around(top):
    """An environment whose temporary and home directories are among those watched (C12 and C17)."""
    e = dict(os.environ, HOME=os.path.join(top, "home"))
    for k, v in (("TMPDIR", "tmp"), ("XDG_CACHE_HOME", "home/.cache"), ("XDG_CONFIG_HOME", "home/.config")):
        e[k] = os.path.join(top, v)
    return e


def nested(r, tag):
    """A scratch directory whose working part lies several levels down, with bystanders all around."""
    top = common.newdir(tag)
    nest = os.path.join(top, "l1", "l2", "l3", "l4", "l5", "l6")
    for p in ("work/here/keep.txt", "work/sib.txt", "conf/other.xml", "esc.txt", "work/esc.txt", "work/here/esc", "../esc.txt", "../../../top.txt", "work/here/animate/src/t/src/main.cpp", "work/rtcg/rtcg.h"):
        common.write(os.path.normpath(os.path.join(nest, p)), "bystander %s\n" % p)
    for p in ("tmp", "home/.cache/rtcg", "home/.config/rtcg"):
        os.makedirs(os.path.join(top, p))
        os.chmod(os.path.join(top, p), 0o777)
    return top, nest


def main():
    chk = common.Check("C12", "exploration",
                       "random suites and configurations generated into random places of a nested scratch tree with bystanders: file lists against the "
                       "configuration, snapshots of everything outside the output directory, hostile test names; and generated trees built by make and by "
                       "CMake (with a stand-in for catkin), every program run once; non-trivial if at least one test was generated, refused or built",
                       ["test names that are to be built are C++ identifiers that aren't keywords", "the user's convert.cpp compiles"])
    common.tools()

    def conf_of(r, suite):
        used = sorted(suite["types"])
        cpps = []
        for v in r.sample(("animate", "ros"), r.choice((0, 1, 1, 2, 2))):
            ch = [(c, "UserType") for c in used if r.random() < .4] if r.random() < .5 else []
            ch += [("nobody%d" % k, "X") for k in range(r.choice((0, 0, 1)))]
            incs = [(cfg.xml_text(r, 1), r.random() < .5) for _ in range(r.choice((0, 0, 1, 3)))]
            cpps.append(cfg.cpp(v, incs, ch, r.random() < .5, r.random() < .5, cfg.any_package(r) if r.random() < .4 else None))
        return cpps

    def tree(i):
        r = chk.rng("tree", i)
        top, nest = nested(r, "t")
        n = r.choice((0, 1, 1, 2, 3, 5))
        _, stms, suite = cppgen.gen_suite(r, ntests=n, hostile=True, real=True)
        for t in list(suite["tests"]):  # directories may have names that no identifier has
            if r.random() < .4:
                new = r.choice(GOOD_NAMES)
                if new not in suite["tests"]:
                    suite["tests"][new] = suite["tests"].pop(t)
        cpps = conf_of(r, suite)
        cwd, arg, at, conf = place(r, nest, here=True)
        common.write(os.path.join(nest, "conf", "gen.xml"), cfg.render(r, cpps))
        for v in ("animate", "ros"):
            common.write(os.path.join(nest, "conf", v, "src", "convert", "convert.cpp"), "// user's, for %s %d\n" % (v, i))
        sfile = common.write(os.path.join(nest, "conf", "stms.json"), json.dumps(suite))
        want = expected(cpps, suite["tests"], suite["types"])
        old = sorted(p for p in want if r.random() < .5) if r.random() < .4 else []
        for p in old:  # of an earlier run, and out of date
            common.write(os.path.join(at, p), "// STALE\n" * r.choice((1, 3000)))
        here = at.endswith("/work/here") or at.endswith("/work")
        argv = [common.tool("rtcg-gen")] + (["-clean"] if not here and r.random() < .2 else []) + (["-output", arg] if arg is not None else []) + [conf, sfile]
        case = dict(suite=suite, cpps=cpps, output=arg, config=conf)
        before = outside(top, at)
        res = common.run(argv, cwd=cwd, env=around(top))
        after = outside(top, at)
        gone, new, changed = common.snapdiff(before, after)
        chk.expect(not (gone or new or changed), "generating into %r changed things elsewhere: removed %r, added %r, changed %r" % (arg, gone, new, changed), case)
        if not chk.expect(res.rc == 0, "generation failed for a well-formed suite and configuration", case, **res.brief()):
            return
        have = common.snapshot(at) if os.path.isdir(at) else {}
        missing = sorted(p for p in want if have.get(p, ("", 0, b""))[0] != "file")
        chk.expect(not missing, "not generated: %r" % missing, case)
        hollow = sorted(p for p in want if p in have and have[p][2] == b"")
        chk.expect(not hollow, "generated empty: %r" % hollow, case)
        stale = [p for p in old if b"// STALE" in have.get(p, ("", 0, b""))[2]]
        chk.expect(not stale, "still (partly) what was there before: %r" % stale, case)
        chk.count("stale_files_replaced", len(old) - len(stale))
        for c in cpps:
            v = c["variant"]
            for p, s in (("convert.cpp", b"// user's, for %s %d\n" % (v.encode(), i)),):
                f = have.get("%s/src/convert/%s" % (v, p))
                if f and "%s/src/convert/%s" % (v, p) in want:
                    chk.expect(f[2] == s, "%s: %s isn't the user's" % (v, p), case)
        chk.count("files_expected_and_found", len(want) - len(missing))
        chk.count("bystanders_watched", len(before))
        chk.note("places", arg)
        chk.saw(repr((i, sorted(want))), bool(want), sample=dict(output=arg, tests=sorted(suite["tests"]), files=len(want)))
        shutil.rmtree(top, ignore_errors=True)

    def hostile(i):
        r = chk.rng("hostile", i)
        top, nest = nested(r, "h")
        _, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 3))
        bad = BAD_NAMES[i % len(BAD_NAMES)].replace("%ABS%", os.path.join(nest, "abs"))
        t = r.choice(sorted(suite["tests"]))
        if r.random() < .4:
            w, w2 = (r.choice(("", "_", "\u00e9")) + model.ident(r) * r.randint(1, 14) for _ in range(2))
            bad = r.choice((w + "/" + w2, w + "/", "/" + w, "./" + w, w + "/.", w + "//" + w2, w + "/../" + w2, "../" * r.randint(1, 4) + w, w + "/.." * r.randint(1, 4), w + "/" + t, w + "/src/" + w2))
        suite["tests"][bad] = suite["tests"].pop(t)
        cpps = conf_of(r, suite)
        if not cpps:
            cpps = [cfg.cpp("animate", makefile=True, catkin=True)]
        cwd, arg, at, conf = place(r, nest)
        common.write(os.path.join(nest, "conf", "gen.xml"), cfg.plain(cpps))
        for v in ("animate", "ros"):
            common.write(os.path.join(nest, "conf", v, "src", "convert", "convert.cpp"), "//\n")
        argv = [common.tool("rtcg-gen")] + (["-output", arg] if arg is not None else []) + [conf, "-"]
        case = dict(suite=suite, name=bad, cpps=cpps, output=arg)
        before = outside(top, at)
        res = common.run(argv, stdin=json.dumps(suite), cwd=cwd, env=around(top))
        gone, new, changed = common.snapdiff(before, outside(top, at))
        chk.expect(not (gone or new or changed), "a test named %r: removed %r, added %r, changed %r outside the output directory" % (bad[:80], gone, new, changed), case)
        chk.expect(res.rc == 1 and res.err.strip(), "a test named %r isn't refused (status %d)" % (bad[:80], res.rc), case, **res.brief())
        chk.note("hostile_names", bad[:80] if "/abs" not in bad else "abs")
        chk.count("bystanders_watched", len(before))
        chk.saw(repr((i, bad)), True)
        shutil.rmtree(top, ignore_errors=True)

    def build(i):
        r = chk.rng("build", i)
        v = ("animate", "ros")[i % 2]
        ch, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 3), hostile=r.random() < .3, real=r.random() < .4, both=False)
        if i < 2:  # one test is long
            evs = [c for c in ch.list if c[0] in suite["types"]]
            evs = [ch.event(r, c) for c in evs for _ in (0, 1)] if i else [("plain", "out", k) for k in range(3)]
            if evs:
                big = model.build_stm(model.expand(dict(prefix=evs * (chk.scale(620, 1200) // len(evs)), forbid=evs[0]), "big"))
                stms["big"], suite["tests"]["big"] = big, model.suite_to_json({"big": big})["tests"]["big"]
                if not i:
                    suite["types"]["plain"] = "nat"
        for t in list(stms):  # identifiers that look as if they meant something else
            if r.random() < .25:
                new = r.choice(("all", "mkdir", "bin", "src", "include", "convert", "rtcg", "Makefile", "animate", "ros", "node", "main", "output", "CXX", "UP", "up", "_x", "x" * 100))
                if new not in stms:
                    stms[new] = stms.pop(t)
                    suite["tests"][new] = suite["tests"].pop(t)
        used = sorted(suite["types"])
        over = {c: suite["types"][c] for c in used if r.random() < .6} if r.random() < .5 else {}
        d = common.newdir("b")
        pkg = r.choice((None, cfg.package(name="${NAME}"), cfg.package(name="p_${NAME}", description=cfg.xml_text(r), depends=["geometry_msgs", "other_dep"], buildtool=["catkin"])))
        conf = [cfg.cpp(v, [("user_%s.h" % v, r.random() < .5)] if over else [], [(c, "user_%s::%s" % (v, cppgen.cap(c))) for c in over], True, True, pkg)]
        if r.random() < .5:  # the other variant comes along, before or after
            conf.insert(r.choice((0, 1)), cfg.cpp("ros" if v == "animate" else "animate", [("other.h", False)], [], r.random() < .5, r.random() < .5))
        aux = {"inc/user_%s.h" % v: cppgen.user_header(v, over)}
        if over:
            aux[v + "/src/convert/convert.cpp"] = cppgen.user_convert(v, over)
        case = dict(suite=suite, cpps=conf, build=i)
        out = cppgen.gen_files(chk, d, suite, conf, case, aux=aux)
        if out is None:
            return
        base = os.path.join(out, v)
        incs = " -I" + os.path.join(d, "inc") + (" -I" + cppgen.ROS_STUB if v == "ros" else "")
        env = dict(os.environ, TMPDIR=d)
        # the Makefile, as it comes but for where foreign headers are
        make = ["make", "CXX=g++" + incs]
        if r.random() < .5:
            make.append("-j3")
        make += ["CXXFLAGS=-std=c++11 -Wall -Wextra -O0"] if r.random() < .3 else []
        if r.random() < .3:
            make.append("all")
        res = common.run(make, cwd=base, env=env, cpu=200)
        if chk.expect(res.rc == 0, "%s: the Makefile doesn't build" % v, case, **res.brief()):
            have = sorted(os.listdir(os.path.join(base, "bin")))
            chk.expect(have == sorted(stms), "%s: the Makefile built %r for tests %r" % (v, have, sorted(stms)), case)
            for t in have:
                starts(chk, os.path.join(base, "bin", t), v, t, stms[t], suite["types"], case, "make")
            chk.count("programs_built_by_make", len(have))
        # each test's CMakeLists.txt
        for t in sorted(stms)[:chk.scale(1, 3)]:
            bd = os.path.join(d, "cmake-" + t)
            os.mkdir(bd)
            common.own(bd)
            cat = cppgen.fake_catkin(os.path.join(d, "catkin-" + t))
            res = common.run(["cmake", "-G", r.choice(("Ninja", "Unix Makefiles")), "-Dcatkin_DIR=" + cat, "-DVERIF_INCLUDE=" + os.path.join(d, "inc"), "-DCMAKE_BUILD_TYPE=", "-S", os.path.join(base, "src", t), "-B", bd], env=env, cpu=120)
            if not chk.expect(res.rc == 0, "%s/%s: CMakeLists.txt doesn't configure" % (v, t), case, **res.brief()):
                continue
            res = common.run(["cmake", "--build", bd], env=env, cpu=200)
            if chk.expect(res.rc == 0, "%s/%s: CMakeLists.txt doesn't build" % (v, t), case, **res.brief()):
                node = os.path.join(bd, "node")
                if chk.expect(os.access(node, os.X_OK), "%s/%s: CMakeLists.txt builds no node" % (v, t), case):
                    starts(chk, node, v, t, stms[t], suite["types"], case, "cmake")
                chk.count("programs_built_by_cmake")
        chk.note("builds", (v, bool(over), pkg is not None))
        chk.saw(repr((suite, conf)), True, sample=dict(variant=v, tests=sorted(stms), overridden=sorted(over)))
        shutil.rmtree(d, ignore_errors=True)

    common.pmap(build, range(chk.scale(45, 150)))
    common.pmap(tree, range(chk.scale(600, 4000)))
    common.pmap(hostile, range(chk.scale(280, 1100)))
    return chk.finish(200)


def starts(chk, exe, v, t, stm, types, case, how):
    """The program runs to its end, and it is this test's."""
    if v == "ros":
        res = common.run([exe], stdin="end\n", cpu=10)
        subs = {line.split("\t")[1] for line in res.text.split("\n") if line.startswith("@subscribe\t")}
        want = {cppgen.topic(c) for c in cppgen.out_channels(stm)} | ({"input_accepted"} if cppgen.in_channels(stm) else set())
        chk.expect(subs == want, "%s/%s built by %s: subscribes to %r, should to %r" % (v, t, how, sorted(subs), sorted(want)), case)
        chk.expect(res.rc in (0, 1, 2), "%s/%s built by %s: died with status %d" % (v, t, how, res.rc), case, **res.brief())
        chk.count("programs_run")
        return
    for s, path in sorted(cppgen.paths(stm).items()):
        if "fail" not in stm_by(stm, s)[1].values():
            continue
        if any(isinstance(x[2], str) and len(x[2].split()) != 1 for x in path if x[0] == "output"):
            continue
        m = cppgen.Machine(stm, types)
        for x in path:
            getattr(m, x[0])(*x[1:])
        text = [x[0] if x[0] != "output" else x[1] + ("" if x[2] is None else " %s" % x[2]) for x in path]
        res = common.run([exe], stdin="".join(x + "\n" for x in text), cpu=10)
        chk.expect(res.rc == 1 and m.status == "FAIL", "%s/%s built by %s: status %d after the forbidden trace" % (v, t, how, res.rc), dict(case, stdin=text), **res.brief())
        chk.count("programs_run")
        break


def stm_by(stm, s):
    return next(x for x in stm["states"] if x[0] == s)


if __name__ == "__main__":
    main()
