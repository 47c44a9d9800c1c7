"""C18: the same inputs always generate the same files."""
import json
import os
import shutil

import c12
import cfg
import common
import cppgen
import model
import pipe

ENVS = [{}, dict(GOMAXPROCS="1"), dict(GOMAXPROCS="8", TZ="Asia/Tokyo"), dict(LANG="de_DE.UTF-8", LC_ALL="C", TZ="UTC"), dict(GOGC="1"), dict(USER="someone", HOME="/nonexistent", HOSTNAME="h"),
        dict(LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", LANGUAGE="tr", LC_NUMERIC="de_DE.UTF-8"), dict(LANG="C", LC_CTYPE="POSIX", CI="true", DEBUG="1", VERBOSE="1", RTCG_DEBUG="1"),
        dict(SOURCE_DATE_EPOCH="0", TERM="dumb", NO_COLOR="1", COLUMNS="20", PWD="/", OLDPWD="/tmp", SHLVL="9"),
        dict(CXX="clang++", CXXFLAGS="-O3", CPPFLAGS="-DX", ROS_DISTRO="noetic", ROS_PACKAGE_PATH="/x", CMAKE_PREFIX_PATH="/x", LOGNAME="z", EMAIL="a@b", NAME="zz")]


def show(tree, other, paths):
    return {p: [shorten(t.get(p)) for t in (tree, other)] for p in paths[:3]}


def shorten(e):
    return None if e is None else (e[0], e[1], e[2][:3000].decode("utf-8", "replace") if isinstance(e[2], bytes) else e[2])


def main():
    chk = common.Check("C18", "exploration",
                       "random traces, suites and configurations; every stage run several times on the same input under different environments, current directories, "
                       "places and ways of giving the input, outputs compared byte for byte (generation date masked); variants generated alone and together, tests "
                       "generated alone and in suites with the same types; non-trivial if the input has at least two tests, channels or values, whose order might vary",
                       ["Go picks a different map order on each iteration, so a dependence on map order shows up within a few runs with high probability"])
    common.tools()

    def env(r):
        return dict(os.environ, **r.choice(ENVS))

    def filters(i):
        r = chk.rng("filters", i)
        n = r.choice((2, 3, 5, 10, 30))
        chans = {}
        traces = []
        alphabet = []
        while len(alphabet) < r.randint(3, 12):
            e = model.any_event(r)
            if chans.setdefault(e[0], type(e[2])) is type(e[2]) and e not in alphabet:
                alphabet.append(e)
        for _ in range(n):
            traces.append((r.choice(("", "", "same", "t%d" % r.randint(0, 9))), [r.choice(alphabet) for _ in range(r.randint(1, 8))]))
        text = model.render_traces(r, [dict(name=t[0], prefix=t[1][:-1], forbid=t[1][-1]) for t in traces], noise=False)
        d = common.newdir("f")
        path = common.write(os.path.join(d, "in.csv"), text)
        outs = set()
        for k in range(chk.scale(4, 8)):
            res = common.run([common.tool("rtcg-read-traces")] + ([path] if k % 2 else []), stdin=text, env=env(r), cwd=d if k % 3 else None)
            outs.add((res.rc, res.out))
        if not chk.expect(len(outs) == 1, "rtcg-read-traces gave %d different outputs for the same traces" % len(outs), dict(csv=text), outputs=[o[1][:2000].decode("utf-8", "replace") for o in sorted(outs)][:2]):
            return
        rc, tests = outs.pop()
        if not chk.expect(rc == 0, "rtcg-read-traces failed (%d)" % rc, dict(csv=text)):
            return
        stms(i, r, d, tests)

    def suites(i):
        r = chk.rng("suites", i)
        d = common.newdir("m")
        names = model.idents(r, 6)
        if i % 3 == 0:  # a factorised suite: trees with many tags
            trees = {}
            for n in names[:r.randint(1, 4)]:
                trees[n] = model.random_tree(r, tests=tuple(names[:r.randint(2, 6)]), depth=4, width=4, ids=r.random() < .5)
        else:
            _, _, _ = cppgen.gen_suite(r, 1)
            ch = cppgen.Chans(r, hostile=True)
            trees = {n: cppgen.gen_tree(r, ch, names[:r.randint(1, 6)], ids=r.random() < .5) for n in names[:r.randint(1, 5)]}
        stms(i, r, d, pipe.suite_text(trees).encode("utf-8"))

    def stms(i, r, d, tests):
        path = common.write(os.path.join(d, "tests.json"), tests)
        outs = set()
        for k in range(chk.scale(4, 8)):
            res = common.run([common.tool("rtcg-make-stms")] + ([path] if k % 2 else []), stdin=tests, env=env(r), cwd=d if k % 3 else None)
            outs.add((res.rc, res.out))
        chk.expect(len(outs) == 1, "rtcg-make-stms gave %d different outputs for the same tests" % len(outs), dict(tests=tests[:20000].decode("utf-8")), outputs=[o[1][:3000].decode("utf-8", "replace") for o in sorted(outs)][:2])
        chk.count("filter_runs", chk.scale(8, 16))
        chk.note("filter_status", tuple(o[0] for o in outs))
        chk.saw(tests, len(tests) > 400)
        shutil.rmtree(d, ignore_errors=True)

    def conf_for(r, suite, v):
        used = sorted(suite["types"])
        return cfg.cpp(v, [(cfg.xml_text(r, 1), r.random() < .5) for _ in range(r.choice((0, 1, 3)))], [(c, "T") for c in used if r.random() < .4] + [("nobody", "U")] * r.choice((0, 1)),
                       r.random() < .6, r.random() < .6, cfg.any_package(r) if r.random() < .4 else None)

    def generate(r, d, name, suite, cpps, case, **kw):
        sub = os.path.join(d, *[name] * kw.pop("deep", 1))
        conf = common.write(os.path.join(sub, "gen.xml"), cfg.plain(cpps))
        for v in ("animate", "ros"):
            common.write(os.path.join(sub, v, "src", "convert", "convert.cpp"), "// user's for %s\n" % v)
        text = json.dumps(suite)
        sfile = common.write(os.path.join(sub, "stms.json"), text)
        out = os.path.join(sub, "out")
        argv = [common.tool("rtcg-gen")] + (["-clean"] if r.random() < .3 else [])
        if r.random() < .5:
            res = common.run(argv + [os.path.join("..", name, "gen.xml"), "-"], stdin=text, cwd=sub, env=env(r))
        else:
            res = common.run(argv + ["-output", out, conf, sfile], env=env(r))
        if not chk.expect(res.rc == 0, "generation failed for a well-formed suite and configuration", case, **res.brief()):
            return None
        return cppgen.tree_of(out) if os.path.isdir(out) else {}

    def same(a, b, what, case):
        gone, new, changed = common.snapdiff(a, b)
        chk.count("trees_compared")
        chk.count("files_compared", len([1 for e in a.values() if e[0] == "file"]))
        return chk.expect(not (gone or new or changed), "%s: missing %r, added %r, different %r" % (what, gone, new, changed), case, difference=show(a, b, changed))

    def below(tree, *tops):
        return {p: e for p, e in tree.items() if any(p == t or p.startswith(t + "/") for t in tops)}

    def trees(i):
        r = chk.rng("trees", i)
        d = common.newdir("g")
        _, ms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 4), hostile=True, real=True)
        cpps = [conf_for(r, suite, v) for v in r.sample(("animate", "ros"), r.choice((1, 2, 2)))]
        case = dict(suite=suite, cpps=cpps)
        first = generate(r, d, "a", suite, cpps, case)
        if first is None:
            return
        for k in range(chk.scale(3, 6)):
            t = generate(r, d, "b%d" % k, suite, cpps, case, deep=r.randint(1, 3))
            if t is None or not same(first, t, "generating again gave other files", case):
                return
        if i % 2:  # over its own output, which has been tampered with
            for p, e in sorted(first.items()):
                if e[0] == "file" and r.random() < .5:
                    common.write(os.path.join(d, "a", "out", p), r.choice((e[2] + b"\n// more\n" * 20, b"", e[2].swapcase(), e[2][:len(e[2]) // 2])))
        t = generate(r, d, "a", suite, cpps, case)
        if t is None:
            return
        same(first, t, "generating over the first output gave other files", case)
        # each variant alone, the other order, and with other settings for the other
        if len(cpps) == 2:
            mix = [("in the other order", cpps[::-1])]
            mix += [("with %s alone" % c["variant"], [c]) for c in cpps]
            o = conf_for(r, suite, cpps[1]["variant"])
            mix.append(("with other settings for %s" % o["variant"], r.sample([cpps[0], o], 2)))
            for what, cs in mix:
                t = generate(r, d, "v", suite, cs, case)
                shutil.rmtree(os.path.join(d, "v"))
                if t is None:
                    return
                for c in cs:
                    if c in cpps:
                        same(below(first, c["variant"]), below(t, c["variant"]), "the %s variant generated %s" % (c["variant"], what), dict(case, other=cs))
        # each test alone, and with tests of another name
        for n in r.sample(sorted(ms), min(2, len(ms))):
            keep = [n] + [x for x in ms if x != n and r.random() < .4]
            part = dict(suite, tests={x: suite["tests"][x] for x in keep})
            if r.random() < .5:
                part["tests"][n + "Other"] = dict(suite["tests"][r.choice(sorted(ms))])
            t = generate(r, d, "p", part, cpps, case)
            shutil.rmtree(os.path.join(d, "p"))
            if t is None:
                return
            for c in cpps:
                v = c["variant"]
                tops = [v + "/src/%s" % x for x in keep] + [v + "/src/convert", v + "/src/rtcg"]
                same(below(first, *tops), below(t, *tops), "%s/%s generated in a suite of %r" % (v, n, sorted(part["tests"])), case)
        chk.saw(repr(case), len(suite["types"]) > 1 or len(ms) > 1, sample=dict(variants=[c["variant"] for c in cpps], tests=sorted(ms), files=len(first)))
        shutil.rmtree(d, ignore_errors=True)

    common.pmap(filters, range(chk.scale(200, 800)))
    common.pmap(suites, range(chk.scale(300, 1200)))
    common.pmap(trees, range(chk.scale(300, 1500)))
    return chk.finish(150)
