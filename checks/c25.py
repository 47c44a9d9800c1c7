"""C25: configuration files mean what they say."""
import json
import os

import cfg
import common
import model
import pipe

STMS = {"types": {"foo": "int", "bar": "enum"}, "tests": {"t": {
    "states": [{"id": "initial", "transitionSets": [{"channel": "bar.out", "transitions": [{"value": "x", "next": "s1"}]}], "verdicts": {"t": "pass"}},
               {"id": "s1", "transitionSets": [], "verdicts": {"t": "fail"}}],
    "types": {"bar": "enum", "foo": "int"}, "tests": ["t"]}}}


def expect_dir(path, directory):
    return directory or os.path.dirname(path) or "."


def main():
    chk = common.Check("C25", "exploration",
                       "random configurations rendered as XML (attribute order, entities, CDATA, comments, letter case of variants), loaded by the real "
                       "loader from several current directories and compared field by field; ill-formed ones refused by the tool with an empty output; "
                       "non-trivial if the configuration lists a variant",
                       ["text is trimmed and has no control characters", "what follows the root element is not read"])
    common.tools()
    top = common.newdir("cfg")
    exe = None
    try:
        exe = common.harness("configload")
    except common.Inconclusive as e:
        common.log("C25: harness left out: %s" % e)
        chk.extra["harness_left_out"] = "configload"

    # -- what is loaded
    jobs = []
    for i in range(chk.scale(3000, 12000)):
        r = chk.rng("load", i)
        cpps = [cfg.any_cpp(r) for _ in range(r.choice((0, 1, 1, 2, 2, 3)))]
        directory = r.choice((None, None, "sub", "/abs/dir", "../up", "a b", ".", "./", "..", "/", "a/./b/", "$HOME", "a/${NAME}/b", "~", "~/x", "%TMP%", "a&b", "\u00e9/\u4e2d", "*", "a//b", "a\\b", "$(pwd)", "{a,b}")) if r.random() < .6 else None
        text = cfg.render(r, cpps, directory)
        name = r.choice(("c%d.xml", "deep/er/c%d.xml", "c%d", "sp ace/c%d.xml")) % i
        common.write(os.path.join(top, name), text)
        jobs.append((name, cpps, directory, text))
    os.makedirs(os.path.join(top, "elsewhere", "x"), exist_ok=True)
    for cwd, pre in ((top, ""), (os.path.join(top, "elsewhere"), "../"), (os.path.join(top, "elsewhere", "x"), "../.././"), ("/", top + "/"), (top, "./")) if exe else ():
        paths = [pre + j[0] for j in jobs]
        res = common.run([exe], stdin="\n".join(paths) + "\n", cwd=cwd)
        lines = res.out.decode("utf-8").splitlines()
        if len(lines) != len(jobs):
            chk.fail("the loader died after %d of %d configurations" % (len(lines), len(jobs)), dict(path=paths[min(len(lines), len(jobs) - 1)]), **res.brief())
            break
        for (name, cpps, directory, text), path, line in zip(jobs, paths, lines):
            got = json.loads(line)
            want = json.loads(json.dumps(dict(directory=expect_dir(path, directory), cpps=cpps)))
            case = dict(xml=text[:4000], path=path)
            if not chk.expect("cpps" in got, "a well-formed configuration was refused: %s" % got, case):
                continue
            same_dir = got["directory"] == want["directory"] or os.path.normpath(os.path.join(cwd, got["directory"])) == os.path.normpath(os.path.join(cwd, want["directory"]))
            chk.expect(same_dir, "files would be looked for in %r, should be %r" % (got["directory"], want["directory"]), case)
            if len(got["cpps"]) != len(want["cpps"]):
                chk.fail("%d variants loaded, %d listed" % (len(got["cpps"]), len(want["cpps"])), case)
                continue
            for g, w in zip(got["cpps"], want["cpps"]):
                for k in w:
                    chk.expect(g[k] == w[k], "%s loaded as %r, should be %r" % (k, g[k], w[k]), case)
                    chk.count("fields_compared")
            chk.saw(text, bool(cpps), sample=dict(xml=text[:400]))

    stms = pipe.wstms(top, STMS)

    # -- where auxiliary files are looked for
    def aux(i):
        r = chk.rng("aux", i)
        d = common.newdir("aux")
        setdir = r.choice((None, "abs", "rel", "odd"))
        where = os.path.join(d, "conf")
        cpps = [cfg.cpp("animate", channels=[("foo", "int")]), cfg.cpp("ros", channels=[("bar", "X")])]
        r.shuffle(cpps)
        src, directory = where, None
        cwd = os.path.join(d, r.choice(("work", "conf", "out0", "")))
        if setdir == "abs":
            src = directory = os.path.join(d, "other")
        elif setdir == "rel":  # relative to the current directory, as for any path
            src, directory = os.path.join(cwd, "rel"), "rel"
        elif setdir == "odd":  # a directory's name is no pattern
            directory = r.choice(("$HOME", "${NAME}", "~", "a$b", "a&b", "{a,b}", "*", "%41", "a+b", "-", "--", "\u00e9", "-clean"))
            src = os.path.join(cwd, directory)
        for k in ("work", "conf", "out0", "other", "conf/animate/src/convert", "work/rel", "conf/rel"):
            common.write(os.path.join(d, k, ".keep"), "")
        marks = {}
        for v in ("animate", "ros"):
            for base in {src, cwd, where, os.path.join(d, "work"), d}:
                mark = "// %s of %s\n" % (v, os.path.relpath(base, d))
                common.write(os.path.join(base, v, "src", "convert", "convert.cpp"), mark)
                if base == src:
                    marks[v] = mark
            marks[v] = "// %s of %s\n" % (v, os.path.relpath(src, d))
        conf = common.write(os.path.join(where, "gen.xml"), cfg.render(r, cpps, directory))
        linked = r.random() < .3
        if linked:  # the path given counts, not what it is a link to
            real = os.path.join(d, "store", "real.xml")
            os.makedirs(os.path.dirname(real))
            common.write(os.path.join(d, "store", "animate", "src", "convert", "convert.cpp"), "// of the link's target\n")
            common.write(os.path.join(d, "store", "ros", "src", "convert", "convert.cpp"), "// of the link's target\n")
            os.rename(conf, real)
            os.symlink(real, conf)
        path = conf if r.random() < .5 else os.path.relpath(conf, cwd)
        out = os.path.join(d, "result")
        res = pipe.gen(out, path, stms, cwd=cwd)
        case = dict(directory=directory, path=path, cwd=os.path.relpath(cwd, d), linked=linked)
        if not chk.expect(res.rc == 0, "generation failed", case, **res.brief()):
            return
        for v in ("animate", "ros"):
            p = os.path.join(out, v, "src", "convert", "convert.cpp")
            got = open(p).read() if os.path.exists(p) else None
            chk.expect(got == marks[v], "%s: convert.cpp holds %r, should hold %r" % (v, got, marks[v]), case)
            chk.count("auxiliary_files_traced")
        chk.saw(repr(case) + repr(i))

    # -- what belongs to which variant
    def apart(i):
        r = chk.rng("apart", i)
        d = common.newdir("apart")
        spec = {}
        for v in ("animate", "ros"):
            spec[v] = dict(makefile=r.random() < .5, catkin=r.random() < .5, inc=["%s_%d.h" % (v, k) for k in range(r.choice((0, 1, 2, 3, 5, 12, 40)))], over=r.random() < .5)
        cpps = [cfg.cpp(v, [(x, r.random() < .5) for x in s["inc"]], [("bar", "Type_" + v)] if s["over"] else [], s["makefile"], s["catkin"]) for v, s in spec.items()]
        r.shuffle(cpps)
        cpps = cpps[:r.choice((1, 2, 2))]
        for v in ("animate", "ros"):
            common.write(os.path.join(d, v, "src", "convert", "convert.cpp"), "//\n")
        conf = common.write(os.path.join(d, "gen.xml"), cfg.render(r, cpps))
        out = os.path.join(d, "out")
        res = pipe.gen(out, conf, stms)
        case = dict(xml=open(conf).read())
        if not chk.expect(res.rc == 0, "generation failed", case, **res.brief()):
            return
        have = [c["variant"] for c in cpps]
        chk.expect(sorted(os.listdir(out)) == sorted(have), "variants generated: %r, listed: %r" % (sorted(os.listdir(out)), have), case)
        for v in have:
            s, o = spec[v], os.path.join(out, v)
            files = common.snapshot(o)
            chk.expect(("Makefile" in files) == s["makefile"], "%s: Makefile generated: %r, listed: %r" % (v, "Makefile" in files, s["makefile"]), case)
            for f in ("src/t/package.xml", "src/t/CMakeLists.txt"):
                chk.expect((f in files) == s["catkin"], "%s: %s generated: %r, listed: %r" % (v, f, f in files, s["catkin"]), case)
            chk.expect(("src/convert/convert.cpp" in files) == s["over"], "%s: convert.cpp copied: %r, overridden: %r" % (v, "src/convert/convert.cpp" in files, s["over"]), case)
            code = b"\n".join(x[2] for p, x in files.items() if x[0] == "file" and p.startswith("src/t/")).decode("utf-8")
            conv = b"\n".join(x[2] for p, x in files.items() if x[0] == "file" and p.startswith("src/convert/convert.h")).decode("utf-8")
            for w, sw in spec.items():
                for x in sw["inc"]:
                    chk.expect((x in code or x in conv) == (w == v), "%s: include %s is %s" % (v, x, "missing" if w == v else "there"), case)
                chk.expect(("Type_" + w in code + conv) == (w == v and sw["over"]), "%s: override %s is in the wrong place" % (v, "Type_" + w), case)
        chk.saw(case["xml"])

    # -- refusals
    good = cfg.plain([cfg.cpp("animate", makefile=True)])

    def bad(i):
        r = chk.rng("bad", i)
        d = common.newdir("bad")
        k = i % 8
        text = cfg.render(r, [cfg.any_cpp(r) for _ in range(r.randint(1, 3))])
        what = ""
        if k == 0:
            what, text = "another root element", text.replace("rtcg-gen", r.choice(("rtcg", "rtcg-gen2", "config", "rtcg_gen", "RTCG-GEN")))
        elif k == 1:
            what = "an unknown variant"
            v = r.choice(("ros2", "python", "", "anim", "animateros", "ros ", " ros", "0", "animate ros"))
            cpps = [cfg.any_cpp(r) for _ in range(r.randint(0, 2))]
            text = cfg.render(r, cpps)
            at = text.rindex("</rtcg-gen>")
            text = text[:at] + '<cpp variant="%s"/>' % v + text[at:]
        elif k == 2:
            what = "a cut file"
            end = text.rindex("</rtcg-gen>") + len("</rtcg-gen>") - 1
            text = text[:r.randint(0, end)] if i > 8 else ""
        elif k == 3 and r.random() < .5:
            what = "an element that is not closed"
            tag = r.choice(("include src='x'", "br", "link", "hr", "meta", "img", "makefile", "catkin", "x", "col", "param"))
            text = r.choice((good.replace("</cpp>", "<%s></cpp>" % tag, 1), good.replace("</rtcg-gen>", "<%s></rtcg-gen>" % tag, 1), good.replace("</rtcg-gen>", "", 1)))
        elif k == 3:
            what = "a mismatched tag"
            text = text.replace("</cpp>", r.choice(("</cp>", "</channel>", "</>", "")), 1) if "</cpp>" in text and "<!--" not in text else good.replace("</cpp>", "</cp>")
        elif k == 4:
            what = "a bare ampersand or bracket"
            text = good.replace("<cpp", r.choice(("& <cpp", "< <cpp", "&nosuch; <cpp", "<1/><cpp")), 1)
        elif k == 5:
            what = "an attribute without quotes"
            text = good.replace('variant="animate"', "variant=animate").replace("variant='animate'", "variant=animate")
        elif k == 6:
            what = "no XML at all"
            text = r.choice(("", "\n\n", "hello", '{"cpps": []}', "<?xml version='1.0'?>", "<!-- only a comment -->", "\x00\x01"))
        else:
            what = "bytes that are not UTF-8"
            text = good.encode("utf-8").replace(b"<cpp", b"\xff\xfe<cpp", 1)
        conf = common.write(os.path.join(d, "gen.xml"), text)
        out = os.path.join(d, "out")
        before = common.snapshot(d)
        res = pipe.gen(out, conf, stms)
        case = dict(what=what, xml=repr(text)[:2000])
        chk.expect(res.rc == 1, "%s: exit status %r, should be 1" % (what, res.rc), case, **res.brief())
        chk.expect(res.err.strip() != b"", "%s: refused without a word" % what, case)
        gone, new, changed = common.snapdiff(before, common.snapshot(d))
        chk.expect(not (gone or changed) and not [n for n in new if common.snapshot(d)[n][0] == "file"], "%s: generated %r, changed %r, removed %r" % (what, new, changed, gone), case)
        chk.count("refused")
        chk.note("ill_formed_kinds", what)
        chk.saw(repr(text))

    common.pmap(aux, range(chk.scale(160, 400)))
    common.pmap(apart, range(chk.scale(240, 600)))
    common.pmap(bad, range(chk.scale(640, 2000)))
    return chk.finish(150)
