"""C06: stage files carry whole suites between tools."""
import json
import os

import cfg
import common
import cppgen
import model
import pipe


def main():
    chk = common.Check("C06", "exploration",
                       "random test and state machine suites (hostile names and values, absent values, deep and broad ones) written, read back, compared "
                       "field by field by reflection and written again; plus files crossing between the tools; "
                       "non-trivial if the suite has a test", ["texts are valid UTF-8 without NUL", "JSON nesting stays below the decoder's limit of 10000"])
    common.run_harness(chk, "serial", chk.scale(4000, 15000), chk.scale(6, 16), shared=("gogen.go",), optional=True)
    common.tools()

    def cross(i):
        """What the second tool makes of the first one's file is what it makes of the same suite written by somebody else."""
        r = chk.rng("cross", i)
        alpha = model.Alphabet(r, r.randint(0, 2), r.randint(1, 3), r.randint(0, 1), simple=False)
        traces = []
        for k in range(r.randint(1, 4)):
            t = alpha.trace(r, r.choice(("", "x", "a b", "\u00e9t\u00e9", 'q"uote', "<&>")))
            traces.append(t)
        text = model.render_traces(r, traces, noise=False)
        first = pipe.read_traces(text)
        case = dict(traces=text[:4000])
        if not chk.expect(first.rc == 0, "traces refused", case, **first.brief()):
            return
        trees = model.expand_all(traces)
        built = pipe.make_stms(first.out)
        own = pipe.make_stms(pipe.suite_text(trees))
        if not chk.expect(built.rc == 0 and own.rc == 0, "the builder refused a suite of the reader", case, **built.brief()):
            return
        chk.expect(built.out == own.out, "the suite that was built depends on how the test file was written", case, a=built.text[:3000], b=own.text[:3000])
        try:
            o = pipe.loads(built.out)
            want, _ = model.suite_types(trees.values())
            chk.expect((o.get("types") or {}) == want, "types %r in the file, should be %r" % (o.get("types"), want), case)
            for n, t in trees.items():
                stm = model.stm_parse(o["tests"][n])
                chk.expect(model.stm_canon(stm) == model.tree_canon(t), "%s: the file holds another machine" % n, case, file=built.text[:3000])
                vals = sum(1 for s in stm["states"] for e, _ in s[2] if e[2] is None)
                chk.count("absent_values_carried", vals)
                chk.count("values_carried", sum(len(s[2]) for s in stm["states"]) - vals)
        except (ValueError, KeyError, model.BadStm) as e:
            chk.fail("unreadable state machine file: %s" % e, case, file=built.text[:3000])
        chk.saw(text, True)

    def spelling(i):
        """What a tool makes of a file depends on what it says, not on the order of its keys, its white space or its escapes."""
        r = chk.rng("spelling", i)
        ch, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 3), hostile=r.random() < .5, real=r.random() < .5)
        trees = {n + r.choice(("", " b", "\u00e9", '"', "\U0001f600", "\\", "\u2028", "<>")): model.random_tree(r, depth=3) for n in model.idents(r, r.randint(1, 3))}
        for k in range(2):
            plain = pipe.suite_text(trees)
            other = pipe.respell(r, pipe.loads(plain.encode()))
            a, b = pipe.make_stms(plain), pipe.make_stms(other)
            case = dict(plain=plain[:4000], other=other[:4000])
            chk.expect(a.rc == b.rc and a.out == b.out, "rtcg-make-stms makes something else of another spelling of the same suite (status %d and %d)" % (a.rc, b.rc), case, a=a.text[:2000], b=b.text[:2000], err=b.errtext[:300])
            chk.count("respelled_tests_files")
            trees = {n: t for n, t in model.expand_all([dict(name="", prefix=[ch.event(r, r.choice(ch.list)) for _ in range(r.randint(0, 5))], forbid=ch.event(r, r.choice(ch.outs())))]).items()}
        if i % 4:
            return
        d = common.newdir("p")
        conf = common.write(os.path.join(d, "gen.xml"), cfg.plain([cfg.cpp(v, makefile=True, catkin=True) for v in ("animate", "ros")]))
        other = pipe.respell(r, suite)
        case = dict(plain=json.dumps(suite)[:4000], other=other[:4000])
        res = [pipe.gen(os.path.join(d, n), conf, common.write(os.path.join(d, n + ".json"), t)) for n, t in (("a", json.dumps(suite)), ("b", other))]
        if chk.expect(res[0].rc == 0 and res[1].rc == 0, "rtcg-gen refused a suite (status %d, respelled %d)" % (res[0].rc, res[1].rc), case, **res[1].brief()):
            a, b = (cppgen.tree_of(os.path.join(d, n)) for n in "ab")
            gone, new, changed = common.snapdiff(a, b)
            chk.expect(not (gone or new or changed), "rtcg-gen makes something else of another spelling of the same suite: missing %r, added %r, different %r" % (gone, new, changed), case)
            chk.count("respelled_machine_files")
        common.run(["rm", "-rf", d])

    common.pmap(spelling, range(chk.scale(500, 2000)))
    common.pmap(cross, range(chk.scale(600, 3000)))
    return chk.finish(150)
