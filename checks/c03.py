"""C03: expansion builds the test tree of the forbidden trace."""
import common
import model
import pipe


def main():
    chk = common.Check("C03", "exploration",
                       "random traces files, well typed or not; every emitted test is compared node by node with the tree the trace stands for, and "
                       "the suite is offered to rtcg-make-stms; non-trivial if a test has a prefix", [])
    common.tools()

    def case(i):
        r = chk.rng("t", i)
        typed = i % 3 != 0
        if typed:
            a = model.Alphabet(r, r.randint(0, 3), r.randint(1, 3), r.randint(0, 2), simple=r.random() < 0.5)
            mk = lambda: a.trace(r, r.choice(("", model.ident(r), "x", "tést 1", "a.", ".b", "v1.2", "x.csv", "-", "--x", "'q'", "a/b", "T 0.", "0", "#1", "*")), r.choice((0, 1, 4, 15)))
        else:
            chans = [model.ident(r) for _ in range(3)]
            mk = lambda: dict(name="", prefix=[model.any_event(r, chans) for _ in range(r.randint(0, 3))], forbid=model.any_event(r, chans))
        traces = [mk() for _ in range(r.choice((0, 1, 2, 4, 9)))]
        if any("\r" in str(e[2]) for t in traces for e in t["prefix"] + [t["forbid"]]):
            return
        if i < 4:
            traces = [dict(name="deep", prefix=[("d", "in", k) for k in range((255, 800, 1023, 1500)[i])], forbid=("z", "out", 1))]
        elif i % 25 == 1:  # long, and saying the same thing over and over
            few = [("r", r.choice(("in", "out")), k) for k in range(r.randint(1, 3))] + [("q", "out", None)]
            traces += [dict(name=r.choice(("", "again")), prefix=[e for e in r.choices(few, k=r.randint(1, 30)) for _ in range(r.choice((1, 2, 7, 70)))][:600], forbid=r.choice(few)) for _ in range(r.randint(1, 3))]
        text = model.render_traces(r, traces, noise=False)
        c = dict(text=text[:4000])
        res = pipe.read_traces(text)
        if not chk.expect(res.rc == 0, "well-formed traces were refused", c, **res.brief()):
            return
        try:
            raw = pipe.loads(res.out)
            trees = pipe.suite_of(res.out)
        except ValueError as e:
            chk.fail("unreadable output: %s" % e, c, **res.brief())
            return
        # Match tests to traces by their own events, so that this does not depend on how tests are named.
        want = {}
        for t in traces:
            want.setdefault(repr(t["prefix"] + [t["forbid"]]), []).append(t)
        for n, t in trees.items():
            key = repr([x["event"] for x in model.walk(t) if x["event"] is not None])
            if not want.get(key):
                chk.fail("test %r is not the test of any trace" % n, c)
                continue
            d = model.same_tree(t, model.expand(want[key].pop(), n))
            chk.expect(d is None, "test %r: %s" % (n, d), c, tree=model.dumps(raw[n])[:2000])
            chk.count("trees_compared")
            chk.count("nodes_compared", sum(1 for _ in model.walk(t)))
        left = [k for k, v in want.items() if v]
        chk.expect(not left, "traces without a test: %r" % left[:3], c)
        ok = not model.suite_types(trees.values())[1]
        r2 = pipe.make_stms(res.out)
        if ok:
            chk.expect(r2.rc == 0, "the next stage refused a well-typed suite", c, **r2.brief())
        else:
            chk.expect(r2.rc == 1, "the next stage accepted an ill-typed suite", c, **r2.brief())
        chk.count("accepted_by_next_stage" if r2.rc == 0 else "refused_for_types")
        chk.saw(text, any(t["prefix"] for t in traces), sample=dict(text=text[:300]))

    common.pmap(case, range(chk.scale(2000, 6000)))
    return chk.finish(150)
