"""C02: naming traces is unique, lossless and repeatable."""
import common
import model
import pipe

POOL = ["", "", "", "test", "test", "test0", "test1", "test2", "test10", "test00", "foo", "foo", "foo", "foo0", "foo1", "foo00", "foo01", "Foo",
        "Test", "tes", "test ", "0", "1", "foo10", "bar", "t", "te st", "é", "é0", "tést", "test-", "TEST"]


def main():
    chk = common.Check("C02", "exploration",
                       "random lists of traces whose names come from small pools of colliding names (or hostile text), each trace identifiable by a "
                       "forbidden event of its own; non-trivial if at least two traces compete for a name or a name is synthesised")
    common.tools()

    def names(r):
        k = r.random()
        n = r.choice((1, 2, 3, 6, 12, 30))
        if k < 0.5:
            pool = r.sample(POOL, r.randint(1, 6))
            return [r.choice(pool) for _ in range(n)]
        if k < 0.7:
            return [r.choice(POOL) for _ in range(n)]
        if k < 0.8:
            base = r.choice(("", "test", "foo", "a1"))
            return [base] * n
        if k < 0.9:  # names that get in the way of the ones to come
            base = r.choice(("foo", "test"))
            xs = [base + str(i) for i in range(n)] + [r.choice((base, "")) for _ in range(n)]
            r.shuffle(xs)
            return xs
        if k < 0.95:  # numbers far from the first
            base = r.choice(("foo", "test", "a1", ""))
            b = base or "test"
            xs = [b + str(r.choice((9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 65535, 65536, 2**31 - 1,
                                    2**31, 2**32, 2**63 - 1, 2**63, 10**30)) + r.randint(-1, 1)) for _ in range(r.randint(1, n))]
            xs += [base] * r.randint(1, n)
            r.shuffle(xs)
            return xs
        return [model.trim(model.hostile(r, 0, 3, ban=":\r")) for _ in range(n)]

    def case(i):
        r = chk.rng("n", i)
        ns = names(r)
        if i == 0:
            ns = []
        if i == 1:
            ns = ["", "test"] * 1500
        if i == 2:
            ns = ["foo"] * 1200 + ["foo7", ""]
        if i == 3:
            ns = ["w"] * chk.scale(4300, 12000)
        if i == 4:
            ns = [""] * chk.scale(4300, 12000) + ["test4299", "test"]
        if 5 <= i < 17:  # a name far ahead is taken, and then the others come
            base = ("foo", "", "test")[i % 3]
            far = (63, 64, 127, 255, 256, 99, 31, 254, 126, 1, 2, 10)[i - 5]
            ns = [(base or "test") + str(far)] + [base] * 3 + [(base or "test") + str(far * 2 + 1)] + [base] * 40
        traces = [dict(name=n, prefix=[("p", "in", None)] * (k % 3), forbid=("c", "out", k)) for k, n in enumerate(ns)]
        text = model.render_traces(r, traces, noise=i % 4 == 0)
        c = dict(names=ns[:60], text=text[:3000])
        res = pipe.read_traces(text)
        if not chk.expect(res.rc == 0, "well-formed traces were refused", c, **res.brief()):
            return
        try:
            trees = pipe.suite_of(res.out)
        except ValueError as e:
            chk.fail("unreadable output: %s" % e, c, **res.brief())
            return
        got = {}
        for n, t in trees.items():
            chk.expect(n != "", "a test has an empty name", c)
            evs = [x["event"][2] for x in model.walk(t) if x["event"] is not None and x["event"][0] == "c"]
            got[n] = evs[0] if evs else None
        named = model.name_traces(traces)
        want = {n: t["forbid"][2] for n, t in named}
        chk.expect(len(got) == len(traces), "%d names for %d traces" % (len(got), len(traces)), c)
        if got != want:
            d = {n: (got.get(n), want.get(n)) for n in set(got) | set(want) if got.get(n) != want.get(n)}
            chk.fail("names differ (name: (trace got, trace wanted)): %r" % dict(sorted(d.items())[:6]), c)
        if i % 5 == 0:
            for _ in range(3):
                chk.expect(pipe.read_traces(text).out == res.out, "the same file gave another result", c)
        synth = [n for n, t in named if n != t["name"]]
        chk.count("names_checked", len(got))
        chk.count("names_synthesised", len(synth))
        chk.saw(ns, bool(synth), sample=dict(names=ns[:12], given=list(want)[:12]))

    common.pmap(case, range(chk.scale(1500, 8000)))
    return chk.finish(150)
