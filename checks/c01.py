"""C01: reading a trace file loses and invents nothing."""
import common
import model
import pipe


def chain_events(root):
    """The events along a test that is a chain; None if it isn't one."""
    evs, n = [], root
    while n["next"]:
        if len(n["next"]) != 1:
            return None
        n = n["next"][0]
        if n["event"] is not None:
            evs.append(n["event"])
    return evs


def expected(traces):
    return sorted(repr(t["prefix"] + [t["forbid"]]) for t in traces)


def judge(chk, text, traces, case):
    res = pipe.read_traces(text)
    if not chk.expect(res.rc == 0, "a well-formed traces file was refused", case, **res.brief()):
        return None
    try:
        trees = pipe.suite_of(res.out)
    except ValueError as e:
        chk.fail("unreadable output: %s" % e, case, **res.brief())
        return None
    chk.expect(len(trees) == len(traces), "%d tests from %d records" % (len(trees), len(traces)), case)
    got = []
    for n, t in trees.items():
        evs = chain_events(t)
        if evs is None:
            chk.fail("test %r branches" % n, case)
            continue
        got.append(repr(evs))
    want = expected(traces)
    got.sort()
    if got != want:
        chk.fail("events differ: only in the output %r, only in the file %r" %
                 ([g for g in got if g not in want][:3], [w for w in want if w not in got][:3]), case)
    for t in traces:
        for e in t["prefix"] + [t["forbid"]]:
            chk.count("events_compared")
            chk.note("event_shapes", (e[1], "none" if e[2] is None else "int" if isinstance(e[2], int) else "enum", "dot" if isinstance(e[2], str) and "." in e[2] else ""))
    return res.out


def any_trace(r, hostile=True):
    name = ""
    if r.random() < 0.4:
        name = model.trim(model.hostile(r, 1, 8, ban=":\r")) if hostile and r.random() < 0.5 else model.ident(r)
        if r.random() < 0.2:
            name = r.choice(model.WORDS).replace(":", "")
    evs = []
    for _ in range(r.choice((1, 1, 2, 3, 5, 9)) if r.random() < 0.95 else r.randint(20, 120)):
        ch, k, v = model.any_event(r)
        # CSV turns a carriage return before a newline into a newline, even in quotes.
        if "\r" in ch or (isinstance(v, str) and "\r" in v):
            ch, v = ch.replace("\r", "_"), v.replace("\r", "_") if isinstance(v, str) else v
            ch, v = model.trim(ch), model.parse_value(model.trim(v)) if isinstance(v, str) else v
        evs.append((ch, k, v))
        while r.random() < 0.15:  # traces often repeat an event, or several
            i = r.randrange(len(evs))
            evs += evs[i:] if len(evs) < 60 else [evs[-1]]
        if r.random() < 0.2:  # ... or something that looks much like it
            c, k, v = evs[-1]
            other = c.swapcase()
            v2 = v.swapcase() if isinstance(v, str) else v
            if v2 != v and model.parse_value(model.trim(v2)) != v2:
                v2 = v
            c = other if r.random() < .5 and model.trim(other) == other and "." not in other and other else c
            evs.append((c, r.choice((k, k, "in", "out", "call")), r.choice((v, v2, v2, None))))
    return dict(name=name, prefix=evs[:-1], forbid=evs[-1])


BAD_CELLS = ("foo", "", " ", "foo.", "foo.inn", "foo.i n", ".in", " .out.3", "foo..3", "foo.3.in", "foo,in", "in", ".", "..", "foo in 3", "foo.in3", "foo.\u0131n", "foo.ın.4", "foo.kall", "foo-in.3", "a:b", 'x.in.3"', 'x.out.a"b', '"x.in.3" z', "foo.incall.1", "foo.outin",
             "foo.input", "foo.Output.3", "foo.i.2", "foo.o", "foo.operation", "foo.inputs.1", "foo.function.x", "foo.any", "foo.0", "foo.1.in", "foo.calls.2", "foo.cal")


def main():
    chk = common.Check("C01", "exploration",
                       "random traces files in random renderings (quoting, blanks, comments, letter case, signs and zeros, line endings); "
                       "a case is non-trivial if it holds at least one record and was compared event by event with the traces it was rendered "
                       "from, or holds exactly one ill-formed record", ["traces are valid UTF-8 without carriage returns inside quoted cells"])
    common.tools()

    def valid(i):
        r = chk.rng("valid", i)
        traces = [any_trace(r) for _ in range(r.choice((0, 1, 2, 5, 12)) if i else 0)]
        text = model.render_traces(r, traces)
        case = dict(text=text[:4000])
        out = judge(chk, text, traces, case)
        plain = model.render_traces(r, traces, noise=False)
        out2 = pipe.read_traces(plain).out
        if out is not None and out != out2:
            chk.fail("comments, blanks, quoting, signs or line endings changed the result", dict(text=text[:4000], plain=plain[:4000]))
        chk.saw(text, bool(traces), sample=dict(text=text[:300]))

    def ints(i):
        r = chk.rng("ints", i)
        texts = []
        for _ in range(40):
            n = r.choice(model.INTS) + r.choice((0, 0, 1, -1, 10**20, -10**20))
            texts.append(r.choice((str(n), "+%d" % n, "0%d" % abs(n), "-0%d" % abs(n), "%d_0" % n, "0x%x" % abs(n), "%d." % n, "%d.0" % n, "%de3" % n, " %d" % n, "- %d" % abs(n), "٣", "--%d" % abs(n), "+", "-", "+-1")))
        traces = [dict(name="", prefix=[], forbid=("c", "out", model.parse_value(model.trim(t)))) for t in texts]
        text = "".join("c.out.%s\n" % t for t in texts)
        judge(chk, text, traces, dict(text=text))
        chk.saw(text)

    def invalid(i):
        r = chk.rng("invalid", i)
        good = [model.render_traces(r, [any_trace(r, False)], noise=False) for _ in range(r.randint(0, 4))]
        cells = [model.csv_cell(r, model.render_event(r, (model.ident(r), "in", None))) for _ in range(r.randint(0, 3))]
        if i < len(BAD_CELLS) * 2:
            bad = BAD_CELLS[i % len(BAD_CELLS)]
        else:
            bad = r.choice(BAD_CELLS)
        if bad == "" and not cells:
            cells = ["a.in"]
        cells.insert(r.randint(0, len(cells)) if bad else max(1, r.randint(0, len(cells))), bad)
        good.insert(r.randint(0, len(good)), ",".join(cells) + "\n")
        if i % 9 == 8:  # a quote that is never closed
            good.append('"a.in.3\n')
        text = "".join(good)
        pipe.refused(chk, pipe.read_traces(text), dict(text=text), "an ill-formed record")
        chk.count("ill_formed_refused")
        chk.saw(text)

    def big(i):
        r = chk.rng("big", i)
        if i == 0:
            traces = [dict(name="", prefix=[("c%d" % k, "out", k) for k in range(800)], forbid=("z", "out", -1))]
        elif i == 1:
            traces = [dict(name="t%d" % k, prefix=[("a", "in", k)], forbid=("b", "call", "v%d" % k)) for k in range(5000)]
        elif i == 2:
            traces = [dict(name="", prefix=[], forbid=("c" * 200000, "in", "." * 300000 + "x"))]
        elif i == 3:  # many megabytes
            traces = [dict(name="m%d" % k, prefix=[("a", "in", "v" * 70000)], forbid=("b", "out", k)) for k in range(chk.scale(200, 700))]
        else:
            traces = [dict(name="", prefix=[("a", "in", k)] * 3, forbid=("b", "out", k)) for k in range(chk.scale(5000, 9000))]
        text = model.render_traces(r, traces, noise=False)
        judge(chk, text, traces, dict(big=i))
        chk.saw(text[:1000] + str(len(text)))

    common.pmap(valid, range(chk.scale(900, 4000)))
    common.pmap(ints, range(chk.scale(60, 200)))
    common.pmap(invalid, range(chk.scale(450, 1500)))
    common.pmap(big, range(5))
    return chk.finish(200)
