"""C26: a test fails exactly when its forbidden trace happens.

End to end: a traces file goes through rtcg.sh, the generated programs are compiled and played, and what they
say is compared with what the trace alone says they should (no tree, state machine or stage file is looked at).
"""
import os
import re
import shutil

import cfg
import common
import cppgen
import model

TOOLS = ("rtcg-read-traces", "rtcg-make-stms", "rtcg-gen")
OVER = dict(FAIL="an unwanted behaviour occurred", BUG="an internal error occurred", TIMEOUT="the test ran out of time", OFF="an event happened that took the test off-script")


class Watch:
    """What the test of a trace should make of a history."""

    def __init__(self, evs):
        self.evs, self.pos, self.sent, self.over = evs, 0, [], None
        self.takes = any(k == "in" for _, k, _ in evs)
        self.started = evs[0][1] != "in"

    def _send(self):
        if self.pos < len(self.evs) and self.evs[self.pos][1] == "in":
            self.sent.append((self.evs[self.pos][0], self.evs[self.pos][2]))

    def _step(self):
        self.pos += 1
        if self.pos == len(self.evs):
            self.over = "FAIL"
        self._send()

    def take(self, x):
        if self.over:
            return
        e = self.evs[self.pos]
        if x[0] == "timeout":
            self.over = "TIMEOUT"
        elif x[0] == "ready":
            if not self.started:
                self.started = True
                self._send()
        elif x[0] == "accept":
            if self.started and e[1] == "in":
                self._step()
            elif self.takes:
                self.over = "BUG"
        elif self.started and e[1] != "in" and x[1:] == (e[0], e[2]):
            self._step()
        else:
            self.over = "OFF"

    def outcome(self):
        if not self.started:
            return "unset"
        n = len(self.evs)
        return "failed" if self.pos == n else "passed" if self.pos == n - 1 else "inconclusive"

    def status(self):
        return {"FAIL": 1, "BUG": 2}.get(self.over, 0)


def script(evs):
    """The history that is exactly these events."""
    s = [("ready",)] if evs[0][1] == "in" else []
    return s + [("accept",) if k == "in" else ("output", c, v) for c, k, v in evs]


def near(r, types, values, ch, val):
    """Another value on the channel."""
    t = types[ch]
    if t == "()":
        return None
    pool = [v for v in values[ch] if v != val]
    if t == "enum":
        pool += [val + "x", val.swapcase(), val[:-1] if len(val) > 1 else val + "y", model.ident(r)]
    else:
        lo, hi = (0, 2**32 - 1) if t == "nat" else (-2**31, 2**31 - 1)
        pool += [v for v in (val + 1, val - 1, -val, val * 10, val // 10, r.randint(0, 1000)) if lo <= v <= hi]
    pool = [v for v in pool if v != val]
    return r.choice(pool) if pool else None


def histories(r, evs, others, types, values, nrandom, cap):
    """Histories to play: (kind, stimuli)."""
    outs = sorted({c for c, k, _ in evs if k != "in"})
    full = script(evs)
    off = len(full) - len(evs)
    hs = [("the forbidden trace", full), ("nothing", [])]
    more = []
    for k in range(len(evs)):
        pre = full[:off + k]
        if k:
            more.append(("a prefix", pre))
        more.append(("a prefix, then time out", pre + [("timeout",)]))
        c, d, v = evs[k]
        if d != "in":
            w = near(r, types, values, c, v)
            if w is not None:
                more.append(("another value", pre + [("output", c, w)] + full[off + k + 1:]))
            o = [x for x in outs if x != c]
            if o:
                x = r.choice(o)
                more.append(("another channel", pre + [("output", x, r.choice(values[x]))] + full[off + k + 1:]))
            more.append(("an acknowledgement too many", pre + [("accept",)] + full[off + k:]))
        elif outs:
            x = r.choice(outs)
            more.append(("an output instead of an acknowledgement", pre + [("output", x, r.choice(values[x]))] + full[off + k:]))
        more.append(("an event left out", pre + full[off + k + 1:]))
        more.append(("an event twice", pre + [full[off + k]] * 2 + full[off + k + 1:]))
        more.append(("goes on after", full + [full[off + k]]))
    if off:
        more.append(("not ready", full[1:]))
        more.append(("ready twice", full[:1] + full))
    for o in others:
        more.append(("the trace of another test", [x for x in script(o) if x[0] != "output" or x[1] in outs]))
    for _ in range(nrandom):
        w, h = Watch(evs), []
        for _ in range(r.randint(1, len(full) + 3)):
            nxt = full[len(h)] if r.random() < .8 and len(h) < len(full) else r.choice(full + [("accept",), ("timeout",)])
            h.append(nxt)
            w.take(nxt)
        more.append(("random", h))
    if len(more) > cap:
        more = r.sample(more, cap)
    return hs + more


def main():
    chk = common.Check("C26", "exploration",
                       "random traces files (several traces over shared channels and values, in any notation) and the repository's battery-monitor example, each run through rtcg.sh, "
                       "the generated programs compiled with AddressSanitizer and UndefinedBehaviorSanitizer and played: the forbidden trace itself, each of its prefixes, deviations by one event "
                       "at each position (another value or channel, left out, doubled, unasked acknowledgements), the traces of the other tests, time-outs and random histories; "
                       "compared with what the trace's text says; non-trivial if a program was played and its verdict compared",
                       ["test and channel names are distinct C++ identifiers, numbers fit the 32-bit C++ types, animated values are single words",
                        "roscpp is stood in for by lib/ros_stub"])
    bindir = common.tools()
    deep = chk.thorough

    def layout(d):
        os.mkdir(os.path.join(d, "bin"))
        common.own(os.path.join(d, "bin"))
        for t in TOOLS:
            os.symlink(os.path.join(bindir, t), os.path.join(d, "bin", t))
        with open(os.path.join(common.REPO, "rtcg.sh"), "rb") as f:
            os.chmod(common.write(os.path.join(d, "rtcg.sh"), f.read()), 0o755)

    def judge(res, w, name, shown, case, variant):
        err = res.errtext
        if res.rc in (97, -6, -11, -4, -8) or "runtime error:" in err or "AddressSanitizer" in err:
            chk.fail("%s: memory error, undefined behaviour or misuse of ROS (status %d)" % (name, res.rc), case, stderr=err[-3000:])
            return
        if res.rc in (-24, -25, -9):
            chk.fail("%s: doesn't end (signal %d)" % (name, -res.rc), case, tail=res.text[-500:])
            return
        chk.expect(res.rc == w.status(), "%s: exit status %d for %s, should be %d" % (name, res.rc, case["history"], w.status()), case, stderr=err[-3000:])
        got = re.findall(r"^\[info\]   (\S+) = (\w+)$", err, re.M)
        chk.expect(got == [(name, w.outcome())], "%s: says %r for %s, should be %s" % (name, got, case["history"], w.outcome()), case, stderr=err[-3000:])
        if w.over:
            fin = re.findall(r"^\[info\] Test (\S+) finished: (.*)\.$", err, re.M)
            chk.expect(fin == [(name, OVER[w.over])], "%s: finished as %r for %s, should be %r" % (name, fin, case["history"], OVER[w.over]), case, stderr=err[-3000:])
        if variant == "animate":
            sent = re.findall(r"Actual value received by SUT on (\S+) after conversion: (.*)\)$", err, re.M)
            want = [(c, shown(c, v)) for c, v in w.sent]
            chk.expect(len(sent) == len(want) and all(c == x and (v == y or y == "") for (c, v), (x, y) in zip(sent, want)), "%s: sent %r for %s, should send %r" % (name, sent, case["history"], want), case, stderr=err[-3000:])
        if variant == "ros":
            pubs = []
            for line in res.text.split("\n"):
                f = line.split("\t")
                if f[0] == "@publish":
                    pubs.append((f[1], re.sub(r"\\x([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), f[3])))
            want = [(cppgen.topic(c), shown(c, v)) for c, v in w.sent]
            chk.expect(pubs == want, "%s: sent %r for %s, should send %r" % (name, pubs, case["history"], want), case, log=res.text[-3000:])
            chk.count("messages_compared", len(want))
        chk.count("verdict_" + w.outcome())
        chk.count("ends_" + (w.over or "stopped"))

    def play(d, variant, name, evs, others, types, values, r, case, show, enc):
        """Compiles and plays one test; show renders a sent value, enc one to be delivered."""
        exe = os.path.join(d, variant + "_" + name)
        res = cppgen.compile_test(os.path.join(d, "out"), variant, name, exe, cxx=r.choice(("g++", "g++", "clang++")))
        if not chk.expect(res.rc == 0, "%s (%s) doesn't compile" % (name, variant), case, **res.brief()):
            return
        chk.count("programs_compiled")
        delay = []
        if variant == "ros":
            res = cppgen.runprog(exe, "end\n")
            delay = sorted(float(x) for x in re.findall(r"^@timer\t([^\t\n]+)", res.text, re.M))
            if not chk.expect(len(delay) == (2 if evs[0][1] == "in" else 1), "%s: has timers %r" % (name, delay), case, **res.brief()):
                return
        for kind, h in histories(r, evs, others, types, values, chk.scale(4, 20), chk.scale(24, 120)):
            w, text = Watch(evs), []
            for x in h:
                if variant == "animate":
                    if x[0] == "accept" and w.over is None and not (w.started and w.evs[w.pos][1] == "in"):
                        # The program doesn't take this command now.
                        text.append("accept\n")
                        continue
                    text.append(x[0] + "\n" if x[0] != "output" else x[1] + ("\n" if x[2] is None else " %s\n" % enc(variant, x[1], x[2])))
                elif x[0] == "output":
                    text.append("msg %s%s\n" % (cppgen.topic(x[1]), "" if x[2] is None else " %s" % enc(variant, x[1], x[2])))
                elif x[0] == "accept":
                    text.append("msg input_accepted true\n")
                elif x[0] == "timeout":
                    text.append("timer %g\n" % delay[-1])
                elif len(delay) == 2:
                    text.append("timer %g\n" % delay[0])
                w.take(x)
            if variant == "animate":
                w.take(("timeout",))  # the input ends
            text = "".join(text)
            c = dict(case, variant=variant, test=name, trace=[model.ev_text(e) for e in evs], history=kind, stdin=text)
            judge(cppgen.runprog(exe, text), w, name, show, c, variant)
            chk.count("histories: " + kind)
            chk.saw((variant, name, text, tuple(map(str, evs))), True, sample=dict(test=name, trace=c["trace"], history=kind, verdict=w.outcome(), exit=w.status()))
        chk.note("trace_shapes", (variant, tuple((k, types[c]) for c, k, _ in evs)))

    def generate(d, args, case, stdin=b""):
        res = common.run(["sh", "rtcg.sh"] + args, cwd=d, stdin=stdin)
        return chk.expect(res.rc == 0, "rtcg.sh fails on well-formed traces", case, **res.brief())

    def program(i):
        r = chk.rng("program", i)
        d = common.newdir("t")
        layout(d)
        hostile = i % 5 == 4  # (such values can't be typed, but they can be published)
        ch = cppgen.Chans(r, hostile=hostile, nin=r.choice((0, 1, 1, 2)))
        clash = {c[0].lower().replace("_", "") for c in ch.list}
        names = [n if n.lower().replace("_", "") not in clash else n + "Test" for n in model.idents(r, 3)]
        traces = []
        many, long = i % 8 == 6, i % 8 == 3
        for k in range(r.randint(1, 4) if not many else r.randint(20, 120)):
            # Traces that share their beginnings are the rule.
            pre = []
            if traces and r.random() < .6:
                o = r.choice(traces)
                pre = (o["prefix"] + [o["forbid"]])[:r.randint(0, len(o["prefix"]) + 1)]
            evs = pre + [ch.event(r, r.choice(ch.list)) for _ in range(r.choice((0, 1, 2, 3, 5, 8)) if not long else r.choice((3, 12, 25, 70)))]
            if long and r.random() < .5:  # the same thing over and over
                evs = [e for e in evs for _ in range(r.choice((1, 1, 2, 9, 40)))][:400]
            evs = evs or [ch.event(r, r.choice(ch.outs()))]
            traces.append(dict(name=r.choice(("", names[0], r.choice(names))), prefix=evs[:-1], forbid=evs[-1]))
        named = model.name_traces(traces)
        text = model.render_traces(r, traces)
        cpps = [cfg.cpp(v) for v in r.sample(("animate", "ros"), 2)]
        common.write(os.path.join(d, "gen.xml"), cfg.render(r, cpps))
        common.write(os.path.join(d, "traces"), text)
        case = dict(traces=text, program=i)
        ok = generate(d, ["gen.xml", "traces"], case) if r.random() < .7 else generate(d, ["gen.xml"], case, text.encode())
        if not ok:
            return
        types = model.suite_types(model.expand_all(traces).values())[0]
        values = {}
        for _, t in named:
            for c, _, v in t["prefix"] + [t["forbid"]]:
                values.setdefault(c, set()).add(v)
        values = {c: sorted(v, key=repr) for c, v in values.items()}
        for k, (name, t) in enumerate(named if len(named) < 3 else r.sample(named, min(len(named), 4 if deep else 2))):
            evs = t["prefix"] + [t["forbid"]]
            others = [o["prefix"] + [o["forbid"]] for n, o in named if n != name][:6]
            for variant in ("animate", "ros") if deep else ("ros" if hostile else ("animate", "ros")[(i // 2 + k) % 2],):
                if hostile and variant == "animate":
                    continue
                play(d, variant, name, evs, others, types, values, r, case, lambda c, v: "" if v is None else str(v), lambda var, c, v: str(v))
        common.run(["rm", "-rf", d])

    def example(part):
        """The repository's own example, whose battery level is a float with the user's conversions."""
        r = chk.rng("example", part)
        d = common.newdir("b")
        layout(d)
        src = os.path.join(common.REPO, "examples", "bmon")
        shutil.copytree(src, os.path.join(d, "examples", "bmon"))
        common.own_tree(os.path.join(d, "examples"))
        with open(os.path.join(src, "traces"), encoding="utf-8") as f:
            lines = [x.strip() for x in f if x.strip() and not x.startswith("#")]
        named = []
        for x in lines:
            n, evs = x.split(":")
            named.append((n.strip(), [model.parse_event(e.strip()) for e in evs.split(",")]))
        case = dict(traces="examples/bmon/traces")
        if not generate(d, ["examples/bmon/gen.xml", "examples/bmon/traces"], case):
            return
        chk.expect(sorted(os.listdir(os.path.join(d, "out", "ros", "src"))) == sorted([n for n, _ in named] + ["convert", "rtcg"]), "the example's tests are not those of its traces", case)
        types = dict(batteryInfo="nat", batteryStatus="enum")
        values = dict(batteryInfo=[20, 30, 100], batteryStatus=["MissionCritical", "Ok", "SafetyCritical"])

        def lvl(v):
            return "%g" % (v / 100)
        for k, (name, evs) in enumerate(named):
            for q, variant in enumerate(("animate", "ros")):
                if not deep and (k * 2 + q) % 14 != part:
                    continue
                if deep and (k * 2 + q) % 14 // 2 != part:
                    continue
                others = [o for n, o in r.sample(named, 6) if n != name]
                play(d, variant, name, evs, others, types, values, r, case, lambda c, v: lvl(v) if c == "batteryInfo" else v, lambda var, c, v: lvl(v) if c == "batteryInfo" else v)
                chk.count("example_tests_played")
        common.run(["rm", "-rf", d])

    jobs = [(example, p) for p in ((0, 5) if not deep else range(7))] + [(program, i) for i in range(chk.scale(44, 140))]
    common.pmap(lambda j: j[0](j[1]), jobs)
    return chk.finish(200)
