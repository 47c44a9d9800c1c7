"""C14: ROS tests exchange the right messages and verdicts."""
import os
import re

import cfg
import common
import cppgen
import model

FIT = {"nat": ("std_msgs/UInt32", "std_msgs/UInt64"), "int": ("std_msgs/Int32", "std_msgs/Int64"), "real": ("std_msgs/Float64",), "enum": ("std_msgs/String",), "()": ("std_msgs/Empty",)}


def topic(ch):
    out = []
    for a, b in zip(" " + ch, ch):
        if a.islower() and b.isupper():
            out.append("_")
        out.append(b.lower())
    return "".join(out)


def unesc(s):
    return re.sub(r"\\x([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


def events(res):
    evs = []
    for line in res.out.decode("utf-8", "surrogateescape").split("\n"):
        if line.startswith("@"):
            f = [unesc(x) for x in line[1:].split("\t")]
            evs.append(f)
    return evs


def shown(t, text):
    """The value that a published message shows."""
    if t == "()":
        return None
    if t == "enum":
        return text
    return float(text) if t == "real" else int(text)


def sane(chk, res, test, case):
    err = res.errtext
    if res.rc in (97, -6, -11, -4, -8) or "runtime error:" in err or "AddressSanitizer" in err:
        chk.fail("%s: memory error, undefined behaviour or misuse of ROS (status %d):\n%s%s" % (test, res.rc, "\n".join(l for l in res.text.split("\n") if l.startswith("@bad")), err[-1500:]), case)
        return False
    if res.rc in (-24, -25, -9):
        chk.fail("%s: doesn't end (signal %d)" % (test, -res.rc), case, tail=res.text[-500:])
        return False
    return True


def wiring(chk, exe, stm, types, test, case):
    """What the node sets up before it spins; gives the timers (end of the test, start of the test)."""
    res = cppgen.runprog(exe, "end\n")
    if not sane(chk, res, test, case):
        return None
    evs = events(res)
    kinds = [e[0] for e in evs]
    before = evs[:kinds.index("spin")] if kinds.count("spin") == 1 else evs if "spin" not in kinds and "shutdown" in kinds else None
    if not chk.expect(before is not None, "%s: doesn't spin exactly once" % test, case, **res.brief()):
        return None
    chk.expect([e[0] for e in evs][:1] == ["init"], "%s: ROS isn't initialised first" % test, case)
    ins, outs = cppgen.in_channels(stm), cppgen.out_channels(stm)

    chk.expect(not [e for e in evs if e[0] == "latch"], "%s: would publish inputs again to later subscribers: %r" % (test, [e[1] for e in evs if e[0] == "latch"]), case)

    def table(kind):
        t = {}
        for e in evs:
            if e[0] == kind:
                chk.expect(e[1] not in t, "%s: %s twice on %s" % (test, kind, e[1]), case)
                t[e[1]] = e[2]
        return t
    adv, sub = table("advertise"), table("subscribe")
    chk.expect(set(adv) == {topic(c) for c in ins}, "%s: advertises %r for input channels %r" % (test, sorted(adv), ins), case)
    for c in ins:
        chk.expect(adv.get(topic(c)) in FIT[types[c]], "%s: input channel %s (%s) is advertised as %s" % (test, c, types[c], adv.get(topic(c))), case)
    want = {topic(c) for c in outs} | ({"input_accepted"} if ins else set())
    chk.expect(set(sub) == want, "%s: subscribes to %r, should to %r" % (test, sorted(sub), sorted(want)), case)
    for c in outs:
        chk.expect(sub.get(topic(c)) in FIT[types[c]], "%s: output channel %s (%s) is subscribed as %s" % (test, c, types[c], sub.get(topic(c))), case)
    for c in ins + outs:
        chk.note("channel_types_wired", (types[c], c in ins))
    tim = sorted(float(e[1]) for e in evs if e[0] == "timer")
    n = 2 if any(e[1] == "in" for e, _ in stm["states"][0][2]) else 1
    if not chk.expect(len(tim) == n and len(set(tim)) == n, "%s: timers %r, should be %d different ones" % (test, tim, n), case):
        return None
    if n == 2:
        chk.expect(tim[0] > 0, "%s: there is no initial delay" % test, case)
        chk.expect(not [e for e in evs if e[0] == "publish"], "%s: publishes before its initial delay" % test, case)
    return tim


def commands(r, seq, stm, types, tim, noise):
    """(text, list of (command line, stimulus or None)): no command changes anything unless it has a stimulus."""
    sub = {topic(c) for c in cppgen.out_channels(stm)} | {"input_accepted"}
    res = []

    def junk():
        t = r.choice(("nobody", "Input_Accepted", "inputaccepted", "clock") + tuple(topic(c) + "x" for c in types) + tuple(c for c in types if c not in sub) + tuple(topic(c) for c in cppgen.in_channels(stm)))
        return None if t in sub else "msg %s 1" % t
    for x in seq:
        while noise and r.random() < .12:
            j = junk()
            if j:
                res.append((j, None))
        if x[0] == "output":
            v = "" if x[2] is None else " " + str(x[2])
            res.append(("msg %s%s" % (topic(x[1]), v), x))
        elif x[0] == "accept":
            res.append(("msg input_accepted %s" % r.choice(("true", "true", "true", "1")), x))
        elif x[0] == "timeout":
            res.append(("timer %g" % tim[-1], x))
        elif len(tim) == 2:
            res.append(("timer %g" % tim[0], x))
        else:
            res.append(("timer 1000", None))
    if r.random() < .5:
        res.append(("end", ("end",)))
    out = []
    run, often = 0, r.choice((.2, .4, .9))
    for k, (c, x) in enumerate(res):
        # Now and then a callback is already queued together with the ones before.
        also = 0 < k and x != ("end",) and run < 4 and r.random() < often
        run = run + 1 if also else 0
        out.append("also " + c if also else c)
        res[k] = (c, x, also)
    return "".join(c + "\n" for c in out), res


def main():
    chk = common.Check("C14", "exploration",
                       "random suites generated for the ros variant, compiled with AddressSanitizer and UndefinedBehaviorSanitizer against a stand-in for "
                       "roscpp that logs what crosses the ROS interface, fed every stimulus in every state and random sequences of acknowledgements, "
                       "messages and timer firings, and compared with a model; non-trivial if the node was run and its event log compared",
                       ["roscpp is stood in for by lib/ros_stub, which calls back one callback at a time, queues up to five callbacks together, and after shutdown none but those queued with the one that shut down",
                        "names are distinct C++ identifiers, also as topics; numbers fit the 32-bit C++ types; acknowledgements say true"])
    common.tools()

    def program(i):
        r = chk.rng("program", i)
        ch, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 2), hostile=i % 2 == 1, real=i % 4 == 3)
        case = dict(suite=suite, program=i)
        d = common.newdir("p")
        out = cppgen.gen_files(chk, d, suite, [cfg.cpp("ros")], case)
        if out is None:
            return
        types = suite["types"]
        for test, stm in stms.items():
            exe = os.path.join(d, "t_" + test)
            res = cppgen.compile_test(out, "ros", test, exe, cxx="clang++" if i % 6 == 5 else "g++", std=r.choice(("c++11", "c++17")))
            if not chk.expect(res.rc == 0, "%s doesn't compile" % test, case, **res.brief()):
                continue
            chk.count("programs_compiled")
            tim = wiring(chk, exe, stm, types, test, dict(case, test=test))
            if tim is None:
                continue
            seqs = [s for s in cppgen.plays(r, stm, types, chk.scale(12, 60), chk.scale(60, 400)) if not any(x[0] == "output" and isinstance(x[2], str) and "\r" in x[2] for x in s)]
            for k, seq in enumerate(seqs):
                text, cmds = commands(r, seq, stm, types, tim, k % 3 != 0)
                m = cppgen.Machine(stm, types)
                c = dict(suite=suite, program="%d/%s" % (i, test), test=test, commands=text)
                play(chk, cppgen.runprog(exe, text), m, cmds, types, test, c)
                chk.note("state_and_status", (i, test, m.state, m.status))
                chk.saw((i, test, text), True, sample=dict(test=test, commands=text, ends=m.status, published=m.sent))
        common.run(["rm", "-rf", d])

    common.pmap(program, range(chk.scale(70, 260)))
    return chk.finish(200)


def play(chk, res, m, cmds, types, test, case):
    if not sane(chk, res, test, case):
        return
    # Go through the log: what was published at each point, and which commands were taken.
    evs = events(res)
    i = 0
    sent = 0

    def upto(stop):
        nonlocal i
        pubs, down = [], False
        while i < len(evs) and evs[i][0] not in stop:
            if evs[i][0] == "publish":
                pubs.append(evs[i])
            if evs[i][0] == "shutdown":
                down = True
            i += 1
        return pubs, down

    def compare(pubs, at):
        nonlocal sent
        want = m.sent[sent:]
        sent = len(m.sent)
        got = []
        for p in pubs:
            ch = [e for e in want if topic(e[0]) == p[1]]
            got.append((p[1], shown(types[ch[0][0]], p[3]) if ch else p[3]))
        if got != [(topic(e[0]), e[2]) for e in want]:
            chk.fail("%s: published %r %s, should be %r" % (test, got, at, [(topic(e[0]), e[2]) for e in want]), case, log=res.text[-3000:])
        chk.count("publications_compared", len(want))
    pubs, down = upto(("command", "unspin"))
    compare(pubs, "at the start")
    chk.expect(down == (not m.running()), "%s: shut down at the start: %r, test over: %r" % (test, down, not m.running()), case)
    over = False
    for cmd, x, also in cmds:
        over = over or not m.running()
        if over and not also:
            break
        if over:
            chk.count("queued_callbacks_after_the_end")
        if i >= len(evs) or evs[i][0] != "command":
            chk.fail("%s: stopped taking part before %r, although the test isn't over" % (test, cmd), case, log=res.text[-3000:], stderr=res.errtext[-2000:])
            return
        i += 1
        if x == ("end",):
            break
        if x and not over:  # (once it is over, the test stays as it is)
            getattr(m, x[0])(*x[1:])
        pubs, down = upto(("command", "unspin"))
        compare(pubs, "after %r" % cmd)
        chk.expect(down == (not m.running() and not over), "%s: after %r shut down: %r, test over: %r" % (test, cmd, down, not m.running()), case, log=res.text[-3000:], stderr=res.errtext[-2000:])
        chk.count("stimuli_compared")
    err = res.errtext
    entered = re.findall(r"^\[info\] Entered state (.*)\.$", err, re.M)
    chk.expect(entered == m.entered, "%s: states entered %r, should be %r" % (test, entered, m.entered), case, stderr=err[-3000:])
    fin = re.findall(r"^\[info\] Test (\S+) finished: (.*)\.$", err, re.M)
    chk.expect(fin == [(test, cppgen.EXPLAIN[m.status])], "%s: finished as %r, should be %r" % (test, fin, cppgen.EXPLAIN[m.status]), case, stderr=err[-3000:])
    outcomes = dict(re.findall(r"^\[info\]   (\S+) = (\w+)$", err, re.M))
    want = {t: cppgen.OUTCOME[o] for t, o in m.verdict.items()}
    chk.expect(outcomes == want, "%s: outcomes %r, should be %r" % (test, outcomes, want), case, stderr=err[-3000:])
    chk.expect(res.rc == cppgen.EXIT.get(m.status, 0), "%s: exit status %d, should be %d (%s)" % (test, res.rc, cppgen.EXIT.get(m.status, 0), m.status), case)
    chk.count("ends_" + m.status)
