"""C13: animated tests give the verdict of the played trace."""
import os
import re

import cfg
import common
import cppgen
import model
import pipe

TEXTY = re.compile(r"^\S+$")


def render(r, seq, stm, types, noise):
    """Commands for the stimuli, as (text, what the test should see); mistypings come in between."""
    outs = cppgen.out_channels(stm)
    text, seen = [], []

    def junk():
        k = r.random()
        nums = [c for c in outs if types[c] in ("nat", "int", "real")]
        if k < .3 and nums:
            # Not a number: the rest of the line is thrown away.
            return "%s %s\n" % (r.choice(nums), r.choice(("xyz", "x 5 timeout", "- timeout", "999999999999999999999999%s accept" % ("9" * 300), "accept timeout")))
        w = r.choice(("bogus", "Ready", "acceptx", "TIMEOUT", "12", "-", "\u00e9", "a" * 300) + tuple(model_in for model_in in cppgen.in_channels(stm) if model_in not in outs))
        return "" if w in outs else w + r.choice(("\n", " ", "\t"))
    for x in seq:
        while noise and r.random() < .15:
            text.append(junk())
        if x[0] == "output":
            v = x[2]
            t = x[1]
            if v is not None:
                s = str(v)
                if types[x[1]] in ("int", "real") and v >= 0 and r.random() < .1:
                    s = "+" + s
                t += r.choice((" ", " ", "\n", "\t ")) + s
            text.append(t + r.choice(("\n", "\n", " ", "\n\n")))
        else:
            text.append(x[0] + r.choice(("\n", "\n", " ")))
        seen.append(x)
    if noise and r.random() < .2 and text:
        text[-1] = text[-1].rstrip()
    return "".join(text), seen


def rounded(v):
    """A real number as C++'s streams show it (to six digits)."""
    try:
        return "%.6g" % float(v)
    except ValueError:
        return v


def menus(res):
    """The commands offered at each prompt, and the types shown for the outputs; without repetitions."""
    seq = []
    for part in re.split(r"^\s*> ", res.text, flags=re.M)[:-1]:
        offers = re.findall(r"^  (\S+) \(", part, re.M)
        if sorted(offers) not in seq[-1:]:
            seq.append(sorted(offers))
    return seq


def menu(m):
    return sorted(["timeout"] + cppgen.out_channels(m.stm) + dict(WAIT_START=["ready"], WAIT_IN=["accept"]).get(m.status, []))


def predict(stm, types, seq):
    m = cppgen.Machine(stm, types)
    m.stm, m.menus = stm, []
    for x in seq:
        if m.running() and menu(m) not in m.menus[-1:]:
            m.menus.append(menu(m))
        if not m.running():
            break
        if x[0] == "accept" and m.status != "WAIT_IN":
            continue  # the program doesn't take this command now
        getattr(m, x[0])(*x[1:])
    ended = not m.running()
    if not ended and menu(m) not in m.menus[-1:]:
        m.menus.append(menu(m))
    m.timeout()  # the end of the input
    return m, ended


def judge(chk, res, m, stm, test, case):
    err = res.errtext
    if res.rc in (97, -6, -11, -4, -8) or "runtime error:" in err or "AddressSanitizer" in err or "== Invalid" in err:
        chk.fail("%s: memory error or undefined behaviour (status %d):\n%s" % (test, res.rc, err[-1500:]), case)
        return
    if res.rc in (-24, -25, -9):
        chk.fail("%s: goes on without end after its input ended (signal %d)" % (test, -res.rc), case, tail=res.text[-500:])
        return
    entered = re.findall(r"^\[info\] Entered state (.*)\.$", err, re.M)
    chk.expect(entered == m.entered, "%s: states entered %r, should be %r" % (test, entered, m.entered), case, stderr=err[-3000:])
    fin = re.findall(r"^\[info\] Test (\S+) finished: (.*)\.$", err, re.M)
    chk.expect(fin == [(test, cppgen.EXPLAIN[m.status])], "%s: finished as %r, should be %r" % (test, fin, cppgen.EXPLAIN[m.status]), case, stderr=err[-3000:])
    outcomes = dict(re.findall(r"^\[info\]   (\S+) = (\w+)$", err, re.M))
    want = {t: cppgen.OUTCOME[o] for t, o in m.verdict.items()}
    chk.expect(outcomes == want, "%s: outcomes %r, should be %r" % (test, outcomes, want), case, stderr=err[-3000:])
    sent = re.findall(r"Actual value received by SUT on (\S+) after conversion: (.*)\)$", err, re.M)
    want = [(e[0], "" if e[2] is None else str(e[2])) for e in m.sent]
    sent = [(c, rounded(v) if m.types.get(c) == "real" else v) for c, v in sent]
    want = [(c, rounded(v) if m.types.get(c) == "real" else v) for c, v in want]
    chk.expect([(c, v if w[1] else "") for (c, v), w in zip(sent, want)] == want and len(sent) == len(want), "%s: sends %r, should be %r" % (test, sent, want), case, stderr=err[-3000:])
    got = menus(res)
    chk.expect(got == m.menus, "%s: offers %r, should be %r" % (test, got, m.menus), case, stdout=res.text[-3000:])
    chk.count("prompts_compared", len(got))
    rc = cppgen.EXIT.get(m.status, 0)
    chk.expect(res.rc == rc, "%s: exit status %d, should be %d (%s)" % (test, res.rc, rc, m.status), case)
    chk.count("ends_" + m.status)
    chk.count("states_entered", len(entered))
    chk.note("states_covered", (case["program"], m.state))
    chk.note("state_and_status", (case["program"], m.state, m.status))


def garble(chk, r, exe, data, test, case):
    """Bytes that may mean anything: the program must end properly all the same."""
    data = bytearray(data)
    for _ in range(r.randint(1, 6)):
        at = r.randint(0, len(data))
        k = r.random()
        if k < .4:
            data[at:at] = bytes(r.choice((0, 10, 13, 32, 45, 255, 128, r.randint(0, 255))) for _ in range(r.choice((1, 1, 3, 40))))
        elif k < .6:
            data[at:at] = r.choice((b"9" * 400, b"x" * 70000, b"1e999 ", b"nan ", b"0x1p3 ", b"%s%n%d ", b"-", b"\n" * 50))
        elif k < .8:
            del data[at:at + r.randint(1, 9)]
        elif data:
            data[at:at] = data[r.randrange(len(data)):][:r.randint(1, 60)]
    res = cppgen.runprog(exe, bytes(data))
    err = res.errtext
    case = dict(case, stdin=bytes(data[:3000]).decode("latin-1"))
    if chk.expect(res.rc in (0, 1, 2) and "runtime error:" not in err and "AddressSanitizer" not in err, "%s: doesn't end properly on garbled commands (status %d):\n%s" % (test, res.rc, err[-1500:]), case):
        fin = re.findall(r"^\[info\] Test (\S+) finished: (.*)\.$", err, re.M)
        back = {v: k for k, v in cppgen.EXPLAIN.items()}
        ok = len(fin) == 1 and not back.get(fin[0][1], "WAIT").startswith("WAIT")
        chk.expect(ok and res.rc == cppgen.EXIT.get(back[fin[0][1]], 0), "%s: finished as %r with status %d on garbled commands" % (test, fin, res.rc), case, stderr=err[-2000:])
    chk.count("garbled_runs")


def main():
    chk = common.Check("C13", "exploration",
                       "random suites generated for the animate variant, compiled with AddressSanitizer and UndefinedBehaviorSanitizer (some also run "
                       "under valgrind), fed every stimulus in every state and random sequences with mistyped commands, and compared with a model of the "
                       "state machine; non-trivial if the program was run and its whole log compared",
                       ["test and channel names are distinct C++ identifiers, numbers fit the 32-bit C++ types",
                        "a state sends one input or awaits outputs, never both", "a command with an empty or multi-word value can't be typed"])
    common.tools()

    def program(i):
        r = chk.rng("program", i)
        via = i % 4 == 3
        ch, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 2), hostile="word" if i % 3 == 1 else False, real=i % 5 == 4)
        case = dict(suite=suite, program=i)
        if via:  # through the whole pipeline instead
            traces = []
            for n in stms:
                evs = [ch.event(r, r.choice(ch.list)) for _ in range(r.randint(1, 7))]
                traces.append(dict(name=n, prefix=evs[:-1], forbid=evs[-1]))
            res = pipe.make_stms(pipe.read_traces(model.render_traces(r, traces)).out)
            if not chk.expect(res.rc == 0, "the pipeline refused well-formed traces", dict(traces=traces), **res.brief()):
                return
            suite = pipe.loads(res.out)
            trees = model.expand_all(traces)
            stms = {n: model.stm_parse(s) for n, s in suite["tests"].items()}
            case["suite"] = suite
            for n, t in trees.items():
                try:
                    if model.stm_canon(stms[n]) != model.tree_canon(t):
                        chk.fail("%s: the machine is not that of its trace" % n, case)
                except (KeyError, model.BadStm) as e:
                    chk.fail("%s: %s" % (n, e), case)
                    return
        d = common.newdir("p")
        out = cppgen.gen_files(chk, d, suite, [cfg.cpp("animate")], case)
        if out is None:
            return
        for test, stm in stms.items():
            exe = os.path.join(d, "t_" + test)
            cxx = "clang++" if i % 6 == 5 else "g++"
            res = cppgen.compile_test(out, "animate", test, exe, cxx=cxx, std=r.choice(("c++11", "c++17")))
            if not chk.expect(res.rc == 0, "%s doesn't compile" % test, case, **res.brief()):
                continue
            chk.count("programs_compiled")
            types = suite["types"]
            seqs = cppgen.plays(r, stm, types, chk.scale(12, 60), chk.scale(50, 400))
            mem = None
            if i < chk.scale(3, 24):
                mem = os.path.join(d, "m_" + test)
                if cppgen.compile_test(out, "animate", test, mem, san=False).rc:
                    mem = None
            for k, seq in enumerate(seqs):
                text, seen = render(r, seq, stm, types, noise=k % 3 != 0)
                m, _ = predict(stm, types, seen)
                c = dict(suite=suite, program="%d/%s" % (i, test), test=test, stdin=text)
                judge(chk, cppgen.runprog(exe, text), m, stm, test, c)
                if mem and k in (0, len(seqs) // 2, len(seqs) - 1):
                    res = cppgen.runprog(mem, text, cpu=60, wrap=["valgrind", "-q", "--error-exitcode=97", "--leak-check=no"])
                    judge(chk, res, m, stm, test, c)
                    chk.count("runs_under_valgrind")
                chk.saw((i, test, text), True, sample=dict(test=test, stdin=text, ends=m.status, entered=m.entered))
                if k % 7 == 0:
                    garble(chk, r, exe, text.encode("utf-8"), test, dict(suite=suite, program="%d/%s" % (i, test), test=test))
        common.run(["rm", "-rf", d])

    common.pmap(program, range(chk.scale(96, 240)))
    return chk.finish(200)
