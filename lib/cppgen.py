"""Generated test programs: suites fit for generation, compiling them under sanitizers, and a model of what they should do."""
import os
import time

import cfg
import common
import model
import pipe

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-O1", "-g0"]
SANENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97", UBSAN_OPTIONS="print_stacktrace=0:exitcode=97")
ROS_STUB = os.path.join(common.VERIF, "lib", "ros_stub")


# ---------------------------------------------------------------------------------------------- suites

class Chans:
    """Channels with a type each, and a few values to expect on each."""

    def __init__(self, r, hostile=False, real=False, both=True, nin=None):
        nin = r.randint(0, 2) if nin is None else nin
        nout, ncall = r.randint(1, 3), r.randint(0, 1)
        names = model.idents(r, nin + nout + ncall)
        if r.random() < .4:  # camel case and digits matter for topics
            names = [n if r.random() < .5 else n + r.choice(("XyZ", "Level2", "ABCdef", "_out", "Rpm")) for n in names]
            if len({n.lower().replace("_", "") for n in names}) < len(names):
                names = model.idents(r, nin + nout + ncall)
        if r.random() < .1:  # long ones, alike for many letters
            stem = r.choice(("q", "Q")) + "longName" * r.choice((4, 8, 16, 40))
            names = [stem + n for n in names]
        self.list = []
        self.pool = {}
        for i, n in enumerate(names):
            kind = "in" if i < nin else "out" if i < nin + nout else "call"
            t = r.choice(("nat", "int", "enum", "()", "enum", "int") + (("real",) if real else ()))
            self.list.append((n, kind, t))
            self.pool[n] = sorted({self.value(r, t, hostile) for _ in range(r.randint(1, 4))}, key=repr)
        if r.random() < .15:  # a channel whose values are long, and alike up to the last letter
            n, kind, _ = self.list[nin]
            self.list[nin] = (n, kind, "enum")
            stem = "long" * r.choice((16, 16, 64, 130, 1100))
            self.pool[n] = [stem + x for x in ("a", "b", "bc")[:r.randint(2, 3)]]
        if both and nin and r.random() < .15:  # a channel that goes both ways
            n, _, t = self.list[0]
            self.list.append((n, "out", t))
        self.types = {n: t for n, _, t in self.list}

    def value(self, r, t, hostile):
        if t == "()":
            return None
        if t == "nat":
            return r.choice((0, 1, 2, 5, 100, 2147483648, 4294967295, r.randint(0, 10**6)))
        if t in ("int", "real"):
            return r.choice((0, -1, 1, -5, 77, 2147483647, -2147483647, r.randint(-10**6, 10**6)))
        if r.random() < .04:  # long, and alike up to the last letter
            return "long" * r.choice((64, 64, 130, 1100)) + r.choice("ab")
        if not hostile:
            return model.ident(r)
        while True:
            s = model.trim("".join(c for c in model.hostile(r, 1, 8) if c not in "\0\n\r"))
            if r.random() < .25:  # such as would be quoted elsewhere
                s = r.choice(('"%s"', '"%s"', "'%s'", '"%s', "(%s)", "[%s]", "%s,", "%s;", "\\%s\\", "L%s", "<%s>", "%s.0", "0%s")) % s
            if s and isinstance(model.parse_value(s), str) and (hostile != "word" or len(s.split()) == 1):
                return s

    def ins(self):
        return [c for c in self.list if c[1] == "in"]

    def outs(self):
        return [c for c in self.list if c[1] != "in"]

    def event(self, r, c):
        return (c[0], c[1], r.choice(self.pool[c[0]]))


def gen_tree(r, ch, tests, depth=4, width=3, ids=False, failing=None):
    """A test tree whose states send at most one input and never mix inputs and outputs."""
    used = [0]
    stem = "" if r.random() < .9 else "longId" * r.choice((6, 11, 22, 50))
    if failing is None:  # how often a failure stands next to other behaviour
        failing = r.choice((.04, .15, .15, .4) if len(tests) > 1 else (.04, .04, .04, .3))

    def tags(frm):
        return r.sample(frm, r.randint(1, len(frm))) if r.random() < .5 else list(frm)

    def mkid():
        if ids and r.random() < .4:
            used[0] += 1
            return stem + r.choice(("n%d", "step%d0", "Q_%d", "aB%dx")) % used[0]
        return ""

    def children(d, tg):
        if ch.ins() and r.random() < .35:
            evs = [ch.event(r, r.choice(ch.ins()))]
        else:
            evs = []
            for _ in range(r.randint(1, width)):
                e = ch.event(r, r.choice(ch.outs()))
                if e not in evs:
                    evs.append(e)
        kids = []
        for e in evs:
            t = tags(tg)
            if d <= 0 or r.random() < .25:
                nx = [model.node("fail", tests=t)] if r.random() < .85 else children(d - 1, t)[:1]
                kids.append(model.node("pass", e, nx, t, mkid()))
            else:
                kids.append(model.node("inc", e, children(d - 1, t), t, mkid()))
        if r.random() < failing:  # of some of the tests
            kids.insert(r.randint(0, len(kids)), model.node("fail", tests=r.sample(tests, r.randint(1, len(tests)))))
        return kids

    root = model.node(next=children(r.randint(0, depth), list(tests)), tests=list(tests))
    settle(root)
    return root


def settle(t):
    """No test has two outcomes at one node."""
    for n in model.walk(t):
        seen = {}
        for c in n["next"]:
            c["tests"] = [x for x in c["tests"] if seen.setdefault(x, c["outcome"]) == c["outcome"]]
        n["next"] = [c for c in n["next"] if c["tests"]] or n["next"][:1]


def gen_chain(r, ch, name, maxlen=6):
    evs = [ch.event(r, r.choice(ch.list)) for _ in range(r.randint(1, maxlen + 1))]
    return model.expand(dict(prefix=evs[:-1], forbid=evs[-1]), name)


def reverdict(r, stm, extra):
    """Other verdicts, in any order and mixture; those of a state hold until another state says otherwise."""
    if not stm["tests"]:
        return
    if r.random() < .6:
        stm["tests"] = sorted(set(stm["tests"]) | set(extra))
    rate = r.choice((.05, .15, .4))
    for k, (i, v, trs) in enumerate(stm["states"]):
        v = {t: r.choice(("inc", "pass")) for t in stm["tests"] if r.random() < .8}
        if r.random() < rate:
            v[r.choice(stm["tests"])] = "fail"
        stm["states"][k] = (i, v, trs)


def gen_suite(r, ntests=2, hostile=False, real=False, both=True):
    """(channels, {test: tree}, suite object for the generator)."""
    ch = Chans(r, hostile, real, both)
    names = model.idents(r, ntests + 3)
    extra, names = names[ntests:], names[:ntests]
    if r.random() < .08:
        names = ["longTest" * r.choice((5, 8, 25)) + n for n in names]
    clash = {c[0].lower().replace("_", "") for c in ch.list}
    names = [n if n.lower().replace("_", "") not in clash else n + "Test" for n in names]
    trees = {}
    for n in names:
        k = r.random()
        if k < .03:  # nothing to do, or nothing to be done
            trees[n] = model.node(next=[model.node("fail", tests=[n])] if k < .02 else [], tests=[n])
        elif k < .4:
            trees[n] = gen_chain(r, ch, n)
        else:
            trees[n] = gen_tree(r, ch, [n] if r.random() < .5 else [n] + extra[:r.randint(1, 3)], depth=r.randint(0, 3), ids=r.random() < .5)
    stms = {n: model.build_stm(t) for n, t in trees.items()}
    for stm in stms.values():
        if r.random() < .4:
            reverdict(r, stm, extra)
    suite = model.suite_to_json(stms)
    for c, _, t in ch.list:  # the suite may be part of a bigger one whose types are wider
        have = suite["types"].get(c)
        if have in ("nat", "int") and t in ("int", "real"):
            suite["types"][c] = t
    return ch, stms, suite


# ---------------------------------------------------------------------------------------------- compiling

def gen_files(chk, d, suite, cpps, case, *flags, aux=None, noise=None, age=0):
    """Writes a configuration and generates into d/out; None if that failed (which is a violation)."""
    for p, text in (aux or {}).items():
        f = common.write(os.path.join(d, p), text)
        if age:
            os.utime(f, (time.time() - age,) * 2)
    conf = common.write(os.path.join(d, "gen.xml"), cfg.render(noise, cpps) if noise else cfg.plain(cpps))
    stms = pipe.wstms(d, suite)
    out = os.path.join(d, "out")
    res = pipe.gen(out, conf, stms, *flags)
    if not chk.expect(res.rc == 0, "generation failed for a well-formed suite", case, **res.brief()):
        return None
    return out


def compile_test(out, variant, test, exe, san=True, cxx="g++", extra=(), std="c++11"):
    base = os.path.join(out, variant, "src")
    srcs = [os.path.join(base, test, "src", "main.cpp"), os.path.join(base, "rtcg", "rtcg.cpp")]
    conv = os.path.join(base, "convert", "convert.cpp")
    if os.path.exists(conv):
        srcs.append(conv)
    argv = [cxx, "-std=" + std, "-w", "-ftrivial-auto-var-init=pattern"] + (SAN if san else ["-O0"]) + list(extra) + ["-I" + os.path.join(base, test, "include"), "-I" + os.path.join(base, "rtcg"),
                                                                               "-I" + os.path.join(base, "convert")]
    if variant == "ros":
        argv.append("-I" + ROS_STUB)
    e = dict(os.environ, TMPDIR=os.path.dirname(exe))
    return common.run(argv + ["-o", exe] + srcs, env=e, cpu=120)


def runprog(exe, stdin, args=(), cpu=10, wrap=()):
    return common.run(list(wrap) + [exe] + list(args), stdin=stdin, env=dict(os.environ, **SANENV), cpu=cpu)


# ---------------------------------------------------------------------------------------------- the model

EXPLAIN = dict(OFF_SCRIPT="an event happened that took the test off-script", TIMEOUT="the test ran out of time", FAIL="an unwanted behaviour occurred",
               BUG="an internal error occurred", WAIT_START="waiting to start", WAIT_IN="waiting for input acknowledgement", WAIT_OUT="waiting for output")
EXIT = dict(FAIL=1, BUG=2)
OUTCOME = {None: "unset", "inc": "inconclusive", "pass": "passed", "fail": "failed"}


class Machine:
    """What a generated test should be doing."""

    def __init__(self, stm, types):
        self.by = {s[0]: s for s in stm["states"]}
        self.first = stm["states"][0][0]
        self.types = types
        self.takes = any(e[1] == "in" for _, _, trs in stm["states"] for e, _ in trs)
        self.verdict = {t: None for t in stm["tests"]}
        self.entered, self.sent = [], []
        self.state = self.first
        self.status = "WAIT_START"
        self.sends_first = self.inputs(self.first) != []
        if not self.sends_first:
            self.enter(self.first)

    def inputs(self, s):
        return [(e, t) for e, t in self.by[s][2] if e[1] == "in"]

    def running(self):
        return self.status.startswith("WAIT")

    def enter(self, s):
        self.state = s
        self.entered.append(s)
        v = self.by[s][1]
        self.verdict.update(v)
        if "fail" in v.values():
            self.status = "FAIL"
        elif self.inputs(s):
            self.status = "WAIT_IN"
            self.sent.append(self.inputs(s)[0][0])
        else:
            self.status = "WAIT_OUT"

    def ready(self):
        if self.status == "WAIT_START":
            self.enter(self.first)

    def accept(self):
        if self.status == "WAIT_IN":
            self.enter(self.inputs(self.state)[0][1])
        elif self.running() and self.takes:
            self.status = "BUG"  # (a test without inputs doesn't listen)

    def timeout(self):
        if self.running():
            self.status = "TIMEOUT"

    def output(self, ch, val):
        if not self.running():
            return
        if self.status != "WAIT_START":
            for e, t in self.by[self.state][2]:
                if e[0] == ch and e[1] != "in" and e[2] == val:
                    self.enter(t)
                    return
        self.status = "OFF_SCRIPT"


def out_channels(stm):
    return sorted({e[0] for _, _, trs in stm["states"] for e, _ in trs if e[1] != "in"})


def in_channels(stm):
    return sorted({e[0] for _, _, trs in stm["states"] for e, _ in trs if e[1] == "in"})


def paths(stm):
    """For each state, the stimuli that lead to it from the start."""
    by = {s[0]: s for s in stm["states"]}
    first = stm["states"][0][0]
    start = [("ready",)] if any(e[1] == "in" for e, _ in by[first][2]) else []
    res, todo = {}, [(first, start)]
    while todo:
        s, p = todo.pop()
        res[s] = p
        if "fail" in by[s][1].values():
            continue  # the test ends here
        for e, t in by[s][2]:
            todo.append((t, p + [("accept",) if e[1] == "in" else ("output", e[0], e[2])]))
    return res


def other_values(r, stm, types, ch):
    """Values for a channel: those expected anywhere, and some that are not."""
    vals = {e[2] for _, _, trs in stm["states"] for e, _ in trs if e[0] == ch}
    t = types[ch]
    if t == "()":
        return [None]
    if t == "enum":
        base = sorted(v for v in vals if v)
        near = [v + "x" for v in base] + [v[:-1] for v in base if len(v) > 1] + [v.swapcase() for v in base]
        return base + [v for v in near if v and v == model.trim(v) and isinstance(model.parse_value(v), str)] + [model.ident(r)]
    near = {v + k for v in vals for k in (1, -1)} | {-v for v in vals} | {0, r.randint(0, 10**6)}
    lo, hi = (0, 2**32 - 1) if t == "nat" else (-2**31, 2**31 - 1)
    return sorted(v for v in vals | near if lo <= v <= hi)


def plays(r, stm, types, nrandom, cap):
    """Sequences of stimuli: every state with every stimulus, then random walks."""
    outs = out_channels(stm)
    ps = paths(stm)
    seqs = []
    for s, p in sorted(ps.items()):
        stim = [[], [("accept",)], [("ready",)], [("timeout",)], [("accept",), ("accept",)]]
        stim += [[("output", c, v)] for c in outs for v in other_values(r, stm, types, c)]
        seqs += [p + x for x in stim]
    if len(seqs) > cap:
        seqs = r.sample(seqs, cap)
    for _ in range(nrandom):
        seq = []
        m = Machine(stm, types)
        for _ in range(r.randint(1, 14)):
            k = r.random()
            if not m.running() or k < .25:
                x = r.choice([("accept",), ("ready",)] + ([("timeout",)] if r.random() < .2 else []) + [("output", c, r.choice(other_values(r, stm, types, c))) for c in outs])
            elif m.status == "WAIT_START":
                x = ("ready",)
            elif m.status == "WAIT_IN":
                x = ("accept",)
            else:
                trs = m.by[m.state][2]
                if not trs:
                    x = ("timeout",)
                else:
                    e, _ = r.choice(trs)
                    x = ("output", e[0], e[2])
            seq.append(x)
            getattr(m, x[0])(*x[1:])
        seqs.append(seq)
    return seqs


# ---------------------------------------------------------------------------------------------- generated trees

import re  # noqa: E402

DATE = re.compile(rb"(//[^\n]*autogenerated by rtcg on )[^\n]*")


def tree_of(top):
    """A snapshot of a generated tree without the generation dates."""
    snap = common.snapshot(top)
    for k, v in snap.items():
        if v[0] == "file" and k.endswith(".cpp"):
            snap[k] = (v[0], v[1], DATE.sub(rb"\1DATE", v[2]))
    return snap


def undate(data):
    return DATE.sub(rb"\1DATE", data)


def topic(ch):
    """The topic of a channel: lower case, an underscore at each step from lower to upper case."""
    out = []
    for a, b in zip(" " + ch, ch):
        if a.islower() and b.isupper():
            out.append("_")
        out.append(b.lower())
    return "".join(out)


def cap(ch):
    return ch[:1].upper() + ch[1:]


BASE = {"nat": "unsigned int", "int": "int", "real": "double", "enum": "std::string", "()": "void *"}
FIT = {"nat": ("std_msgs/UInt32", "std_msgs/UInt64"), "int": ("std_msgs/Int32", "std_msgs/Int64"), "real": ("std_msgs/Float64",), "enum": ("std_msgs/String",), "()": ("std_msgs/Empty",)}


# ---------------------------------------------------------------------------------------------- overriding types

STD_MSG = {"nat": "std_msgs::UInt32", "int": "std_msgs::Int32", "real": "std_msgs::Float64", "enum": "std_msgs::String"}


def default_type(variant, t):
    """The C++ type that rtcg itself would use."""
    return BASE[t] if variant == "animate" else STD_MSG[t]


def plain_type(r, variant, t):
    """A C++ type that's not the user's own, but isn't always rtcg's either."""
    more = {"animate": {"nat": ("unsigned long", "unsigned long long", "unsigned"), "int": ("long", "long long", "signed int", "signed"), "real": ("long double",)},
            "ros": {"nat": ("std_msgs::UInt64",), "int": ("std_msgs::Int64",)}}[variant].get(t, ())
    return r.choice((default_type(variant, t),) + more + more[:2])


def user_header(variant, over, alias={}, plain=()):
    """A user's header that defines a type for each overridden channel (but the plain ones, whose overriding type is rtcg's own)."""
    over = {c: t for c, t in over.items() if c not in plain}
    out = ["#pragma once", "#include <ostream>", "#include <sstream>", "#include <string>", "#include <memory>"]
    if variant == "ros":
        out += ['#include "ros/ros.h"'] + ['#include "std_msgs/%s.h"' % m.split("::")[1] for m in list(STD_MSG.values()) + ["std_msgs::Int64", "std_msgs::UInt64"]]
    out.append("namespace user_%s {" % variant)
    out.append("template <typename T, bool> struct Same { typedef T type; };")
    for ch, t in sorted(over.items()):
        base = "int" if t == "()" else BASE[t]
        out.append("struct %s { typedef std::shared_ptr<%s> Ptr; typedef std::shared_ptr<const %s> ConstPtr; %s v{}; };" % (cap(ch), cap(ch), cap(ch), base))
        out.append("inline std::ostream &operator<<(std::ostream &o, const %s &x) { return o << \"user:\" << x.v; }" % cap(ch))
    out.append("}")
    for ch, name in sorted(alias.items()):
        out.append("typedef user_%s::%s %s;" % (variant, cap(ch), name))
    if variant == "ros":
        for ch, t in sorted(over.items()):
            parse = {"enum": "m.v = s", "()": "(void) s"}.get(t, "std::istringstream i(s); i >> m.v")
            out.append('namespace ros_stub { template <> struct Codec<user_ros::%s> { static const char *name() { return "user/%s"; }\n'
                       '  static std::string show(const user_ros::%s &m) { std::ostringstream o; o.precision(17); o << m.v; return o.str(); }\n'
                       '  static void parse(const std::string &s, user_ros::%s &m) { %s; } }; }' % (cap(ch), ch, cap(ch), cap(ch), parse))
    return "\n".join(out) + "\n"


def user_convert(variant, over, plain={}):
    """A user's convert.cpp whose functions log each value that passes."""
    out = ['#include <iostream>', '#include "user_%s.h"' % variant, 'static int calls_%s; // a distinctive line: %r' % (variant, sorted(over))]
    for ch, t in sorted(over.items()):
        u, b = "user_%s::%s" % (variant, cap(ch)), BASE[t]
        sig = "const %s msg" % u if variant == "animate" else "const %s::ConstPtr& msg" % u
        acc = "msg.v" if variant == "animate" else "msg->v"
        field = "r.v"
        if ch in plain:
            u, acc, field = plain[ch], "msg" if variant == "animate" else "msg->data", "r" if variant == "animate" else "r.data"
            sig = "const %s msg" % u if variant == "animate" else "const %s::ConstPtr& msg" % u
        out.append("%s from%s(%s)\n{\n  calls_%s++; std::cerr.precision(17);\n  std::cerr << \"\\n@CONV\\tfrom\\t%s\\t\" << %s << std::endl;\n  return %s;\n}" %
                   (b, cap(ch), sig, variant, ch, '"-"' if t == "()" else acc, "nullptr" if t == "()" else acc))
        body = "%s r; " % u + ("" if t == "()" else field + " = value; ") + "return r;"
        out.append("%s to%s(const %s value)\n{\n  calls_%s++; std::cerr.precision(17); (void) value;\n  std::cerr << \"\\n@CONV\\tto\\t%s\\t\" << %s << std::endl;\n  %s\n}" %
                   (u, cap(ch), b, variant, ch, '"-"' if t == "()" else "value", body))
    return "\n\n".join(out) + "\n"


def fake_catkin(d):
    """A stand-in for catkin's CMake package that knows the ROS stub."""
    common.write(os.path.join(d, "catkinConfig.cmake"),
                 'set(catkin_INCLUDE_DIRS "%s" ${VERIF_INCLUDE})\nset(catkin_LIBRARIES)\nmacro(catkin_package)\n  message(STATUS "catkin_package: ${ARGN}")\nendmacro()\n'
                 'message(STATUS "catkin components: ${catkin_FIND_COMPONENTS}")\n' % ROS_STUB)
    return d
