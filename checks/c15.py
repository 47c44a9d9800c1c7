"""C15: channel overrides and includes reach the generated code."""
import collections
import os
import re

import cfg
import common
import cppgen
import model

INC = re.compile(r'^\s*#\s*include\s*(?:"([^"\n]*)"|<([^>\n]*)>)', re.M)


def includes_in(text, names):
    """The configured headers that a file includes, in order, as (name, system)."""
    res = []
    for m in INC.finditer(text):
        n, s = (m.group(1), False) if m.group(1) is not None else (m.group(2), True)
        if n.strip() in names:
            res.append((n.strip(), s))
    return res


def conversions(err):
    c = collections.Counter()
    for line in err.split("\n"):
        if line.startswith("@CONV\t"):
            _, way, ch, v = line.split("\t", 3)
            c[(way, ch, v)] += 1
    return c


def shown(t, v):
    return "-" if t == "()" else str(v)


def near_equal(a, b):
    """Counters of conversions, numbers compared as numbers."""
    def norm(c):
        n = collections.Counter()
        for (w, ch, v), k in c.items():
            try:
                v = float(v)
            except ValueError:
                pass
            n[(w, ch, v)] += k
        return n
    return norm(a) == norm(b)


def main():
    chk = common.Check("C15", "exploration",
                       "random suites and random overrides per variant, with a user's convert.cpp that logs each value passing through it, built by the "
                       "generated Makefile (and CMakeLists.txt), then run on random sequences; the values logged are compared with those the model says were "
                       "sent and received; plus byte comparison of trees with and without foreign overrides; non-trivial if an override was exercised",
                       ["overriding types are copyable, and printable in the animate variant", "at most one override per channel and variant"])
    common.tools()

    def scenario(i):
        r = chk.rng("scenario", i)
        ch, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 2), real=i % 3 == 2, both=False)
        types = suite["types"]
        used = sorted(types)
        d = common.newdir("s")
        over, cpps, aux, incs, plain = {}, [], {}, {}, {}
        for v in r.sample(("animate", "ros"), 2):
            over[v] = {c: types[c] for c in used if r.random() < .6} if r.random() < .8 else {}
            unused = [model.ident(r) + "Unused" for _ in range(r.choice((0, 0, 1, 2)))]
            near = [x for c in used for x in (" " + c, c + " ", c + "\u00a0", c.upper(), c.lower(), c[:-1], c + c[-1], "/" + c, cppgen.topic(c), cppgen.cap(c)) if x and x not in used]
            if near and r.random() < .3:  # almost a channel
                unused += r.sample(near, min(2, len(near)))
            alias = {}
            for c in over[v]:  # users may call their types like rtcg's
                if types[c] in ("nat", "real") and types[c] not in alias.values() and r.random() < .3:
                    alias[c] = types[c]
            if alias and r.random() < .4:
                over[v] = {c: over[v][c] for c in list(alias)[:1]}
                alias = {c: alias[c] for c in over[v]}
            plain[v] = {c: cppgen.plain_type(r, v, types[c]) for c in over[v] if c not in alias and types[c] != "()" and r.random() < .4}
            chans = [(c, plain[v][c]) if c in plain[v] else (c, alias[c]) if c in alias else (c, r.choice(("%s", "%s", "%s", "::%s", "user_" + v + "::Same<%s, (1 < 2)>::type")) % ("user_%s::%s" % (v, cppgen.cap(c)))) for c in over[v]] + [(c, "NoSuchType<%d>" % k) for k, c in enumerate(unused)]
            r.shuffle(chans)
            incs[v] = [("user_%s.h" % v, r.random() < .5)] + [("inc_%s_%d.h" % (v, k), r.random() < .5) for k in range(r.randint(0, 3))]
            if r.random() < .4:
                incs[v].insert(r.randint(0, len(incs[v])), (r.choice(("cstdio", "vector", "map")), True))
            if r.random() < .3:  # some headers are meant to be included again
                n, s = r.choice(incs[v])
                incs[v].insert(r.randint(0, len(incs[v])), (n, s if r.random() < .5 else not s))
            cpps.append(cfg.cpp(v, incs[v], chans, makefile=True, catkin=v == "ros" or r.random() < .3))
            body = cppgen.user_convert(v, over[v], plain[v])
            if r.random() < .5:  # however it is written
                body = r.choice(("", "\ufeff")) + body.replace("\n", r.choice(("\n", "\r\n"))) + r.choice(("", "\n\n\n", "// {{ .Name }} \u4e2d\u6587 ${NAME} \t\f ", "// no newline at the end", "\r\n \t"))
            aux["%s/src/convert/convert.cpp" % v] = body
            aux["inc/user_%s.h" % v] = cppgen.user_header(v, over[v], alias, plain[v])
            for n, _ in incs[v]:
                if n.startswith("inc_"):
                    aux["inc/" + n] = "#pragma once\n#define SAW_%s 1\n" % n[:-2]
        case = dict(suite=suite, cpps=cpps, scenario=i)
        out = cppgen.gen_files(chk, d, suite, cpps, case, aux=aux, noise=r)
        if out is None:
            return
        for v in ("animate", "ros"):
            look(chk, r, d, out, v, over[v], incs[v], aux, suite, stms, case, i, plain[v])
        common.run(["rm", "-rf", d])

    def apart(i):
        """Overrides of another variant, or of unused channels, change nothing."""
        r = chk.rng("apart", i)
        _, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 2))
        used = sorted(suite["types"])
        d = common.newdir("a")
        for v in ("animate", "ros"):
            common.write(os.path.join(d, v, "src", "convert", "convert.cpp"), "// of the user\n")
        common.write(os.path.join(d, "stms.json"), "")
        mine = [(c, "Mine") for c in used if r.random() < .5]
        base = cfg.cpp("animate", [("a.h", False)], mine, True, True)
        other = cfg.cpp("ros", [("b.h", True)], [(c, "Theirs") for c in used if r.random() < .7] + [("nobodys", "X")], r.random() < .5, r.random() < .5)
        nobody = [("nobody%d" % k, "Whatever") for k in range(r.randint(1, 3))] + [(c + "x", "Y") for c in used if c + "x" not in used] + [(c.swapcase(), "Z") for c in used if c.swapcase() not in used]
        more = dict(base, channels=r.sample(mine + nobody, len(mine + nobody)))
        trees = []
        for k, cpps in enumerate(([base], [base, other], [other, base], [more], [more, other])):
            sub = os.path.join(d, "k%d" % k)
            os.mkdir(sub)
            common.own(sub)
            out = cppgen.gen_files(chk, sub, suite, cpps, dict(suite=suite, cpps=cpps), aux={v + "/src/convert/convert.cpp": "// of the user\n" for v in ("animate", "ros")})
            if out is None:
                return
            trees.append(cppgen.tree_of(os.path.join(out, "animate")))
        for k, t in enumerate(trees[1:]):
            gone, new, changed = common.snapdiff(trees[0], t)
            chk.expect(not (gone or new or changed), "overrides of %s changed the animate variant: removed %r, added %r, changed %r" %
                       ("another variant" if k < 2 else "channels that the suite doesn't use", gone, new, changed), dict(suite=suite, base=base, other=other, more=more))
            chk.count("trees_compared")
        chk.saw(repr((suite, mine, nobody)), True)
        common.run(["rm", "-rf", d])

    def later(i):
        """A second run brings what the user has changed since the first."""
        r = chk.rng("later", i)
        _, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 2))
        used = sorted(suite["types"])
        d = common.newdir("l")

        def conf(vs):
            return [cfg.cpp(v, [("%s%d.h" % (v, r.randint(0, 9)), r.random() < .5) for _ in range(r.randint(0, 2))], [(c, r.choice(("Mine", "Yours", "ns::Ours"))) for c in r.sample(used, r.randint(0, len(used)))],
                            True, r.random() < .5) for v in vs]

        def own(k):
            body = b"// of the user, version %d %s\n" % (k, b"x" * r.choice((0, 0, 7, 5000, 70000, 1 << 20)))
            body += r.choice((b"", b"", b"{{ .Name }} {{ end }}\n", b"a\r\nb\r", b"\0\xff\xfe\x80", b"${NAME} ?" b"?/\n", b"\xef\xbb\xbf"))
            return {v + "/src/convert/convert.cpp": body + b"// " + v.encode() + r.choice((b"\n", b"", b"\n\n", b" ")) for v in ("animate", "ros")}
        vs = r.sample(("animate", "ros"), r.choice((1, 2)))
        cpps = conf(vs)
        out = None
        for k in range(3):
            if k and r.random() < .6:
                cpps = conf(vs)
            aux = own(k if r.random() < .8 else 0)
            age = r.choice((0, 0, 3600, 10**8))
            case = dict(suite=suite, cpps=cpps, run=k, aux={p: repr(a[:60]) for p, a in aux.items()})
            out = cppgen.gen_files(chk, d, suite, cpps, case, aux=aux, age=age)
            if out is None:
                return
            ref = os.path.join(d, "ref%d" % k)
            os.mkdir(ref)
            common.own(ref)
            fresh = cppgen.gen_files(chk, ref, suite, cpps, case, aux=aux)
            if fresh is None:
                return
            have, want = cppgen.tree_of(out), cppgen.tree_of(fresh)
            bad = sorted(p for p, e in want.items() if e[0] == "file" and have.get(p, ("", 0, b""))[::2] != e[::2])
            chk.expect(not bad, "run %d over the output of earlier runs left %r unlike a run of its own" % (k + 1, bad), case, old={p: have[p][2][:300].decode("utf-8", "replace") for p in bad[:2] if p in have})
            for c in cpps:
                p = c["variant"] + "/src/convert/convert.cpp"
                if set(x for x, _ in c["channels"]) & set(used):
                    chk.expect(have.get(p, ("", 0, b""))[2] == aux[p], "%s isn't the user's present one" % p, case)
                    chk.count("conversions_renewed", k > 0)
        chk.saw(repr((suite, cpps)), True)
        common.run(["rm", "-rf", d])

    common.pmap(later, range(chk.scale(70, 300)))
    common.pmap(scenario, range(chk.scale(56, 200)))
    common.pmap(apart, range(chk.scale(70, 300)))
    return chk.finish(40)


def look(chk, r, d, out, v, over, incs, aux, suite, stms, case, i, plain):
    src = os.path.join(out, v, "src")
    types = suite["types"]
    conv = os.path.join(src, "convert", "convert.cpp")
    have = open(conv, "rb").read() if os.path.exists(conv) else None
    chk.expect(have == (aux[v + "/src/convert/convert.cpp"].encode() if over else None), "%s: convert.cpp is %s, overrides are %r" %
               (v, "there" if have is not None and not over else "missing" if have is None else "changed", sorted(over)), case)
    names = {n for n, _ in incs}
    header = open(os.path.join(src, "convert", "convert.h"), encoding="utf-8").read()
    want = [(n, s) for n, s in incs]
    got = includes_in(header, names)
    chk.expect(got == want, "%s: convert.h includes %r, configured %r" % (v, got, want), case)
    for t in stms:
        got = includes_in(open(os.path.join(src, t, "src", "main.cpp"), encoding="utf-8").read(), names)
        chk.expect(got == want, "%s/%s: main.cpp includes %r, configured %r" % (v, t, got, want), case)
        chk.count("include_lists_compared")
    inc = os.path.join(d, "inc")
    probe = "".join("#ifndef SAW_%s\n#error %s is not included\n#endif\n" % (n[:-2], n) for n in names if n.startswith("inc_"))
    for t in stms:  # what the compiler sees, too
        p = os.path.join(src, t, "src", "main.cpp")
        with open(p, "ab") as f:
            f.write(("\n" + probe).encode())
    flags = "-std=c++11 -w %s -I%s%s" % (" ".join(cppgen.SAN), inc, " -I" + cppgen.ROS_STUB if v == "ros" else "")
    res = common.run(["make", "-j4", "CXX=g++", "CXXFLAGS=" + flags], cwd=os.path.join(out, v), env=dict(os.environ, TMPDIR=d), cpu=200)
    if not chk.expect(res.rc == 0, "%s: the generated Makefile doesn't build with the overrides" % v, case, **res.brief()):
        return
    for t, stm in stms.items():
        run_test(chk, r, os.path.join(out, v, "bin", t), v, t, stm, types, over, case, plain)
    if v == "ros" and i % chk.scale(7, 3) == 0:  # CMake links the conversions as well
        t = sorted(stms)[0]
        b = common.newdir("b")
        ck = cppgen.fake_catkin(common.newdir("ck"))
        res = common.run(["cmake", "-S", os.path.join(src, t), "-B", b, "-Dcatkin_DIR=" + ck, "-DVERIF_INCLUDE=" + inc, "-DCMAKE_CXX_FLAGS=-w " + " ".join(cppgen.SAN), "-Wno-dev"],
                         env=dict(os.environ, TMPDIR=d), cpu=200)
        if res.rc == 0:
            res = common.run(["cmake", "--build", b, "--parallel", "4"], env=dict(os.environ, TMPDIR=d), cpu=200)
        if chk.expect(res.rc == 0, "ros/%s: CMake doesn't build with the overrides" % t, case, **res.brief()):
            nodes = [os.path.join(b, f) for f in sorted(os.listdir(b)) if f == "node"]
            if chk.expect(nodes != [], "ros/%s: CMake builds no node" % t, case, files=sorted(os.listdir(b))):
                run_test(chk, r, nodes[0], v, t, stms[t], types, over, case, plain)
                chk.count("built_by_cmake")


def run_test(chk, r, exe, v, t, stm, types, over, case, plain):
    outs = cppgen.out_channels(stm)
    if v == "ros":
        res = cppgen.runprog(exe, "end\n")
        for line in res.text.split("\n"):
            f = line.split("\t")
            if f[0] in ("@advertise", "@subscribe") and f[1] != "input_accepted":
                chs = [c for c in types if cppgen.topic(c) == f[1]]
                if chk.expect(len(chs) == 1, "%s: topic %r is no channel" % (t, f[1]), case):
                    c = chs[0]
                    ok = f[2] == plain[c].replace("::", "/") if c in plain else f[2] == "user/" + c if c in over else f[2] in cppgen.FIT[types[c]]
                    chk.expect(ok, "%s: channel %s has message type %s (%s)" % (t, c, f[2], "overridden" if c in over else "not overridden"), case)
                    chk.count("message_types_compared")
        tim = sorted(line.split("\t")[1] for line in res.text.split("\n") if line.startswith("@timer"))
        tim.sort(key=float)
    for seq in cppgen.plays(r, stm, types, 6, chk.scale(10, 40)):
        m = cppgen.Machine(stm, types)
        want = collections.Counter()

        def sent():
            for e in m.sent[sent.n:]:
                if e[0] in over:
                    want[("to", e[0], shown(types[e[0]], e[2]))] += 1
            sent.n = len(m.sent)
        sent.n = 0
        sent()
        text = []
        for x in seq:
            if not m.running():
                break
            if x[0] == "accept" and m.status != "WAIT_IN":
                continue
            if x[0] == "output":
                if v == "ros" and isinstance(x[2], str) and ("\n" in x[2] or "\r" in x[2]):
                    continue
                text.append("%s%s%s" % ("msg " + cppgen.topic(x[1]) if v == "ros" else x[1], "" if x[2] is None else " ", "" if x[2] is None else x[2]))
                if x[1] in over:
                    val = shown(types[x[1]], x[2])
                    want[("from", x[1], val)] += 1
                    if v == "animate":
                        want[("to", x[1], val)] += 1
            elif v == "ros":
                text.append({"accept": "msg input_accepted true", "ready": "timer " + tim[0] if len(tim) == 2 else "msg nobody", "timeout": "timer " + tim[-1]}[x[0]])
            else:
                text.append(x[0])
            getattr(m, x[0])(*x[1:])
            sent()
        res = cppgen.runprog(exe, "".join(x + "\n" for x in text))
        c = dict(case, variant=v, test=t, stdin=text)
        if not chk.expect(res.rc in (0, 1, 2), "%s/%s: died with status %d" % (v, t, res.rc), c, **res.brief()):
            continue
        got = conversions(res.errtext)
        chk.expect(near_equal(got, want), "%s/%s: values converted %r, should be %r" % (v, t, dict(got - want) or "-", dict(want - got) or dict(want)), c, stderr=res.errtext[-3000:])
        if v == "animate":
            for e in m.sent:
                if e[0] in over and e[0] not in plain and e[2] is not None and types[e[0]] != "real":
                    chk.expect("user:%s)" % e[2] in res.errtext, "%s/%s: %r isn't sent with the overriding type" % (v, t, e), c, stderr=res.errtext[-2000:])
        chk.count("conversions_observed", sum(got.values()))
        for (w, chn, _) in got:
            chk.note("conversion_functions", (v, w, types[chn]))
        chk.saw(repr((case["scenario"], v, t, text)), sum(want.values()) > 0, sample=dict(variant=v, overridden=sorted(over), stdin=text, conversions=[list(k) for k in want]))


