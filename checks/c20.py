"""C20: hostile input never crashes or hangs a tool."""
import base64
import json
import os
import random
import shutil

import cfg
import common
import cppgen
import model
import pipe

CPU = 30  # processor seconds for inputs of at most 300 kB: many times what they need (three times as much with the race detector)


def judge(chk, name, res, case, filt):
    ok = True
    err = res.errtext
    if res.rc in (-24, -9, -25):
        chk.fail("%s doesn't end by itself (signal %d)" % (name, -res.rc), case, stdout=res.text[:500])
        return False
    if res.rc not in (0, 1) or "goroutine " in err and "panic" in err or "fatal error:" in err:
        chk.fail("%s crashed (status %d):\n%s" % (name, res.rc, err[:2500]), case)
        return False
    if "DATA RACE" in err:
        chk.fail("%s: data race:\n%s" % (name, err[:2500]), case)
        return False
    if res.rc == 1:
        ok &= chk.expect(err.strip() != "", "%s fails without a message" % name, case)
        if filt:
            ok &= chk.expect(res.out == b"", "%s fails, but writes to stdout" % name, case, **res.brief())
    return ok


def b64(b):
    return base64.b64encode(b).decode()


def deep(r):
    """Inputs whose size is the point."""
    n = r.choice((200, 2000, 9000, 12000, 60000))
    return r.choice([
        ("rtcg-make-stms", b'{"a":' * n), ("rtcg-make-stms", b'{"a":' + b'{"tests":["a"],"next":[' * n + b"]}" * n + b"}"), ("rtcg-make-stms", b"[" * n), ("rtcg-make-stms", b'{"a":"' + b"x" * n),
        ("rtcg-read-traces", b'"' * n), ("rtcg-read-traces", b"a.in," * n), ("rtcg-read-traces", b"a.in," * n + b"b.out"), ("rtcg-read-traces", b"\n" * n), ("rtcg-read-traces", b"a.in\n" * min(n, 2000)), ("rtcg-read-traces", b"x:" * n + b"a.in\n"),
        ("rtcg-read-traces", b"." * n), ("rtcg-read-traces", b"a.in." + b"9" * n), ("rtcg-read-traces", b"test" + b"0" * n + b": a.in\n" * 50), ("rtcg-read-traces", bytes(r.randrange(256) for _ in range(n // 10))),
        ("rtcg-make-stms", bytes(r.randrange(256) for _ in range(n // 10))), ("rtcg-gen", b"[" * n), ("rtcg-gen", bytes(r.randrange(256) for _ in range(n // 10))),
        ("conf", b"<rtcg-gen>" * n), ("conf", b"<rtcg-gen>" + b"<cpp>" * n), ("conf", b"<rtcg-gen>" + b"<cpp variant='ros'/>" * min(n, 60) + b"</rtcg-gen>"), ("conf", bytes(r.randrange(256) for _ in range(n // 10))),
        ("conf", b"<rtcg-gen a='" + b"x" * n), ("conf", b"<rtcg-gen><cpp>" + b"<include src='x'/>" * min(n, 9000) + b"</cpp></rtcg-gen>")])


def main():
    chk = common.Check("C20", "exploration",
                       "mutations (bytes, tokens, JSON structure, splices, deep nesting, truncation) of valid traces, tests, state machines and configurations: run "
                       "through each tool's steps in one process under a panic and processor-time monitor, where suspects are decided by the real tool, and a share run "
                       "through the race-instrumented tools with exit status, stderr and stdout watched; non-trivial as each input is distinct",
                       ["inputs are at most 300 kB", "a tool that uses %d processor seconds on such an input does not end by itself" % CPU])
    common.tools()
    common.tools(race=True)
    seeds = common.newdir("seeds")
    k = 0

    def put(kind, text):
        nonlocal k
        k += 1
        common.write(os.path.join(seeds, "%s%d" % (kind, k)), text)

    r = chk.rng("seeds")
    for i in range(12):
        evs = [model.any_event(r) for _ in range(6)]
        ts = [dict(name=r.choice(("", "", "t%d" % i)), prefix=[r.choice(evs) for _ in range(r.randint(0, 4))], forbid=r.choice(evs)) for _ in range(r.randint(1, 5))]
        put("traces", model.render_traces(r, ts))
        ch = cppgen.Chans(r, hostile=True)
        put("tests", model.dumps({n: model.tree_to_json(cppgen.gen_tree(r, ch, ["a", "b", "c"][:r.randint(1, 3)], depth=r.randint(0, 3), ids=True)) for n in ("a", "b")[:r.randint(1, 2)]}))
        _, stms, suite = cppgen.gen_suite(r, ntests=r.randint(1, 2))
        put("stms", json.dumps(suite))
        put("config", cfg.render(r, [cfg.any_cpp(r) for _ in range(r.randint(1, 2))]))
    for root, _, fs in os.walk(os.path.join(common.REPO, "examples")):
        for f in sorted(fs):
            kind = "config" if f.endswith(".xml") else "traces" if f.endswith((".csv", ".txt", ".trace", ".traces")) else None
            p = os.path.join(root, f)
            if kind and os.path.getsize(p) < 100000:
                with open(p, "rb") as fh:
                    put(kind, fh.read())
    for names in (("step0",), ("step1",), ("step2",), ("initial", "step0"), ("step1", "step0"), ("step0", "step0")):
        # Given IDs that look like the ones the tool makes for nodes without one.
        ch = cppgen.Chans(r)
        for _ in range(2):
            tree = model.tree_to_json(cppgen.gen_tree(r, ch, ["a", "b", "c"], depth=3))
            nodes = [tree]
            for x in nodes:
                x.pop("id", None)
                nodes += x.get("next") or []
            for x, name in zip(r.sample(nodes, min(len(nodes), len(names))), names):
                x["id"] = name
            put("tests", model.dumps({"a": tree, "b": tree}))
    put("tests", "{}")
    put("traces", "")
    put("stms", "{}")
    put("config", "<rtcg-gen/>")

    def decide(tool, data, conf, why, race=False):
        d = common.newdir("x")
        case = dict(tool=tool, why=why, input=b64(data), config=b64(conf) if tool == "rtcg-gen" else "")
        common.write(os.path.join(d, "in"), data)
        how = random.Random(common.digest([data])).randrange(2)
        if tool == "rtcg-gen":
            common.write(os.path.join(d, "cfg", "gen.xml"), conf)
            for v in ("animate", "ros"):
                common.write(os.path.join(d, "cfg", v, "src", "convert", "convert.cpp"), "//\n")
            res = common.run([common.tool(tool, race), "-output", os.path.join(d, "l", "m", "n", "out"), os.path.join(d, "cfg", "gen.xml")] + ([os.path.join(d, "in")] if how else []), stdin=b"" if how else data, cpu=CPU * (3 if race else 1), cwd=d)
        else:
            res = common.run([common.tool(tool, race)] + ([os.path.join(d, "in")] if how else []), stdin=b"" if how else data, cpu=CPU * (3 if race else 1), cwd=d)
        judge(chk, tool, res, case, tool != "rtcg-gen")
        shutil.rmtree(d, ignore_errors=True)
        return res

    found = []
    try:
        exe = common.harness("fuzz")
    except common.Inconclusive as e:
        exe = None
        common.log("C20: harness left out: %s" % e)
        chk.extra["harness_left_out"] = "fuzz"

    def inproc(i):
        seed = int(common.digest(["C20", common.SEED, i])[:12], 16)
        d = common.newdir("w")
        for v in ("animate", "ros"):
            common.write(os.path.join(d, v, "src", "convert", "convert.cpp"), "//\n")
        n = chk.scale(9000, 150000)
        res = common.run([exe, str(seed), str(n), seeds, d], cpu=chk.scale(300, 3000), timeout=chk.scale(600, 6000))
        finished = False
        for line in res.out.split(b"\n"):
            try:
                o = json.loads(line)
            except ValueError:
                continue
            if o["t"] == "suspect":
                found.append((o["tool"], base64.b64decode(o["in"]), base64.b64decode(o["conf"]), o["why"]))
            elif o["t"] == "done":
                finished = True
                with chk.lock:
                    chk.evals += o["evals"]
                    chk.seen.update(o["seen"])
                for kk, v in o["counts"].items():
                    chk.count(kk, v)
                for kk, v in o["notes"].items():
                    chk.extra["distinct_" + kk] = max(chk.extra.get("distinct_" + kk, 0), v)
        if not finished:
            try:
                o = json.load(open(os.path.join(d, "current")))
                found.append((o["tool"], base64.b64decode(o["in"]), base64.b64decode(o["conf"]), "the harness died: " + res.errtext[:300]))
            except (OSError, ValueError, KeyError):
                pass
            chk.extra["harness_deaths"] = chk.extra.get("harness_deaths", 0) + 1
            common.log("C20: the harness ended with status %d: %s" % (res.rc, res.errtext[:500]))

    if exe:
        common.pmap(inproc, range(8))
        chk.extra["suspects"] = len(found)
        by = {}
        for f in found:
            by.setdefault((f[0], f[3][:60]), f)
        common.pmap(lambda f: decide(*f), list(by.values())[:40])

    files = {}
    for f in sorted(os.listdir(seeds)):
        with open(os.path.join(seeds, f), "rb") as fh:
            files.setdefault(f.rstrip("0123456789"), []).append(fh.read())

    def tool_run(i):
        r = chk.rng("tool", i)
        kind = r.choice(("traces", "tests", "stms", "config"))
        tool = {"traces": "rtcg-read-traces", "tests": "rtcg-make-stms"}.get(kind, "rtcg-gen")
        if i % 12 == 0:
            tool, data = deep(r)
            conf = r.choice(files["config"])
            if tool == "conf":
                tool, conf, data = "rtcg-gen", data, r.choice(files["stms"])
        else:
            data = mutate(r, r.choice(files[kind]), files[kind])
            conf = r.choice(files["config"])
            if kind == "config":
                conf, data = data, r.choice(files["stms"])
        race = i % 3 == 0
        res = decide(tool, data, conf, "mutated", race)
        chk.count("tool_runs")
        chk.count("race_tool_runs", race)
        chk.note("tool_outcomes", (tool, res.rc))
        chk.saw(repr((tool, data, conf)), True, sample=dict(tool=tool, input=data[:200].decode("utf-8", "replace"), status=res.rc, stderr=res.errtext[:200]))

    common.pmap(tool_run, range(chk.scale(1500, 30000)))
    return chk.finish(3000)


TOK = ["null", "{}", "[]", '""', "0", "-1", ".", ":", "#", ",", '"', "\n", "\0", "\ufeff", "<", ">", "&", "inc", "pass", "fail", "initial", "a.in", "<cpp>", "</cpp>", "${NAME}", "\xff"]


def mutate(r, data, others):
    b = bytearray(data)
    for _ in range(r.randint(1, 5)):
        i = r.randint(0, len(b))
        k = r.randrange(7)
        if k == 0 and b:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k == 1 and b:
            b[r.randrange(len(b))] = r.randrange(256)
        elif k == 2:
            b[i:i] = r.choice(TOK).encode("utf-8")
        elif k == 3:
            del b[i:i + r.randint(1, 9)]
        elif k == 4:
            b[i:i] = b[i:i + r.randint(1, 60)]
        elif k == 5 and r.random() < .3:
            del b[i:]
        elif k == 6:
            o = r.choice(others)
            j = r.randint(0, len(o))
            b[i:] = o[j:]
    return bytes(b)
