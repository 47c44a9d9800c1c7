"""C07: only well-formed test suites become state machines."""
import json

import common
import model
import pipe


def alphabet(r):
    return model.Alphabet(r, r.randint(0, 2), r.randint(1, 3), r.randint(0, 1), simple=r.random() < .7)


def mutate(r, root, alpha):
    """One random change at one random node; most of them make the tree ill-formed, some don't."""
    nodes = list(model.walk(root))
    k = r.random()
    if k < 0.15:
        n = root
    elif k < 0.35:
        n = r.choice([x for x in nodes if x["outcome"] == "fail"] or nodes)
    elif k < 0.55:
        n = r.choice([x for x in nodes if x["outcome"] == "pass"] or nodes)
    else:
        n = r.choice(nodes)
    leaf = model.node("fail", tests=["t"])
    sub = model.node("inc", alpha.event(r), [model.node("pass", alpha.event(r), [leaf], ["t"])], ["t"])
    ids = [x["id"] for x in nodes if x["id"]] + ["initial"]
    kind = r.choice(("tests", "outcome", "outcome", "event", "noevent", "add", "drop", "dropall", "id", "newid", "addpass", "clash", "swap", "twin", "words"))
    if kind == "tests":
        n["tests"] = []
    elif kind == "outcome":
        n["outcome"] = r.choice((None, "inc", "pass", "fail"))
    elif kind == "event":
        n["event"] = alpha.event(r) if r.random() < .8 else (r.choice(("initial", "none", "0")), r.choice(model.KINDS), None)
    elif kind == "noevent":
        n["event"] = None
    elif kind == "add":
        n["next"].append(r.choice((leaf, sub)))
    elif kind == "addpass":
        n["next"].insert(0, model.node("pass", alpha.event(r), [leaf], ["t"]))
    elif kind == "drop" and n["next"]:
        n["next"].pop(r.randrange(len(n["next"])))
    elif kind == "dropall":
        n["next"] = []
    elif kind == "id" and n is not root:
        n["id"] = r.choice(ids)
    elif kind == "newid" and n is not root:
        n["id"] = r.choice(("step0", "step1", "step2", "Initial", "x y", "\u00e9", "long" * 40, "long" * 40 + "er"))
    elif kind == "twin":
        for x in r.sample(nodes, min(len(nodes), 2)):
            if x is not root:
                x["id"] = r.choice(("twin", "twin" * 50))
    elif kind == "words":
        n["tests"] = [r.choice(("", " ", "initial"))] * r.randint(1, 2)
        if n["event"]:
            n["event"] = (r.choice(("initial", "none", "0")), n["event"][1], n["event"][2])
    elif kind == "clash" and n["event"]:
        ch, d, v = n["event"]
        n["event"] = (ch, d, r.choice((None, 3, -3, "zz", v)))
    elif kind == "swap":
        m = r.choice(nodes)
        n["outcome"], m["outcome"] = m["outcome"], n["outcome"]
    return kind


def main():
    chk = common.Check("C07", "exploration",
                       "random suites of well-formed trees (branching, several tags, given identifiers), with zero to three random mutations at random "
                       "nodes, judged by an independent well-formedness classifier; non-trivial if the tree has at least two nodes",
                       ["the root's own identifier is left out or is 'initial'"])
    common.tools()

    def suite(i):
        r = chk.rng("suite", i)
        alpha = alphabet(r)
        trees, kinds = {}, []
        for k in range(r.choice((1, 1, 1, 2, 4))):
            name = "t%d" % k
            if r.random() < 0.3:
                t = model.expand(alpha.trace(r), name)
            else:
                t = model.random_tree(r, alpha, tests=("t", name), depth=r.randint(0, 4), width=3, ids=r.random() < .5)
            if r.random() < 0.1:
                t["id"] = "initial"
            trees[name] = t
        victim = r.choice(list(trees))
        for _ in range(r.choice((0, 1, 1, 1, 2, 3)) if i % 5 else 0):
            kinds.append(mutate(r, trees[victim], alpha))
        bad = []
        for n, t in trees.items():
            bad += ["%s: %s" % (n, d) for d in model.defects(t)]
        clash = model.suite_types(trees.values())[1]
        bad += ["clash on " + c for c in clash]
        text = pipe.suite_text(trees, r if i % 2 else None)
        if i % 4 == 2 and "deep" not in kinds:  # no successors can be an empty list as well
            o = json.loads(text)
            stack = list(o.values())
            while stack:
                n = stack.pop()
                stack.extend(n.setdefault("next", []))
            text = json.dumps(o)
        case = dict(suite=text[:8000], mutations=kinds, defects=bad)
        res = pipe.make_stms(text)
        if bad:
            pipe.refused(chk, res, case, "ill-formed (%s)" % ", ".join(sorted(set(bad))[:4]))
            chk.count("refused")
            for b in bad:
                if len(bad) == 1 or len(set(x.split(": ")[-1] for x in bad)) == 1:
                    chk.note("single_defects_refused", b.split(": ")[-1].split(" on ")[0])
        else:
            if chk.expect(res.rc == 0, "a well-formed suite was refused", case, **res.brief()):
                try:
                    names = set((pipe.loads(res.out).get("tests") or {}))
                    chk.expect(names == set(trees), "machines for %r, tests are %r" % (sorted(names), sorted(trees)), case)
                except ValueError as e:
                    chk.fail("unreadable output: %s" % e, case, **res.brief())
            chk.count("accepted")
            chk.count("accepted_mutants", bool(kinds))
        chk.saw(text, sum(1 for t in trees.values() for _ in model.walk(t)) > 1, sample=case)

    for text in ("{}", " {\n}\n"):  # no tests at all: every one of them is well-formed
        res = pipe.make_stms(text)
        if chk.expect(res.rc == 0, "an empty suite was refused", text, **res.brief()):
            chk.expect(not pipe.loads(res.out).get("tests"), "tests out of nowhere", text, **res.brief())
        chk.saw(text)
    good = json.loads(pipe.suite_text({"g": model.expand(dict(name="", prefix=[("a", "in", 1)], forbid=("b", "out", None)), "g")}))
    for at in ("a", "g1", "z"):  # a null in place of a test, or of a node, is neither
        for null in (None, dict(good["g"], next=[None]), dict(good["g"], next=good["g"]["next"] + [None]), []):
            for others in ({}, good):
                text = json.dumps(dict(others, **{at: null}))
                pipe.refused(chk, pipe.make_stms(text), text, "a null or list in place of a node")
                chk.saw(text)
    common.pmap(suite, range(chk.scale(4000, 12000)))
    # Defects of every kind at every node of one suite, one at a time.
    r = chk.rng("sweep")

    def sweep(job):
        seed, pos, what = job
        rr = chk.rng("tree", seed)
        alpha = alphabet(rr)
        t = model.random_tree(rr, alpha, tests=("t", "u"), depth=3, width=2)
        nodes = list(model.walk(t))
        if pos >= len(nodes):
            return
        n = nodes[pos]
        if what == "tests":
            n["tests"] = []
        elif what in ("inc", "pass", "fail", ""):
            n["outcome"] = what or None
        elif what == "event":
            n["event"] = None if n["event"] is not None else alpha.event(rr)
        elif what == "two":
            n["next"] = n["next"] + [model.node("fail", tests=["t"])]
        elif what == "none":
            n["next"] = []
        elif what == "id":
            if n is t:
                return
            n["id"] = "initial"
        elif what == "same":
            if n is t or nodes[-1] is n:
                return
            n["id"] = nodes[-1]["id"] = "same"
        bad = model.defects(t)
        text = pipe.suite_text({"a": model.expand(alpha.trace(rr), "a"), "z": t}, rr if seed % 2 else None)
        res = pipe.make_stms(text)
        case = dict(suite=text[:8000], at=pos, what=what, defects=bad)
        if bad:
            pipe.refused(chk, res, case, "ill-formed (%s)" % ", ".join(sorted(set(bad))))
        else:
            chk.expect(res.rc == 0, "a well-formed suite was refused", case, **res.brief())
        chk.count("sweep_refused" if bad else "sweep_accepted")
        chk.saw(text)

    def big(job):
        """One defect behind thousands of good nodes."""
        n, what, at = job
        kids = [model.node("inc", ("c", "out", k), [model.node("pass", ("d", "out", k), [model.node("fail", tests=["t"])], ["t"])], ["t"]) for k in range(n)]
        leaf = model.node("fail", tests=["t"])
        bad = model.node("inc", ("c", "out", n), [model.node("pass", ("d", "out", n), [leaf], ["t"])], ["t"])
        if what == "tests":
            leaf["tests"] = []
        elif what == "event":
            leaf["event"] = ("c", "in", 1)
        elif what == "id":
            leaf["id"] = bad["id"] = "same"
        elif what == "clash":
            bad["next"][0]["event"] = ("d", "out", "enumeration")
        kids.insert(at % (n + 1), bad)
        text = pipe.suite_text({"big": model.node(next=kids, tests=["t"])})
        res = pipe.make_stms(text)
        case = dict(nodes=3 * n + 4, what=what, at=at)
        if what:
            pipe.refused(chk, res, case, "ill-formed (%s)" % what)
        else:
            chk.expect(res.rc == 0, "a large well-formed suite was refused", case, **res.brief())
        chk.saw("big%r" % (job,))

    def chain(job):
        """One defect at some depth of a long test."""
        n, what, at = job
        x = model.node("pass", ("d", "out", n), [model.node("fail", tests=["t"])], ["t"])
        for k in range(n - 1, -1, -1):
            e = ("c", "out", k)
            if k == at and what == "event":
                e = None
            if k == at and what == "clash":
                e = ("c", "out", "enumeration")
            x = model.node("inc", e, [x], [] if k == at and what == "tests" else ["t"])
            if what == "id" and k in (at, n - 1):
                x["id"] = "same"
            if k == at and what in ("outcome", "fail"):
                x["outcome"] = "fail" if what == "fail" else None
            if k == at and what == "cut":
                x["next"] = []
        res = pipe.make_stms(pipe.suite_text({"chain": model.node(next=[x], tests=["t"])}))
        case = dict(chain=n, what=what, at=at)
        if what:
            pipe.refused(chk, res, case, "ill-formed (%s)" % what)
        else:
            chk.expect(res.rc == 0, "a long well-formed test was refused", case, **res.brief())
        chk.saw("chain%r" % (job,))

    common.pmap(chain, [(n, w, at) for n in (70, 300, chk.scale(1500, 4000)) for w in ("", "tests", "event", "id", "clash", "outcome", "fail", "cut")
                        for at in {n // 2, n - 2, n - 1 - n // 20} if w or at == n // 2])
    common.pmap(big, [(n, w, at) for n in (300, chk.scale(2500, 20000)) for w in ("", "tests", "event", "id", "clash") for at in (0, -1)])

    kinds = ("tests", "inc", "pass", "fail", "", "event", "two", "none", "id", "same")
    common.pmap(sweep, [(s, p, k) for s in range(chk.scale(3, 20)) for p in range(chk.scale(14, 40)) for k in kinds])
    return chk.finish(300)
