"""Monitors shared by C08 and C09: a state machine against the tree it was built from."""
import common
import model
import pipe


def ambiguous(t):
    """Some test tags two successors of one node with different outcomes."""
    for n in model.walk(t):
        seen = {}
        for c in n["next"]:
            for x in c["tests"]:
                if seen.setdefault(x, c["outcome"]) != c["outcome"]:
                    return True
    return False


def settle(t):
    """Retags successors so that no test has two outcomes at a node."""
    for n in model.walk(t):
        seen = {}
        for c in n["next"]:
            keep = [x for x in c["tests"] if seen.setdefault(x, c["outcome"]) == c["outcome"]]
            c["tests"] = keep or ["only%d" % n["next"].index(c)]
    return t


def judge(chk, name, tree, o, case, verdicts):
    try:
        stm = model.stm_parse(o)
        given = {n["id"] for n in list(model.walk(tree))[1:] if n["id"] and n["outcome"] != "fail"}
        live = [n for n in model.walk(tree) if n["outcome"] != "fail"]
        chk.expect(len(stm["states"]) == len(live), "%s: %d states for %d non-failing nodes" % (name, len(stm["states"]), len(live)), case)
        got = model.stm_canon(stm, given, verdicts)
        if got != model.tree_canon(tree, verdicts):
            got = model.stm_canon(stm, given, verdicts, ids=False)
            what = "identifiers differ" if got == model.tree_canon(tree, verdicts, ids=False) else "behaviour differs"
            if verdicts and what != "identifiers differ":
                what = "verdicts differ" if model.stm_canon(stm, given, False, ids=False) == model.tree_canon(tree, False, ids=False) else what
                if what == "behaviour differs":
                    chk.fail("%s: the machine isn't the tree's, so its verdicts aren't either" % name, case)
                    return
            if not (verdicts and what == "identifiers differ"):
                chk.fail("%s: %s from the test tree" % (name, what), case)
        ids = {s[0] for s in stm["states"]}
        if not verdicts:
            chk.expect(given <= ids, "%s: given identifiers %r are gone" % (name, sorted(given - ids)[:5]), case)
        else:
            tags = {x for n in list(model.walk(tree))[1:] for x in n["tests"]}
            chk.expect(set(stm["tests"]) == tags and len(stm["tests"]) == len(tags), "%s: test list %r, tags are %r" % (name, stm["tests"], sorted(tags)), case)
            chk.count("verdicts_compared", sum(len(s[1]) for s in stm["states"]))
        chk.count("states_compared", len(stm["states"]))
        chk.count("transitions_compared", sum(len(s[2]) for s in stm["states"]))
    except (model.BadStm, KeyError, TypeError, ValueError) as e:
        chk.fail("%s: %s: %s" % (name, type(e).__name__, e), case)


def loose(chk, name, tree, o, case):
    """Where a test tags several successors differently, its verdict is still the outcome of one of them, and of no other node."""
    try:
        stm = model.stm_parse(o)
        by = {s[0]: s for s in stm["states"]}
        # Nodes and states correspond where every node of the tree has an identifier.
        for i, n in enumerate(model.walk(tree)):
            s = by.get(n["id"] if i else "initial")
            if n["outcome"] == "fail" or s is None:
                continue
            may = {}
            for c in n["next"]:
                for x in c["tests"]:
                    may.setdefault(x, set()).add(c["outcome"])
            chk.expect(set(s[1]) == set(may) and all(s[1][x] in may[x] for x in may), "%s: state %s has verdicts %r, should be among %r" % (name, s[0], s[1], may), case)
            chk.count("ambiguous_verdicts", sum(len(v) > 1 for v in may.values()))
    except (model.BadStm, KeyError, TypeError, ValueError) as e:
        chk.fail("%s: %s: %s" % (name, type(e).__name__, e), case)


def chain_verdicts(chk, name, tests, o, case):
    """Along a single-test chain: inconclusive until the passing node is next, then passed, then (after the forbidden event) failed."""
    try:
        stm = model.stm_parse(o)
        by = {s[0]: s for s in stm["states"]}
        cur, seq = by["initial"], []
        while True:
            seq.append(cur[1].get(tests))
            if not cur[2]:
                break
            cur = by[cur[2][0][1]]
        n = len(stm["states"])
        chk.expect(seq == ["inc"] * (n - 2) + ["pass", "fail"], "%s: verdicts along the chain are %r" % (name, seq), case)
        chk.count("chains_followed")
    except (model.BadStm, KeyError, IndexError) as e:
        chk.fail("%s: %s" % (name, e), case)


def main(chk, verdicts):
    common.tools()

    def check(trees, chains, case, key):
        res = pipe.make_stms(pipe.suite_text(trees, chk.rng("spelling", key) if len(key) % 3 == 0 else None))
        if not chk.expect(res.rc == 0, "a well-formed suite was refused", case, **res.brief()):
            return
        try:
            o = pipe.loads(res.out)
            tests = o.get("tests") or {}
        except ValueError as e:
            chk.fail("unreadable output: %s" % e, case, **res.brief())
            return
        chk.expect(set(tests) == set(trees), "machines for %r, tests are %r" % (sorted(tests), sorted(trees)), case)
        for n, t in trees.items():
            if n in tests:
                judge(chk, n, t, tests[n], case, verdicts)
                if verdicts and n in chains:
                    chain_verdicts(chk, n, n, tests[n], case)
        chk.saw(key, any(len([x for x in model.walk(t) if x["outcome"] != "fail"]) > 1 for t in trees.values()), sample=case)

    def suite(i):
        r = chk.rng("suite", i)
        alpha = model.Alphabet(r, r.randint(0, 2), r.randint(1, 3), r.randint(0, 1), simple=r.random() < .5)
        trees, chains = {}, set()
        for k in range(r.choice((1, 1, 2, 5))):
            name = r.choice(("t%d", "test%d", "\u00e9%d", "a b%d")) % k
            if r.random() < 0.3:
                trees[name] = model.expand(alpha.trace(r, maxlen=8), name)
                chains.add(name)
            else:
                tags = r.sample(("t", name, "u", "other", " t", "t ", "", "T"), r.randint(1, 4))
                trees[name] = settle(model.random_tree(r, alpha, tests=tags, depth=r.randint(0, 4), width=r.randint(1, 4), ids=r.random() < .6))
                if r.random() < .3:  # a value may be empty text, which isn't no value
                    for n in model.walk(trees[name]):
                        if n["event"] and isinstance(n["event"][2], str) and r.random() < .4:
                            n["event"] = n["event"][:2] + ("",)
                if r.random() < .3:  # root tags and the other nodes' tags need not agree
                    trees[name]["tests"] = ["elsewhere"]
        text = pipe.suite_text(trees)
        check(trees, chains, dict(suite=text[:8000]), text)

    def ids(i):
        """Every choice of a few identifiers, some of which look like generated ones, over the nodes of a chain and a fork."""
        r = chk.rng("ids", i)
        alpha = model.Alphabet(r, 1, 2, 1)
        t = model.random_tree(r, alpha, tests=("t",), depth=3, width=2)
        ns = [n for n in list(model.walk(t))[1:]]
        pool = ["step%d" % k for k in range(len(ns) + 2)] + ["step", "step01", "Initial", "0", "initial0", "step-1", "step1 "]
        r.shuffle(pool)
        for n in ns:
            if r.random() < 0.6:
                n["id"] = pool.pop() if pool else ""
        text = pipe.suite_text({"t": settle(t)})
        check({"t": t}, set(), dict(suite=text[:8000]), text)

    def deep(n):
        alpha = model.Alphabet(chk.rng("deep", n), 1, 2, 1)
        tr = alpha.trace(chk.rng("deep", n), maxlen=0)
        r = chk.rng("deep2", n)
        tr["prefix"] = [alpha.event(r) for _ in range(n)]
        trees = {"deep": model.expand(tr, "deep")}
        check(trees, {"deep"}, dict(deep=n), "deep %d" % n)

    def wide(n):
        r = chk.rng("wide", n)
        kids = [model.node("inc", ("c%d" % (k % 7), model.KINDS[k % 3], k), [model.node("pass", ("d", "out", k), [model.node("fail", tests=["t%d" % k])], ["t%d" % k])],
                           ["t%d" % k]) for k in range(n)]
        r.shuffle(kids)
        trees = {"wide": model.node(next=kids, tests=["t%d" % k for k in range(n)])}
        check(trees, set(), dict(wide=n), "wide %d" % n)

    def many(i):
        """Many tags on every node, and several outcomes for one test."""
        r = chk.rng("many", i)
        alpha = model.Alphabet(r, 1, 3, 1)
        tags = ["t%d" % k for k in range(r.choice((3, 20, 60, 300)))]
        t = model.random_tree(r, alpha, tests=tags, depth=r.randint(1, 3), width=r.randint(2, 5))
        if i % 2:
            for k, n in enumerate(list(model.walk(t))[1:]):
                n["id"] = "n%d" % k
            res = pipe.make_stms(pipe.suite_text({"t": t}))
            case = dict(tree=pipe.suite_text({"t": t})[:8000])
            if chk.expect(res.rc == 0, "a well-formed suite was refused", case, **res.brief()):
                loose(chk, "t", t, pipe.loads(res.out)["tests"]["t"], case)
            chk.saw("loose%d" % i)
        else:
            text = pipe.suite_text({"t": settle(t)})
            check({"t": t}, set(), dict(suite=text[:8000]), text)

    common.pmap(suite, range(chk.scale(700, 8000)))
    common.pmap(ids, range(chk.scale(300, 3000)))
    common.pmap(many, range(chk.scale(40 if verdicts else 12, 400)))
    common.pmap(deep, (1, 50, 300, 800))
    common.pmap(wide, (2, 40, 400, chk.scale(1500, 4000)))
