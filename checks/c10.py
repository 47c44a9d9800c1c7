"""C10: channel types are the least common type, in any order."""
import itertools

import common
import model
import pipe


def shuffle_tree(r, root):
    """The same tree with every node's successors in another order."""
    order = list(model.walk(root))
    new = {}
    for n in reversed(order):
        kids = [new[id(c)] for c in n["next"]]
        r.shuffle(kids)
        new[id(n)] = model.node(n["outcome"], n["event"], kids, n["tests"], n["id"])
    return new[id(root)]


def chain(r, events):
    """A single-test chain through the given events (a forbidden trace, expanded)."""
    return model.expand(dict(prefix=events[:-1], forbid=events[-1]), "t")


VALUES = {"nat": (0, 1, 7, 2**31, model.I64MAX), "int": (-1, -7, model.I64MIN), "enum": ("x", "y z", "1.5", "9223372036854775808"), "()": (None,)}


def any_values(r, kinds, n):
    return [r.choice(VALUES[r.choice(kinds)]) for _ in range(n)]


def any_suite(r, clash):
    """Trees over a few channels; each channel draws its values from one family unless it is to clash."""
    chans = ["c%d" % i for i in range(r.randint(1, 4))]
    fam = {c: r.choice((("nat",), ("nat", "int"), ("int",), ("enum",), ("()",))) for c in chans}
    bad = set()
    if clash:
        for c in r.sample(chans, r.randint(1, len(chans)) if r.random() < .3 else 1):
            fam[c] = r.choice((("nat", "enum"), ("int", "()"), ("enum", "()"), ("nat", "int", "enum"), ("nat", "()")))
            bad.add(c)

    def ev():
        c = r.choice(chans)
        return (c, r.choice(model.KINDS), any_values(r, fam[c], 1)[0])

    def tree(name):
        if r.random() < 0.4:
            return chain(r, [ev() for _ in range(r.randint(1, 6))])
        t = model.random_tree(r, tests=("t", name), depth=r.randint(1, 4), width=3)
        for n in model.walk(t):
            if n["event"] is not None:
                n["event"] = ev()
        return t
    return {"t%d" % i: tree("t%d" % i) for i in range(r.randint(1, 5))}


def judge(chk, trees, case, what):
    """Runs the builder on a suite and compares types or the refusal with the model; returns what is to be order-free."""
    want, bad = model.suite_types(trees.values())
    res = pipe.make_stms(pipe.suite_text(trees))
    chk.count("suites_built")
    if bad:
        if not chk.expect(res.rc == 1 and res.out == b"", "%s: values of different kinds on %s were accepted" % (what, sorted(bad)), case, **res.brief()):
            return None
        chk.expect(any(b in res.errtext for b in bad), "%s: the error names none of the channels %s" % (what, sorted(bad)), case, **res.brief())
        chk.count("conflicts_refused")
        return "conflict"
    if not chk.expect(res.rc == 0, "%s: refused, although every channel's values agree" % what, case, **res.brief()):
        return None
    try:
        o = pipe.loads(res.out)
        got = {n: model.stm_parse(s)["types"] for n, s in o["tests"].items()}
        top = o.get("types") or {}
    except (ValueError, KeyError, model.BadStm) as e:
        chk.fail("%s: unreadable output: %s" % (what, e), case, **res.brief())
        return None
    chk.expect(top == want, "%s: suite types are %r, should be %r" % (what, top, want), case)
    chk.expect(set(got) == set(trees), "%s: the tests differ" % what, case)
    for n, t in trees.items():
        w = model.tree_types(t)[0]
        chk.expect(got.get(n) == w, "%s: types of test %s are %r, should be %r" % (what, n, got.get(n), w), case)
    for ch, ty in want.items():
        chk.note("types_seen", ty)
    return repr(sorted(top.items()))


def main():
    chk = common.Check("C10", "exploration",
                       "all triples of types, random folds of types in random orders, and random suites given in several orders of events, tests and "
                       "runs; a suite is non-trivial if some channel carries two or more values")
    common.run_harness(chk, "types", chk.scale(80000, 400000), chk.scale(2, 8), optional=True)
    common.tools()

    def suites(i):
        r = chk.rng("suite", i)
        trees = any_suite(r, r.random() < 0.4)
        case = dict(suite=pipe.suite_text(trees)[:6000])
        base = judge(chk, trees, case, "as given")
        for k in range(chk.scale(3, 5)):
            names = list(trees)
            r.shuffle(names)
            again = {n: shuffle_tree(r, trees[n]) for n in names} if k else trees
            got = judge(chk, again, dict(suite=pipe.suite_text(again)[:6000]), "reordered" if k else "run again")
            chk.expect(got == base, "the result depends on the order: %s or %s" % (base, got), case)
        evs = [n["event"][0] for t in trees.values() for n in model.walk(t) if n["event"]]
        chk.saw(case["suite"], len(set(evs)) < len(evs), sample=case)

    def perms(i):
        """All orders of the values of one channel within one test, and of tests with one value each."""
        r = chk.rng("perm", i)
        pool = list(itertools.combinations_with_replacement((0, 5, -5, "x", None, model.I64MIN), 3))
        vals = pool[i % len(pool)]
        results = set()
        for p in sorted(set(itertools.permutations(vals)), key=repr):
            one = {"t": chain(r, [("c", "out", v) for v in p])}
            results.add(judge(chk, one, dict(values=p), "values %r in one test" % (p,)))
            many = {"t%d" % k: chain(r, [("c", "in", v)]) for k, v in enumerate(p)}
            results.add(judge(chk, many, dict(values=p), "values %r in tests of their own" % (p,)))
        chk.expect(len(results) == 1, "values %r: the type depends on their order or place: %r" % (vals, results), dict(values=vals))
        chk.saw(repr(vals))

    common.pmap(suites, range(chk.scale(600, 2500)))
    common.pmap(perms, range(56))
    return chk.finish(100)


