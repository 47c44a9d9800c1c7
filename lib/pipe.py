"""Running the three tools on texts, and reading what they say."""
import json
import os

import common
import model


def read_traces(text, race=False, **kw):
    return common.run([common.tool("rtcg-read-traces", race)], stdin=text, **kw)


def make_stms(text, race=False, **kw):
    return common.run([common.tool("rtcg-make-stms", race)], stdin=text, **kw)


def loads(b):
    """Strict JSON: the whole output is one document without duplicate keys."""
    def pairs(ps):
        d = dict(ps)
        if len(d) != len(ps):
            raise ValueError("duplicate keys")
        return d
    import sys
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(100000)
    try:
        return json.loads(b.decode("utf-8"), object_pairs_hook=pairs)
    finally:
        sys.setrecursionlimit(lim)


def suite_of(b):
    """The trees in a test suite file."""
    return {n: model.tree_from_json(o) for n, o in (loads(b) or {}).items()}


def suite_text(trees, r=None):
    """A test suite file; with r, in one of the ways in which other programs or people might write it."""
    text = model.dumps({n: model.tree_to_json(t, r) for n, t in trees.items()})
    if r is not None and r.random() < 0.3:
        text = r.choice((" ", "\n\n\t", "")) + text + r.choice((" ", "\n\r\n", ""))
    return text


def refused(chk, res, case, what):
    """A filter refused its input properly."""
    ok = chk.expect(res.rc == 1, "%s: exit status %r, should be 1" % (what, res.rc), case, **res.brief())
    ok &= chk.expect(res.out == b"", "%s: something was written to stdout" % what, case, **res.brief())
    ok &= chk.expect(res.err.strip() != b"", "%s: nothing was written to stderr" % what, case, **res.brief())
    return ok


def gen(outdir, cfg, stms, *flags, race=False, stdin=None, **kw):
    """Runs rtcg-gen on files; stms is a path (or None with stdin)."""
    argv = [common.tool("rtcg-gen", race)] + list(flags) + ["-output", outdir, cfg]
    if stms is not None:
        argv.append(stms)
    return common.run(argv, stdin=stdin or b"", **kw)


def wstms(d, suite, name="stms.json"):
    return common.write(os.path.join(d, name), json.dumps(suite))


def respell(r, o):
    """The same JSON value, written in another way."""
    gaps = r.choice((("",), (" ", ""), ("\n", "\n  ", "\t", " ", ""), ("\r\n", "\r\n\t", "")))
    some = r.choice((0, .1, 1))

    def text(s):
        out = []
        for c in s:
            if r.random() >= some:
                out.append({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c, c if " " <= c else "\\u%04x" % ord(c)))
                continue
            if c == "/":
                out.append("\\/")
                continue
            u = c.encode("utf-16-be", "surrogatepass")
            for k in range(0, len(u), 2):
                h = "%02x%02x" % (u[k], u[k + 1])
                out.append("\\u" + (h.upper() if r.random() < .5 else h))
        return '"' + "".join(out) + '"'

    def gap():
        return r.choice(gaps)

    def value(o):
        if isinstance(o, str):
            return text(o)
        if isinstance(o, dict):
            ks = list(o)
            r.shuffle(ks)
            return "{" + ",".join(gap() + text(k) + gap() + ":" + gap() + value(o[k]) + gap() for k in ks) + (gap() if not ks else "") + "}"
        if isinstance(o, list):
            return "[" + ",".join(gap() + value(x) + gap() for x in o) + "]"
        return json.dumps(o)

    return gap() + value(o) + gap()
