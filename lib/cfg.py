"""Generator configurations: random ones, and their rendering as XML."""
import model

XML_TEXT = "abcXYZ 019_-./:<>&'\"$%\u00e9\u4e2d\U0001f600{}"


def xml_text(r, lo=0, hi=10):
    return "".join(r.choice(XML_TEXT) for _ in range(r.randint(lo, hi))).strip()


def esc(r, s, quote=None):
    out = []
    for c in s:
        if c == "<":
            out.append("&lt;")
        elif c == "&":
            out.append(r.choice(("&amp;", "&#38;")))
        elif c == ">":
            out.append("&gt;")
        elif c == quote:
            out.append("&quot;" if c == '"' else "&apos;")
        elif ord(c) > 126 and r.random() < .3:
            out.append("&#x%X;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def attrs(r, kv):
    kv = list(kv)
    r.shuffle(kv)
    out = []
    for k, v in kv:
        q = r.choice("\"\"'")
        out.append('%s%s=%s%s%s' % (r.choice((" ", " ", "  ", "\n")), k, q, esc(r, v, q), q))
    return "".join(out)


def text(r, s):
    if s and r.random() < 0.15 and "]]>" not in s:
        return "<![CDATA[%s]]>" % s
    return esc(r, s)


def elem(r, tag, kv=(), body=None, closed=True):
    a = attrs(r, kv)
    if body is None or (body == "" and r.random() < .5):
        return r.choice(("<%s%s/>", "<%s%s />")) % (tag, a) if r.random() < .7 else "<%s%s></%s>" % (tag, a, tag)
    return "<%s%s>%s</%s>" % (tag, a, body, tag)


def gap(r, noise=True):
    if not noise:
        return "\n"
    return r.choice(("", " ", "\n", "\n\t", "<!-- <cpp variant='ros'/> a comment -->", "\n  "))


def include(src, system=False):
    return (src, system)


def cpp(variant, includes=(), channels=(), makefile=False, catkin=False, package=None):
    return dict(variant=variant, includes=list(includes), channels=list(channels), makefile=makefile, catkin=catkin or package is not None, package=package)


def package(**kw):
    p = dict(name="", version="", description="", license="", email="", maintainer="", buildtool=[], depends=[])
    p.update(kw)
    return p


def render(r, cpps, directory=None, noise=True, decl=True):
    """XML that denotes the configuration; the order among kinds of element is random, that within a kind is kept."""
    def g():
        return gap(r, noise)

    def merge(lists):
        lists = [list(x) for x in lists if x]
        out = []
        while lists:
            x = r.choice(lists) if noise else lists[0]
            out.append(x.pop(0))
            lists = [y for y in lists if y]
        return out

    def pkg(p):
        def one(tag, v):
            if v == "":
                return [] if r.random() < .6 else [elem(r, tag, (), "")]
            return [elem(r, tag, (), text(r, v))]
        m = []
        if p["email"] or p["maintainer"]:
            m = [elem(r, "maintainer", [("email", p["email"])] if p["email"] else (), text(r, p["maintainer"]))]
        parts = merge([one("name", p["name"]), one("version", p["version"]), one("description", p["description"]), m, one("license", p["license"]),
                       [elem(r, "buildtool_depend", (), text(r, d)) for d in p["buildtool"]], [elem(r, "depend", (), text(r, d)) for d in p["depends"]]])
        return "<package%s>%s%s</package>" % (r.choice(("", ' format="2"')), "".join(g() + x for x in parts), g())

    def one_cpp(c):
        inc = []
        for src, sys_ in c["includes"]:
            kv = [("src", src)]
            if sys_:
                kv.append(("system", r.choice(("true", "true", "1"))))
            elif r.random() < .4:
                kv.append(("system", r.choice(("false", "0"))))
            inc.append(elem(r, "include", kv))
        ch = [elem(r, "channel", [("name", n), ("type", t)]) for n, t in c["channels"]]
        mk = [elem(r, "makefile")] if c["makefile"] else []
        ck = []
        if c["catkin"]:
            ck = [elem(r, "catkin") if c["package"] is None else "<catkin>%s%s%s</catkin>" % (g(), pkg(c["package"]), g())]
        v = c["variant"]
        if noise:
            v = "".join(x.upper() if r.random() < .2 else x for x in v)
        return "<cpp%s>%s%s</cpp>" % (attrs(r, [("variant", v)]), "".join(g() + x for x in merge([inc, ch, mk, ck])), g())

    parts = merge([["<directory>%s</directory>" % text(r, directory)] if directory else [], [one_cpp(c) for c in cpps]])
    head = '<?xml version="1.0" encoding="UTF-8"?>\n' if decl and r.random() < .7 else ""
    if noise and r.random() < .3:
        head += "<!-- top -->\n"
    return head + "<rtcg-gen>" + "".join(g() + x for x in parts) + g() + "</rtcg-gen>" + ("\n" if r.random() < .7 else "")


def plain(cpps, directory=None):
    import random
    return render(random.Random(1), cpps, directory, noise=False)


def any_package(r):
    def t():
        return xml_text(r) if r.random() < .5 else ""
    return package(name=r.choice(("", "pkg", "${NAME}_pkg", xml_text(r))), version=r.choice(("", "1.2.3")), description=t(), license=t(), email=t(), maintainer=t(),
                   buildtool=[model.ident(r) for _ in range(r.choice((0, 0, 1, 3, 6)))], depends=[model.ident(r) for _ in range(r.choice((0, 1, 2, 4, 9)))])


def any_cpp(r, variants=("animate", "ros")):
    return cpp(r.choice(variants), [(xml_text(r, 1), r.random() < .5) for _ in range(r.choice((0, 1, 2, 4, 4, 9)))],
               [(model.ident(r), xml_text(r, 1)) for _ in range(r.choice((0, 1, 2, 4, 4, 9)))], r.random() < .5, r.random() < .5, any_package(r) if r.random() < .4 else None)
