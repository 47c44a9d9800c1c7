"""An independent reference model of rtcg's pipeline (traces -> test trees -> state machines), and case generators.

Nothing here is derived from the Go code's structure: it is written from the documented meaning of the formats.

An event is (channel, kind, value): kind is 'in', 'out' or 'call'; value is None, an int, or a str (enumeration).
A trace is dict(name=str, prefix=[event], forbid=event).
A tree node is dict(id=str, tests=[str], outcome=None|'inc'|'pass'|'fail', event=None|event, next=[node]).
"""
import hashlib
import json

KINDS = ("in", "out", "call")
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1

# What Go's unicode.IsSpace (hence bytes.TrimSpace and strings.TrimSpace) counts as space.
GO_SPACE = "\t\n\v\f\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def trim(s):
    return s.strip(GO_SPACE)


def ev_text(ev):
    ch, kind, val = ev
    return "%s.%s" % (ch, kind) if val is None else "%s.%s.%s" % (ch, kind, val)


def val_text(val):
    return "" if val is None else str(val)


def parse_value(text):
    """The value that a (trimmed) text denotes: a 64-bit decimal integer if it is one, else an enumeration."""
    body = text[1:] if text[:1] in ("+", "-") else text
    if body and all(c in "0123456789" for c in body):
        n = int(text)
        if I64MIN <= n <= I64MAX:
            return n
    return text


def parse_event(text):
    """Parses the text form of an event as found in the tools' JSON.  None if it is not an event."""
    parts = text.split(".", 2)
    if len(parts) < 2:
        return None
    ch, kind = trim(parts[0]), trim(parts[1]).lower()
    if kind not in KINDS or not ch:
        return None
    return (ch, kind, None if len(parts) == 2 else parse_value(trim(parts[2])))


# ------------------------------------------------------------------------------------------ naming, expansion

def name_traces(traces):
    """The documented naming scheme: [(name, trace)] in file order."""
    taken, res = set(), []
    for t in traces:
        base = trim(t["name"]) or "test"
        cands = ([] if base == "test" else [base])
        i = 0
        while True:
            if cands:
                n = cands.pop(0)
            else:
                n = base + str(i)
                i += 1
            if n not in taken:
                break
        taken.add(n)
        res.append((n, t))
    return res


def node(outcome=None, event=None, next=(), tests=(), id=""):
    return dict(id=id, tests=list(tests), outcome=outcome, event=event, next=list(next))


def expand(trace, name):
    cur = node("pass", trace["forbid"], [node("fail", tests=[name])], [name])
    for ev in reversed(trace["prefix"]):
        cur = node("inc", ev, [cur], [name])
    return node(next=[cur], tests=[name])


def expand_all(traces):
    return {n: expand(t, n) for n, t in name_traces(traces)}


# ------------------------------------------------------------------------------------------ JSON forms

def tree_to_json(n, r=None):
    """The JSON object for a tree; iterative, since trees may be deep. With r, absent things are at times spelled out."""
    def absent(o, *forms):
        if r is not None and r.random() < 0.3:
            k, v = r.choice(forms)
            o[k] = v

    out = {}
    stack = [(n, out)]
    while stack:
        n, o = stack.pop()
        if n.get("id"):
            o["id"] = n["id"]
        else:
            absent(o, ("id", ""), ("id", None))
        if n["tests"]:
            o["tests"] = n["tests"]
        else:
            absent(o, ("tests", []), ("tests", None))
        if n["outcome"]:
            o["outcome"] = n["outcome"]
        else:
            absent(o, ("outcome", "unset"), ("outcome", None))
        if n["event"] is not None:
            o["event"] = n["event"] if isinstance(n["event"], str) else ev_text(n["event"])
        else:
            absent(o, ("event", None))
        if n["next"]:
            o["next"] = [{} for _ in n["next"]]
            stack.extend(zip(n["next"], o["next"]))
        else:
            absent(o, ("next", []), ("next", None))
        if r is not None and r.random() < 0.3:
            items = list(o.items())
            r.shuffle(items)
            o.clear()
            o.update(items)
    return out


def tree_from_json(o):
    """The tree denoted by a JSON object written by the tools; raises ValueError on anything unexpected."""
    def conv(o):
        if not isinstance(o, dict) or set(o) - {"id", "tests", "outcome", "event", "next"}:
            raise ValueError("unexpected node %r" % (o,))
        oc = o.get("outcome") or None
        if oc == "unset":
            oc = None
        if oc not in (None, "inc", "pass", "fail"):
            raise ValueError("unexpected outcome %r" % (oc,))
        ev = o.get("event")
        if ev is not None:
            e = parse_event(ev)
            if e is None:
                raise ValueError("unexpected event %r" % (ev,))
            ev = e
        return node(oc, ev, [], o.get("tests") or [], o.get("id") or "")
    root = conv(o)
    stack = [(root, o)]
    while stack:
        n, o = stack.pop()
        for c in o.get("next") or []:
            k = conv(c)
            n["next"].append(k)
            stack.append((k, c))
    return root


def dumps(o):
    """json.dumps that survives deep trees."""
    import sys
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(200000)
    try:
        return json.dumps(o, ensure_ascii=False)
    finally:
        sys.setrecursionlimit(lim)


def walk(root):
    """Pre-order, left to right."""
    stack = [root]
    while stack:
        n = stack.pop()
        yield n
        stack.extend(reversed(n["next"]))


def same_tree(a, b):
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        for k in ("id", "tests", "outcome", "event"):
            if a[k] != b[k]:
                return "%s is %r, should be %r" % (k, a[k], b[k])
        if len(a["next"]) != len(b["next"]):
            return "%d successors, should be %d" % (len(a["next"]), len(b["next"]))
        stack.extend(zip(a["next"], b["next"]))
    return None


# ------------------------------------------------------------------------------------------ validation

def defects(root):
    """The ways in which a test tree is not well-formed (empty list: well-formed)."""
    bad = []
    if root is None:
        return ["no root"]
    ids = set()
    for i, n in enumerate(walk(root)):
        if not n["tests"]:
            bad.append("no tests")
        nid = "initial" if i == 0 else n["id"]
        if nid:
            if nid in ids:
                bad.append("duplicate id")
            ids.add(nid)
        if i == 0:
            if n["event"] is not None:
                bad.append("root event")
            if n["outcome"]:
                bad.append("root outcome")
            continue
        oc = n["outcome"]
        if not oc:
            bad.append("no outcome")
        elif oc == "fail":
            if n["event"] is not None:
                bad.append("fail event")
            if n["next"]:
                bad.append("fail next")
        else:
            if n["event"] is None:
                bad.append("no event")
            if not n["next"]:
                bad.append("no next")
            if oc == "pass" and len(n["next"]) != 1:
                bad.append("pass next")
    return bad


# ------------------------------------------------------------------------------------------ types

def type_of(val):
    if val is None:
        return "()"
    if isinstance(val, str):
        return "enum"
    return "nat" if val >= 0 else "int"


ARITH = ("nat", "int", "real")


def join(a, b):
    """The least common type, or None if there isn't one."""
    if a == b:
        return a
    if a in ARITH and b in ARITH:
        return ARITH[max(ARITH.index(a), ARITH.index(b))]
    return None


def tree_types(root):
    """(types, conflicting channels) of one tree."""
    types, bad = {}, set()
    for n in walk(root):
        if n["event"] is not None:
            ch, _, val = n["event"]
            t = type_of(val)
            j = join(types.get(ch, t), t)
            if j is None:
                bad.add(ch)
            else:
                types[ch] = j
    return types, bad


def suite_types(trees):
    types, bad = {}, set()
    for t in trees:
        ts, b = tree_types(t)
        bad |= b
        for ch, ty in ts.items():
            j = join(types.get(ch, ty), ty)
            if j is None:
                bad.add(ch)
            else:
                types[ch] = j
    return types, bad


# ------------------------------------------------------------------------------------------ state machines

def _h(x):
    return hashlib.sha256(repr(x).encode("utf-8", "surrogatepass")).hexdigest()[:24]


def verdict_of(n):
    v = {}
    for c in n["next"]:
        for t in c["tests"]:
            v[t] = c["outcome"]
    return v


def live(n):
    return [c for c in n["next"] if c["outcome"] != "fail"]


def tree_canon(root, verdicts=True, ids=True):
    """A hash of the behaviour of a tree, for comparison with stm_canon."""
    order = list(walk(root))
    h = {}
    for n in reversed(order):
        kids = sorted((repr(c["event"]), h[id(c)]) for c in live(n))
        v = tuple(sorted(verdict_of(n).items())) if verdicts else ()
        i = ("initial" if n is root else n["id"]) if ids else ""
        h[id(n)] = _h((i, v, kids))
    return h[id(root)]


class BadStm(Exception):
    pass


def stm_parse(o):
    """Normalises a state machine's JSON: dict(states=[(id, verdict, [(event, target)])], types, tests)."""
    if not isinstance(o, dict) or set(o) - {"states", "types", "tests"}:
        raise BadStm("unexpected state machine fields")
    states = []
    for s in o.get("states") or []:
        if set(s) - {"id", "transitionSets", "verdicts"}:
            raise BadStm("unexpected state fields %r" % sorted(s))
        trs = []
        for ts in s.get("transitionSets") or []:
            e = parse_event(ts["channel"])
            if e is None or e[2] is not None:
                raise BadStm("bad channel %r" % ts["channel"])
            for t in ts.get("transitions") or []:
                val = parse_value(t["value"]) if "value" in t else None
                trs.append(((e[0], e[1], val), t["next"]))
        states.append((s["id"], s.get("verdicts") or {}, trs))
    return dict(states=states, types=o.get("types") or {}, tests=o.get("tests") or [])


def stm_canon(stm, given_ids=(), verdicts=True, ids=True):
    """A hash of the behaviour from the initial state.  Raises BadStm if the machine is not a tree of reachable states."""
    by = {}
    for s in stm["states"]:
        if s[0] in by:
            raise BadStm("two states are called %r" % s[0])
        if not s[0]:
            raise BadStm("a state has no identifier")
        by[s[0]] = s
    if not stm["states"]:
        raise BadStm("no states")
    if stm["states"][0][0] != "initial":
        raise BadStm("the first state is %r, not 'initial'" % stm["states"][0][0])
    given = set(given_ids)
    order, seen, stack = [], set(), ["initial"]
    while stack:
        i = stack.pop()
        if i in seen:
            raise BadStm("state %r has more than one way in" % i)
        if i not in by:
            raise BadStm("transition to %r, which is not a state" % i)
        seen.add(i)
        order.append(i)
        stack.extend(t for _, t in by[i][2])
    if len(seen) != len(by):
        raise BadStm("states %r cannot be reached" % sorted(set(by) - seen)[:5])
    h = {}
    for i in reversed(order):
        _, v, trs = by[i]
        kids = sorted((repr(e), h[t]) for e, t in trs)
        nid = i if (i in given or i == "initial") else ""
        h[i] = _h((nid if ids else "", tuple(sorted(v.items())) if verdicts else (), kids))
    return h["initial"]


def build_stm(root):
    """A state machine for a tree, with our own identifiers: for driving generated programs."""
    states, n = [], 0
    ids = {id(root): "initial"}
    used = {x["id"] for x in walk(root)} | {"initial"}
    for x in walk(root):
        if x is root or x["outcome"] == "fail":
            continue
        if x["id"]:
            ids[id(x)] = x["id"]
            continue
        while "s%d" % n in used:
            n += 1
        ids[id(x)] = "s%d" % n
        n += 1
    for x in walk(root):
        if x["outcome"] == "fail":
            continue
        states.append((ids[id(x)], verdict_of(x), [(c["event"], ids[id(c)]) for c in live(x)]))
    tests = sorted({t for x in list(walk(root))[1:] for t in x["tests"]})
    return dict(states=states, types=tree_types(root)[0], tests=tests)


def stm_to_json(stm):
    states = []
    for i, v, trs in stm["states"]:
        sets, order = {}, []
        for (ch, kind, val), t in trs:
            k = "%s.%s" % (ch, kind)
            if k not in sets:
                sets[k] = []
                order.append(k)
            o = {"next": t}
            if val is not None:
                o["value"] = str(val)
            sets[k].append(o)
        s = {"id": i, "verdicts": v}
        if order:
            s["transitionSets"] = [{"channel": k, "transitions": sets[k]} for k in order]
        states.append(s)
    return dict(states=states, types=stm["types"], tests=stm["tests"])


def suite_to_json(stms):
    types = {}
    for s in stms.values():
        for ch, t in s["types"].items():
            types[ch] = join(types.get(ch, t), t)
    return dict(types=types, tests={n: stm_to_json(s) for n, s in stms.items()})


# ------------------------------------------------------------------------------------------ generators

IDENT_A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
IDENT_B = IDENT_A + "0123456789_"

# Words that generated C++ cannot use as channel or test names (keywords, macros, members of the generated classes).
RESERVED = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const
constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend
goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register
reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try
typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq linux unix main dump std ros rtcg
timeout ready accept initialDelay inputAccepted input_accepted verdict Verdict convert stm argc argv nh""".split())


def ident(r, lo=1, hi=8):
    while True:
        s = r.choice(IDENT_A) + "".join(r.choice(IDENT_B) for _ in range(r.randint(lo, hi) - 1))
        if s.lower() not in {w.lower() for w in RESERVED} and "__" not in s and not s.endswith("_"):
            return s


def idents(r, n, topic=None):
    """n identifiers that stay distinct however their case and underscores are treated."""
    seen, res = set(), []
    while len(res) < n:
        s = ident(r)
        k = s.lower().replace("_", "")
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res


# Words that such files hold in practice, or that other formats give a meaning to.
WORDS = (
    'true', 'True', 'TRUE', 'false', 'False', 'FALSE', 'yes', 'no', 'on', 'off', 'null', 'NULL', 'Null', 'nil', 'none', 'None', 'NONE',
    'empty', 'unset', 'inc', 'pass', 'fail', 'unknown', 'nan', 'NaN', 'NAN', 'inf', 'Inf', 'Infinity', '-inf', '+inf', '1.0', '1.5', '-2.5',
    '.5', '5.', '0.0', '1e3', '1E5', '1e-3', '-1e3', '0x10', '0XFF', '0b101', '0o17', '017e', '1_000', '1__0', '0_1', '1,5', '1/2', '50%',
    '5m', '10s', '3kg', '1st', '()', '[]', '{}', '[1]', '{1}', '(1)', '<1,2>', '{|x=1|}', '{|v=1.5,w=Ok|}', '"x"', "'x'", '"1"', "'1'",
    '""', "''", '`x`', 'a:b', 'a=b', 'a+b', 'x.y.z', 'x..y', '.x', 'x.', '...', 'nat', 'int', 'real', 'enum', 'string', 'str', 'bool',
    'boolean', 'float', 'double', 'char', 'byte', 'integer', 'natural', 'number', 'void', 'unit', 'any', 'object', 'type', 'int8', 'int32',
    'int64', 'uint', 'uint32', 'long', 'arithmos', 'in', 'out', 'call', 'In', 'OUT', 'Call', 'ok', 'Ok', 'OK', 'error', 'Error', 'default',
    'initial', 'Initial', 'step0', 'step1', 'step10', 'test', 'Test', 'TEST', 'test0', 'test1', 'root', 'end', 'END', 'EOF', 'tock', 'tick',
    'term', 'STOP', 'SKIP', 'CHAOS', '#x', 'x#y', '//', '/*', ';x', 'x;', '$x', '${NAME}', '%d', '%s', '{{.}}', '{{x}}', '\\n', '\\t',
    '\\x', '\\0', 'x\\', '&', '<', '>', '&amp;', '&lt;', '<x>', ']]>', '~', '!', '?', '*', '-', '--', '+', '++', '+=', '@', '^', '_', '__',
    'a_b', '_a', 'a_', 'A', 'aB', 'AB', 'ABC', 'aBC', 'AbC', 'a1', 'a1B', 'x86Y')

HOSTILE_CHARS = "\"'\\/,;:#.?%{}<>&`$()[]|~^*=+-_!@ \t\u00e9\u00df\u0130\u4e2d\U0001f600\u200b\ufeff\u2028\u0301abcXYZ019\n\r\x01\x7f\x1b"


def hostile(r, lo=0, hi=8, ban=""):
    s = "".join(r.choice(HOSTILE_CHARS) for _ in range(r.randint(lo, hi)))
    for c in ban:
        s = s.replace(c, "")
    return s


INTS = (0, 1, -1, 2, 7, 10, 42, 100, 255, 256, -128, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**53, I64MAX, I64MIN, I64MAX - 1, I64MIN + 1)


def any_value(r):
    k = r.random()
    if k < 0.2:
        return None
    if k < 0.5:
        return r.choice(INTS) if r.random() < 0.6 else r.randint(-10**6, 10**6)
    if k < 0.68:
        return ident(r)
    if k < 0.78:
        return parse_value(r.choice(WORDS))
    while True:
        s = trim(hostile(r))
        if isinstance(parse_value(s), str):
            return s


def any_channel(r):
    k = r.random()
    if k < 0.6:
        return ident(r)
    if k < 0.7:
        return r.choice(WORDS).replace(".", "") or "x"
    while True:
        s = trim(hostile(r, 1, 6, ban="."))
        if s:
            return s


def any_event(r, chans=None):
    return (r.choice(chans) if chans else any_channel(r), r.choice(KINDS), any_value(r))


class Alphabet:
    """Channels with a fixed type and direction each, so that suites over it agree in type."""

    def __init__(self, r, nin=2, nout=3, ncall=1, types=("nat", "int", "enum", "()"), simple=True, distinct_dirs=True):
        names = idents(r, nin + nout + ncall)
        self.chans = []
        for i, n in enumerate(names):
            kind = "in" if i < nin else "out" if i < nin + nout else "call"
            self.chans.append((n, kind, r.choice(types)))
        self.simple = simple
        self.pools = {}
        for n, _, t in self.chans:
            self.pools[n] = [self._value(r, t) for _ in range(r.randint(1, 4))]

    def _value(self, r, t):
        if t == "()":
            return None
        if t == "nat":
            return r.choice((0, 1, 2, 5, 100, 4000000000, r.randint(0, 10**6)))
        if t == "int":
            return r.choice((0, -1, 1, -5, 77, 2147483647, -2147483647, r.randint(-10**6, 10**6)))
        if self.simple:
            return ident(r)
        while True:
            s = trim(hostile(r, 1, 6, ban="\0")) if r.random() < 0.7 else r.choice(WORDS)
            if s and isinstance(parse_value(s), str):
                return s

    def types(self):
        return {n: t for n, _, t in self.chans}

    def event(self, r, kinds=KINDS):
        c = r.choice([c for c in self.chans if c[1] in kinds] or self.chans)
        return (c[0], c[1], r.choice(self.pools[c[0]]))

    def trace(self, r, name="", maxlen=5):
        return dict(name=name, prefix=[self.event(r) for _ in range(r.randint(0, maxlen))], forbid=self.event(r))


def random_tree(r, alphabet=None, tests=("t",), depth=4, width=3, ids=False, chans=None):
    """A well-formed, possibly branching, possibly multi-test tree."""
    chans = chans or ["c%d" % i for i in range(4)]
    used = [0]

    def tags():
        k = r.randint(1, len(tests))
        return r.sample(list(tests), k)

    def ev():
        if alphabet:
            return alphabet.event(r)
        return (r.choice(chans), r.choice(KINDS), r.choice((None, 0, 1, -3, "x", "y z", "x.y", 12345678901, "")))

    def mkid():
        if ids and r.random() < 0.4:
            used[0] += 1
            return r.choice(("n%d", "step%d", "Q_%d", "step%d")) % (used[0] - 1)
        return ""

    def fail():
        return node("fail", tests=tags(), id=mkid() if r.random() < 0.2 else "")

    def grow(d):
        if d <= 0 or r.random() < 0.25:
            nx = [fail()] if r.random() < 0.9 else [grow(d - 1)]
            return node("pass", ev(), nx, tags(), mkid())
        k = r.randint(1, width)
        nx = [fail() if r.random() < 0.08 else grow(d - 1) for _ in range(k)]
        return node("inc", ev(), nx, tags(), mkid())

    nx = [grow(depth) if r.random() < 0.95 else fail() for _ in range(r.randint(0 if r.random() < 0.05 else 1, width))]
    return node(next=nx, tests=tags())


def factorised_suite(r, alphabet, names, maxlen=4):
    """A multi-test tree merging several forbidden traces that share prefixes (as factorisation would)."""
    traces = {}
    base = [alphabet.event(r) for _ in range(maxlen)]
    for n in names:
        k = r.randint(0, maxlen)
        traces[n] = (base[:k], alphabet.event(r, ("out", "call")))
    root = node(tests=list(names))
    cur, alive = root, list(names)
    for depth in range(maxlen + 1):
        for n in [n for n in alive if len(traces[n][0]) == depth]:
            cur["next"].append(node("pass", traces[n][1], [node("fail", tests=[n])], [n]))
        alive = [n for n in alive if len(traces[n][0]) > depth]
        if not alive:
            break
        nxt = node("inc", base[depth], [], list(alive))
        cur["next"].append(nxt)
        cur = nxt
    return root, traces


# ------------------------------------------------------------------------------------------ rendering traces files

def csv_cell(r, text, force_quote=False, pad=True):
    """One CSV cell that denotes text, in a random rendering."""
    need = force_quote or any(c in text for c in ',"\n\r') or text == "" or text != text.lstrip() or text.startswith("#")
    if need or r.random() < 0.15:
        return '"' + text.replace('"', '""') + '"'
    return text


def render_event(r, ev, noise=True):
    ch, kind, val = ev
    k = "".join(c.upper() if r.random() < 0.3 else c for c in kind) if noise else kind

    def sp():
        return "".join(r.choice(" \t\u00a0\u3000") for _ in range(r.randint(1, 2))) if noise and r.random() < 0.15 else ""
    if isinstance(val, int) and noise and r.random() < 0.2:
        v = ("+" if val >= 0 and r.random() < 0.5 else "") + str(val) if r.random() < 0.5 else ("-" if val < 0 else "") + "0" * r.randint(1, 3) + str(abs(val))
    else:
        v = None if val is None else str(val)
    s = sp() + ch + sp() + "." + sp() + k + sp()
    if v is not None:
        s += "." + sp() + v + sp()
    return s


BLANKS = (" ", "\t", " \t", "\u00a0", "\u2003 ")


def render_traces(r, traces, noise=True):
    """A traces file that denotes exactly these traces."""
    eol = r.choice(("\n", "\n", "\r\n")) if noise else "\n"
    out = []
    for t in traces:
        if noise:
            while r.random() < 0.2:
                out.append(r.choice(("# a comment", "#", "#x: a.in.1, b.out.2", '# "', "#,,,")) + eol if r.random() < 0.7 else eol)
        cells = []
        evs = t["prefix"] + [t["forbid"]]
        for i, e in enumerate(evs):
            c = render_event(r, e, noise)
            if i == 0:
                if t["name"] or (noise and r.random() < 0.1) or ":" in c:
                    c = ((r.choice(BLANKS) if noise and r.random() < .2 else "") + t["name"] + (r.choice(BLANKS) if noise and r.random() < .25 else "") + ":"
                         + (" " if not noise or r.random() < 0.5 else r.choice(("",) + BLANKS)) + c)
                cells.append(csv_cell(r, c, pad=False))
                if cells[0].startswith("#"):
                    cells[0] = '"' + c.replace('"', '""') + '"'
            else:
                lead = r.choice(("", " ", "  ", "\t")) if noise else " "
                cells.append(lead + csv_cell(r, c))
        out.append(",".join(cells) + eol)
    s = "".join(out)
    if noise and s.endswith(eol) and r.random() < 0.2:
        s = s[:-len(eol)]
    return s
