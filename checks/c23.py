"""C23: generated names are valid, distinct and predictable."""
import base64
import json
import os

import common


def literals(chk, n, compilers):
    """Has C++ compilers read the literals that were made for random texts."""
    exe = common.harness("names", shared=("gogen.go",))
    res = common.run([exe, str(common.SEED + 77), str(n), "literals"])
    lits = []
    for line in res.out.split(b"\n"):
        if not line.startswith(b"{"):
            continue
        d = json.loads(line)
        if d["t"] == "fail":
            chk.fail(d["what"], d.get("case"))
        if d["t"] == "lit":
            lits.append((base64.b64decode(d["text"]), base64.b64decode(d["lit"])))
    d = common.newdir("lit")
    src = [b"#include <string>\n#include <cstdio>\n#include <cstring>\nstruct C { std::string s; unsigned n; const unsigned char b[200]; };\n"
           b"static const C cases[] = {\n"]
    for text, lit in lits:
        src.append(b"{ " + lit + b", %du, { " % len(text) + b", ".join(b"%d" % c for c in text) + (b", 0" if text else b"0") + b" } },\n")
    src.append(b"};\nint main() { unsigned i = 0; for (const C &c : cases) { if (c.s.size() != c.n || std::memcmp(c.s.data(), c.b, c.n)) "
               b"std::printf(\"BAD %u\\n\", i); i++; } std::printf(\"DONE %u\\n\", i); }\n")
    cpp = common.write(os.path.join(d, "lits.cpp"), b"".join(src))
    for cc in compilers:
        out = os.path.join(d, "lits-" + "".join(c for c in " ".join(cc) if c.isalnum()))
        c = common.run(cc + ["-o", out, cpp], cwd=d)
        if c.rc != 0:
            # Find one that does not compile by itself.
            import re
            m = re.search(r"lits\.cpp:(\d+):", c.errtext)
            k = int(m.group(1)) - 6 if m else 0
            bad = lits[max(0, min(k, len(lits) - 1))]
            chk.fail("a string literal does not compile with %s" % " ".join(cc), dict(text=repr(bad[0]), literal=repr(bad[1])), stderr=c.errtext[:2000])
            continue
        r = common.run([out], cwd=d)
        if ("DONE %d" % len(lits)) not in r.text:
            chk.fail("literals did not compile to what they should", None, **r.brief())
        for line in r.text.split("\n"):
            if line.startswith("BAD"):
                t, l = lits[int(line.split()[1])]
                chk.fail("literal %r does not denote %r to %s" % (l, t, " ".join(cc)), dict(text=repr(t), literal=repr(l)))
        chk.count("literals_read_by_compilers", len(lits))
    for t, l in lits:
        chk.saw("lit" + repr(t), sample=dict(text=repr(t), literal=repr(l)) if len(t) > 3 else None)


def main():
    chk = common.Check("C23", "exploration",
                       "random pairs of names (mixed case, underscores, non-ASCII letters, near misses) converted to each form and compared with the documented "
                       "form and with each other; random hostile texts turned into literals that C++ compilers read back; non-trivial if the conversion changes the name",
                       ["texts are valid UTF-8 without NUL"])
    common.run_harness(chk, "names", chk.scale(150000, 300000), chk.scale(4, 16), shared=("gogen.go",))
    comp = [["g++", "-std=c++11", "-O0"], ["clang++", "-std=c++17", "-O0"]]
    if chk.thorough:
        comp += [["g++", "-std=c++17", "-trigraphs"], ["clang++", "-std=c++11", "-O0"], ["g++", "-std=gnu++20", "-O0"]]
    literals(chk, chk.scale(1500, 6000), comp)
    return chk.finish(1000)
