"""C16: each test gets its own complete catkin package."""
import json
import os
import re
import shutil
import xml.etree.ElementTree as ET

import cfg
import common
import cppgen
import model
import pipe

DEFAULT = dict(name="${NAME}", version="0.1.0", description="Package for ${NAME}", license="Proprietary", email="email@example.com", maintainer="${NAME} Maintainers")

# Stand-ins that record what a CMakeLists.txt asks for; they stand in for CMake's own project commands in script mode.
RECORDER = """cmake_minimum_required(VERSION 3.10)
function(record)
  string(JOIN "\\t" line ${ARGN})
  file(APPEND "${OUT}" "${line}\\n")
endfunction()
macro(project)
  set(PROJECT_NAME "${ARGV0}")
  record(project ${ARGV})
endmacro()
macro(find_package)
  record(find_package ${ARGV})
  set(catkin_INCLUDE_DIRS /catkin/include)
  set(catkin_LIBRARIES catkin_lib)
endmacro()
foreach(c catkin_package add_compile_options include_directories add_library add_executable set_target_properties add_dependencies target_link_libraries
        add_definitions target_include_directories target_compile_options target_compile_features link_directories install)
  cmake_language(EVAL CODE "macro(${c})\\n record(${c} \\${ARGV})\\n endmacro()")
endforeach()
include("${IN}")
"""

PLACEHOLDERS = ("TODO", "-", "none", "None", "null", "${NAME}", "BSD", "GPLv3", "N/A", "0", "false", "Proprietary", "package", "a", "\u00e9")
KNOWN = ("rospy", "roslib", "tf2", "geometry_msgs", "nav_msgs", "sensor_msgs", "message_runtime", "catkin", "rtcg", "convert", "Boost", "roscpp_tutorials")

SIMPLE = re.compile(r"[A-Za-z0-9_.+-]+\Z")


def after(words, key, stops):
    """The words that follow key, up to the next keyword."""
    if key not in words:
        return None
    res = []
    for w in words[words.index(key) + 1:]:
        if w in stops:
            break
        res.append(w)
    return res


def rich(r, lo=0, hi=14):
    """Text for a field, with ${NAME} in odd places."""
    parts = []
    for _ in range(r.randint(lo, 4)):
        parts.append(r.choice((cfg.xml_text(r, 1, hi), "${NAME}", "${NAME}${NAME}", "$NAME", "${name}", "${NAME", "$${NAME}}", "{{.Name}}", "a  b", "l1\nl2", "\tx", "%s", "\\n", "${}")))
    return r.choice(("", " ", "-")).join(parts).strip()


def main():
    chk = common.Check("C16", "exploration",
                       "random catkin configurations (blank, default and hostile fields, ${NAME} anywhere) over suites of several tests: every package.xml parsed by an "
                       "independent XML parser and compared field by field, every CMakeLists.txt executed by CMake with recording stand-ins; each test generated again "
                       "alone and in another suite and compared byte for byte; non-trivial if a package was compared",
                       ["fields have no blanks at either end", "names and dependencies are single words where CMakeLists.txt is compared"])
    common.tools()
    d0 = common.newdir("r")
    rec = common.write(os.path.join(d0, "rec.cmake"), RECORDER)

    def recorded(path, d):
        out = os.path.join(d, "rec.txt")
        if os.path.exists(out):
            os.unlink(out)
        res = common.run(["cmake", "-DOUT=" + out, "-DIN=" + path, "-P", rec], cwd=d)
        if res.rc != 0 or not os.path.exists(out):
            return None, res
        with open(out, encoding="utf-8") as f:
            return [line.split("\t") for line in f.read().split("\n") if line], res

    def one(i):
        r = chk.rng("one", i)
        n = r.randint(1, 5) if r.random() < .85 else r.randint(6, 12)
        _, stms, suite = cppgen.gen_suite(r, ntests=n)
        for k, t in enumerate(sorted(suite["tests"])):
            x = r.random()
            new = None
            if x < .12:
                new = r.choice(("${NAME}", "x${NAME}y", "a&b", "<n>", "t'\"t", "\u4e2d", "sp ace", "a-b", "]]>"))
            elif x < .3 and k:  # names that contain each other
                new = sorted(suite["tests"])[0] + r.choice(("2", "x", "_"))
            if new and new not in suite["tests"]:
                suite["tests"][new] = suite["tests"].pop(t)
        x = r.random()
        plainly = r.random() < .5
        if x < .15:
            pkg = None
        elif x < .25:
            pkg = cfg.package()
        else:
            def field():
                k = r.random()
                return "" if k < .4 else r.choice(PLACEHOLDERS) if k < .5 else rich(r, 1)
            deps = [r.choice((model.ident(r), r.choice(KNOWN))) for _ in range(r.choice((0, 1, 2, 5)))] if plainly else [r.choice((cfg.xml_text(r, 1), "${NAME}", "x-${NAME}_msgs", r.choice(KNOWN))) for _ in range(r.choice((1, 2, 3)))]
            if deps and r.random() < .2:
                deps.append(r.choice(deps + ["roscpp", "std_msgs"]))
            name = r.choice(("", "${NAME}", "p-${NAME}", "${NAME}_tests", "fixed_name")) if plainly else field()
            pkg = cfg.package(name=name, version=r.choice(("", "1.2.3", "0.0.1", "2.0.0-rc1", "1.0", "3", "0.0.0", "0", "${NAME}.1")), description=field(), license=field(), email=r.choice(("", "a@b.c", "${NAME}@x.org", "<a&b>@c")), maintainer=field(),
                              buildtool=[r.choice(("catkin", model.ident(r))) for _ in range(r.choice((0, 1, 2)))], depends=deps)
            pkg["depends"] = [x for x in pkg["depends"] if x]
        v = r.choice(("ros", "ros", "animate"))
        cpps = [cfg.cpp(v, [], [], r.random() < .3, True, pkg)]
        if r.random() < .4:  # another variant, with a package of its own
            cpps.insert(r.randint(0, 1), cfg.cpp({"ros": "animate", "animate": "ros"}[v], [], [], False, True, cfg.any_package(r)))
        case = dict(tests=sorted(suite["tests"]), cpps=cpps)
        d = common.newdir("p")
        out = cppgen.gen_files(chk, d, suite, cpps, case, noise=r if r.random() < .6 else None)
        if out is None:
            return
        p = pkg or cfg.package()
        files = {}
        for t in sorted(suite["tests"]):
            base = os.path.join(out, v, "src", t)
            want = {k: (p[k] or DEFAULT[k]).replace("${NAME}", t) if k != "version" else p[k] or DEFAULT[k] for k in DEFAULT}
            try:
                raw = open(os.path.join(base, "package.xml"), "rb").read()
                cml = open(os.path.join(base, "CMakeLists.txt"), "rb").read()
            except OSError as e:
                chk.fail("%s: %s" % (t, e), case)
                continue
            files[t] = (raw, cml)
            try:
                root = ET.fromstring(raw)
            except ET.ParseError as e:
                chk.fail("%s: package.xml is not well-formed: %s" % (t, e), case, xml=raw.decode("utf-8", "replace"))
                continue
            chk.expect(root.tag == "package" and root.get("format") == "2", "%s: package.xml is a %s of format %s" % (t, root.tag, root.get("format")), case)
            got = {k: [e.text or "" for e in root.findall(k)] for k in ("name", "version", "description", "license", "maintainer", "buildtool_depend", "depend")}
            for k in ("name", "description", "license", "maintainer", "version"):
                chk.expect(got[k] == [want[k]], "%s: %s is %r, should be %r" % (t, k, got[k], want[k]), case, xml=raw.decode("utf-8", "replace"))
            mails = [e.get("email") for e in root.findall("maintainer")]
            chk.expect(mails == [want["email"]], "%s: maintainer's email is %r, should be %r" % (t, mails, want["email"]), case)
            chk.expect(got["buildtool_depend"] == p["buildtool"], "%s: build tool dependencies %r, configured %r" % (t, got["buildtool_depend"], p["buildtool"]), case)
            chk.expect(got["depend"] == p["depends"], "%s: dependencies %r, configured %r" % (t, got["depend"], p["depends"]), case)
            chk.count("packages_compared")
            for k in want:
                chk.note("field_forms", (k, p[k] == "", "${NAME}" in p[k]))
            if SIMPLE.match(want["name"]) and all(SIMPLE.match(x) for x in p["depends"]):
                calls, res = recorded(os.path.join(base, "CMakeLists.txt"), d)
                if not chk.expect(calls is not None, "%s: CMake rejects CMakeLists.txt" % t, case, text=cml.decode("utf-8", "replace"), **res.brief()):
                    continue
                proj = [c[1] for c in calls if c[0] == "project" and len(c) > 1]
                chk.expect(proj == [want["name"]], "%s: CMakeLists.txt names the project %r, package.xml %r" % (t, proj, want["name"]), case)
                deps = ["roscpp", "std_msgs"] + p["depends"]
                finds = [c for c in calls if c[0] == "find_package" and c[1:2] == ["catkin"]]
                comp = [after(c, "COMPONENTS", ("OPTIONAL_COMPONENTS",)) for c in finds]
                chk.expect(comp == [deps] and "REQUIRED" in finds[0], "%s: CMakeLists.txt finds catkin components %r, should be %r" % (t, comp, deps), case)
                cats = [after(c, "CATKIN_DEPENDS", ("INCLUDE_DIRS", "LIBRARIES", "DEPENDS", "CFG_EXTRAS")) for c in calls if c[0] == "catkin_package"]
                chk.expect(cats == [deps], "%s: CMakeLists.txt has catkin depends %r, should be %r" % (t, cats, deps), case)
                chk.count("cmakelists_executed")
        # alone, and in another company
        for t in r.sample(sorted(files), min(len(files), 2)):
            others = [x for x in suite["tests"] if x != t and r.random() < .5]
            for keep in ([t], others + [t]):
                sub = os.path.join(d, "again")
                shutil.rmtree(sub, ignore_errors=True)
                os.mkdir(sub)
                common.own(sub)
                part = dict(suite, tests={x: suite["tests"][x] for x in keep})
                o2 = cppgen.gen_files(chk, sub, part, cpps, case)
                if o2 is None:
                    return
                b2 = os.path.join(o2, v, "src", t)
                again = tuple(open(os.path.join(b2, f), "rb").read() for f in ("package.xml", "CMakeLists.txt"))
                chk.expect(again == files[t], "%s: its package differs when the suite is %r" % (t, keep), case, first=files[t][again[0] == files[t][0]].decode("utf-8", "replace"),
                           again=again[again[0] == files[t][0]].decode("utf-8", "replace"))
                chk.count("packages_regenerated")
        chk.saw(repr(case), bool(files), sample=dict(tests=case["tests"], package=pkg))
        shutil.rmtree(d, ignore_errors=True)

    common.pmap(one, range(chk.scale(1000, 4000)))
    return chk.finish(150)
