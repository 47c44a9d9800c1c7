#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Reading a trace file loses and invents nothing",
 """For every traces file, rtcg-read-traces either fails (non-zero exit, nothing on stdout) because some record is
 ill-formed, or emits exactly one test per record, whose events are exactly the record's cells in order: same channel,
 same direction (in, out or call, in any letter case), same value (none, a 64-bit decimal integer, or otherwise the
 trimmed text verbatim, dots included), the last cell being the forbidden event. Comment lines, blank lines, blanks
 around cells, quoting and line-ending style never change the result.""",
 ["inputs"], "All traces files in UTF-8: any number of records of any length, any channel names and values, any CSV rendering of them, and files with one ill-formed cell anywhere.",
 "The tests read one small fixed file; the claim is over all files, where quoting, trimming, dots in values, integer limits and malformed cells combine.",
 ["internal/trace/read.go", "internal/testlang/event.go", "internal/testlang/channel/channel.go", "internal/testlang/value/value.go", "cmd/rtcg-read-traces/main.go"],
 [("Read / parseRow", "internal/trace/read.go"), ("Event.UnmarshalText", "internal/testlang/event.go"), ("Channel.UnmarshalTextWithRemainder", "internal/testlang/channel/channel.go"), ("Value.UnmarshalText", "internal/testlang/value/value.go")],
 ["stdout and exit status of rtcg-read-traces"])

prop("C02", "Naming traces is unique, lossless and repeatable",
 """Naming a list of traces yields exactly as many tests as there were traces, under distinct non-empty names, whatever
 names the traces already carry. A trace that has a name keeps it if no earlier trace took it and it is not the bare
 word 'test'; otherwise it gets the first free name of its base followed by 0, 1, 2, and so on, unnamed traces using the base
 'test', in file order. The same file always gives the same assignment.""",
 ["inputs", "histories"], "All lists of traces with any mixture of absent, repeated and mutually colliding names (for instance an explicit 'test0' or 'foo0' before or after the trace that would be given that name).",
 "Tests name a few traces; collisions between explicit and synthesised names need particular sequences.",
 ["internal/trace/trace.go", "internal/trace/read.go"], [("Name / insertName / synthesiseName", "internal/trace/trace.go"), ("tryParseName", "internal/trace/read.go")],
 ["keys of the suite written by rtcg-read-traces"])

prop("C03", "Expansion builds the test tree of the forbidden trace",
 """Every test that rtcg-read-traces emits is one root without outcome or event, then one inconclusive node per prefix
 event in order, then one passing node carrying the forbidden event, then one failing leaf, with no other nodes. Every node of a test is tagged with exactly
 that test's name, and the suite is accepted by the next stage unless a channel's values disagree in type (for traces of up to 4000 events, since JSON nesting is bounded).""",
 ["inputs"], "All forbidden traces, of any prefix length including zero and with repeated events, and all suites of them.",
 "Tests expand three hand-written traces.",
 ["internal/trace/expand.go", "internal/testlang/node.go"], [("Forbidden.Expand / ExpandAll", "internal/trace/expand.go"), ("TestPoint, Inc, Root, Mark", "internal/testlang/node.go")],
 ["suite JSON written by rtcg-read-traces", "exit status of rtcg-make-stms on it"])

prop("C04", "Collapsing inverts expansion and refuses anything else",
 """Collapsing the expansion of any forbidden trace gives back the same prefix and the same forbidden event. Collapsing a tree that
 branches, that has an ill-formed root or node, or that ends without reaching a failing leaf returns an error rather than a trace, and never
 panics or loops.""",
 ["inputs"], "All forbidden traces, and all finite test trees (linear, branching, with any node field wrong).",
 "Tests collapse only the expansions of three traces and no ill-formed tree.",
 ["internal/trace/collapse.go", "internal/validate/validate.go"], [("Collapse / CollapseAll / collapseNode", "internal/trace/collapse.go"), ("OneNext, Root, Node", "internal/validate")],
 ["return values of trace.Collapse and trace.CollapseAll"])

prop("C05", "Text encodings of events, values and types round-trip",
 """For every channel, direction, outcome, type, and every event or present value made of trimmed texts (channel names non-empty and without dots, enumerations that don't spell a
 64-bit integer), writing it as text and reading the text back gives an equal object; reading any text, writing the result and reading it again gives the same object as reading it once.
 A text that denotes no such object is refused with an error, never silently turned into another object, and reading never panics.""",
 ["inputs"], "All events, channels, kinds, outcomes, types and values that the tools can produce (channel names without dots or outer blanks; any UTF-8 value), and arbitrary byte strings as texts.",
 "Tests list about twenty strings; the law quantifies over all names, values, integer limits and letter cases, and over arbitrary texts for rejection.",
 ["internal/testlang/event.go", "internal/testlang/channel", "internal/testlang/value", "internal/testlang/rstype", "internal/testlang/outcome_enum.go"],
 [("MarshalText/UnmarshalText pairs", "internal/testlang/**"), ("EventSepJoin, UnmarshalTextWithRemainder", "internal/testlang/channel/channel.go")],
 ["MarshalText/UnmarshalText results through the packages' API"])

prop("C06", "Stage files carry whole suites between tools",
 """Any test suite or state machine suite that one stage can build (from traces of up to 4000 events) is written as JSON that the next stage reads back as an equal suite: same tests, nodes,
 identifiers, tags, outcomes, events, states, transitions, values (including absent ones), verdicts and types. Writing what was read
 reproduces the file byte for byte. What a stage makes of a
file depends only on the JSON value in it, not on the order of keys, white space or escapes.""",
 ["inputs"], "All suites reachable from traces files and from hand-written or factorised (branching, multi-test, explicitly identified) test trees, including events without values and hostile characters in names and values.",
 "Tests round-trip a verdict and a few values in isolation, never a suite; valueless events were broken there.",
 ["internal/serial/serial.go", "internal/testlang/testlang.go", "internal/stm/suite.go", "internal/stm/verdict/verdict.go", "internal/stm/transition/transition.go", "internal/structure/set.go"],
 [("Suite.Write / ReadSuite", "internal/testlang/testlang.go, internal/stm/suite.go"), ("MarshalJSON/UnmarshalJSON of Verdict, Set, Transition", "internal/stm, internal/structure")],
 ["files written and re-read through testlang.ReadSuite/Write and stm.ReadSuite/Write"])

prop("C07", "Only well-formed test suites become state machines",
 """rtcg-make-stms accepts a test suite exactly when in every test the root has tags and neither outcome nor event, every other node has tags and an outcome,
 failing nodes have neither event nor successors, passing nodes have an event and exactly one successor, inconclusive nodes have an event and at least one
 successor, no two nodes of a test share an identifier and each channel's values agree in type. Otherwise it exits non-zero, says why on stderr and writes nothing to stdout.""",
 ["inputs"], "All finite suites of test trees, with any single or multiple field defects at any depth and any position.",
 "Tests validate two trees; a missed rule shows only on a specific defect at a specific place.",
 ["internal/validate", "internal/testlang/walk.go", "internal/stm/builder.go", "cmd/rtcg-make-stms/main.go"],
 [("FullSuite, Full, Root, Node, passNode, failNode, nonFailNode", "internal/validate"), ("Walk", "internal/testlang/walk.go"), ("collectNodeIDs", "internal/stm/builder.go")],
 ["exit status, stdout, stderr of rtcg-make-stms"])

prop("C08", "State machines have exactly the behaviour of their trees",
 """The state machine built for a test has one state per non-failing node, with distinct identifiers, 'initial' first, keeping any identifier given in the test. Starting at
 'initial' and following transitions visits exactly the test tree: each state offers, for exactly the events of its node's non-failing successors, a transition on that channel, direction and value
 to the state of that successor, and nothing else.""",
 ["inputs", "programs"], "All well-formed test trees: linear, factorised and branching to any width and depth, several channels and directions at one node, with or without explicit identifiers, and suites of many tests.",
 "Tests build one- and two-event machines; wrong targets, merged or dropped transitions need branching trees.",
 ["internal/stm/builder.go", "internal/stm/state.go", "internal/stm/transition/set.go", "internal/structure/stack.go"],
 [("Builder.Build, pushNext, ensureNodeID", "internal/stm/builder.go"), ("State.AddOutgoingNode", "internal/stm/state.go"), ("AddToSets", "internal/stm/transition/set.go")],
 ["STM JSON written by rtcg-make-stms"], state=[dict(name="Builder.stack, nodeNum, usedIDs", meaning="traversal frontier and identifier supply", where="internal/stm/builder.go")])

prop("C09", "Verdicts record each test's status at each state",
 """Every state's verdict maps a test to an outcome exactly when a successor of that node is tagged with the test, and to that successor's outcome; a state of a single-test chain is therefore
 inconclusive before the passing node, passed just before the forbidden event, and failed after it. A state machine's test list is exactly the set of tags on its non-root nodes.""",
 ["inputs", "programs"], "All well-formed trees, including nodes tagged with several tests and branches with different tests and outcomes.",
 "Tests check verdicts on a two-state machine with one test.",
 ["internal/stm/state.go", "internal/stm/builder.go", "internal/stm/verdict/verdict.go"],
 [("State.addVerdictsFromNode", "internal/stm/state.go"), ("Builder.buildState", "internal/stm/builder.go"), ("Verdict.Add", "internal/stm/verdict/verdict.go")],
 ["verdicts and tests fields of the STM JSON"])

prop("C10", "Channel types are the least common type, in any order",
 """For each test, and for the suite as a whole, each channel used gets one type: no value, enumeration, or the smallest of nat, int and real that covers all its values.
 If one channel carries values of different kinds anywhere in the suite, rtcg-make-stms fails naming the channel. Neither result depends on the order of events, tests or
 repeated runs, and combining types is associative, commutative and idempotent.""",
 ["inputs", "histories"], "All suites over shared channels, all orders of the same events, and all triples of types including the absent one.",
 "Tests unify a fixed table of pairs and never infer types over suites, whose map order is random.",
 ["internal/testlang/rstype/unify.go", "internal/testlang/rstype/arithmos.go", "internal/stm/builder.go", "internal/testlang/value/int.go"],
 [("Unify, MaxDomain", "internal/testlang/rstype"), ("inferEventType, unifyTypes", "internal/stm/builder.go"), ("Type", "internal/testlang/value")],
 ["types fields of the STM JSON and stderr of rtcg-make-stms", "rstype.Unify results"])

prop("C11", "Factorisation partitions the failures after a trace",
 """The failures after a trace are exactly the named tests whose prefix equals that trace, each once, with that test's forbidden event. The spine nodes for a trace contain each of those failures in
 exactly one node, as a pass-then-fail point tagged with its test; each input failure sits alone in its own spine node, all others share one final spine node, and every spine node is
 inconclusive on the trace's last event.""",
 ["inputs"], "All finite maps of named forbidden traces and all traces, including the empty one, proper prefixes and extensions.",
 "The package has no tests.",
 ["internal/factorise/factorise.go", "internal/trace/trace.go"], [("SpineNodes, Failures", "internal/factorise/factorise.go"), ("Trace.Equals, IsPrefixOf", "internal/trace/trace.go")],
 ["return values of factorise.Failures and factorise.SpineNodes"])

prop("C12", "Generation writes a complete, buildable, confined tree",
 """For every suite and configuration, a successful rtcg-gen run writes for each configured variant the shared support files, the conversion header, one main.cpp per test and, when asked for, one Makefile or one
 package.xml and CMakeLists.txt per test; the Makefile builds one program per test and each CMakeLists.txt configures and builds. It creates or changes no path outside the output directory, and test names that could
 not be directories of their own inside it are refused.""",
 ["inputs", "configurations"], "All suites from traces whose names are C++ identifiers (any mix of directions, types, valueless events, none at all), all subsets of variants and build files, and any output path; hostile test names for confinement.",
 "Tests check a list of directories for two cases and never generate or compile anything.",
 ["internal/gen/gen.go", "internal/gen/cpp", "internal/gen/makefile", "internal/gen/catkin", "internal/gen/templating", "cmd/rtcg-gen/main.go"],
 [("Generator/OnSuite.Generate, mkdirs, checkNames", "internal/gen/gen.go"), ("copyPrelude, generateCommon, generateTestSpecific", "internal/gen/cpp"), ("Makefile and CMake templates", "internal/gen/*/embed/templates")],
 ["file tree after rtcg-gen, compared with the tree before", "exit status of make, cmake and the compiler"])

prop("C13", "Animated tests give the verdict of the played trace",
 """A generated animate program, fed any sequence of commands, follows the test's state machine: it advances only on an accepted input in a state that sends one or on an output whose channel and value match a transition of
 the current state, reports each test's outcome as recorded for the states entered, and ends failed (exit 1) exactly on reaching a failing state, off-script or timed out (exit 0) on any other output or a timeout.
 Each prompt offers exactly the commands that it would take, and each input sent is shown with its value. It is free of memory errors and undefined behaviour, and terminates when its input ends.""",
 ["programs", "inputs", "histories"], "All generated tests over channel types nat, int, enumeration and none, and all command sequences, including wrong values, unknown words, unparsable numbers, commands out of turn and end of input.",
 "No test runs or even compiles generated code.",
 ["internal/gen/cpp/embed/templates/base", "internal/gen/cpp/embed/templates/animate", "internal/gen/cpp/embed/prelude", "internal/gen/cpp/func.go", "internal/gen/gencommon/context.go"],
 [("state entry, callbacks, end()", "base/stm.cpp.tmpl, state_entry.cpp.tmpl, out_callback.cpp.tmpl, in_callback.cpp.tmpl"), ("driver loop", "animate/main_body.cpp.tmpl"), ("status and exit codes", "prelude/rtcg.cpp"), ("Value, StringLiteral", "func.go")],
 ["stderr log, final verdicts and exit status of the compiled program under AddressSanitizer and UBSan"])

prop("C14", "ROS tests exchange the right messages and verdicts",
 """A generated ROS node advertises each input channel, subscribes to each output or call channel and to input acknowledgements when it has inputs, under the channel name in lower_underscored form and with a message type fit for
 the channel's type. Under any sequence of acknowledgements, messages and timer firings it publishes each input exactly once on entering the state that sends it, and follows the same state machine, verdicts and exit status
 as C13; a test that starts with an input publishes nothing before its initial delay.""",
 ["programs", "histories", "schedules"], "All generated ROS tests over channel types nat, int, enumeration and none, and all sequences of callbacks in any order, including repeated timers, unexpected messages and acknowledgements, and messages after the end.",
 "No test compiles ROS code.",
 ["internal/gen/cpp/embed/templates/ros", "internal/gen/cpp/embed/templates/base", "internal/strmanip/strmanip.go"],
 [("pre_init, init, input, stm_ctor, stm_end", "ros/main.cpp.tmpl"), ("convert.h", "ros/convert/convert.h.tmpl"), ("ToLowerUnderscored", "internal/strmanip/strmanip.go")],
 ["event log of a stand-in roscpp (advertise, subscribe, publish, timers, shutdown), stderr log and exit status under sanitizers"])

prop("C15", "Channel overrides and includes reach the generated code",
 """When a variant overrides the type of a channel that the suite uses, every value of that channel sent or received by generated code passes through the user's conversion functions for that variant exactly once, with the overriding type, and the user's convert.cpp is copied
 unchanged into the output and linked by the generated build files; other channels keep their default types. Each configured include appears, in its configured form and order, and overrides of one variant or of unused channels affect nothing else.""",
 ["configurations", "programs", "inputs"], "All combinations of overridden and default channels, variants, include lists and suites.",
 "Tests only compute directory lists with and without an override.",
 ["internal/gen/config/cpp/context.go", "internal/gen/config/cpp/cpp.go", "internal/gen/cpp/copy.go", "internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl", "internal/gen/cpp/embed/templates/base/includes.cpp.tmpl"],
 [("Config.Process, ChannelMap", "internal/gen/config/cpp"), ("copyConvertFile, copyLocalFile", "internal/gen/cpp"), ("convert_base.h.tmpl", "internal/gen/cpp/embed/templates/base/convert")],
 ["calls logged by an instrumented convert.cpp linked into the generated program", "preprocessed includes and copied files"])

prop("C16", "Each test gets its own complete catkin package",
 """With catkin configured, every test's package.xml is well-formed XML whose name, description, maintainer and licence are the configured ones with every ${NAME} replaced by that test's own name, whose blank fields
 hold the documented defaults, and whose dependencies are the configured ones in order; CMakeLists.txt names the same project and depends on roscpp, std_msgs and the same dependencies. No test's package depends on which other tests are in the suite or on their order.""",
 ["configurations", "inputs"], "All package configurations (any subset of fields, any text in them, ${NAME} any number of times) and all suites.",
 "Tests autofill and expand one empty package; leaking of one test's expansion into another needs a suite.",
 ["internal/gen/catkin", "internal/gen/config/catkin/package.go"],
 [("Autofill, Expand, Write", "internal/gen/config/catkin/package.go"), ("OnSuite.generateTest", "internal/gen/catkin/catkin.go"), ("CMakeLists.txt.tmpl", "internal/gen/catkin/embed/templates")],
 ["generated package.xml (parsed) and CMakeLists.txt (configured against a stand-in catkin)"])

prop("C17", "Cleaning removes the output directory and nothing else",
 """With -clean, after a successful run the output directory holds only what that run generated; without it, files that the run does not generate survive unchanged. In no case is anything outside the output directory removed or changed, a run whose
 state machine input cannot be read removes nothing, and cleaning a directory that is or contains the current directory is refused with nothing removed.""",
 ["inputs", "configurations", "histories"], "All prior contents of the output directory (files, directories, symbolic links pointing anywhere) and all ways of naming it: relative, absolute, with dot segments, through links, equal to or above the current directory.",
 "No test runs rtcg-gen; losing user files depends on how the directory is spelled and on what links it holds.",
 ["cmd/rtcg-gen/main.go"], [("maybeClean, holdsWorkingDir, ErrCleanDot", "cmd/rtcg-gen/main.go")],
 ["file tree inside and around the output directory before and after"])

prop("C18", "The same inputs always generate the same files",
 """Running any stage again on the same input gives byte-identical output, apart from the generation date in main.cpp. What rtcg-gen writes for one variant does not depend on the other variants configured, and what it writes for one test does not depend
 on the other tests of the suite as long as the suite's channel types are the same.""",
 ["inputs", "schedules", "configurations"], "All inputs and repeated runs (each with a fresh random map order), all subsets of variants and tests.",
 "Tests run each function once; map iteration order varies per run.",
 ["internal/structure/set.go", "internal/gen/gen.go", "internal/gen/cpp/cpp.go", "internal/stm/builder.go", "internal/serial/serial.go"],
 [("Set.Values ordering", "internal/structure/set.go"), ("template ranges over maps", "internal/gen/cpp/embed/templates"), ("per-variant DirSet", "internal/gen/gen.go")],
 ["bytes of stdout and of every generated file over repeated runs"])

prop("C19", "A failed read or write is never reported as success",
 """If an input cannot be opened or read, a directory cannot be made, or any byte of the output (stdout or any generated file) cannot be written, the tool exits non-zero and explains on stderr. Exit 0 therefore means
 that everything the run should write was written in full.""",
 ["fault_sequences"], "Every output file of a run made unwritable in turn (full device, directory in its place, missing permission to create), every input made missing, unreadable or truncated, and stdout full or closed.",
 "No test injects an input/output fault.",
 ["internal/gen/templating/util.go", "internal/gen/cpp/copy.go", "internal/gen/catkin/catkin.go", "internal/serial/serial.go", "internal/cli/cli.go", "cmd"],
 [("errors.Join(err, file.Close())", "internal/gen/**"), ("CreateFile, writeFile, generatePackageXML", "internal/gen"), ("HandleError", "internal/cli/cli.go")],
 ["exit status and stderr under injected faults"])

prop("C20", "Hostile input never crashes or hangs a tool",
 """Whatever bytes they are given as traces, tests, state machines or configuration, rtcg-read-traces, rtcg-make-stms and rtcg-gen end by themselves with exit status 0 or 1: they never panic, deadlock, race or run on without bound. Whenever they exit 1 they print
 a message on stderr, and the two filters print nothing on stdout.""",
 ["inputs"], "All byte strings and all structurally mutated valid files, including nulls, wrong types, missing and repeated fields, deep nesting and very long lines.",
 "Tests feed no malformed file to any tool.",
 ["cmd", "internal/cli/cli.go", "internal/trace/read.go", "internal/testlang/testlang.go", "internal/stm/suite.go", "internal/gen/config/config.go"],
 [("error returns and HandleError", "internal/cli/cli.go"), ("null checks", "internal/validate/node.go, internal/stm/suite.go")],
 ["exit status, stderr and stdout of race-instrumented tools"])

prop("C21", "Independent uses of the libraries can run in parallel",
 """Reading, naming, expanding, collapsing, validating, building and generating different suites on different goroutines at the same time is free of data races and gives each caller exactly the result of running alone. Read-only operations (writing, unifying, querying, collapsing, factorising)
 may share the same trace, tree, type or state machine.""",
 ["schedules", "histories"], "All interleavings of independent pipelines and of read-only operations on shared objects.",
 "Parallel subtests do not share data and run without the race detector; a race needs overlapping calls.",
 ["internal/trace", "internal/validate", "internal/stm", "internal/gen", "internal/structure", "internal/testlang"],
 [("no package-level mutable state; copies in Builder and Context", "internal/**"), ("Package copied before Expand", "internal/gen/catkin/catkin.go")],
 ["race detector reports, and results compared with sequential ones"])

prop("C22", "Sets, stacks, walks and trace comparison obey their laws",
 """A set holds exactly the members added, once each, and lists them in a fixed order; a stack returns items last-in first-out across any pushes, pops and clears; walking a tree visits every node once in pre-order, left to right, and stops at the first error.
 Trace prefix is a partial order whose equality agrees with equal event sequences, and verdict queries return exactly the tests with the asked outcome.""",
 ["inputs", "histories"], "All operation sequences on sets and stacks, all finite trees and error positions, all pairs and triples of traces, all verdicts.",
 "Tests cover trace comparison and one verdict on a fixed table; sets, stacks and walks have none.",
 ["internal/structure", "internal/testlang/walk.go", "internal/trace/trace.go", "internal/stm/verdict/verdict.go"],
 [("Set, Stack, OverMap", "internal/structure"), ("Walk, MarkAll", "internal/testlang/walk.go"), ("IsPrefixOf, Equals", "internal/trace/trace.go"), ("Is, SetOf, Tests", "internal/stm/verdict/verdict.go")],
 ["results of the packages' API over random operation histories, compared with reference models"])

prop("C23", "Generated names are valid, distinct and predictable",
 """Converting a channel or state name for C++ changes only the first letter's case, and to topic form only lower-cases it and separates words, at each step from a lower-case to an upper-case letter, with one underscore; converting a topic name again changes nothing.
 Distinct names that differ in more than case and underscores stay distinct, and a string literal made for any value text denotes exactly that text to a C++ compiler.""",
 ["inputs"], "All names (identifiers, Unicode and punctuation included); all UTF-8 strings without NUL for literals.",
 "Tests convert five words and no literal.",
 ["internal/strmanip/strmanip.go", "internal/gen/cpp/func.go"],
 [("UpcaseFirst, ToLowerUnderscored", "internal/strmanip/strmanip.go"), ("Value, StdType, StateEntry, callbacks", "internal/gen/cpp/func.go")],
 ["function results, and literals compiled and printed by a C++ program"])

prop("C24", "The tools compose the same way by file, pipe or script",
 """Giving an input as a named file, as '-' or by omitting it and using stdin has the same effect for every tool, and rtcg.sh on a configuration and traces generates exactly what running the three tools in turn does, failing if any of them fails; an input that cannot be opened is an error, and stdin is not read instead. A wrong number of arguments, or an unknown or malformed option of rtcg-gen,
 exits non-zero with a usage message on stderr, without reading stdin or writing anything; -output chooses where files go, defaulting to 'out'.""",
 ["inputs", "configurations"], "All tools, all ways of giving inputs and options in any order, all numbers of arguments, valid and failing inputs.",
 "Tests cover no command.",
 ["cmd", "internal/cli/cli.go", "rtcg.sh"], [("ParseFileArgument, OpenFileOrStdin, HandleError, Usage", "internal/cli/cli.go"), ("main of rtcg.sh", "rtcg.sh")],
 ["exit status, stdout, stderr and generated trees of the tools and rtcg.sh"])

prop("C25", "Configuration files mean what they say",
 """Loading a configuration yields exactly the variants, includes, channel overrides, build files and package fields it lists, in order, with channel overrides, includes and build files belonging to their own variant only, and resolves auxiliary files relative to the directory in the configuration file's path (links not followed) unless it sets a directory, whatever
 the current directory. A file whose root element is not well-formed XML, is not rtcg-gen or names an unknown variant is refused and nothing is generated.""",
 ["configurations", "inputs"], "All configurations over the documented elements and attributes in any order, any file location and current directory, and ill-formed variations.",
 "Tests load one file.",
 ["internal/gen/config"], [("Load", "internal/gen/config/config.go"), ("Config, Include, Channel, Variant", "internal/gen/config/cpp"), ("Package", "internal/gen/config/catkin")],
 ["config.Load results, and files rtcg-gen writes or refuses to write"])

prop("C26", "A test fails exactly when its forbidden trace happens",
 """For every trace in a traces file, the test that rtcg.sh generates for it, in each variant, ends with a failure exactly when the system does the trace's events, in order and with nothing else on the test's channels; it reports 'passed' when only the last event is missing and 'inconclusive' when
 more are, whether the run then ends, times out or leaves the script. It sends the trace's inputs, with their values, each in its turn and no others, and what other traces the file holds makes no difference.""",
 ["inputs", "histories"], "All traces files with well-formed channel and test names, both variants, and all histories of acknowledgements, outputs and time-outs; the repository's example with its own conversions.",
 "Tests look at single stages with a few traces; none generates code from a traces file, let alone runs it.",
 ["internal/trace", "internal/testlang", "internal/stm", "internal/gen", "internal/gen/cpp/embed", "rtcg.sh", "cmd"],
 [("forbidden trace to test", "internal/trace/expand.go"), ("Build", "internal/stm"), ("the test class", "internal/gen/cpp/embed"), ("main of rtcg.sh", "rtcg.sh")],
 ["exit status, final outcome and published messages of the compiled tests, compared with the trace's text"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
