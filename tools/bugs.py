"""The planted bugs (see seed.py)."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks, files=None):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {}))


bug("c01-lazy-quotes", "C01",
    [("internal/trace/read.go", "	cr.TrimLeadingSpace = true\n", "	cr.TrimLeadingSpace = true\n	cr.LazyQuotes = true // people tend to write string values with quotes\n")],
    r'''
printf 't: a.in.1, "b.out.say "hi, c.out.2\n' > "$d/in"
if "$rt" "$d/in" > "$d/out" 2>/dev/null; then fail "a record with a stray quote was accepted: $(cat "$d/out")"; fi
''',
    "a record with a quote inside a quoted cell", "ill-formed CSV records are read as something else instead of being refused")

bug("c01-last-colon", "C01",
    [("internal/trace/read.go", '''	if name, rest, ok := strings.Cut(cell, ":"); ok {
		trace.Name = strings.TrimSpace(name)
		cell = strings.TrimSpace(rest)
	}
''', '''	if i := strings.LastIndex(cell, ":"); 0 <= i {
		trace.Name = strings.TrimSpace(cell[:i])
		cell = strings.TrimSpace(cell[i+1:])
	}
''')],
    r'''
printf 't: a.out.x:y.out.z, b.out.2\n' > "$d/in"
"$rt" "$d/in" > "$d/out"
grep -q '"t": {' "$d/out" || fail "the name went wrong"
grep -q 'x:y.out.z' "$d/out" || fail "the first event lost its value"
''',
    "a named record whose first event's value contains a colon and still looks like an event", "the name swallows part of the first event")

bug("c02-counters", "C02",
    [("internal/trace/trace.go", '''	result := make(map[string]Forbidden, len(traces))

	for _, trace := range traces {
''', '''	result := make(map[string]Forbidden, len(traces))
	attempts := make(map[string]int, len(traces))

	for _, trace := range traces {
'''),
     ("internal/trace/trace.go", '''		insertName(result, base, trace)
	}

	return result
}

func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	for i := 0; ; i++ {
		name := synthesiseName(base, i)

		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
	}
}
''', '''		// Remembering the last attempt for each base avoids going through them all again.
		result[synthesiseName(base, attempts[base])] = trace
		attempts[base]++
	}

	return result
}
''')],
    r'''
printf 'foo0: a.out.1\nfoo: a.out.2\nfoo: a.out.3\n' > "$d/in"
"$rt" "$d/in" > "$d/out"
for v in 1 2 3; do grep -q "a.out.$v\"" "$d/out" || fail "trace $v is lost"; done
''',
    "a trace whose given name equals one synthesised for another's duplicate", "one of the traces is overwritten and lost")

bug("c03-stutter", "C03",
    [("internal/trace/expand.go", '''	for i := len(t.Prefix) - 1; 0 <= i; i-- {
''', '''	for i := len(t.Prefix) - 1; 0 <= i; i-- {
		if 0 < i && t.Prefix[i].Value.IsEmpty() && t.Prefix[i].Equals(t.Prefix[i-1]) {
			continue // no need to wait for the same signal twice in a row
		}

''')],
    r'''
printf 't: tick.out, tick.out, b.out.2\n' > "$d/in"
"$rt" "$d/in" > "$d/out"
[ "$(grep -c 'tick.out' "$d/out")" = 2 ] || fail "the repeated event is gone"
''',
    "a prefix with the same valueless event twice in a row", "the expanded test is shorter than its trace")

bug("c04-unchecked-fail", "C04",
    [("internal/trace/collapse.go", '''		if err := validate.Node(test); err != nil {
			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
		}

		if done, err = collapseNode(&collapsed, test, pos); err != nil {
			return collapsed, err
		}
''', '''		// Failing nodes are sentinels with nothing in them that we would need.
		if test.Outcome == testlang.OutcomeFail {
			break
		}

		if err := validate.Node(test); err != nil {
			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
		}

		if done, err = collapseNode(&collapsed, test, pos); err != nil {
			return collapsed, err
		}
''')],
    "gorun main.go || fail 'an ill-formed tree was collapsed'",
    "a tree whose failing leaf has an event or successors", "trees that are no expansion are collapsed into a trace instead of being refused",
    files={"main.go": '''
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	t := trace.New(testlang.Output("a", value.Int(1))).Forbid(testlang.Output("b", value.Int(2)))
	n := t.Expand("t")
	f := &n.Next[0].Next[0].Next[0]
	more := testlang.Pass(testlang.Output("c", value.None()), testlang.Fail())
	testlang.MarkAll(&more, "t")
	f.Next = append(f.Next, more)
	if _, err := trace.Collapse(n); err == nil {
		os.Exit(1)
	}
}
'''})

bug("c05-base-prefixes", "C05",
    [("internal/testlang/value/int.go", "strconv.ParseInt(string(text), intValueBase, 64)", "strconv.ParseInt(string(text), 0, 64)")],
    r'''
printf 't: a.out.0x1F, b.out.010\n' > "$d/in"
"$rt" "$d/in" > "$d/out"
grep -q 'a.out.0x1F' "$d/out" || fail "0x1F is no longer the word it was"
grep -q 'b.out.10"' "$d/out" || fail "010 is not ten"
''',
    "a value with a leading zero or a base prefix", "words such as 0x1F turn into numbers, and 010 into eight")

bug("c06-limit", "C06",
    [("internal/serial/serial.go", "	j := json.NewDecoder(reader)\n", "	j := json.NewDecoder(io.LimitReader(reader, maxDocument))\n"),
     ("internal/serial/serial.go", "// ReadJSON reads", "// maxDocument bounds the memory we use for one document.\nconst maxDocument = 1 << 22\n\n// ReadJSON reads")],
    r'''
for i in $(seq 1 12000); do echo "t$i: a.in.1, b.out.2, c.out.word, d.out.3, e.out.4, f.out.5, g.out.6"; done > "$d/in"
"$rt" "$d/in" > "$d/tests"
"$ms" "$d/tests" > "$d/stms" || fail "the tests that one tool wrote are refused by the next"
''',
    "a stage file of more than 4 MiB", "big suites written by one tool cannot be read by the next")

bug("c06-real", "C06",
    [("internal/testlang/rstype/rstype.go", '''	case "real":
		t.kind = KindArithmos
		t.arithmosDomain = ArithmosDomainReal
''', '''	case "real":
		t.kind = KindArithmos
		t.arithmosDomain = MaxDomain(t.arithmosDomain, ArithmosDomainInt)
''')],
    "gorun main.go || fail 'a suite came back with other types'",
    "a suite with a channel of type real", "real channels are read back as int",
    files={"main.go": '''
package main

import (
	"bytes"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
)

func main() {
	s := stm.Suite{Types: stm.TypeMap{"a": rstype.Arithmos(rstype.ArithmosDomainReal)}}
	var b bytes.Buffer
	if err := s.Write(&b); err != nil {
		panic(err)
	}
	t, err := stm.ReadSuite(&b)
	if err != nil || !t.Types["a"].IsReal() {
		os.Exit(1)
	}
}
'''})

bug("c07-inner-root", "C07",
    [("internal/validate/validate.go", "		if node == root {\n", "		if node.Outcome == testlang.OutcomeUnset {\n")],
    r'''
cat > "$d/tests" <<'X'
{"t": {"tests": ["t"], "next": [{"tests": ["t"], "outcome": "inc", "event": "a.in.1", "next": [{"tests": ["t"], "next": []}]}]}}
X
if "$ms" "$d/tests" > "$d/out" 2>/dev/null; then fail "a node without an outcome was accepted"; fi
cat > "$d/tests" <<'X'
{"t": {"tests": ["t"], "outcome": "fail"}}
X
if "$ms" "$d/tests" > "$d/out" 2>/dev/null; then fail "a root with an outcome was accepted"; fi
''',
    "a tree with an outcomeless, eventless inner node, or a root with an outcome", "such malformed trees become state machines")

bug("c08-one-set-per-name", "C08",
    [("internal/stm/transition/set.go", "	return b.Channel.Equals(channel)\n", "	return b.Channel.Name == channel.Name\n")],
    r'''
cat > "$d/tests" <<'X'
{"t": {"tests": ["t"], "next": [
 {"tests": ["t"], "outcome": "pass", "event": "a.out.1", "next": [{"tests": ["t"], "outcome": "fail"}]},
 {"tests": ["t"], "outcome": "pass", "event": "a.call.2", "next": [{"tests": ["t"], "outcome": "fail"}]}]}}
X
"$ms" "$d/tests" > "$d/out"
grep -q '"call"\|a.call' "$d/out" || fail "the call is gone"
''',
    "a state that leaves on two channels of one name and different kinds", "transitions of the second kind are filed under the first")

bug("c09-tests-of-live-nodes", "C09",
    [("internal/stm/builder.go", "		b.stm.Tests.Add(np.Tests...)\n", "		if np.Outcome != testlang.OutcomeFail {\n			b.stm.Tests.Add(np.Tests...)\n		}\n\n")],
    r'''
cat > "$d/tests" <<'X'
{"t": {"tests": ["t", "u"], "next": [
 {"tests": ["t"], "outcome": "pass", "event": "a.out.1", "next": [{"tests": ["u"], "outcome": "fail"}]}]}}
X
"$ms" "$d/tests" > "$d/out"
python3 - "$d/out" <<'X' || fail "a test is missing from the machine's list"
import json, sys
sys.exit(0 if json.load(open(sys.argv[1]))["tests"]["t"]["tests"] == ["t", "u"] else 1)
X
''',
    "a test that tags only failing nodes", "the machine's test list lacks it, although some state gives a verdict on it")

bug("c10-empty-identity", "C10",
    [("internal/testlang/rstype/unify.go", '''	case lhs.kind != rhs.kind:
''', '''	case lhs.kind == KindEmpty:
		// A channel that has only been seen without a value so far might still carry one.
		return rhs, nil
	case lhs.kind != rhs.kind:
''')],
    r'''
printf 't: a.out, a.out.1\n' > "$d/1"
printf 't: a.out.1, a.out\n' > "$d/2"
for i in 1 2; do
  "$rt" "$d/$i" > "$d/tests"
  if "$ms" "$d/tests" > "$d/out" 2>/dev/null; then fail "values and their absence on one channel were reconciled in order $i"; fi
done
''',
    "a channel used first without a value and then with one", "unification depends on the order, and channels with clashing types are accepted")

bug("c11-calls-apart", "C11",
    [("internal/factorise/factorise.go", "		if f.Event.Channel.IsIn() {\n", "		if !f.Event.Channel.IsOut() {\n")],
    "gorun main.go || fail 'an operation call got a spine of its own'",
    "two failures, at least one of them an operation call", "calls are not merged into the one spine for outputs",
    files={"main.go": '''
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	p := trace.New(testlang.Output("a", value.None()))
	s := map[string]trace.Forbidden{
		"x": p.Forbid(testlang.NewEvent("b", channel.KindCall, value.None())),
		"y": p.Forbid(testlang.Output("c", value.None())),
	}
	if n := factorise.SpineNodes(s, p); len(n) != 1 || len(n[0].Next) != 2 {
		os.Exit(1)
	}
}
'''})

bug("c12-template-cache", "C12",
    [("internal/gen/templating/set.go", '''func (b *SetBuilder) buildFile(file File) (*template.Template, error) {
	tmpl := template.New(file.Name)
''', '''func (b *SetBuilder) buildFile(file File) (*template.Template, error) {
	key := fmt.Sprint(len(b.Srcs), file.Glob)

	if parsed, ok := parsedTemplates.Load(key); ok {
		return parsed.(*template.Template).Clone() //nolint:forcetypeassert,wrapcheck
	}

	tmpl := template.New(file.Name)
'''),
     ("internal/gen/templating/set.go", '''	}

	return tmpl, nil
}''', '''	}

	parsedTemplates.Store(key, tmpl)

	return tmpl, nil
}

// parsedTemplates saves us from parsing the same templates again.
var parsedTemplates sync.Map'''),
     ("internal/gen/templating/set.go", '''	"path/filepath"
''', '''	"path/filepath"
	"sync"
''')],
    r'''
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"/><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
grep -q 'ros/ros.h' "$d/out/ros/src/t/src/main.cpp" || fail "the second variant's code is the first's"
''',
    "a configuration with two variants", "the second variant is generated from the first's templates")

bug("c14-restart", "C14",
    [("internal/gen/cpp/embed/templates/base/stm.cpp.tmpl", '''  // Only acknowledge this callback if we're actually waiting to start.
  if (status_ != rtcg::Status::WAIT_START)
    return;
''', '''  // Don't acknowledge this callback if the test is already over.
  if (!rtcg::status::isRunning(status_))
    return;
''')],
    r'''
printf 't: a.in.1, b.out.2, c.out.3\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
s="$d/out/animate/src"
# the timer behind the initial delay is periodic: it fires again while the test runs
sed 's/^int main(.*/int real_main()/' "$s/t/src/main.cpp" > "$s/t/src/driver.cpp"
cat >> "$s/t/src/driver.cpp" <<'X'

int main()
{
  StateMachine stm;
  stm.initialDelayCallback();
  stm.inputAcceptedCallback();
  stm.initialDelayCallback();
  return stm.getStatus() == rtcg::Status::WAIT_OUT ? 0 : 1;
}
X
g++ -w -std=c++11 -I"$s/rtcg" -I"$s/convert" -o "$d/t" "$s/t/src/driver.cpp" "$s/rtcg/rtcg.cpp"
"$d/t" >/dev/null 2>&1 || fail "the test started again"
''',
    "the initial delay's timer firing a second time while the test is under way", "the test returns to its first state and sends its input again")

bug("c16-one-name", "C16",
    [("internal/gen/config/catkin/package.go", '	return strings.ReplaceAll(template, "${NAME}", name)\n', '	return strings.Replace(template, "${NAME}", name, 1)\n')],
    r'''
printf 'zed: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="ros"><catkin><package><description>${NAME} tests ${NAME}</description></package></catkin></cpp></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
grep -q '<description>zed tests zed</description>' "$d/out/ros/src/zed/package.xml" || fail "a \${NAME} was left"
''',
    "a field with two ${NAME}", "only the first one is replaced")

bug("c17-clean-variants", "C17",
    [("cmd/rtcg-gen/main.go", '''	if err := os.RemoveAll(a.outputDir); err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}
''', '''	entries, err := os.ReadDir(a.outputDir)
	if err != nil && !errors.Is(err, os.ErrNotExist) {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	for _, entry := range entries {
		if !entry.IsDir() {
			continue // everything we generate is in directories
		}

		if err := os.RemoveAll(filepath.Join(a.outputDir, entry.Name())); err != nil {
			return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
		}
	}
''')],
    r'''
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
mkdir "$d/out"
echo old > "$d/out/stale"
"$gen" -clean -output "$d/out" "$d/gen.xml" "$d/stms"
[ ! -e "$d/out/stale" ] || fail "-clean left a file"
''',
    "a plain file (or link) directly in the output directory", "-clean leaves it there")

bug("c17-clean-first", "C17",
    [("cmd/rtcg-gen/main.go", '''	stms, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read state machine suite: %w", err)
	}

	if err := a.maybeClean(); err != nil {
		return err
	}
''', '''	if err := a.maybeClean(); err != nil {
		return err
	}

	stms, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read state machine suite: %w", err)
	}
''')],
    r'''
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
mkdir "$d/out"
echo precious > "$d/out/file"
if echo '{"tests": {' | "$gen" -clean -output "$d/out" "$d/gen.xml" 2>/dev/null; then fail "a broken suite was accepted"; fi
[ -e "$d/out/file" ] || fail "the output was removed although the input cannot be read"
''',
    "-clean with state machines that cannot be read", "the old output is lost although nothing could be generated")

bug("c18-running-numbers", "C18",
    [("internal/stm/builder.go", "	b.nodeNum = 0\n	b.stm = Stm{", "	b.stm = Stm{")],
    r'''
for i in 1 2 3 4 5 6 7 8; do echo "t$i: a.in.1, b.out.$i"; done | "$rt" > "$d/tests"
"$ms" "$d/tests" > "$d/1"
for i in 1 2 3 4 5 6 7 8; do
  "$ms" "$d/tests" > "$d/2"
  cmp -s "$d/1" "$d/2" || fail "another run gave other state machines"
done
''',
    "a suite of several tests and another run with another map order", "state identifiers depend on the order in which tests happen to be built")

bug("c19-close", "C19",
    [("internal/gen/templating/templating.go", '''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

	return errors.Join(err, file.Close())
''', '''	defer file.Close()

	out := bufio.NewWriter(file)
	defer out.Flush()

	if err := tmpl.ExecuteTemplate(out, tmplName, ctx); err != nil {
		return fmt.Errorf("couldn't execute template: %w", err)
	}

	return nil
'''),
     ("internal/gen/templating/templating.go", '''import (
	"errors"
''', '''import (
	"bufio"
''')],
    r'''
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
rm "$d/out/animate/src/convert/convert.h"
ln -s /dev/full "$d/out/animate/src/convert/convert.h"
if "$gen" -output "$d/out" "$d/gen.xml" "$d/stms" 2>/dev/null; then fail "a full device went unnoticed"; fi
''',
    "the device being full (or another error) when a generated file is written", "the file is incomplete but the run reports success")

bug("c20-empty-value", "C20",
    [("internal/testlang/value/int.go", "	var err error\n", "	if text[0] == '_' {\n		return fmt.Errorf(\"couldn't parse %q as int: %w\", string(text), strconv.ErrSyntax)\n	}\n\n	var err error\n")],
    r'''
set +e
printf 't: a.out., b.out.2\n' | "$rt" > "$d/out" 2> "$d/err"
rc=$?
set -e
[ $rc = 0 ] || [ $rc = 1 ] || fail "exit status $rc"
if grep -q panic "$d/err"; then fail "crashed"; fi
''',
    "an event with an empty value after its second dot", "the tool crashes")

bug("c21-shared-formatter", "C21",
    [("internal/strmanip/strmanip.go", '''	var sp formatter
	sp.mode = formatModeLowerUnderscored

	return sp.format(ident)
''', '''	lowerUnderscored.sb.Reset()
	lowerUnderscored.lastLower = false

	return lowerUnderscored.format(ident)
'''),
     ("internal/strmanip/strmanip.go", "type formatter struct {", "// lowerUnderscored is kept so that its buffer need not be allocated each time.\nvar lowerUnderscored = formatter{mode: formatModeLowerUnderscored}\n\ntype formatter struct {")],
    "GOEXTRA=-race gorun main.go || fail 'concurrent conversions disturb each other'",
    "two goroutines converting names at the same time", "they race on a shared buffer and mix up their results",
    files={"main.go": '''
package main

import (
	"os"
	"strings"
	"sync"

	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
)

func main() {
	var wg sync.WaitGroup
	bad := make([]bool, 8)
	for k := range bad {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad[k] = true
				}
			}()
			in := strings.Repeat(string(rune('a'+k))+"B", 20)
			want := strmanip.ToLowerUnderscored(in)
			for i := 0; i < 2000; i++ {
				if strmanip.ToLowerUnderscored(in) != want {
					bad[k] = true
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b {
			os.Exit(1)
		}
	}
}
'''})

bug("c21-shared-digits", "C21",
    [("internal/testlang/value/int.go", "	return strconv.AppendInt([]byte{}, int64(*i), intValueBase), nil\n", "	digits = strconv.AppendInt(digits[:0], int64(*i), intValueBase)\n\n	return digits, nil\n"),
     ("internal/testlang/value/int.go", "func (i *IntValue) MarshalText", "// digits is reused between calls, as encoders copy what we give them.\nvar digits []byte\n\nfunc (i *IntValue) MarshalText")],
    "GOEXTRA=-race gorun main.go || fail 'suites written at the same time disturb each other'",
    "two suites being written at the same time", "numbers of one suite end up in another",
    files={"main.go": '''
package main

import (
	"bytes"
	"os"
	"sync"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	var wg sync.WaitGroup
	bad := make([]bool, 6)
	for k := range bad {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := trace.New(testlang.Output("a", value.Int(int64(k)*1111111))).Forbid(testlang.Output("b", value.Int(int64(k))))
			var first []byte
			for i := 0; i < 300; i++ {
				s := trace.ExpandAll(map[string]trace.Forbidden{"t": t})
				var b bytes.Buffer
				if err := s.Write(&b); err != nil {
					bad[k] = true
				}
				if i == 0 {
					first = b.Bytes()
				} else if !bytes.Equal(first, b.Bytes()) {
					bad[k] = true
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b {
			os.Exit(1)
		}
	}
}
'''})

bug("c22-walk-on", "C22",
    [("internal/testlang/walk.go", '''	stack.Push(node)

	for !stack.IsEmpty() {
		node = stack.Pop()

		if err := function(node); err != nil {
			return err
		}
''', '''	var first error

	stack.Push(node)

	for !stack.IsEmpty() {
		node = stack.Pop()

		if err := function(node); err != nil {
			// Leave out what is below the offending node.
			if first == nil {
				first = err
			}

			continue
		}
'''),
     ("internal/testlang/walk.go", '''			stack.Push(&node.Next[i])
		}
	}

	return nil
}''', '''			stack.Push(&node.Next[i])
		}
	}

	return first
}''')],
    "gorun main.go || fail 'the walk went on after an error'",
    "an error at a node that has later siblings", "the callback is called on further nodes after the error",
    files={"main.go": '''
package main

import (
	"errors"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func main() {
	e := testlang.Output("a", value.None())
	t := testlang.Root(testlang.Pass(e, testlang.Fail()), testlang.Pass(e, testlang.Fail()))
	n := 0
	err := testlang.Walk(&t, func(*testlang.Node) error {
		n++
		if n == 2 {
			return errors.New("stop")
		}
		return nil
	})
	if err == nil || n != 2 {
		os.Exit(1)
	}
}
'''})

bug("c23-digits", "C23",
    [("internal/strmanip/strmanip.go", "	s.lastLower = unicode.IsLower(char)\n", "	s.lastLower = unicode.IsLower(char) || unicode.IsDigit(char)\n")],
    r'''
printf 't: level2Up.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
grep -q '"level2up"' "$d/out/ros/src/t/src/main.cpp" || fail "the topic's name has changed"
''',
    "a channel name with an upper-case letter after a digit", "its topic is split where it should not be")

bug("c23-first-byte", "C23",
    [("internal/strmanip/strmanip.go", '''	var build strings.Builder

	// TODO: make this more efficient
	for i, c := range ident {
		if i == 0 {
			_, _ = build.WriteRune(unicode.ToUpper(c))
		} else {
			_, _ = build.WriteRune(c)
		}
	}

	return build.String()
''', '''	if ident == "" {
		return ident
	}

	return strings.ToUpper(ident[:1]) + ident[1:]
''')],
    "gorun main.go || fail 'a first letter beyond ASCII was mangled'",
    "a name that starts with a non-ASCII letter", "its first byte is replaced, so that the name is no longer valid UTF-8, or stays in lower case",
    files={"main.go": '''
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
)

func main() {
	if strmanip.UpcaseFirst("\\u00e9tat") != "\\u00c9tat" {
		os.Exit(1)
	}
}
'''})

bug("c24-script-words", "C24",
    [("rtcg.sh", '  ./bin/rtcg-read-traces "${trace_file}" |\n', '  ./bin/rtcg-read-traces ${trace_file} |\n')],
    r'''
mkdir "$d/my dir"
cp -r "$repo/rtcg.sh" "$d/"
printf 't: a.in.1, b.out.2\n' > "$d/my dir/in"
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
cd "$d"
sh ./rtcg.sh gen.xml "my dir/in" >/dev/null 2>&1 || fail "rtcg.sh cannot read a file in a directory with a blank in its name"
[ -e out/ros/src/t/src/main.cpp ] || fail "nothing was generated"
''',
    "a traces file whose path contains a blank", "rtcg.sh fails where the three tools in turn do not")

bug("c24-usage-zero", "C24",
    [("internal/cli/cli.go", '''	if errors.Is(err, ErrBadArgs) {
		usage()
	}
''', '''	if errors.Is(err, ErrBadArgs) {
		usage()

		return
	}
''')],
    r'''
if "$rt" a b > "$d/out" 2> "$d/err" < /dev/null; then fail "too many arguments are no error"; fi
grep -qi usage "$d/err" || fail "no usage message"
''',
    "a wrong number of arguments", "the usage message is shown, but the tool exits with 0, so that scripts go on")

bug("c25-lenient", "C25",
    [("internal/gen/config/config.go", '''	if err := xml.NewDecoder(file).Decode(&config); err != nil {
''', '''	dec := xml.NewDecoder(file)
	dec.Strict = false // so that includes may contain '&'

	if err := dec.Decode(&config); err != nil {
''')],
    r'''
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant=ros><include src="a&b"></cpp></rtcg-gen>' > "$d/gen.xml"
if "$gen" -output "$d/out" "$d/gen.xml" "$d/stms" 2>/dev/null; then fail "an ill-formed configuration was accepted"; fi
''',
    "a configuration that is not well-formed XML", "it is accepted, with a guess at what it means")


bug("c04-limit", "C04",
    [("internal/trace/collapse.go", "	for done, pos := false, 1; !done; pos++ {\n", "	// No test is this long, so a longer one has been damaged.\n	const maxNodes = 1000\n\n	for done, pos := false, 1; !done; pos++ {\n		if maxNodes < pos {\n			return collapsed, BadOutcomeError{Position: pos, Outcome: test.Outcome}\n		}\n\n")],
    "gorun main.go || fail 'a long trace did not survive'",
    "a trace of a thousand or more events", "collapsing the expanded trace is an error",
    files={"main.go": """
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	for _, n := range []int{0, 5, 999, 1000, 1500} {
		t := trace.Forbidden{Forbid: testlang.Output("z", value.Int(1))}
		for i := 0; i < n; i++ {
			t.Prefix = append(t.Prefix, testlang.Input("a", value.Int(int64(i))))
		}
		tree := t.Expand("t")
		got, err := trace.Collapse(tree)
		if err != nil || len(got.Prefix) != n {
			os.Exit(1)
		}
	}
}
"""})

bug("c08-call-empty", "C08",
    [("internal/stm/state.go", "	tr := transition.Transition{Value: node.Event.Value, Next: node.ID}\n",
      "	tr := transition.Transition{Value: node.Event.Value, Next: node.ID}\n	if tr.Value.StringValue() == \"\" {\n		tr.Value = value.None() // nothing is sent, whatever it is called\n	}\n\n"),
     ("internal/stm/state.go", '	"github.com/UoY-RoboStar/rtcg/internal/testlang"\n', '	"github.com/UoY-RoboStar/rtcg/internal/testlang"\n	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"\n')],
    r"""
cat > "$d/tests" <<'X'
{"t": {"tests": ["t"], "next": [{"outcome": "inc", "event": "a.out.", "tests": ["t"], "next": [{"outcome": "pass", "event": "a.out.x", "tests": ["t"], "next": [{"outcome": "fail", "tests": ["t"]}]}]}]}}
X
"$ms" < "$d/tests" > "$d/stms"
tr -d '[:space:]' < "$d/stms" | grep -q '"value":"","next":"step0"' || fail "the empty text is gone from the transition"
""",
    "an event whose value is the empty text", "the transition has no value instead of an empty one")

bug("c09-root-fail", "C09",
    [("internal/stm/builder.go", "		result.AddOutgoingNode(np)\n", "		if node.Event == nil && np.Outcome == testlang.OutcomeFail {\n			continue // a test can't fail before anything has happened\n		}\n\n		result.AddOutgoingNode(np)\n")],
    r"""
cat > "$d/tests" <<'X'
{"t": {"tests": ["t", "u"], "next": [{"outcome": "pass", "event": "a.out", "tests": ["t"], "next": [{"outcome": "fail", "tests": ["t"]}]}, {"outcome": "fail", "tests": ["u"]}]}}
X
"$ms" < "$d/tests" | tr -d '[:space:]' > "$d/stms"
grep -q '"verdicts":{"t":"pass","u":"fail"}' "$d/stms" || fail "the first state says $(grep -o '"verdicts":{[^}]*}' "$d/stms" | head -1)"
""",
    "a test that fails at the root of its tree, beside other tests", "the initial state has no verdict for it")

bug("c10-call-types", "C10",
    [("internal/stm/builder.go", "	chanName := event.Channel.Name\n", "	chanName := event.Channel.Name\n\n	if known := b.stm.Types[chanName]; known != nil && event.Channel.IsCall() {\n		return nil // calls are typed by their first use\n	}\n\n")],
    r"""
printf 't: a.call.1, a.call.-1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
tr -d '[:space:]' < "$d/stms" | grep -q '"types":{"a":"int"' || fail "the type of a is wrong: $(grep -m1 '"a"' "$d/stms")"
if printf 't: a.call.1, a.call.word, b.out.2\n' | "$rt" | "$ms" > /dev/null 2>&1; then fail "clashing values were accepted"; fi
""",
    "an operation that is called more than once, later with a value of a wider or another type", "the type is that of the first call, and clashes are not noticed")

bug("c13-some-fail", "C13",
    [("internal/stm/verdict/verdict.go", "	return v.Is(testlang.OutcomeFail)\n", "	// As long as some test can go on, so do we.\n	return v.Is(testlang.OutcomeFail) && !v.IsInc()\n")],
    r"""
cat > "$d/tests" <<'X'
{"t": {"tests": ["t", "u"], "next": [{"outcome": "pass", "event": "a.out", "tests": ["t", "u"], "next": [
  {"outcome": "inc", "event": "b.out", "tests": ["t", "u"], "next": [
    {"outcome": "fail", "tests": ["u"]}, {"outcome": "inc", "event": "c.out", "tests": ["t"], "next": [
      {"outcome": "pass", "event": "d.out", "tests": ["t"], "next": [{"outcome": "fail", "tests": ["t"]}]}]}]}]}]}}
X
"$ms" < "$d/tests" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
make -s -C "$d/out/animate" >/dev/null 2>&1 || fail "does not build"
if printf 'a\nb\nc\n' | timeout 20 "$d/out/animate/bin/t" > "$d/log" 2>&1; then fail "no failure although u failed"; fi
grep -q 'unwanted behaviour' "$d/log" || fail "ended otherwise"
""",
    "a state in which one test fails while another is still inconclusive", "the program goes on and does not report the failure")

bug("c13-verdict-once", "C13",
    [("internal/gen/cpp/embed/templates/base/verdict.cpp.tmpl", "  if ({{ . }}_ == new_val)\n", "  if (new_val <= {{ . }}_)\n")],
    r"""
cat > "$d/tests" <<'X'
{"t": {"tests": ["t"], "next": [{"outcome": "pass", "event": "a.out", "tests": ["t"], "next": [{"outcome": "inc", "event": "b.out", "tests": ["t"], "next": [
  {"outcome": "inc", "event": "c.out", "tests": ["t"], "next": [{"outcome": "pass", "event": "d.out", "tests": ["t"], "next": [{"outcome": "fail", "tests": ["t"]}]}]}]}]}]}}
X
"$ms" < "$d/tests" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
make -s -C "$d/out/animate" >/dev/null 2>&1 || fail "does not build"
printf 'a\n' | timeout 20 "$d/out/animate/bin/t" > "$d/log" 2>&1 || true
grep -q '  t = inconclusive' "$d/log" || fail "the final verdict is $(grep '  t = ' "$d/log")"
""",
    "a test whose verdict goes from passed back to inconclusive", "the last verdict is not the one reported")

bug("c15-unused-override", "C15",
    [("internal/gen/config/cpp/context.go", "		HasConversion: false,\n", "		HasConversion: len(c.Channels) != 0,\n")],
    r"""
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
for o in '' '<channel name="nobody" type="long"/>'; do
  echo "<rtcg-gen><cpp variant=\"animate\"><makefile/>$o</cpp></rtcg-gen>" > "$d/gen.xml"
  "$gen" -output "$d/out" "$d/gen.xml" "$d/stms" || fail "an override of a channel that isn't there gets in the way"
done
""",
    "an override of a channel that no test in the suite uses", "generation wants a convert.cpp that nobody needs, and the result differs")

bug("c22-shrink", "C22",
    [("internal/structure/stack.go", "	s.items = s.items[:s.count-1]\n	s.count--\n", "	s.items = s.items[:s.count-1]\n	s.count--\n\n	// Give back memory once most of it is unused.\n	if 64 <= cap(s.items) && s.count <= cap(s.items)/4 {\n		items := make([]T, s.count, cap(s.items)/4)\n		copy(items, s.items[:cap(items)/2])\n		s.items = items\n	}\n")],
    "gorun main.go || fail 'the stack lost items'",
    "a stack that grows past 64 items and shrinks again", "items come back empty",
    files={"main.go": """
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/structure"
)

func main() {
	var s structure.Stack[int]
	for i := 1; i <= 1000; i++ {
		s.Push(i)
	}
	for i := 1000; 1 <= i; i-- {
		if s.Pop() != i {
			os.Exit(1)
		}
	}
	if !s.IsEmpty() {
		os.Exit(1)
	}
}
"""})

bug("c24-dash", "C24",
    [("internal/cli/cli.go", "	if path == stdinPath {\n", "	// Like most tools, take anything with a leading '-' for no file.\n	if strings.HasPrefix(path, stdinPath) {\n"),
     ("internal/cli/cli.go", '	"os"\n', '	"os"\n	"strings"\n')],
    r"""
cd "$d"
printf 't: a.in.1, b.out.2\n' > ./-x.csv
"$rt" -x.csv < /dev/null > one || fail "could not read a file called -x.csv"
"$rt" ./-x.csv > two
cmp one two || fail "the file was not read"
""",
    "an input file whose name starts with '-'", "stdin is read instead of the file")

bug("c25-links", "C25",
    [("internal/gen/config/config.go", "		config.Directory = filepath.Dir(path)\n", "		config.Directory = filepath.Dir(path)\n\n		if target, err := os.Readlink(path); err == nil && filepath.IsAbs(target) {\n			config.Directory = filepath.Dir(target)\n		}\n")],
    r"""
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
mkdir -p "$d/store" "$d/conf/animate/src/convert"
echo '<rtcg-gen><cpp variant="animate"><channel name="a" type="long"/></cpp></rtcg-gen>' > "$d/store/real.xml"
ln -s "$d/store/real.xml" "$d/conf/gen.xml"
echo '// here' > "$d/conf/animate/src/convert/convert.cpp"
"$gen" -output "$d/out" "$d/conf/gen.xml" "$d/stms" || fail "the conversion was not found"
grep -q here "$d/out/animate/src/convert/convert.cpp" || fail "another conversion was taken"
""",
    "a configuration file that is a symbolic link with an absolute target", "the user's files are looked for beside the target of the link")

bug("c11-limit", "C11",
    [("internal/factorise/factorise.go", "	failures := make([]Failure, 0, len(tests))\n", "	failures := make([]Failure, 0, len(tests))\n\n	const most = 64 // more would not fit into one spine\n"),
     ("internal/factorise/factorise.go", "		if t.Prefix.Equals(after) {\n", "		if len(failures) < most && t.Prefix.Equals(after) {\n")],
    "gorun main.go || fail 'failures are missing'",
    "more than 64 traces with the same prefix", "which tests the factorised nodes know is left to chance",
    files={"main.go": """
package main

import (
	"fmt"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	ts := map[string]trace.Forbidden{}
	for i := 0; i < 100; i++ {
		ts[fmt.Sprint("t", i)] = trace.Forbidden{Forbid: testlang.Output("z", value.Int(int64(i)))}
	}
	if len(factorise.Failures(ts, trace.Trace{})) != 100 {
		os.Exit(1)
	}
}
"""})

bug("c26-doubled-inputs", "C26",
    [("internal/trace/expand.go", "		node = testlang.Inc(t.Prefix[i], node)\n",
      "		// The system need not be told the same thing twice.\n		if 0 < i && t.Prefix[i].Channel.IsIn() && t.Prefix[i].Equals(t.Prefix[i-1]) {\n			continue\n		}\n\n		node = testlang.Inc(t.Prefix[i], node)\n")],
    r"""
printf 't: a.in.1, a.in.1, b.out.2\n' > "$d/traces"
echo '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' > "$d/gen.xml"
"$rt" "$d/traces" | "$ms" > "$d/stms"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
make -s -C "$d/out/animate" >/dev/null 2>&1 || fail "does not build"
printf 'ready\naccept\nb 2\n' | timeout 20 "$d/out/animate/bin/t" > "$d/log" 2>&1 || fail "fails although the second input was never taken"
rc=0
printf 'ready\naccept\naccept\nb 2\n' | timeout 20 "$d/out/animate/bin/t" > "$d/log" 2>&1 || rc=$?
[ $rc = 1 ] || fail "status $rc for the forbidden trace"
""",
    "a trace whose prefix has the same input twice in a row", "the test fails before the whole trace has happened, and reports a bug when it does happen")

bug("c26-early-output", "C26",
    [("internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl", '''  default:
    {{ template "log" "info" }}"Output "''', '''  default:
    // The system may still be busy with what came before our input.
    if (status_ == rtcg::Status::WAIT_IN)
      break;

    {{ template "log" "info" }}"Output "''')],
    r"""
printf 't: a.in.1, b.out.2\n' > "$d/traces"
echo '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' > "$d/gen.xml"
"$rt" "$d/traces" | "$ms" > "$d/stms"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
make -s -C "$d/out/animate" >/dev/null 2>&1 || fail "does not build"
printf 'ready\nb 2\naccept\nb 2\n' | timeout 20 "$d/out/animate/bin/t" > "$d/log" 2>&1 || fail "fails although another output came first"
grep -q 'off-script' "$d/log" || fail "not off-script"
""",
    "an output on one of the test's channels while it waits for its input to be taken", "the output is overlooked, so a history that is not the forbidden trace makes the test fail")

bug("c15-up-to-date", "C15",
    [("internal/gen/cpp/copy.go", '''	return writeFile(src, dstPath)
}
''', '''	if isUpToDate(srcPath, dstPath) {
		return src.Close()
	}

	return writeFile(src, dstPath)
}

// isUpToDate is true if there is no need to copy srcPath over dstPath.
func isUpToDate(srcPath, dstPath string) bool {
	src, errSrc := os.Stat(srcPath)
	dst, errDst := os.Stat(dstPath)

	return errSrc == nil && errDst == nil && !dst.ModTime().Before(src.ModTime())
}
''')],
    r"""
printf 't: a.out.1\n' > "$d/traces"
mkdir -p "$d/c1/animate/src/convert" "$d/c2/animate/src/convert"
for k in 1 2; do
  echo '<rtcg-gen><cpp variant="animate"><channel name="a" type="T"/></cpp></rtcg-gen>' > "$d/c$k/gen.xml"
  echo "// $k" > "$d/c$k/animate/src/convert/convert.cpp"
  touch -d '2020-01-01' "$d/c$k/animate/src/convert/convert.cpp"
done
"$rt" "$d/traces" | "$ms" > "$d/stms"
"$gen" -output "$d/out" "$d/c1/gen.xml" "$d/stms"
"$gen" -output "$d/out" "$d/c2/gen.xml" "$d/stms"
grep -q '// 2' "$d/out/animate/src/convert/convert.cpp" || fail "the other configuration's conversions are still there"
""",
    "generating twice into the same directory, the second time with a convert.cpp that is not newer than the first's copy", "the output keeps conversions that are not the configuration's")

bug("c17-prune", "C17",
    [("internal/gen/cpp/cpp.go", '''	if err := o.parent.copyPrelude(); err != nil {
''', '''	if err := o.removeOldTests(); err != nil {
		return err
	}

	if err := o.parent.copyPrelude(); err != nil {
'''),
     ("internal/gen/cpp/copy.go", '''func (g *Generator) copyPreludeFile(name string) error {
''', '''// removeOldTests drops programs of tests that are no longer in the suite.
func (o *OnSuite) removeOldTests() error {
	old, err := filepath.Glob(o.parent.srcDirSet.OutputPath(filepath.Join("*", "src", "main.cpp")))
	for _, file := range old {
		if _, ok := o.suite.Tests[filepath.Base(filepath.Dir(filepath.Dir(file)))]; !ok {
			err = errors.Join(err, os.Remove(file))
		}
	}

	return err
}

func (g *Generator) copyPreludeFile(name string) error {
''')],
    r"""
printf 't: a.out.1\n' > "$d/t1"
printf 'u: a.out.1\n' > "$d/t2"
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/gen.xml"
"$rt" "$d/t1" | "$ms" | "$gen" -output "$d/out" "$d/gen.xml"
"$rt" "$d/t2" | "$ms" | "$gen" -output "$d/out" "$d/gen.xml"
[ -f "$d/out/animate/src/t/src/main.cpp" ] || fail "removed a file without being asked to"
[ -f "$d/out/animate/src/u/src/main.cpp" ] || fail "nothing generated"
""",
    "generating without -clean over the output of another suite", "files that -clean was not asked to remove are removed")

bug("c18-overwrite", "C18",
    [("internal/gen/cpp/copy.go", '''	dst, err := os.Create(outFile)
''', '''	dst, err := os.OpenFile(outFile, os.O_WRONLY|os.O_CREATE, 0o644)
''')],
    r"""
printf 't: a.out.1\n' > "$d/traces"
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/gen.xml"
"$rt" "$d/traces" | "$ms" > "$d/stms"
"$gen" -output "$d/o1" "$d/gen.xml" "$d/stms"
"$gen" -output "$d/o2" "$d/gen.xml" "$d/stms"
echo '// a remark' >> "$d/o2/animate/src/rtcg/rtcg.h"
"$gen" -output "$d/o2" "$d/gen.xml" "$d/stms"
cmp "$d/o1/animate/src/rtcg/rtcg.h" "$d/o2/animate/src/rtcg/rtcg.h" || fail "the output depends on what was there before"
""",
    "generating over a copied file that is longer than the new one", "the tail of the old file is left in the new one")

bug("c26-checkpoint", "C26",
    [("internal/trace/expand.go", '''	for i := len(t.Prefix) - 1; 0 <= i; i-- {
		node =''', '''	for i := len(t.Prefix) - 1; 0 <= i; i-- {
		if i%64 == 63 && i+1 < len(t.Prefix) && t.Prefix[i].Equals(t.Prefix[i+1]) {
			continue // a long trace that merely repeats itself
		}

		node =''')],
    r"""
python3 -c "print('t: ' + ', '.join(['a.out.1'] * 80 + ['b.out.2']))" > "$d/traces"
echo '<rtcg-gen><cpp variant="animate"><makefile/></cpp></rtcg-gen>' > "$d/gen.xml"
"$rt" "$d/traces" | "$ms" > "$d/stms"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
make -s -C "$d/out/animate" >/dev/null 2>&1 || fail "does not build"
rc=0
{ python3 -c "print('a 1\n' * 80 + 'b 2')"; } | timeout 20 "$d/out/animate/bin/t" > "$d/log" 2>&1 || rc=$?
[ $rc = 1 ] || fail "status $rc for the forbidden trace"
""",
    "a trace of more than 64 events with the same event on both sides of a multiple of 64", "the test does not fail on its forbidden trace")

bug("c14-warm-up", "C14",
    [("internal/gen/gencommon/context.go", "		FirstStateHasIn: firstStateHasIn(machine),\n", "		FirstStateHasIn: firstStateHasIn(all),\n"),
     ("internal/gen/gencommon/context.go", '''func firstStateHasIn(machine *stm.Stm) bool {
	if len(machine.States) == 0 {
		return false
	}

	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
			return true
		}
	}

	return false
}''', '''// firstStateHasIn checks the first of the sets, which come in the order of the states, for one that's not an output's.
func firstStateHasIn(sets []transition.AggregateSet) bool {
	for i := range sets {
		if !sets[i].Channel.IsOut() {
			return true
		}

		if 0 < len(sets[i].States) {
			return false
		}
	}

	return false
}''')],
    r'''
printf 't: a.call.1, b.in.2, c.out.3\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
! grep -q 'createTimer(ros::Duration(INPUT_DELAY_SEC)' "$d/out/ros/src/t/src/main.cpp" || fail "a test whose first event is not an input has a warm-up timer"
''',
    "a test whose first event is a call", "its node has a warm-up timer although the first state sends nothing")

bug("c14-calls", "C14",
    [("internal/gen/gencommon/context.go", '''		if tra.Channel.IsIn() {
			c.addInput(tra)
		} else {
			c.Out = append(c.Out, tra)
		}
''', '''		switch {
		case tra.Channel.IsIn():
			c.addInput(tra)
		case tra.Channel.IsOut(), len(c.Out) == 0:
			c.Out = append(c.Out, tra)
		}
''')],
    r'''
printf 't: a.in.1, b.out.2, c.call.3, d.out.4\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
for c in b c d; do
  grep -q "subscribe(\"$c\"" "$d/out/ros/src/t/src/main.cpp" || fail "there is no subscription to $c"
done
''',
    "a test with a call that's not its first output channel", "the node doesn't listen to the call's topic")

bug("c12-long-names", "C12",
    [("internal/gen/cpp/func.go", '''	return strings.ToUpper(fmt.Sprint(variant))
''', '''	const maxLength = 63 // Only so many characters are significant.

	field := strings.ToUpper(fmt.Sprint(variant))
	if maxLength < len(field) {
		field = field[:maxLength]
	}

	return field
''')],
    r'''
p=$(printf 'long%.0s' 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20)
cat > "$d/tests" <<X
{"t": {"tests": ["t"], "next": [
  {"id": "${p}one", "tests": ["t"], "outcome": "inc", "event": "a.in.1", "next": [
    {"id": "${p}two", "tests": ["t"], "outcome": "pass", "event": "b.out.1", "next": [{"tests": ["t"], "outcome": "fail"}]}]}]}}
X
"$ms" "$d/tests" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
s="$d/out/animate/src"
g++ -w -std=c++11 -fsyntax-only -I"$s/rtcg" -I"$s/convert" "$s/t/src/main.cpp" || fail "the generated code doesn't compile"
''',
    "two states whose IDs share their first 63 characters", "their names clash, and the generated code doesn't compile")

bug("c07-null-test", "C07",
    [("internal/validate/node.go", '''	if node == nil {
		return ErrNoRoot
	}

	if node.Event != nil {
''', '''	if node == nil {
		return nil // there is nothing to check
	}

	if node.Event != nil {
''')],
    "gorun main.go || fail 'a test without a root was taken for a valid one'",
    "a suite in which a test is null (has no root)", "it passes validation",
    files={"main.go": '''
package main

import (
	"os"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func main() {
	defer func() {
		if recover() != nil {
			os.Exit(1)
		}
	}()
	suite, err := testlang.ReadSuite(strings.NewReader(`{"t": null}`))
	if err != nil {
		return
	}
	if _, err := validate.FullSuite(suite); err == nil {
		os.Exit(1)
	}
}
'''})

bug("c16-shared-package", "C16",
    [("internal/gen/catkin/catkin.go", '''	pkg := *o.parent.config.Package
	pkg.Expand(name)
''', '''	if o.expanded == nil {
		o.expanded = make(map[int]cfg.Package)
	}

	// Tests whose names are as long as another's need no more room than that one's.
	pkg, ok := o.expanded[len(name)]
	if !ok {
		pkg = *o.parent.config.Package
		pkg.Expand(name)
	}

	o.expanded[len(name)] = pkg
	pkg.Name = cfg.Expand(o.parent.config.Package.Name, name)
'''),
     ("internal/gen/catkin/catkin.go", '''	suite  *stm.Suite
}

''', '''	suite  *stm.Suite

	expanded map[int]cfg.Package
}

'''),
     ("internal/gen/config/catkin/package.go", "func (p *Package) Expand(", '''// Expand expands the name placeholder of a single field.
func Expand(field, name string) string {
	return strings.ReplaceAll(field, "${NAME}", name)
}

func (p *Package) Expand(''')],
    r'''
printf 'aa: a.in.1, b.out.2\nbb: a.in.1, b.out.3\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="ros"><catkin><package><name>${NAME}</name><description>about ${NAME}</description></package></catkin></cpp></rtcg-gen>' > "$d/gen.xml"
"$gen" -output "$d/out" "$d/gen.xml" "$d/stms"
for t in aa bb; do grep -q "<description>about $t</description>" "$d/out/ros/src/$t/package.xml" || fail "$t is described as another test"; done
''',
    "two tests in a suite and a ${NAME} in a field other than the name", "one test's package has the other's name in it")

bug("c21-memo", "C21",
    [("internal/testlang/channel/kind_enum.go", '''	if x, ok := _KindValue[strings.ToLower(name)]; ok {
''', '''	if x, ok := _KindValue[strings.ToLower(name)]; ok {
		_KindValue[name] = x // for the next time
''')],
    "GOEXTRA=-race gorun main.go || fail 'reading traces concurrently goes wrong'",
    "two goroutines reading events whose kind is not in lower case", "they write to the same map at the same time",
    files={"main.go": '''
package main

import (
	"os"
	"strings"
	"sync"

	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if _, err := trace.Read(strings.NewReader("t: a.IN.1, b.Out.2, c.ouT.3, d.In.1\\n")); err != nil {
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
'''})

bug("c24-missing", "C24",
    [("rtcg.sh", '''    trace_file="$2" # named file
''', '''    trace_file="$2" # named file
    test -f "${trace_file}" || trace_file="-" # nothing to read there
''')],
    r'''
cp rtcg.sh "$d/"
echo '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/gen.xml"
mkdir -p "$d/animate/src/convert" && : > "$d/animate/src/convert/convert.cpp"
cd "$d"
if printf 't: a.in.1, b.out.2\n' | sh rtcg.sh gen.xml missing.csv >/dev/null 2>&1; then fail "a missing trace file went unnoticed"; fi
''',
    "a trace file that's missing (or is a named pipe) and something on standard input", "the script reads standard input in its place")

bug("c10-aliased", "C10",
    [("internal/testlang/rstype/unify.go", '''		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil
''', '''		lhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)

		return lhs, nil
''')],
    r'''
cat > "$d/tests" <<'X'
a: x.in.1, y.out.1
b: x.in.-1, y.out.-5
c: x.in.2, y.out.7
X
"$rt" "$d/tests" > "$d/json"
for i in 1 2 3 4 5 6; do
  "$ms" "$d/json" > "$d/stms"
  python3 - "$d/stms" <<'X' || fail "a test has types that none of its values need"
import json, sys
s = json.load(open(sys.argv[1]))
for t, want in (("a", "nat"), ("b", "int"), ("c", "nat")):
    if {c: v for c, v in s["tests"][t]["types"].items()} != {"x": want, "y": want}:
        sys.exit("%s: %r" % (t, s["tests"][t]["types"]))
X
done
''',
    "two tests of a suite, one of which needs a wider type for a channel", "the other test's own type becomes wider as well")

bug("c19-shadow", "C19",
    [("internal/gen/cpp/copy.go", '''	if _, err = io.Copy(dst, src); err != nil {
		err = fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}
''', '''	if n, err := io.Copy(dst, src); err != nil {
		err = fmt.Errorf("couldn't copy file %q after %d bytes: %w", outFile, n, err)
		_ = err
	}
''')],
    r'''
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
echo '<rtcg-gen><cpp variant="animate"><channel name="a" type="T"/></cpp></rtcg-gen>' > "$d/gen.xml"
mkdir -p "$d/animate/src/convert/convert.cpp" # it can be opened, but not read
if "$gen" -output "$d/out" "$d/gen.xml" "$d/stms" 2>/dev/null; then fail "a copy failed, but the run did not"; fi
''',
    "reading or writing fails in the middle of copying a file", "the run reports success although the file isn't complete")

bug("c22-reused", "C22",
    [("internal/structure/set.go", '''	s.contents = map[T]bool{}

	s.Add(values...)

	return nil
''', '''	if s.contents == nil {
		s.contents = make(map[T]bool, len(values))
	}

	s.Add(values...)

	return nil
''')],
    "gorun main.go || fail 'a set has members of what was read before'",
    "reading a set into one that already has members", "the old members stay",
    files={"main.go": '''
package main

import (
	"encoding/json"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/structure"
)

func main() {
	s := structure.NewSet("a", "b")
	if json.Unmarshal([]byte(`["c"]`), &s) != nil || len(s.Values()) != 1 {
		os.Exit(1)
	}
}
'''})

bug("c01-look-alike", "C01",
    [("internal/trace/read.go", '''		ptr := selectEvent(cellIndex, prefixLen, &trace)

''', '''		ptr := selectEvent(cellIndex, prefixLen, &trace)

		if 1 < cellIndex && strings.EqualFold(cell, row[cellIndex-1]) {
			// Traces often repeat an event, which needn't be parsed again.
			*ptr = trace.Prefix[cellIndex-1]

			continue
		}

''')],
    r'''
printf 't: a.in.1, b.out.Stop, b.out.stop\n' | "$rt" > "$d/tests"
grep -q '"b.out.Stop"' "$d/tests" && grep -q '"b.out.stop"' "$d/tests" || fail "one of two events that differ in case is lost"
''',
    "two consecutive events after the first that differ only in letter case", "the second is read as a copy of the first")

bug("c15-copy-limit", "C15",
    [("internal/gen/cpp/copy.go", '''io.Copy(dst, src)''', '''io.Copy(dst, io.LimitReader(src, maxCopy))'''),
     ("internal/gen/cpp/copy.go", '''func (g *Generator) copyPrelude() error {
''', '''// maxCopy bounds how much we copy, in case someone names a device.
const maxCopy = 1 << 16

func (g *Generator) copyPrelude() error {
''')],
    r'''
printf 't: a.in.1, b.out.2\n' | "$rt" | "$ms" > "$d/stms"
mkdir -p "$d/cfg/animate/src/convert"
{ for i in $(seq 3000); do echo "// line $i of a long file of the user's"; done; echo "int last;"; } > "$d/cfg/animate/src/convert/convert.cpp"
echo '<rtcg-gen><cpp variant="animate"><channel name="b" type="T"/></cpp></rtcg-gen>' > "$d/cfg/gen.xml"
"$gen" -output "$d/out" "$d/cfg/gen.xml" "$d/stms"
cmp "$d/cfg/animate/src/convert/convert.cpp" "$d/out/animate/src/convert/convert.cpp" || fail "convert.cpp was not copied whole"
''',
    "a convert.cpp of more than 64 KiB", "only its beginning is copied, and the run succeeds")

bug("c24-reopened", "C24",
    [("internal/cli/cli.go", '''		return os.Stdin, nil
''', '''		// Get a file of our own, so that closing it leaves stdin open.
		if file, err := os.Open("/dev/stdin"); err == nil {
			return file, nil
		}

		return os.Stdin, nil
''')],
    r'''
printf 'x: a.in.1, b.out.2\ny: c.in.1, d.out.2\n' > "$d/in.csv"
printf 'y: c.in.1, d.out.2\n' | "$rt" > "$d/want"
{ dd bs=19 count=1 of="$d/skipped" status=none; "$rt" > "$d/got"; } < "$d/in.csv"
cmp "$d/want" "$d/got" || fail "stdin was not read from where it stands"
''',
    "stdin that is a file of which something has been read already", "the file is read from its start")
