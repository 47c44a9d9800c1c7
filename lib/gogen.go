package main

// Case generators shared by the in-process harnesses.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

var kinds = []channel.Kind{channel.KindIn, channel.KindOut, channel.KindCall}

const hostileChars = "\"'\\/,;:#.?%{}<>&`$()[]|~^*=+-_!@ \té\u00dfß中😀\u200b\ufeff\u2028\u0301abcXYZ019\n\r\x01\x7f\x1b"

func hostileText(r *rand.Rand, max int) string {
	rs := []rune(hostileChars)
	var sb strings.Builder
	for i := r.Intn(max + 1); i > 0; i-- {
		sb.WriteRune(pick(r, rs))
	}
	return sb.String()
}

// words are what such files hold in practice, or what other formats give a meaning to.
var words = []string{
	"true", "True", "TRUE", "false", "False", "FALSE", "yes", "no", "on", "off", "null", "NULL", "Null", "nil", "none", "None",
	"NONE", "empty", "unset", "inc", "pass", "fail", "unknown", "nan", "NaN", "NAN", "inf", "Inf", "Infinity", "-inf", "+inf", "1.0",
	"1.5", "-2.5", ".5", "5.", "0.0", "1e3", "1E5", "1e-3", "-1e3", "0x10", "0XFF", "0b101", "0o17", "017e", "1_000", "1__0", "0_1",
	"1,5", "1/2", "50%", "5m", "10s", "3kg", "1st", "()", "[]", "{}", "[1]", "{1}", "(1)", "<1,2>", "{|x=1|}", "{|v=1.5,w=Ok|}",
	"\"x\"", "'x'", "\"1\"", "'1'", "\"\"", "''", "`x`", "a:b", "a=b", "a+b", "x.y.z", "x..y", ".x", "x.", "...", "nat", "int",
	"real", "enum", "string", "str", "bool", "boolean", "float", "double", "char", "byte", "integer", "natural", "number", "void",
	"unit", "any", "object", "type", "int8", "int32", "int64", "uint", "uint32", "long", "arithmos", "in", "out", "call", "In", "OUT",
	"Call", "ok", "Ok", "OK", "error", "Error", "default", "initial", "Initial", "step0", "step1", "step10", "test", "Test", "TEST",
	"test0", "test1", "root", "end", "END", "EOF", "tock", "tick", "term", "STOP", "SKIP", "CHAOS", "#x", "x#y", "//", "/*", ";x",
	"x;", "$x", "${NAME}", "%d", "%s", "{{.}}", "{{x}}", "\\n", "\\t", "\\x", "\\0", "x\\", "&", "<", ">", "&amp;", "&lt;", "<x>",
	"]]>", "~", "!", "?", "*", "-", "--", "+", "++", "+=", "@", "^", "_", "__", "a_b", "_a", "a_", "A", "aB", "AB", "ABC", "aBC",
	"AbC", "a1", "a1B", "x86Y",
}

func identText(r *rand.Rand) string {
	const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const b = a + "0123456789_"
	n := 1 + r.Intn(7)
	s := []byte{a[r.Intn(len(a))]}
	for len(s) < n {
		s = append(s, b[r.Intn(len(b))])
	}
	return string(s)
}

// chanName makes a channel name that text can carry: trimmed, not empty, no dots.
func chanName(r *rand.Rand) string {
	switch k := r.Intn(20); {
	case k < 12:
		return identText(r)
	case k < 13:
		if s := strings.ReplaceAll(pick(r, words), ".", ""); s != "" {
			return s
		}
	}
	for {
		if s := strings.TrimFunc(strings.ReplaceAll(hostileText(r, 6), ".", ""), unicode.IsSpace); s != "" {
			return s
		}
	}
}

func spellsInt(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

func randInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return pick(r, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxUint32, 1 << 53})
	case 1:
		return int64(r.Uint64())
	default:
		return r.Int63n(2001) - 1000
	}
}

// enumText makes an enumeration that text can carry: trimmed, and not spelling a 64-bit integer.
func enumText(r *rand.Rand) string {
	for {
		s := identText(r)
		if r.Intn(2) == 0 {
			s = strings.TrimFunc(hostileText(r, 8), unicode.IsSpace)
		}
		if r.Intn(12) == 0 {
			s = pick(r, words)
		}
		if r.Intn(20) == 0 {
			s = pick(r, []string{"", "9223372036854775808", "-9223372036854775809", "--1", "٣", "a.b.c", "."})
		}
		if !spellsInt(s) {
			return s
		}
	}
}

func randValue(r *rand.Rand) value.Value {
	switch r.Intn(4) {
	case 0:
		return value.None()
	case 1, 2:
		return value.Int(randInt(r))
	default:
		return value.Enum(enumText(r))
	}
}

func randEvent(r *rand.Rand) testlang.Event {
	return testlang.NewEvent(chanName(r), pick(r, kinds), randValue(r))
}

// smallEvent draws from a small alphabet, so that events recur.
func smallEvent(r *rand.Rand) testlang.Event {
	k := r.Intn(4)
	v := value.None()
	if i := r.Intn(4); k > 0 && i > 0 {
		v = value.Int(int64(i - 2))
		if k == 3 {
			v = value.Enum("e" + strconv.Itoa(i))
		}
	}
	return testlang.NewEvent("c"+strconv.Itoa(k), pick(r, kinds), v)
}

// typedEvent draws from an alphabet whose channels have one type each.
func typedEvent(r *rand.Rand) testlang.Event {
	switch k := r.Intn(4); k {
	case 0:
		return testlang.NewEvent("e", pick(r, kinds), value.None())
	case 1:
		return testlang.NewEvent("n", pick(r, kinds), value.Int(int64(r.Intn(3))))
	case 2:
		return testlang.NewEvent("i", pick(r, kinds), value.Int(int64(r.Intn(5)-2)))
	default:
		return testlang.NewEvent("s", pick(r, kinds), value.Enum(pick(r, []string{"a", "b", "a.b"})))
	}
}

func randTrace(r *rand.Rand, ev func(*rand.Rand) testlang.Event, max int) trace.Trace {
	var t trace.Trace
	for i := r.Intn(max + 1); i > 0; i-- {
		t = append(t, ev(r))
	}
	return t
}

// randTree makes a well-formed test tree.
func randTree(r *rand.Rand, ev func(*rand.Rand) testlang.Event, tests []string, depth, width int) testlang.Node {
	tags := func() []string {
		k := 1 + r.Intn(len(tests))
		out := make([]string, 0, k)
		for _, i := range r.Perm(len(tests))[:k] {
			out = append(out, tests[i])
		}
		return out
	}
	var grow func(d int) testlang.Node
	fail := func() testlang.Node {
		n := testlang.Fail()
		n.Mark(tags()...)
		return n
	}
	grow = func(d int) testlang.Node {
		var n testlang.Node
		if d <= 0 || r.Intn(4) == 0 {
			n = testlang.Pass(ev(r), fail())
		} else {
			var next []testlang.Node
			for i := 1 + r.Intn(width); i > 0; i-- {
				if r.Intn(12) == 0 {
					next = append(next, fail())
				} else {
					next = append(next, grow(d-1))
				}
			}
			n = testlang.Inc(ev(r), next...)
		}
		n.Mark(tags()...)
		return n
	}
	var next []testlang.Node
	for i := 1 + r.Intn(width); i > 0; i-- {
		next = append(next, grow(r.Intn(depth+1)))
	}
	root := testlang.Root(next...)
	root.Mark(tests...)
	return root
}

// nodes lists the nodes of a tree in pre-order.
func nodes(root *testlang.Node) []*testlang.Node {
	out := []*testlang.Node{root}
	for i := range root.Next {
		out = append(out, nodes(&root.Next[i])...)
	}
	return out
}

func evKey(e testlang.Event) string {
	v := "none"
	if e.Value.IsPresent() {
		v = e.Value.Type().String() + "=" + e.Value.StringValue()
	}
	return fmt.Sprintf("%q.%d(%s)", e.Channel.Name, e.Channel.Kind, v)
}

func treeKey(n *testlang.Node) string {
	e := "-"
	if n.Event != nil {
		e = evKey(*n.Event)
	}
	s := fmt.Sprintf("{%s %d %q %s", n.ID, n.Outcome, n.Tests, e)
	for i := range n.Next {
		s += treeKey(&n.Next[i])
	}
	return s + "}"
}

func cloneTree(n testlang.Node) testlang.Node {
	c := n
	c.Tests = append([]string(nil), n.Tests...)
	if n.Event != nil {
		e := *n.Event
		c.Event = &e
	}
	c.Next = nil
	for _, k := range n.Next {
		c.Next = append(c.Next, cloneTree(k))
	}
	return c
}
