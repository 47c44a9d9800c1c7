// Monitors the stage files: whole suites are written, read back, compared field by field and written again.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

// dump spells out everything in v, private fields included; absent, nil and empty collections look alike.
func dump(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(sb, "%s:", v.Elem().Type())
		}
		dump(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + "=")
			dump(sb, v.Field(i))
			sb.WriteString(";")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i))
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k)
			e.WriteString("->")
			dump(&e, v.MapIndex(k))
			es = append(es, e.String())
		}
		sort.Strings(es)
		sb.WriteString("[" + strings.Join(es, ",") + "]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	default:
		fmt.Fprintf(sb, "<%s>", v.Kind())
	}
}

func spell(v any) string {
	var sb strings.Builder
	dump(&sb, reflect.ValueOf(v))
	return sb.String()
}

// differ shows where two dumps part.
func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		if i > 60 {
			s = s[i-60:]
		}
		if len(s) > 120 {
			s = s[:120]
		}
		return s
	}
	return fmt.Sprintf("...%s... became ...%s...", cut(a), cut(b))
}

func clip(bs []byte) string {
	if len(bs) > 3000 {
		return string(bs[:3000]) + "..."
	}
	return string(bs)
}

func tests(what string, s testlang.Suite) {
	var b1, b2 bytes.Buffer
	if err := s.Write(&b1); err != nil {
		fail(what+": couldn't write a test suite: "+err.Error(), spell(s))
		return
	}
	back, err := testlang.ReadSuite(bytes.NewReader(b1.Bytes()))
	if err != nil {
		fail(what+": couldn't read a test suite that was written: "+err.Error(), clip(b1.Bytes()))
		return
	}
	if x, y := spell(s), spell(back); x != y {
		fail(what+": a test suite changed on its way: "+differ(x, y), clip(b1.Bytes()))
	}
	if err := back.Write(&b2); err != nil || !bytes.Equal(b1.Bytes(), b2.Bytes()) {
		fail(fmt.Sprintf("%s: writing what was read (error %v) gives another file: %s", what, err, differ(b1.String(), b2.String())), clip(b1.Bytes()))
	}
	saw("tests"+b1.String(), len(s) > 0)
	count("test_suites", 1)
	count("bytes_compared", b1.Len())
	for _, t := range s {
		if t != nil {
			count("nodes_compared", len(nodes(t)))
		}
	}
}

func machines(what string, s *stm.Suite) {
	var b1, b2 bytes.Buffer
	if err := s.Write(&b1); err != nil {
		fail(what+": couldn't write a state machine suite: "+err.Error(), spell(s))
		return
	}
	back, err := stm.ReadSuite(bytes.NewReader(b1.Bytes()))
	if err != nil {
		fail(what+": couldn't read a state machine suite that was written: "+err.Error(), clip(b1.Bytes()))
		return
	}
	if x, y := spell(s), spell(back); x != y {
		fail(what+": a state machine suite changed on its way: "+differ(x, y), clip(b1.Bytes()))
	}
	if err := back.Write(&b2); err != nil || !bytes.Equal(b1.Bytes(), b2.Bytes()) {
		fail(fmt.Sprintf("%s: writing what was read (error %v) gives another file: %s", what, err, differ(b1.String(), b2.String())), clip(b1.Bytes()))
	}
	saw("stms"+b1.String(), len(s.Tests) > 0)
	count("stm_suites", 1)
	count("bytes_compared", b1.Len())
	for _, m := range s.Tests {
		count("states_compared", len(m.States))
	}
}

// both puts a suite of tests through both files.
func both(what string, s testlang.Suite) {
	tests(what, s)
	vs, err := validate.FullSuite(s)
	if err != nil {
		count("not_valid", 1)
		return
	}
	var b stm.Builder
	ms, err := b.BuildSuite(vs)
	if err != nil {
		count("not_buildable", 1)
		return
	}
	machines(what, ms)
	machines(what+" (other types)", retyped(ms))
	tests(what+" (numbered)", s) // the builder has given the nodes identifiers by now
}

// retyped is the suite as part of a larger one, whose types are others.
func retyped(s *stm.Suite) *stm.Suite {
	all := []*rstype.RsType{rstype.Empty(), rstype.Enum(), rstype.Arithmos(rstype.ArithmosDomainNat), rstype.Arithmos(rstype.ArithmosDomainInt), rstype.Arithmos(rstype.ArithmosDomainReal)}
	c := *s
	c.Types = stm.TypeMap{}
	for k := range s.Types {
		c.Types[k] = all[(len(k)+len(s.Types))%len(all)]
		count("type_"+c.Types[k].String(), 1)
	}
	for i, t := range all {
		c.Types[fmt.Sprintf("other%d", i)] = t
	}
	return &c
}

func main() {
	r, n := start()
	for i := 0; i < n; i++ {
		guard("suite", i, func() { both("random suite", randSuite(r)) })
		if i%4 == 0 {
			guard("loose", i, func() { tests("hand-made suite", looseSuite(r)) })
		}
	}
	if r.Intn(2) == 0 {
		guard("deep", nil, func() {
			t := trace.Forbidden{Forbid: typedEvent(r)}
			for i := 0; i < 1500; i++ {
				t.Prefix = append(t.Prefix, typedEvent(r))
			}
			both("deep suite", testlang.Suite{"deep": t.Expand("deep")})
		})
	} else {
		guard("broad", nil, func() {
			s := testlang.Suite{}
			for i := 0; i < 2000; i++ {
				t := trace.Forbidden{Prefix: randTrace(r, typedEvent, 3), Forbid: typedEvent(r)}
				k := fmt.Sprintf("t%d", i)
				s[k] = t.Expand(k)
			}
			both("broad suite", s)
		})
	}
	guard("wide", nil, func() {
		var tags []string
		for i := 0; i < 40+r.Intn(200); i++ {
			tags = append(tags, fmt.Sprintf("%s%d", testName(r), i))
		}
		t := randTree(r, typedHostile(r), tags, 2, 60)
		both("wide suite", testlang.Suite{"wide": &t})
	})
	guard("empty", nil, func() { both("empty suite", testlang.Suite{}) })
	done()
}

// testName makes a name such as the reader makes, trimmed and not empty, or at times another.
func testName(r *rand.Rand) string {
	if r.Intn(10) == 0 {
		return pick(r, []string{" ", "\t", ""}) + identText(r) + pick(r, []string{" ", "\n", "\u00a0"})
	}
	if r.Intn(2) == 0 {
		return identText(r)
	}
	for {
		if s := strings.TrimFunc(hostileText(r, 8), unicode.IsSpace); s != "" {
			return s
		}
	}
}

// typedHostile draws from channels with hostile names, whose values agree in type.
func typedHostile(r *rand.Rand) func(*rand.Rand) testlang.Event {
	type ch struct {
		name string
		kind int
	}
	var chs []ch
	for i := 0; i < 4; i++ {
		chs = append(chs, ch{chanName(r) + fmt.Sprint(i), r.Intn(3)})
	}
	return func(r *rand.Rand) testlang.Event {
		c := pick(r, chs)
		for {
			e := randEvent(r)
			e.Channel.Name = c.name
			t := e.Value.Type().String()
			if (c.kind == 0 && t == "()") || (c.kind == 1 && (t == "nat" || t == "int")) || (c.kind == 2 && t == "enum") {
				return e
			}
		}
	}
}

func randSuite(r *rand.Rand) testlang.Suite {
	ev := pick(r, []func(*rand.Rand) testlang.Event{typedEvent, typedHostile(r), typedHostile(r), randEvent})
	s := testlang.Suite{}
	for i := r.Intn(4); i >= 0; i-- {
		name := testName(r)
		if r.Intn(2) == 0 {
			t := trace.Forbidden{Name: name, Prefix: randTrace(r, ev, 6), Forbid: ev(r)}
			s[name] = t.Expand(name)
		} else {
			t := randTree(r, ev, []string{name, testName(r), testName(r) + "2"}, 3, 3)
			s[name] = &t
			if r.Intn(2) == 0 {
				for _, x := range nodes(&t)[1:] {
					if r.Intn(3) == 0 {
						x.ID = testlang.NodeID(pick(r, []string{testName(r), fmt.Sprintf("step%d", r.Intn(4))}))
					}
				}
			}
		}
	}
	return s
}

// looseSuite makes suites that need not be well-formed, to be carried all the same.
func looseSuite(r *rand.Rand) testlang.Suite {
	s := randSuite(r)
	for _, t := range s {
		for _, x := range nodes(t) {
			switch r.Intn(12) {
			case 0:
				x.Outcome = pick(r, []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomePass, testlang.OutcomeFail})
			case 1:
				x.Event = nil
			case 2:
				x.Tests = nil
			case 3:
				x.Tests = append(x.Tests, testName(r), "")
			case 4:
				x.ID = testlang.NodeID(hostileText(r, 5))
			}
		}
	}
	return s
}
