// Runs the libraries on many goroutines at once, under the race detector: independent pipelines on inputs of their own,
// and read-only operations on shared objects.  Every result is compared with that of running alone.
//
// usage: parallel SEED ROUNDS SCRATCH-DIR
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/gen"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

var date = regexp.MustCompile(`autogenerated by rtcg on [^\n]*`)

// input is what one goroutine works on; it shares nothing with the others'.
type input struct {
	csv   string
	conf  string
	dir   string
	bad   bool
	probe []string
	words []string // the texts of constants, in any case
}

func makeInput(r *rand.Rand, dir string, k int) input {
	var sb strings.Builder
	names := []string{"", "", "same", identText(r), "Test", "test"}
	for i := 1 + r.Intn(5); i > 0; i-- {
		if n := pick(r, names); n != "" {
			sb.WriteString(n + ": ")
		}
		for j := r.Intn(5); j >= 0; j-- {
			e := typedEvent(r)
			t, _ := e.MarshalText()
			sb.Write(t)
			if j > 0 {
				sb.WriteString(",")
			}
		}
		sb.WriteString("\n")
	}
	in := input{csv: sb.String(), dir: filepath.Join(dir, fmt.Sprintf("g%d", k))}
	if r.Intn(8) == 0 {
		in.bad = true
		in.csv += pick(r, []string{"nonsense\n", "e.in.3,e.in\n", "\"unclosed\n", ".in\n", "n.out.x, n.out.1\n"})
	}
	var c strings.Builder
	c.WriteString("<rtcg-gen>")
	for _, v := range []string{"animate", "ros"} {
		if r.Intn(4) == 0 {
			continue
		}
		fmt.Fprintf(&c, "<cpp variant=%q><include src=\"x%d.h\"/>", v, k)
		if r.Intn(2) == 0 {
			c.WriteString("<makefile/>")
		}
		if r.Intn(3) == 0 {
			fmt.Fprintf(&c, "<channel name=\"n\" type=\"T%d\"/>", k)
		}
		c.WriteString(pick(r, []string{"", "<catkin/>", fmt.Sprintf("<catkin><package><name>p%d_${NAME}</name><depend>d%d</depend></package></catkin>", k, k)}))
		c.WriteString("</cpp>")
	}
	c.WriteString("</rtcg-gen>")
	in.conf = c.String()
	for i := 0; i < 6; i++ {
		in.probe = append(in.probe, identText(r))
		w := []byte(pick(r, []string{"in", "out", "pass", "fail", "inc", "unset", "animate", "ros", "nat", "int", "real", "enum", "empty", "()", "none"}))
		for j := range w {
			if r.Intn(3) == 0 {
				w[j] = bytes.ToUpper(w[j : j+1])[0]
			}
		}
		in.words = append(in.words, string(w))
	}
	return in
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// work does everything with one input, and gives what came out.
func work(in input) (out []string) {
	say := func(what string, v any) { out = append(out, fmt.Sprintf("%s=%v", what, v)) }
	traces, err := trace.Read(strings.NewReader(in.csv))
	if err != nil {
		say("read", err)
		return out
	}
	named := trace.Name(traces)
	suite := trace.ExpandAll(named)
	var b1, b2 bytes.Buffer
	must(suite.Write(&b1))
	say("tests", b1.String())
	back, err := testlang.ReadSuite(bytes.NewReader(b1.Bytes()))
	must(err)
	flat, err := trace.CollapseAll(back)
	say("collapsed", err)
	for _, k := range keys(flat) {
		say(k, flat[k])
	}
	for _, k := range keys(named) {
		p := named[k].Prefix
		for i := 0; i <= len(p); i++ {
			fs := factorise.Failures(named, p[:i])
			ns := make([]string, len(fs))
			for j, f := range fs {
				ns[j] = fmt.Sprint(f.Test, f.Event.String())
			}
			sort.Strings(ns)
			say("failures", ns)
		}
	}
	valid, err := validate.FullSuite(back)
	if err != nil {
		say("invalid", "yes") // which of several is reported is not determined
		return out
	}
	var b stm.Builder
	machines, err := b.BuildSuite(valid)
	if err != nil {
		say("unbuildable", "yes")
		return out
	}
	must(machines.Write(&b2))
	say("stms", b2.String())
	again, err := stm.ReadSuite(bytes.NewReader(b2.Bytes()))
	must(err)
	for _, s := range in.probe {
		say(s, strmanip.ToLowerUnderscored(s)+strmanip.UpcaseFirst(s))
	}
	cfg, err := config.Load(filepath.Join(in.dir, "gen.xml"))
	must(err)
	for i, w := range in.words {
		var ev testlang.Event
		var out testlang.Outcome
		var rt rstype.RsType
		var va cpp.Variant
		say("words", fmt.Sprint(ev.UnmarshalText([]byte(fmt.Sprintf("c%d.%s.%d", i, w, i))), ev.String(), out.UnmarshalText([]byte(w)), out, rt.UnmarshalText([]byte(w)), rt.String(), va.UnmarshalText([]byte(w)), va))
	}
	g, err := gen.New(*cfg, filepath.Join(in.dir, "out"))
	must(err)
	if err := g.OnSuite(again).Generate(); err != nil {
		say("generate", err)
		return out
	}
	filepath.Walk(filepath.Join(in.dir, "out"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			bs, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(in.dir, p)
			out = append(out, fmt.Sprintf("%s=%x", rel, sha256.Sum256(date.ReplaceAll(bs, nil))))
		}
		return nil
	})
	return out
}

func keys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func same(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results alone, %d in parallel", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			cut := func(s string) string {
				if len(s) > 400 {
					return s[:400]
				}
				return s
			}
			return fmt.Sprintf("alone %q, in parallel %q", cut(a[i]), cut(b[i]))
		}
	}
	return ""
}

// together runs f on n goroutines that start together; nothing in here orders what they do.
func together(n int, f func(k int)) {
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	ready.Add(n)
	done.Add(n)
	for k := 0; k < n; k++ {
		k := k
		go func() {
			defer done.Done()
			ready.Done()
			<-gate
			f(k)
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
}

func independent(r *rand.Rand, dir string, round int) {
	n := 2 + r.Intn(9)
	ins := make([]input, n)
	alone := make([][]string, n)
	for k := range ins {
		ins[k] = makeInput(r, dir, k)
		must(os.MkdirAll(ins[k].dir, 0o755))
		must(os.WriteFile(filepath.Join(ins[k].dir, "gen.xml"), []byte(ins[k].conf), 0o644))
		for _, v := range []string{"animate", "ros"} {
			c := filepath.Join(ins[k].dir, v, "src", "convert")
			must(os.MkdirAll(c, 0o755))
			must(os.WriteFile(filepath.Join(c, "convert.cpp"), []byte("// "+v), 0o644))
		}
		if round%2 == 0 { // half of the time, running alone comes afterwards, so that nothing has been initialised yet
			alone[k] = work(ins[k])
		}
	}
	clean := func() {
		for k := range ins {
			must(os.RemoveAll(filepath.Join(ins[k].dir, "out")))
		}
	}
	clean()
	got := make([][]string, n)
	panics := make([]any, n)
	together(n, func(k int) {
		defer func() { panics[k] = recover() }()
		got[k] = work(ins[k])
	})
	clean()
	for k := range ins {
		if alone[k] == nil {
			alone[k] = work(ins[k])
		}
		if panics[k] != nil {
			fail(fmt.Sprintf("goroutine %d of %d panicked: %v", k, n, panics[k]), ins[k].csv)
			continue
		}
		if d := same(alone[k], got[k]); d != "" {
			fail("a pipeline gave another result next to others: "+d, ins[k].csv)
		}
		saw(ins[k].csv+ins[k].conf, len(got[k]) > 1)
		sample(map[string]any{"goroutines": n, "traces": ins[k].csv, "results": len(got[k])})
		count("results_compared", len(got[k]))
		if len(got[k]) > 10 {
			count("whole_pipelines", 1)
		}
	}
	count("parallel_pipelines", n)
	note("degrees_of_parallelism", fmt.Sprint(n))
	must(os.RemoveAll(dir))
}

// shared are objects that many may read at once.
type shared struct {
	named  map[string]trace.Forbidden
	order  []trace.Trace
	suite  testlang.Suite
	tree   testlang.Node
	types  []*rstype.RsType
	stms   *stm.Suite
	set    structure.Set[string]
	events []testlang.Event
	valid  *validate.Test
}

func makeShared(r *rand.Rand) *shared {
	s := &shared{named: map[string]trace.Forbidden{}}
	for i := 0; i < 4+r.Intn(4); i++ {
		t := trace.Forbidden{Prefix: randTrace(r, typedEvent, 4), Forbid: typedEvent(r)}
		if i > 0 && r.Intn(2) == 0 {
			t.Prefix = s.order[0]
		}
		s.named[fmt.Sprintf("t%d", i)] = t
		s.order = append(s.order, t.Prefix)
	}
	s.suite = trace.ExpandAll(s.named)
	s.tree = randTree(r, typedEvent, []string{"a", "b", "c"}, 3, 3)
	for i := 0; i < 5; i++ {
		e := randEvent(r)
		s.events = append(s.events, e)
		s.types = append(s.types, e.Value.Type())
	}
	s.types = append(s.types, rstype.Arithmos(rstype.ArithmosDomainReal), nil, rstype.Empty(), rstype.Enum())
	vs, err := validate.FullSuite(trace.ExpandAll(s.named))
	must(err)
	var b stm.Builder
	s.stms, err = b.BuildSuite(vs)
	must(err)
	s.set = structure.NewSet("x", "y", identText(r), identText(r))
	s.valid, err = validate.Full(&s.tree)
	must(err)
	return s
}

type op struct {
	name string
	run  func(s *shared, r *rand.Rand) string
}

func js(v any) string {
	bs, err := json.Marshal(v)
	return fmt.Sprint(string(bs), err)
}

var ops = []op{
	{"write a test suite", func(s *shared, r *rand.Rand) string {
		var b bytes.Buffer
		err := s.suite.Write(&b)
		return fmt.Sprint(b.String(), err)
	}},
	{"write a state machine suite", func(s *shared, r *rand.Rand) string {
		var b bytes.Buffer
		err := s.stms.Write(&b)
		return fmt.Sprint(b.String(), err)
	}},
	{"write a tree", func(s *shared, r *rand.Rand) string { return js(&s.tree) }},
	{"walk a tree", func(s *shared, r *rand.Rand) string {
		var sb strings.Builder
		err := testlang.Walk(&s.tree, func(n *testlang.Node) error {
			fmt.Fprint(&sb, n.Outcome, n.Tests, n.Event != nil, ";")
			return nil
		})
		return fmt.Sprint(sb.String(), err)
	}},
	{"collapse", func(s *shared, r *rand.Rand) string {
		flat, err := trace.CollapseAll(s.suite)
		out := fmt.Sprint(err)
		for _, k := range keys(flat) {
			out += fmt.Sprint(k, flat[k])
		}
		return out
	}},
	{"expand", func(s *shared, r *rand.Rand) string {
		t := s.named["t0"]
		return js(t.Expand("x"))
	}},
	{"factorise", func(s *shared, r *rand.Rand) string {
		out := ""
		for _, t := range s.order {
			fs := factorise.Failures(s.named, t)
			ns := []string{}
			for _, f := range fs {
				ns = append(ns, fmt.Sprint(f.Test, f.Event.String()))
			}
			sort.Strings(ns)
			out += fmt.Sprint(ns)
		}
		return out
	}},
	{"spine nodes", func(s *shared, r *rand.Rand) string {
		out := 0
		for _, t := range s.order {
			if len(t) > 0 {
				out += len(factorise.SpineNodes(s.named, t))
			}
		}
		return fmt.Sprint(out)
	}},
	{"unify", func(s *shared, r *rand.Rand) string {
		out := ""
		for _, a := range s.types {
			for _, b := range s.types {
				u, err := rstype.Unify(a, b)
				if u != nil {
					out += u.String()
				}
				out += fmt.Sprint(err != nil)
			}
		}
		return out
	}},
	{"types as text", func(s *shared, r *rand.Rand) string {
		out := ""
		for _, a := range s.types {
			if a != nil {
				t, err := a.MarshalText()
				out += fmt.Sprint(string(t), err, a.String(), a.IsEmpty(), a.IsEnum(), a.IsInt(), a.IsNat(), a.IsReal())
			}
		}
		return out
	}},
	{"events as text", func(s *shared, r *rand.Rand) string {
		out := ""
		for i := range s.events {
			e := &s.events[i]
			t, err := e.MarshalText()
			out += fmt.Sprint(string(t), err, e.String(), e.Equals(s.events[0]), e.Value.StringValue(), e.Channel.IsIn(), e.Channel.String())
		}
		return out
	}},
	{"compare traces", func(s *shared, r *rand.Rand) string {
		out := ""
		for _, a := range s.order {
			for _, b := range s.order {
				out += fmt.Sprint(a.Equals(b), a.IsPrefixOf(b))
			}
			out += a.String()
		}
		return out
	}},
	{"query state machines", func(s *shared, r *rand.Rand) string {
		out := ""
		for _, k := range keys(s.stms.Tests) {
			m := s.stms.Tests[k]
			out += fmt.Sprint(m.InitialState(), m.Tests.Values(), m.Tests.String(), js(m))
			ts := m.TransitionSets()
			for i := range ts {
				out += fmt.Sprint(ts[i].Channel.String(), len(ts[i].States))
			}
			for _, st := range m.States {
				inc, pass, fl := st.Verdict.Inc(), st.Verdict.Pass(), st.Verdict.Fail()
				i, p, f := structure.Set[string](inc), structure.Set[string](pass), structure.Set[string](fl)
				out += fmt.Sprint(st.HasIn(), st.In() != nil, st.Verdict.Tests(), st.Verdict.IsFail(), i.Values(), p.Values(), f.Values(), st.String())
			}
		}
		return out
	}},
	{"query a set", func(s *shared, r *rand.Rand) string {
		return fmt.Sprint(s.set.Values(), s.set.Contains("x"), s.set.Contains("zz"), s.set.String(), js(&s.set))
	}},
	{"validate a tree's nodes", func(s *shared, r *rand.Rand) string {
		err := testlang.Walk(&s.tree, func(n *testlang.Node) error {
			if n != &s.tree {
				return validate.Node(n)
			}
			return validate.Root(n)
		})
		return fmt.Sprint(err, s.valid.Root() == &s.tree)
	}},
}

func sharing(r *rand.Rand, round int) {
	s := makeShared(r)
	n := 2 + r.Intn(7)
	plan := make([][]int, n)
	for k := range plan {
		for j := 0; j < 12; j++ {
			plan[k] = append(plan[k], r.Intn(len(ops)))
		}
	}
	alone := make([]string, len(ops))
	if round%2 == 0 {
		for i, o := range ops {
			alone[i] = o.run(s, nil)
		}
	}
	got := make([][]string, n)
	panics := make([]any, n)
	together(n, func(k int) {
		defer func() { panics[k] = recover() }()
		for _, i := range plan[k] {
			got[k] = append(got[k], ops[i].run(s, nil))
		}
	})
	if round%2 == 1 {
		for i, o := range ops {
			alone[i] = o.run(s, nil)
		}
	}
	for k := range plan {
		if panics[k] != nil {
			fail(fmt.Sprintf("reading shared objects panicked: %v", panics[k]), fmt.Sprint(plan[k]))
			continue
		}
		for j, i := range plan[k] {
			if got[k][j] != alone[i] {
				fail(fmt.Sprintf("%s gave another result next to others: alone %.300q, in parallel %.300q", ops[i].name, alone[i], got[k][j]), round)
			}
			for l := range plan {
				if l != k {
					for _, m := range plan[l] {
						note("pairs_of_operations_at_once", fmt.Sprint(i, ",", m))
					}
				}
			}
		}
		count("shared_reads", len(plan[k]))
	}
	saw(fmt.Sprint("shared", plan, treeKey(&s.tree)), true)
}

func main() {
	caseLimit = 0 // several goroutines share the processor time
	r, n := start()
	dir := os.Args[3]
	for i := 0; i < n; i++ {
		runtime.GOMAXPROCS(pick(r, []int{1, 2, 4, 8, 16}))
		i := i
		guard("independent", i, func() { independent(r, filepath.Join(dir, fmt.Sprint(i)), i) })
		guard("sharing", i, func() { sharing(r, i) })
	}
	done()
}
