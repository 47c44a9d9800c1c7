// Monitors sets, stacks, walks, traces and verdicts against plain models.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func checkSet[T comparable](r *rand.Rand, what string, lots int, gen func() T) {
	model := map[T]bool{}
	var order []T
	init := make([]T, lots*r.Intn(4))
	for i := range init {
		init[i] = gen()
	}
	s := structure.NewSet(init...)
	for _, v := range init {
		model[v] = true
		order = append(order, v)
	}
	for k := r.Intn(12); k > 0; k-- {
		vs := make([]T, lots*r.Intn(4))
		for i := range vs {
			vs[i] = gen()
			model[vs[i]] = true
			order = append(order, vs[i])
		}
		s.Add(vs...)
		probe := gen()
		expect(s.Contains(probe) == model[probe], what+": Contains is wrong", fmt.Sprint(order, probe))
	}
	vals := s.Values()
	seen := map[T]bool{}
	for _, v := range vals {
		expect(!seen[v], what+": a member is listed twice", fmt.Sprint(order, v))
		seen[v] = true
		expect(model[v] && s.Contains(v), what+": lists something not added", fmt.Sprint(order, v))
	}
	expect(len(vals) == len(model), what+": "+strconv.Itoa(len(vals))+" members listed, should be "+strconv.Itoa(len(model)), fmt.Sprint(order))
	// The order does not depend on the history of the set, nor on when it is asked for.
	t := structure.NewSet[T]()
	for _, i := range r.Perm(len(order)) {
		t.Add(order[i])
		if lots == 1 && r.Intn(3) == 0 || r.Intn(lots*5) == 0 {
			_ = t.Values()
		}
	}
	for k := 0; k < 3; k++ {
		expect(reflect.DeepEqual(t.Values(), vals), what+": the order of members changes", fmt.Sprint(vals, t.Values()))
	}
	expect(s.String() == t.String(), what+": the text of a set changes", fmt.Sprint(vals))
	// JSON.
	bs, err := json.Marshal(&s)
	var u structure.Set[T]
	if expect(err == nil, what+": writing failed", fmt.Sprint(vals)) && expect(json.Unmarshal(bs, &u) == nil, what+": reading back failed", string(bs)) {
		expect(reflect.DeepEqual(u.Values(), vals), what+": JSON changed the set", string(bs))
		u.Add(gen())
		before := fmt.Sprint(u.Values())
		if expect(json.Unmarshal(bs, &u) == nil, what+": reading into a set in use failed", string(bs)) {
			expect(reflect.DeepEqual(u.Values(), vals), what+": reading into a set that had members didn't replace them", before+" then "+string(bs))
		}
	}
	// Values is a copy.
	if len(vals) > 0 {
		vals[0] = gen()
		expect(reflect.DeepEqual(s.Values(), t.Values()), what+": changing the list of members changed the set", nil)
	}
	saw(what+fmt.Sprint(order), len(order) > 1)
	count("sets", 1)
}

func checkStack(r *rand.Rand) {
	var s structure.Stack[int]
	var m []int
	log := ""
	steps, grow, clear := 60, 5, 4
	if r.Intn(500) == 0 {
		steps, grow, clear = 6000, 8, 200
	}
	for k := 0; k < steps; k++ {
		switch op := r.Intn(10); {
		case op < grow:
			s.Push(k)
			m = append(m, k)
			log += "+"
		case op < 9:
			if len(m) > 0 {
				got := s.Pop()
				expect(got == m[len(m)-1], fmt.Sprintf("popped %d, should be %d", got, m[len(m)-1]), log)
				m = m[:len(m)-1]
				log += "-"
			}
		default:
			if r.Intn(clear) == 0 {
				s.Clear()
				m = nil
				log += "0"
			}
		}
		if !expect(s.IsEmpty() == (len(m) == 0), "emptiness is wrong", log) {
			return
		}
	}
	for len(m) > 0 {
		expect(s.Pop() == m[len(m)-1], "popped another item", log)
		m = m[:len(m)-1]
	}
	expect(s.IsEmpty(), "not empty after all items were popped", log)
	saw("stack"+log, true)
	count("stack_histories", 1)
}

func checkWalk(r *rand.Rand) {
	tree := randTree(r, smallEvent, []string{"t", "u", "v"}, r.Intn(5)+1, r.Intn(4)+1)
	if r.Intn(8) == 0 {
		tree = randTree(r, smallEvent, []string{"t", "u", "v"}, r.Intn(2)+1, 10+r.Intn(60))
	}
	if r.Intn(500) == 0 { // a very wide one
		at := pick(r, nodes(&tree))
		for k := 1000 + r.Intn(9000); k > 0; k-- {
			at.Next = append(at.Next, testlang.TestPoint(smallEvent(r), "t"))
		}
	}
	want := nodes(&tree)
	var got []*testlang.Node
	err := testlang.Walk(&tree, func(n *testlang.Node) error { got = append(got, n); return nil })
	expect(err == nil && len(got) == len(want), fmt.Sprintf("visited %d nodes of %d", len(got), len(want)), treeKey(&tree))
	for i := range want {
		if i < len(got) && got[i] != want[i] {
			fail("visit "+strconv.Itoa(i)+" is another node than in pre-order", treeKey(&tree))
			break
		}
	}
	// Stop at the first error.
	stop := r.Intn(len(want))
	mine := errors.New("stop")
	visits := 0
	err = testlang.Walk(&tree, func(n *testlang.Node) error {
		visits++
		if n == want[stop] {
			return mine
		}
		return nil
	})
	expect(errors.Is(err, mine), "the error of the visit was lost", err)
	expect(visits == stop+1, fmt.Sprintf("%d visits although visit %d failed", visits, stop+1), treeKey(&tree))
	key := treeKey(&tree)
	tags := pick(r, [][]string{{"x"}, {"x", "y"}, {}})
	testlang.MarkAll(&tree, tags...)
	for _, n := range nodes(&tree) {
		expect(len(n.Tests) == len(tags) && strings.Join(n.Tests, ",") == strings.Join(tags, ","), "MarkAll missed a node", key)
	}
	saw("walk"+key, len(want) > 3)
	count("trees_walked", 1)
	count("nodes_visited", len(want))
}

func keys(t trace.Trace) []string {
	out := make([]string, len(t))
	for i, e := range t {
		out[i] = evKey(e)
	}
	return out
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkTrace(r *rand.Rand) {
	gen := smallEvent
	if r.Intn(3) == 0 {
		gen = randEvent
	}
	max := pick(r, []int{5, 5, 5, 5, 40, 300})
	if r.Intn(4) == 0 { // values of different kinds but the same text
		inner := gen
		gen = func(r *rand.Rand) testlang.Event {
			e := inner(r)
			if r.Intn(4) == 0 {
				e.Value = value.Enum(e.Value.StringValue())
			}
			return e
		}
	}
	c := randTrace(r, gen, max)
	ts := []trace.Trace{c, randTrace(r, gen, max), append(trace.Trace{}, c[:r.Intn(len(c)+1)]...), append(append(trace.Trace{}, c...), gen(r)), {}}
	if len(c) > 0 {
		d := append(trace.Trace{}, c...)
		d[r.Intn(len(d))] = gen(r)
		ts = append(ts, d)
	}
	for i, a := range ts {
		for j, b := range ts {
			ka, kb := keys(a), keys(b)
			want := isPrefix(ka, kb)
			expect(a.IsPrefixOf(b) == want, fmt.Sprintf("prefix(%s, %s) is not %v", a, b, want), fmt.Sprint(ka, kb))
			weq := want && len(ka) == len(kb)
			expect(a.Equals(b) == weq, fmt.Sprintf("equals(%s, %s) is not %v", a, b, weq), fmt.Sprint(ka, kb))
			expect(a.Equals(b) == (a.IsPrefixOf(b) && b.IsPrefixOf(a)), "equality disagrees with prefix both ways", fmt.Sprint(ka, kb))
			if a.IsPrefixOf(b) {
				count("prefix_pairs", 1)
			}
			saw(fmt.Sprint("pfx", ka, kb), i != j)
		}
	}
}

func checkVerdict(r *rand.Rand) {
	v := verdict.Verdict{}
	m := map[string]testlang.Outcome{}
	outs := []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomePass, testlang.OutcomeFail}
	few, many := 8, 0
	if r.Intn(10) == 0 {
		few, many = 60, 150
	}
	for k := r.Intn(few); k > 0; k-- {
		o := pick(r, outs)
		var ts []string
		for j := r.Intn(4); j > 0; j-- {
			t := pick(r, []string{"a", "b", "c", "d", "tést", "z 1", "A", "", " ", "a "})
			if many > 0 && r.Intn(8) > 0 {
				t = fmt.Sprintf("t%d", r.Intn(many))
			}
			ts = append(ts, t)
			m[t] = o
		}
		v.Add(o, ts...)
	}
	key := fmt.Sprint(m)
	names := []string{}
	for t := range m {
		names = append(names, t)
	}
	sort.Strings(names)
	expect(reflect.DeepEqual(v.Tests(), names), fmt.Sprintf("tests are %v", v.Tests()), key)
	qs := map[testlang.Outcome]struct {
		is  bool
		set verdict.TestSet
	}{
		testlang.OutcomeUnset: {v.Is(testlang.OutcomeUnset), v.SetOf(testlang.OutcomeUnset)},
		testlang.OutcomeInc:   {v.IsInc(), v.Inc()},
		testlang.OutcomePass:  {v.IsPass(), v.Pass()},
		testlang.OutcomeFail:  {v.IsFail(), v.Fail()},
	}
	for o, q := range qs {
		var want []string
		for _, t := range names {
			if m[t] == o {
				want = append(want, t)
			}
		}
		expect(q.is == (len(want) > 0) && v.Is(o) == q.is, fmt.Sprintf("asking for any %s gave %v", o, q.is), key)
		for _, ts := range []verdict.TestSet{q.set, v.SetOf(o)} {
			s := structure.Set[string](ts)
			got := s.Values()
			sort.Strings(got)
			expect(strings.Join(got, "|") == strings.Join(want, "|"), fmt.Sprintf("tests with outcome %s are %v", o, got), key)
		}
	}
	bs, err := json.Marshal(&v)
	var w verdict.Verdict
	expect(err == nil && json.Unmarshal(bs, &w) == nil && reflect.DeepEqual(v, w), "JSON changed the verdict: "+string(bs), key)
	saw("verdict"+key, len(m) > 1)
	count("verdicts", 1)
}

func main() {
	r, n := start()
	for i := 0; i < n; i++ {
		guard("set", i, func() {
			if i%1000 == 9 { // big ones
				checkSet(r, "set of many numbers", 1+r.Intn(300), func() int { return r.Intn(200000) - 5000 })
				checkSet(r, "set of many strings", 1+r.Intn(100), func() string { return identText(r) })
			}
			checkSet(r, "set of strings", 1, func() string { return pick(r, []string{"", "a", "b", "ab", "é", "10", "9", identText(r)}) })
			stem := strings.Repeat(pick(r, []string{"a", "Zz", "é", "7"}), pick(r, []int{3, 8, 16, 40, 300}))
			checkSet(r, "set of long strings", 1, func() string { return stem + pick(r, []string{"", "1", "2", "10", "a", "b", "ab", "B"}) })
			checkSet(r, "set of long strings", 1, func() string { return pick(r, []string{"", "1", "2", "10", "a", "b", "ab", "B"}) + stem })
			checkSet(r, "set of numbers", 1, func() int { return r.Intn(25) - 5 })
			checkSet(r, "set of node ids", 1, func() testlang.NodeID { return testlang.NodeID("step" + strconv.Itoa(r.Intn(15))) })
		})
		guard("stack", i, func() { checkStack(r) })
		guard("walk", i, func() { checkWalk(r) })
		guard("trace", i, func() { checkTrace(r) })
		guard("verdict", i, func() { checkVerdict(r) })
	}
	sample(map[string]any{"walked": func() string { t := randTree(r, smallEvent, []string{"t"}, 2, 2); return treeKey(&t) }()})
	done()
}
