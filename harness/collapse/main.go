// Monitors collapsing: against expansion, and against an independent judgement of arbitrary trees.
package main

import (
	"math/rand"
	"strconv"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

// class says what a collapse of the tree must do: "ok", "error", or "any" where the property is silent.
func class(root *testlang.Node) (string, []testlang.Event) {
	if root == nil || root.Event != nil || root.Outcome != testlang.OutcomeUnset || len(root.Tests) == 0 {
		return "error", nil
	}
	var evs []testlang.Event
	var outs []testlang.Outcome
	for n := root; ; {
		if len(n.Next) != 1 {
			return "error", nil // branches, or ends without a failing leaf
		}
		n = &n.Next[0]
		if len(n.Tests) == 0 {
			return "error", nil
		}
		if n.Outcome == testlang.OutcomeFail {
			if n.Event != nil || len(n.Next) != 0 {
				return "error", nil
			}
			break
		}
		if (n.Outcome != testlang.OutcomePass && n.Outcome != testlang.OutcomeInc) || n.Event == nil {
			return "error", nil
		}
		evs, outs = append(evs, *n.Event), append(outs, n.Outcome)
	}
	// The failing leaf was reached; is it the expansion of a trace?
	for i, o := range outs {
		if (i == len(outs)-1) != (o == testlang.OutcomePass) {
			return "any", nil
		}
	}
	if len(outs) == 0 {
		return "any", nil
	}
	return "ok", evs
}

func same(got trace.Forbidden, evs []testlang.Event) bool {
	if len(got.Prefix) != len(evs)-1 || evKey(got.Forbid) != evKey(evs[len(evs)-1]) {
		return false
	}
	for i := range got.Prefix {
		if evKey(got.Prefix[i]) != evKey(evs[i]) {
			return false
		}
	}
	return true
}

func mutate(r *rand.Rand, root *testlang.Node) string {
	all := nodes(root)
	n := pick(r, all)
	ev := smallEvent(r)
	switch r.Intn(12) {
	case 0:
		n.Tests = nil
		return "untag"
	case 1:
		n.Outcome = testlang.Outcome(r.Intn(7))
		return "outcome"
	case 2:
		n.Event = nil
		return "no event"
	case 3:
		n.Event = &ev
		return "event"
	case 4:
		n.Next = nil
		return "cut"
	case 5:
		n.Next = append(n.Next, testlang.TestPoint(ev, "t"))
		return "branch"
	case 6:
		f := testlang.Fail()
		f.Mark("t")
		n.Next = append(n.Next, f)
		return "branch to fail"
	case 7:
		n.Next = append([]testlang.Node{testlang.TestPoint(ev, "t")}, n.Next...)
		return "branch first"
	case 8:
		if len(n.Next) > 0 {
			n.Next = append(n.Next, cloneTree(n.Next[0]))
		}
		return "double"
	case 9:
		n.Outcome = testlang.OutcomePass
		return "pass"
	case 10:
		n.Outcome = testlang.OutcomeInc
		return "inc"
	default:
		i := testlang.Inc(ev, n.Next...)
		i.Mark("t")
		n.Next = []testlang.Node{i}
		return "insert"
	}
}

func main() {
	r, n := start()
	for i := 0; i < n; i++ {
		// A trace, expanded and collapsed.
		max := 6
		if i%50 == 0 {
			max = 400
		}
		if i%500 == 0 {
			max = 6000
		}
		t := randTrace(r, randEvent, max)
		name := pick(r, []string{"", "x", "tést"})
		f := t.ForbidWithName(randEvent(r), name)
		evs := append(append([]testlang.Event{}, t...), f.Forbid)
		tag := pick(r, []string{"", "t", "a b"})
		guard("collapse(expand(trace))", f.String(), func() {
			got, err := trace.Collapse(f.Expand(tag))
			if expect(err == nil, "collapsing an expansion failed", f.String()) {
				expect(same(got, evs), "collapse(expand(t)) differs: "+got.String(), f.String())
			}
			saw("rt"+f.String(), len(t) > 0)
			count("expansions_collapsed", 1)
			if i < 2 {
				sample(f.String())
			}
		})

		// An arbitrary tree.
		var tree testlang.Node
		if r.Intn(3) > 0 {
			max := 5
			if i%20 == 3 {
				max = 300
			}
			if i%400 == 7 {
				max = 3000
			}
			tree = *randTrace(r, smallEvent, max).Forbid(smallEvent(r)).Expand("t")
		} else {
			tree = randTree(r, smallEvent, []string{"t", "u"}, 3, 2)
		}
		what := ""
		for k := r.Intn(3); k > 0; k-- {
			what += mutate(r, &tree) + " "
		}
		want, wevs := class(&tree)
		key := treeKey(&tree)
		guard("collapse("+what+")", key, func() {
			got, err := trace.Collapse(&tree)
			switch want {
			case "error":
				expect(err != nil, "collapsing a tree that is not a chain of well-formed nodes ending in a failing leaf gave "+got.String()+" (mutations: "+what+")", key)
			case "ok":
				expect(err == nil && same(got, wevs), "collapsing the expansion of a trace gave "+got.String(), key)
			}
			count("trees_"+want, 1)
			note("mutations", what)
			saw(key, true)
		})
	}
	guard("collapse(nil)", nil, func() {
		_, err := trace.Collapse(nil)
		expect(err != nil, "collapsing no tree succeeded", nil)
	})
	guard("CollapseAll", nil, func() {
		for i := 0; i < n/10+1; i++ {
			suite := testlang.Suite{}
			want := map[string][]testlang.Event{}
			for k := r.Intn(5); k > 0; k-- {
				f := randTrace(r, smallEvent, 4).Forbid(smallEvent(r))
				nm := "t" + strconv.Itoa(k)
				suite[nm] = f.Expand(nm)
				want[nm] = append(append([]testlang.Event{}, f.Prefix...), f.Forbid)
			}
			got, err := trace.CollapseAll(suite)
			ok := err == nil && len(got) == len(want)
			for nm, evs := range want {
				ok = ok && same(got[nm], evs)
			}
			expect(ok, "collapsing a suite differs", len(want))
			if len(suite) > 0 {
				for nm := range suite {
					bad := cloneTree(*suite[nm])
					bad.Next = append(bad.Next, testlang.TestPoint(smallEvent(r), "t"))
					suite[nm] = &bad
					break
				}
				_, err = trace.CollapseAll(suite)
				expect(err != nil, "collapsing a suite with a branching test succeeded", len(want))
			}
			count("suites_collapsed", 1)
		}
	})
	done()
}
