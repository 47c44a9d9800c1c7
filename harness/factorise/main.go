// Monitors factorisation: the failures after a trace, and their partition over spine nodes.
package main

import (
	"fmt"
	"sort"
	"strconv"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func seq(t trace.Trace) string {
	s := ""
	for _, e := range t {
		s += evKey(e) + ";"
	}
	return s
}

func main() {
	r, n := start()
	for i := 0; i < n; i++ {
		gen := smallEvent
		if r.Intn(4) == 0 {
			gen = randEvent
		}
		// A few traces and their prefixes, so that prefixes coincide.
		var pool []trace.Trace
		for k := 0; k < 1+r.Intn(3); k++ {
			t := randTrace(r, gen, pick(r, []int{4, 4, 4, 40}))
			for j := range t {
				pool = append(pool, append(trace.Trace{}, t[:j+1]...))
			}
			pool = append(pool, trace.Trace{})
		}
		tests := map[string]trace.Forbidden{}
		show := ""
		for k := r.Intn(pick(r, []int{12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 40, 300})); k > 0; k-- {
			nm := "t" + strconv.Itoa(k)
			if r.Intn(8) == 0 {
				nm = hostileText(r, 5) + strconv.Itoa(k)
			}
			if k == 1 && r.Intn(4) == 0 {
				nm = ""
			}
			f := pick(r, pool).ForbidWithName(gen(r), pick(r, []string{"", nm, "other"}))
			tests[nm] = f
			show += nm + ":" + seq(f.Prefix) + "!" + evKey(f.Forbid) + " "
		}
		after := pick(r, pool)
		if r.Intn(6) == 0 {
			after = randTrace(r, gen, pick(r, []int{4, 20}))
		}
		cas := map[string]any{"tests": show, "after": seq(after)}
		guard("factorise", cas, func() {
			want := map[string]testlang.Event{}
			ins, outs := 0, 0
			for nm, f := range tests {
				if seq(f.Prefix) == seq(after) {
					want[nm] = f.Forbid
					if f.Forbid.Channel.IsIn() {
						ins++
					} else {
						outs++
					}
				}
			}
			got := map[string]testlang.Event{}
			fs := factorise.Failures(tests, after)
			for _, f := range fs {
				_, dup := got[f.Test]
				expect(!dup, "a failure is listed twice", cas)
				got[f.Test] = f.Event
				w, ok := want[f.Test]
				if expect(ok, "a failure that is not after this trace: "+f.Test, cas) {
					expect(evKey(w) == evKey(f.Event), "a failure with another event", cas)
				}
			}
			expect(len(got) == len(want), fmt.Sprintf("%d failures, should be %d", len(got), len(want)), cas)

			spines := factorise.SpineNodes(tests, after)
			expect(len(spines) == ins+1, fmt.Sprintf("%d spine nodes for %d input failures", len(spines), ins), cas)
			placed := map[string]int{}
			for si := range spines {
				s := &spines[si]
				expect(s.Outcome == testlang.OutcomeInc, "a spine node is not inconclusive", cas)
				if len(after) > 0 {
					expect(s.Event != nil && evKey(*s.Event) == evKey(after[len(after)-1]), "a spine node is not on the last event of the trace", cas)
				}
				nin := 0
				for pi := range s.Next {
					p := &s.Next[pi]
					ok := p.Outcome == testlang.OutcomePass && p.Event != nil && len(p.Tests) == 1 && len(p.Next) == 1
					if !expect(ok, "a spine node has a child that is no test point: "+treeKey(p), cas) {
						continue
					}
					f := &p.Next[0]
					nm := p.Tests[0]
					expect(f.Outcome == testlang.OutcomeFail && f.Event == nil && len(f.Next) == 0 && len(f.Tests) == 1 && f.Tests[0] == nm, "a test point does not end in its failure: "+treeKey(p), cas)
					placed[nm]++
					w, isWanted := want[nm]
					if expect(isWanted, "a spine node holds a failure that is not after this trace: "+nm, cas) {
						expect(evKey(w) == evKey(*p.Event), "a test point is on another event than its test's forbidden event", cas)
					}
					if p.Event.Channel.IsIn() {
						nin++
					}
				}
				if nin > 0 {
					expect(len(s.Next) == 1, "an input failure shares its spine node", cas)
				} else {
					expect(si == len(spines)-1, "failures without inputs are not in the final spine node", cas)
				}
			}
			var names []string
			for nm := range want {
				names = append(names, nm)
				expect(placed[nm] == 1, fmt.Sprintf("failure %q is in %d spine nodes", nm, placed[nm]), cas)
			}
			sort.Strings(names)
			saw(fmt.Sprint(show, seq(after)), len(want) > 1)
			count("failures_placed", len(want))
			count("input_failures", ins)
			note("shapes", fmt.Sprint(ins, outs))
			if i < 2 {
				sample(cas)
			}
		})
	}
	done()
}
