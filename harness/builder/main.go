// Monitors a state machine builder that is used again and again, also after it refused something: what it builds is
// what a new builder makes of the same suite, and what it built before doesn't change any more.
package main

import (
	"encoding/json"
	"math/rand"
	"strconv"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func randSuite(r *rand.Rand) testlang.Suite {
	suite := testlang.Suite{}
	ev := typedEvent
	if r.Intn(3) == 0 {
		ev = smallEvent
	}
	for k := r.Intn(4); k >= 0; k-- {
		name := "t" + strconv.Itoa(k)
		if r.Intn(3) == 0 {
			suite[name] = randTrace(r, ev, 8).Forbid(ev(r)).Expand(name)
		} else {
			t := randTree(r, ev, []string{"x", name}, r.Intn(4), 3)
			suite[name] = &t
		}
		all := nodes(suite[name])
		if r.Intn(3) == 0 { // some identifiers, seldom the same twice
			for i := r.Intn(3); i >= 0; i-- {
				all[1+r.Intn(len(all)-1)].ID = testlang.NodeID("step" + strconv.Itoa(r.Intn(6)))
			}
		}
		if r.Intn(12) == 0 { // a conflict late in the test
			all[len(all)-1-r.Intn((len(all)+1)/2)].ID = "initial"
		}
	}
	return suite
}

func cloneSuite(s testlang.Suite) testlang.Suite {
	c := testlang.Suite{}
	for k, t := range s {
		t := cloneTree(*t)
		c[k] = &t
	}
	return c
}

// build gives the machines as JSON, or nothing if the suite is refused.
func build(b *stm.Builder, s testlang.Suite) (*stm.Suite, string) {
	vs, err := validate.FullSuite(s)
	if err != nil {
		return nil, "not well-formed"
	}
	suite, err := b.BuildSuite(vs)
	if err != nil {
		return nil, "refused"
	}
	bs, err := json.Marshal(suite)
	if err != nil {
		return nil, "not writable: " + err.Error()
	}
	return suite, string(bs)
}

func main() {
	r, n := start()
	for i := 0; i < n; i++ {
		guard("builder used again", i, func() {
			var b stm.Builder
			var kept []*stm.Suite
			var texts []string
			refused := false
			for k := 2 + r.Intn(5); k > 0; k-- {
				s := randSuite(r)
				key := ""
				for _, t := range s {
					key += treeKey(t)
				}
				var fresh stm.Builder
				_, want := build(&fresh, cloneSuite(s))
				suite, got := build(&b, s)
				expect(got == want, "a used builder builds something else than a new one", map[string]string{"got": clip(got), "want": clip(want), "after_refusal": strconv.FormatBool(refused)})
				if suite == nil {
					refused = true
					count("suites_refused", 1)
				} else {
					kept, texts = append(kept, suite), append(texts, got)
					count("suites_built", 1)
					if refused {
						count("suites_built_after_a_refusal", 1)
					}
					if r.Intn(3) == 0 { // once more, now that its nodes have their identifiers
						_, again := build(&b, s)
						expect(again == got, "building the same tests once more gives something else", map[string]string{"first": clip(got), "second": clip(again)})
						count("suites_built_twice", 1)
					}
				}
				saw(key, suite != nil)
			}
			for j, suite := range kept {
				bs, err := json.Marshal(suite)
				expect(err == nil && string(bs) == texts[j], "a machine changed while others were built", clip(texts[j]))
			}
		})
	}
	done()
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}
