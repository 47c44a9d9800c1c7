// Monitors the combination of types: all triples of types, and random folds in random orders.
package main

import (
	"fmt"

	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
)

func show(t *rstype.RsType) string {
	if t == nil {
		return "unknown"
	}
	return t.String()
}

// join is the model: "unknown" is neutral, numbers are ordered, everything else agrees with itself only.
func join(a, b string) string {
	rank := map[string]int{"nat": 1, "int": 2, "real": 3}
	switch {
	case a == "conflict" || b == "conflict":
		return "conflict"
	case a == "unknown":
		return b
	case b == "unknown" || a == b:
		return a
	case rank[a] > 0 && rank[b] > 0:
		if rank[a] > rank[b] {
			return a
		}
		return b
	}
	return "conflict"
}

func main() {
	r, n := start()
	all := []func() *rstype.RsType{
		func() *rstype.RsType { return nil }, rstype.Empty, rstype.Enum,
		func() *rstype.RsType { return rstype.Arithmos(rstype.ArithmosDomainNat) },
		func() *rstype.RsType { return rstype.Arithmos(rstype.ArithmosDomainInt) },
		func() *rstype.RsType { return rstype.Arithmos(rstype.ArithmosDomainReal) },
	}
	uni := func(a, b *rstype.RsType) (*rstype.RsType, string) {
		sa, sb := show(a), show(b)
		t, err := rstype.Unify(a, b)
		expect(show(a) == sa && show(b) == sb, "combining types changed one of them", sa+" "+sb)
		if err != nil {
			return nil, "conflict"
		}
		return t, show(t)
	}
	guard("pairs and triples", nil, func() {
		for _, fa := range all {
			_, s := uni(fa(), fa())
			expect(s == show(fa()), "not idempotent: "+show(fa())+" gives "+s, s)
			for _, fb := range all {
				_, ab := uni(fa(), fb())
				_, ba := uni(fb(), fa())
				want := join(show(fa()), show(fb()))
				expect(ab == want, fmt.Sprintf("%s with %s is %s, should be %s", show(fa()), show(fb()), ab, want), nil)
				expect(ab == ba, fmt.Sprintf("%s with %s depends on the order: %s or %s", show(fa()), show(fb()), ab, ba), nil)
				for _, fc := range all {
					t, s1 := uni(fa(), fb())
					if s1 != "conflict" {
						_, s1 = uni(t, fc())
					}
					t, s2 := uni(fb(), fc())
					if s2 != "conflict" {
						_, s2 = uni(fa(), t)
					}
					expect(s1 == s2, fmt.Sprintf("not associative: %s %s %s gives %s or %s", show(fa()), show(fb()), show(fc()), s1, s2), nil)
					saw(show(fa())+show(fb())+show(fc()), true)
				}
			}
		}
	})
	for i := 0; i < n; i++ {
		guard("fold", i, func() {
			var ts []*rstype.RsType
			names := ""
			want := "unknown"
			numeric := r.Intn(2) == 0
			for k := 1 + r.Intn(6); k > 0; k-- {
				t := pick(r, all)()
				if numeric {
					t = pick(r, all[3:])()
				}
				ts = append(ts, t)
				names += show(t) + " "
				want = join(want, show(t))
			}
			var acc *rstype.RsType
			got := "unknown"
			for _, k := range r.Perm(len(ts)) {
				if acc, got = uni(acc, ts[k]); got == "conflict" {
					break
				}
			}
			expect(got == want, "combining "+names+"gives "+got+", should be "+want, names)
			saw(names, len(ts) > 1)
			count("folds", 1)
		})
	}
	done()
}
