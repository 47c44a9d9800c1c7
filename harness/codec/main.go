// Monitors the text encodings of events, channels, values, outcomes, kinds, types and variants.
package main

import (
	"encoding"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func trim(s string) string { return strings.TrimFunc(s, unicode.IsSpace) }

// isInt says whether s is a decimal integer of 64 bits, independently of strconv.
func isInt(s string) (int64, bool) {
	b := s
	neg := false
	if b != "" && (b[0] == '+' || b[0] == '-') {
		neg = b[0] == '-'
		b = b[1:]
	}
	if b == "" {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(b); i++ {
		if b[i] < '0' || b[i] > '9' {
			return 0, false
		}
		d := uint64(b[i] - '0')
		if n > (1<<63)/10 {
			return 0, false
		}
		n = n*10 + d
		if n > 1<<63 || (!neg && n == 1<<63) {
			return 0, false
		}
	}
	if neg {
		return -int64(n), true
	}
	return int64(n), true
}

func modelValue(s string) string {
	s = trim(s)
	if n, ok := isInt(s); ok {
		return "int " + strconv.FormatInt(n, 10)
	}
	return "enum " + s
}

func showValue(v value.Value) string {
	t := v.Type()
	switch {
	case v.IsEmpty():
		return "none"
	case t.IsEnum():
		return "enum " + v.StringValue()
	default:
		return "int " + v.StringValue()
	}
}

func modelKind(s string) (channel.Kind, bool) {
	switch strings.ToLower(s) {
	case "in":
		return channel.KindIn, true
	case "out":
		return channel.KindOut, true
	case "call":
		return channel.KindCall, true
	}
	return 0, false
}

// modelEvent is what a text denotes, written from the format's description.
func modelEvent(s string) (string, bool) {
	i := strings.IndexByte(s, '.')
	if i < 0 {
		return "", false
	}
	name, rest := trim(s[:i]), s[i+1:]
	val, has := "", false
	if j := strings.IndexByte(rest, '.'); j >= 0 {
		rest, val, has = rest[:j], rest[j+1:], true
	}
	k, ok := modelKind(trim(rest))
	if !ok || name == "" {
		return "", false
	}
	if !has {
		return show(name, k, "none"), true
	}
	return show(name, k, modelValue(val)), true
}

func show(name string, k channel.Kind, v string) string { return fmt.Sprintf("%q %d %q", name, k, v) }

func showEvent(e testlang.Event) string {
	return show(e.Channel.Name, e.Channel.Kind, showValue(e.Value))
}

// nearKinds holds texts that a reader might take to be a direction, but that aren't.
var nearKinds = []string{"input", "output", "inputs", "i", "o", "c", "function", "func", "event", "operation", "op", "inout", "read", "write", "get", "set", "send", "recv", "inn", "ou", "cal", "calls", "called", "incoming", "outgoing", "outcall", "input ", "any", "none", "0", "1", "2", "3"}

func eventText(r *rand.Rand) string {
	sp := func() string {
		if r.Intn(6) == 0 {
			return pick(r, []string{" ", "\t", "  ", "\u00a0", "\n", "\u3000"})
		}
		return ""
	}
	k := []byte(pick(r, []string{"in", "out", "call"}))
	if r.Intn(8) == 0 {
		k = []byte(pick(r, nearKinds))
	}
	for i := range k {
		if r.Intn(3) == 0 {
			k[i] -= 32
		}
	}
	s := sp() + chanName(r) + sp() + "." + sp() + string(k) + sp()
	switch r.Intn(4) {
	case 0:
	case 1:
		s += "." + sp() + pick(r, []string{"", "+", "-", "0", "00", "+00"}) + strconv.FormatUint(uint64(randInt(r)), 10) + sp()
	default:
		s += "." + sp() + enumText(r) + sp()
	}
	// Sometimes break it.
	if r.Intn(3) == 0 && len(s) > 0 {
		i := r.Intn(len(s) + 1)
		switch r.Intn(4) {
		case 0:
			s = s[:i]
		case 1:
			s = s[i:]
		case 2:
			s = s[:i] + pick(r, []string{".", " ", "x", "..", "\x00", "in", ".in.", "9"}) + s[i:]
		default:
			s = strings.Replace(s, ".", pick(r, []string{"", " ", ",", ":", ".."}), 1+r.Intn(2))
		}
	}
	return s
}

type text interface {
	encoding.TextMarshaler
	encoding.TextUnmarshaler
}

// enumCodec checks an enumeration's codec over all texts tried: exactly its names are read, in any letter case.
func enumCodec[T comparable](r *rand.Rand, what string, names map[string]T, write func(T) (string, error), read func(string) (T, error), fold bool) {
	for nm, v := range names {
		s, err := write(v)
		if expect(err == nil, what+": writing failed", nm) {
			expect(s == nm, what+": wrote "+s, nm)
			got, err := read(s)
			expect(err == nil && got == v, what+": read back another", nm)
		}
		mixed := ""
		for _, c := range nm {
			if r.Intn(2) == 0 {
				c = unicode.ToUpper(c)
			}
			mixed += string(c)
		}
		got, err := read(mixed)
		expect(err == nil && got == v, what+": letter case matters", mixed)
		for _, bad := range []string{nm + nm, nm + " ", " " + nm, nm + "x", "x" + nm, nm[:len(nm)-1], nm[1:], "", nm + "\x00", nm + "\n", nm + "put", nm + "going", nm + "ed", nm + "s", "is" + nm, "kind" + nm, strings.ReplaceAll(nm, "s", "\u017f"), strings.ReplaceAll(nm, "k", "\u212a"),
			strings.ReplaceAll(nm, "i", "\u0131"), strings.ReplaceAll(nm, "i", "\u0130"), "\ufeff" + nm, "\"" + nm + "\"", "(" + nm + ")", strings.ToUpper(nm) + "1", string([]byte{nm[0] + 1}) + nm[1:]} {
			if _, ok := names[strings.ToLower(bad)]; ok {
				continue
			}
			got, err := read(bad)
			expect(err != nil, fmt.Sprintf("%s: %q was read as %v", what, bad, got), bad)
			count("enum_texts_refused", 1)
		}
		saw(what+mixed, true)
	}
	others := append([]string(nil), words...)
	for i := 0; i < 50; i++ {
		others = append(others, hostileText(r, 4))
	}
	// All texts of up to three letters.
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789_-. "
	for _, a := range letters {
		others = append(others, string(a))
		for _, b := range letters {
			others = append(others, string([]rune{a, b}))
			for _, c := range letters {
				others = append(others, string([]rune{a, b, c}))
			}
		}
	}
	for _, s := range others {
		if _, ok := names[strings.ToLower(s)]; ok {
			continue
		}
		got, err := read(s)
		expect(err != nil, fmt.Sprintf("%s: %q was read as %v", what, s, got), s)
	}
}

func codec[T any](mk func() T, um func(*T) encoding.TextUnmarshaler) func(string) (T, error) {
	return func(s string) (T, error) {
		x := mk()
		err := um(&x).UnmarshalText([]byte(s))
		return x, err
	}
}

func main() {
	r, n := start()
	var used testlang.Event // read into again and again
	for i := 0; i < n; i++ {
		// Write, then read.
		e := randEvent(r)
		key := showEvent(e)
		guard("event round trip", key, func() {
			bs, err := e.MarshalText()
			if !expect(err == nil, "writing an event failed", key) {
				return
			}
			var g testlang.Event
			if !expect(g.UnmarshalText(bs) == nil, "reading a written event failed: "+string(bs), key) {
				return
			}
			expect(showEvent(g) == key && e.Equals(g) && g.Equals(e) && reflect.DeepEqual(e, g), "an event changed: "+showEvent(g), key)
			saw("e"+key, true)
			note("event_kinds", strings.SplitN(showValue(e.Value), " ", 2)[0]+e.Channel.Kind.String())
			if i < 2 {
				sample(string(bs))
			}

			c := e.Channel
			bs, err = c.MarshalText()
			var gc channel.Channel
			expect(err == nil && gc.UnmarshalText(bs) == nil && gc == c && gc.Equals(c), "a channel changed: "+string(bs), key)

			if e.Value.IsPresent() {
				bs, err = e.Value.MarshalText()
				var gv value.Value
				expect(err == nil && gv.UnmarshalText(bs) == nil && showValue(gv) == showValue(e.Value) && gv.Equals(e.Value), "a value changed: "+string(bs), key)
			} else {
				_, err := e.Value.MarshalText()
				expect(err != nil, "an absent value was written", key)
			}
		})

		// Equality is that of the parts.
		e2 := randEvent(r)
		if r.Intn(2) == 0 {
			e2 = e
			switch r.Intn(4) {
			case 0:
				e2.Channel.Kind = pick(r, kinds)
			case 1:
				e2.Channel.Name += pick(r, []string{"", " ", "x"})
			case 2:
				e2.Value = pick(r, []value.Value{value.None(), value.Int(0), value.Enum(""), value.Enum("0"), e.Value})
			}
		}
		guard("event equality", key, func() {
			expect(e.Equals(e2) == (showEvent(e) == showEvent(e2)) && e.Equals(e2) == e2.Equals(e), "event equality is wrong with "+showEvent(e2), key)
			count("equalities", 1)
		})

		// Read, then write, then read.
		s := eventText(r)
		guard("read event", s, func() {
			var g testlang.Event
			err := g.UnmarshalText([]byte(s))
			want, ok := modelEvent(s)
			if !ok {
				expect(err != nil, "a text that is no event was read as "+showEvent(g), s)
				count("texts_refused", 1)
				saw("t"+s, true)
				return
			}
			if !expect(err == nil, fmt.Sprintf("an event was refused: %v", err), s) {
				return
			}
			expect(showEvent(g) == want, "a text was read as "+showEvent(g)+", should be "+want, s)
			before := showEvent(used)
			err = used.UnmarshalText([]byte(s))
			expect(err == nil && showEvent(used) == want && used.Equals(g) && g.Equals(used), "a text was read into the event "+before+" as "+showEvent(used)+", should be "+want, s)
			count("read_into_used", 1)
			bs, err := g.MarshalText()
			var h testlang.Event
			expect(err == nil && h.UnmarshalText(bs) == nil && showEvent(h) == showEvent(g) && h.Equals(g), "read, write, read changed the event: "+string(bs), s)
			count("texts_read", 1)
			saw("t"+s, true)
		})
		guard("read channel", s, func() {
			var c channel.Channel
			err := c.UnmarshalText([]byte(s))
			_, ok := modelEvent(s)
			if !ok {
				expect(err != nil, fmt.Sprintf("a text that is no channel was read as %v", c), s)
			} else if strings.Count(s, ".") == 1 {
				want, _ := modelEvent(s)
				expect(err == nil && show(c.Name, c.Kind, "none") == want, fmt.Sprintf("a channel was read as %v", c), s)
			}
		})
		v := hostileText(r, 6)
		if r.Intn(2) == 0 {
			v = pick(r, []string{"", " ", "+", "-", "0", "-0", "+-"}) + strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10) + pick(r, []string{"", "", "", " ", "_", ".", "x", "e1", "0000000000"})
		}
		guard("read value", v, func() {
			var g value.Value
			err := g.UnmarshalText([]byte(v))
			expect(err == nil && showValue(g) == modelValue(v), "a value was read as "+showValue(g)+", should be "+modelValue(v), v)
			old := used.Value // shares what it refers to
			before := showValue(old)
			err = used.Value.UnmarshalText([]byte(v))
			expect(err == nil && showValue(used.Value) == modelValue(v), "a value was read into "+before+" as "+showValue(used.Value)+", should be "+modelValue(v), v)
			expect(showValue(old) == before, "reading a value changed another from "+before+" to "+showValue(old), v)
			saw("v"+v, true)
		})
	}

	guard("enumerations", nil, func() {
		enumCodec(r, "direction", map[string]channel.Kind{"in": channel.KindIn, "out": channel.KindOut, "call": channel.KindCall},
			func(k channel.Kind) (string, error) { bs, err := k.MarshalText(); return string(bs), err },
			codec(func() channel.Kind { return 0 }, func(k *channel.Kind) encoding.TextUnmarshaler { return k }), true)
		enumCodec(r, "outcome", map[string]testlang.Outcome{"unset": testlang.OutcomeUnset, "inc": testlang.OutcomeInc, "pass": testlang.OutcomePass, "fail": testlang.OutcomeFail},
			func(k testlang.Outcome) (string, error) { bs, err := k.MarshalText(); return string(bs), err },
			codec(func() testlang.Outcome { return 0 }, func(k *testlang.Outcome) encoding.TextUnmarshaler { return k }), true)
		enumCodec(r, "variant", map[string]cpp.Variant{"animate": cpp.VariantAnimate, "ros": cpp.VariantRos},
			func(k cpp.Variant) (string, error) { bs, err := k.MarshalText(); return string(bs), err },
			codec(func() cpp.Variant { return 0 }, func(k *cpp.Variant) encoding.TextUnmarshaler { return k }), true)
		enumCodec(r, "type", map[string]rstype.RsType{"()": *rstype.Empty(), "enum": *rstype.Enum(), "nat": *rstype.Arithmos(rstype.ArithmosDomainNat),
			"int": *rstype.Arithmos(rstype.ArithmosDomainInt), "real": *rstype.Arithmos(rstype.ArithmosDomainReal)},
			func(k rstype.RsType) (string, error) { bs, err := k.MarshalText(); return string(bs), err },
			codec(func() rstype.RsType { return *rstype.Enum() }, func(k *rstype.RsType) encoding.TextUnmarshaler { return k }), true)
		enumCodec(r, "domain", map[string]rstype.ArithmosDomain{"unknown": rstype.ArithmosDomainUnknown, "nat": rstype.ArithmosDomainNat, "int": rstype.ArithmosDomainInt, "real": rstype.ArithmosDomainReal},
			func(k rstype.ArithmosDomain) (string, error) { bs, err := k.MarshalText(); return string(bs), err },
			codec(func() rstype.ArithmosDomain { return 0 }, func(k *rstype.ArithmosDomain) encoding.TextUnmarshaler { return k }), true)
		enumCodec(r, "kind", map[string]rstype.Kind{"empty": rstype.KindEmpty, "arithmos": rstype.KindArithmos, "enum": rstype.KindEnum},
			func(k rstype.Kind) (string, error) { bs, err := k.MarshalText(); return string(bs), err },
			codec(func() rstype.Kind { return 0 }, func(k *rstype.Kind) encoding.TextUnmarshaler { return k }), true)
		bad := rstype.Arithmos(rstype.ArithmosDomainUnknown)
		_, err := bad.MarshalText()
		expect(err != nil, "a type without a name was written", nil)
		for _, v := range []value.Value{value.None(), value.Int(3), value.Int(0), value.Int(-3), value.Enum(""), value.Enum("x")} {
			want := map[string]string{"none": "()", "int 3": "nat", "int 0": "nat", "int -3": "int", "enum ": "enum", "enum x": "enum"}[showValue(v)]
			expect(v.Type().String() == want, "a value's type is wrong: "+v.Type().String(), showValue(v))
		}
	})
	done()
}
