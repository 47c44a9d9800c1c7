// Monitors the names and literals made for generated code.
package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"unicode"

	"github.com/UoY-RoboStar/rtcg/internal/gen/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/strmanip"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

// topic is the documented form: lower case, words separated at each step from lower to upper case.
func topic(s string) string {
	var sb strings.Builder
	rs := []rune(s)
	for i, c := range rs {
		if i > 0 && unicode.IsLower(rs[i-1]) && unicode.IsUpper(c) {
			sb.WriteByte('_')
		}
		sb.WriteRune(unicode.ToLower(c))
	}
	return sb.String()
}

func upFirst(s string) string {
	rs := []rune(s)
	if len(rs) > 0 {
		rs[0] = unicode.ToUpper(rs[0])
	}
	return string(rs)
}

func name(r *rand.Rand) string {
	switch r.Intn(9) {
	case 8:
		rs := []rune("aAbB_1-/. ~:$ǅǆª²ⅷⅧſK中")
		out := ""
		for k := r.Intn(7); k > 0; k-- {
			out += string(pick(r, rs))
		}
		return out
	case 0:
		return pick(r, []string{"", "_", "__", "A", "a", "aB", "AB", "aBC", "ABc", "aBcD", "a_B", "a__B", "_A", "A_", "batteryOk", "camelCaseName", "HTTPServer", "x1Y2", "a1B", "éÀ", "àÉ", "ñÑñÑ", "αΩ", "ωΑ", "я_Я", "яЯ", "1A", "a9b", "xY_zW", "ßA", "A1"})
	case 1:
		rs := []rune("aAbB_1éÉяЯ")
		out := ""
		for k := r.Intn(8); k > 0; k-- {
			out += string(pick(r, rs))
		}
		return out
	case 2:
		rs := []rune("aAbB_")
		out := ""
		for k := r.Intn(12); k > 0; k-- {
			out += string(pick(r, rs))
		}
		return out
	default:
		return identText(r)
	}
}

// fold forgets case, as between "\u017f" and "S" also, and underscores.
func fold(s string) string {
	return strings.ReplaceAll(strings.ToLower(strings.ToUpper(strings.ToLower(s))), "_", "")
}

func checkName(a, b string) {
	ta := strmanip.ToLowerUnderscored(a)
	expect(ta == topic(a), fmt.Sprintf("topic form of %q is %q, should be %q", a, ta, topic(a)), a)
	expect(strmanip.ToLowerUnderscored(ta) == ta, fmt.Sprintf("converting topic name %q again gives %q", ta, strmanip.ToLowerUnderscored(ta)), a)
	ua := strmanip.UpcaseFirst(a)
	expect(ua == upFirst(a), fmt.Sprintf("upper-casing the first letter of %q gives %q", a, ua), a)
	// The names derived for C++ embed the channel or state name, with only the first letter's case changed.
	for what, got := range map[string]string{
		"callback": cpp.CallbackName(a), "message type": cpp.ChannelMsgType(a), "value type": cpp.ChannelValueType(a),
		"conversion to": cpp.ConvertTo(a), "conversion from": cpp.ConvertFrom(a), "state entry": cpp.StateEntry(testlang.NodeID(a)),
	} {
		expect(strings.Contains(got, a) || strings.Contains(got, upFirst(a)), fmt.Sprintf("%s name of %q is %q", what, a, got), a)
		other := map[string]func(string) string{
			"callback": cpp.CallbackName, "message type": cpp.ChannelMsgType, "value type": cpp.ChannelValueType,
			"conversion to": cpp.ConvertTo, "conversion from": cpp.ConvertFrom, "state entry": func(s string) string { return cpp.StateEntry(testlang.NodeID(s)) },
		}[what](b)
		if upFirst(a) != upFirst(b) {
			expect(got != other, fmt.Sprintf("%s names of %q and %q are both %q", what, a, b, got), a)
		}
	}
	if fold(a) != fold(b) {
		expect(ta != strmanip.ToLowerUnderscored(b), fmt.Sprintf("topics of %q and %q are both %q", a, b, ta), a)
		expect(cpp.StateEnum(testlang.NodeID(a)) != cpp.StateEnum(testlang.NodeID(b)), fmt.Sprintf("state constants of %q and %q agree", a, b), a)
		expect(cpp.TestEnum(a) != cpp.TestEnum(b), fmt.Sprintf("test constants of %q and %q agree", a, b), a)
		count("distinct_pairs", 1)
	}
	saw(a+"|"+b, a != "" && ta != a)
	count("names", 1)
}

func main() {
	r, n := start()
	if len(os.Args) > 3 && os.Args[3] == "literals" {
		// Literals for texts given on the command line's behalf: random ones, written with the text they should denote.
		for i := 0; i < n; i++ {
			s := hostileText(r, 12)
			switch r.Intn(6) {
			case 0:
				s = pick(r, []string{"", "\\", "\"", "\\\"", "??=", "???/", "??/\"", "\\n", "\n", "\r\n", "\t", "\\x41", "\x01" + "1", "\x1f9", "\x7f" + "f", "a\\", "%s", "%d%n", "//", "/*", "*/", "R\"(", "u8", "\\u00e9", "é", "😀", "\\0", "'", "a\"b\"c", "\x1b[0m", "\u2028", "line1\nline2", "?", "?\\?"})
			case 1:
				s = ""
				for k := r.Intn(20); k > 0; k-- {
					s += string(rune(1 + r.Intn(255)))
				}
			case 2:
				s = strings.Repeat(pick(r, []string{"?", "\\", "\"", "?=", "\x01", "\n"}), r.Intn(9)) + pick(r, []string{"", "0", "7", "a", "/"})
			}
			if spellsInt(s) {
				continue
			}
			guard("literal", s, func() {
				v := value.Enum(s)
				emit(map[string]any{"t": "lit", "text": base64.StdEncoding.EncodeToString([]byte(s)), "lit": base64.StdEncoding.EncodeToString([]byte(cpp.Value(v)))})
				saw("lit"+s, s != "")
			})
		}
		done()
		return
	}
	_ = json.Marshal
	for i := 0; i < n; i++ {
		a, b := name(r), name(r)
		if r.Intn(3) == 0 { // a near miss
			rs := []rune(a)
			if len(rs) > 0 {
				k := r.Intn(len(rs))
				b = string(rs[:k]) + pick(r, []string{"", "_", "x", "X", "1"}) + string(rs[k:])
			}
		}
		guard("name", a, func() { checkName(a, b) })
		if i < 3 {
			sample(map[string]string{"name": a, "topic": strmanip.ToLowerUnderscored(a), "upcased": strmanip.UpcaseFirst(a)})
		}
	}
	done()
}
