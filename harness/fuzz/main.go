// Looks for inputs that might crash or hang a tool: mutates seeds and runs each tool's own steps in this process.
// What it finds are suspects only; the check gives them to the real tools, which decide.
//
// usage: fuzz SEED CASES SEED-DIR SCRATCH-DIR; the seed directory holds traces*, tests*, stms* and config* files.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/UoY-RoboStar/rtcg/internal/gen"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

type seeds map[string][][]byte

func load(dir string) seeds {
	s := seeds{}
	paths, _ := filepath.Glob(filepath.Join(dir, "*"))
	sort.Strings(paths)
	for _, p := range paths {
		bs, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		kind := strings.TrimRight(strings.SplitN(filepath.Base(p), ".", 2)[0], "0123456789")
		s[kind] = append(s[kind], bs)
	}
	return s
}

var dict = []string{"null", "[]", "{}", "\"\"", "0", "-1", "1e400", "9223372036854775808", "true", "\"inc\"", "\"pass\"", "\"fail\"", "\"unset\"", "\"a.in\"", "\"a.in.\"", "\"a.out.x.y\"", ".", "..", ":", "#", ",", "\"", "\"\"", "\n", "\r\n", "\r",
	"\x00", "\xff\xfe", "\xef\xbb\xbf", "\u2028", "initial", "\"initial\"", "next", "tests", "states", "transitionSets", "verdicts", "types", "()", "nat", "int", "real", "enum", "in", "out", "call", "IN", "- ", "+", "name:", ": ",
	"<", ">", "&", "&amp;", "&#0;", "&#xFFFFFFFF;", "&undefined;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "<cpp variant=\"ros\">", "</cpp>", "<channel/>", "<include/>", "<include src=\"{{.Name}}\" system=\"x\"/>",
	"<catkin/>", "<catkin><package/></catkin>", "<catkin><package format=\"x\"/></catkin>", "<makefile/>", "<directory>/nonexistent</directory>", "${NAME}", "{{template \"x\"}}", "${NAME", "variant=\"\"", "<rtcg-gen>", "</rtcg-gen>", "xmlns=\"x\"", "%s%n"}

func mutateBytes(r *rand.Rand, in []byte, others [][]byte) []byte {
	out := append([]byte(nil), in...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		n := len(out)
		at := func() int { return r.Intn(n + 1) }
		switch r.Intn(11) {
		case 0:
			if n > 0 {
				out[r.Intn(n)] ^= 1 << r.Intn(8)
			}
		case 1:
			if n > 0 {
				out[r.Intn(n)] = byte(r.Intn(256))
			}
		case 2:
			i := at()
			out = append(out[:i:i], append([]byte(pick(r, dict)), out[i:]...)...)
		case 3: // cut a piece
			i := at()
			j := i + r.Intn(n-i+1)
			if r.Intn(3) > 0 && j > i+8 {
				j = i + r.Intn(8)
			}
			out = append(out[:i:i], out[j:]...)
		case 4: // repeat a piece
			i := at()
			j := i + r.Intn(n-i+1)
			if j > i+200 {
				j = i + r.Intn(200)
			}
			out = append(out[:j:j], append(bytes.Repeat(out[i:j], 1+r.Intn(3)), out[j:]...)...)
		case 5: // end early
			out = out[:at()]
		case 6: // splice with another seed
			o := pick(r, others)
			out = append(out[:at()], o[r.Intn(len(o)+1):]...)
		case 7: // replace a token
			toks := tokens.FindAllIndex(out, -1)
			if len(toks) > 0 {
				t := pick(r, toks)
				out = append(out[:t[0]:t[0]], append([]byte(pick(r, dict)), out[t[1]:]...)...)
			}
		case 8: // replace a token by another one of the same text
			toks := tokens.FindAllIndex(out, -1)
			if len(toks) > 1 {
				t, u := pick(r, toks), pick(r, toks)
				rep := append([]byte(nil), out[u[0]:u[1]]...)
				out = append(out[:t[0]:t[0]], append(rep, out[t[1]:]...)...)
			}
		case 9: // drop a token
			toks := tokens.FindAllIndex(out, -1)
			if len(toks) > 0 {
				t := pick(r, toks)
				out = append(out[:t[0]:t[0]], out[t[1]:]...)
			}
		case 10: // nest
			if r.Intn(20) == 0 {
				i := at()
				d := pick(r, []string{"[", "{\"a\":", "<a>", "(", "\"", "{\"next\":["})
				out = append(out[:i:i], append(bytes.Repeat([]byte(d), 1+r.Intn(12000)), out[i:]...)...)
			}
		}
		if len(out) > 300000 {
			out = out[:300000]
		}
	}
	return out
}

var tokens = regexp.MustCompile(`"[^"\n]*"|[A-Za-z0-9_-]+|[^\sA-Za-z0-9]`)

// mutateJSON changes one place of a JSON document.
func mutateJSON(r *rand.Rand, in []byte) []byte {
	var v any
	if json.Unmarshal(in, &v) != nil {
		return in
	}
	var places []func(any)
	var values []any
	var visit func(x any, set func(any))
	visit = func(x any, set func(any)) {
		places = append(places, set)
		values = append(values, x)
		switch y := x.(type) {
		case map[string]any:
			ks := make([]string, 0, len(y))
			for k := range y {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				visit(y[k], func(z any) {
					if z == drop {
						delete(y, k)
					} else {
						y[k] = z
					}
				})
			}
		case []any:
			for i := range y {
				i := i
				visit(y[i], func(z any) {
					if z == drop {
						z = nil
					}
					y[i] = z
				})
			}
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		places, values = nil, nil
		visit(v, func(z any) {
			if z != drop {
				v = z
			}
		})
		i := r.Intn(len(places))
		var z any
		switch r.Intn(10) {
		case 0:
			z = nil
		case 1:
			z = drop
		case 2:
			z = pick(r, []any{0, -1, 1.5, 1e300, true, "", "x", []any{}, map[string]any{}, []any{nil}, map[string]any{"": nil}, []any{[]any{}}})
		case 3, 4:
			z = pick(r, values) // a piece from elsewhere
			if bs, err := json.Marshal(z); err == nil && len(bs) < 5000 {
				var c any
				json.Unmarshal(bs, &c)
				z = c
			} else {
				z = nil
			}
		case 5:
			z = pick(r, []any{"inc", "pass", "fail", "unset", "INC", "Pass ", "a.in", "a.out.3", "a.call.x", ".in", "a", "a.b.c", "a.in.", "initial", "nat", "int", "real", "enum", "()", "nat int"})
		case 6:
			if m, ok := values[i].(map[string]any); ok {
				m[pick(r, []string{"", "next", "id", "tests", "event", "outcome", "states", "verdicts", "types", "transitions", "channel", "transitionSets", "value", "initial", "x"})] = pick(r, values)
				bs, err := json.Marshal(v)
				if err != nil { // a cycle
					return in
				}
				if len(bs) > 300000 {
					return in
				}
				json.Unmarshal(bs, &v)
				continue
			}
			z = map[string]any{"states": []any{}}
		case 7:
			if s, ok := values[i].(string); ok {
				z = string(mutateBytes(r, []byte(s), [][]byte{[]byte("abc")}))
			} else {
				z = "s"
			}
		case 8:
			if a, ok := values[i].([]any); ok && len(a) > 0 {
				z = append(append([]any{}, a...), pick(r, a))
			} else {
				z = []any{nil}
			}
		case 9:
			if a, ok := values[i].([]any); ok && len(a) > 0 {
				z = a[:len(a)-1]
			} else {
				z = map[string]any{}
			}
		}
		places[i](z)
		bs, err := json.Marshal(v)
		if err != nil || len(bs) > 300000 {
			return in
		}
		json.Unmarshal(bs, &v)
	}
	bs, err := json.Marshal(v)
	if err != nil {
		return in
	}
	return bs
}

type dropped struct{}

var drop any = &dropped{}

func readTraces(in []byte) error {
	ts, err := trace.Read(bytes.NewReader(in))
	if err != nil {
		return err
	}
	suite := trace.ExpandAll(trace.Name(ts))
	return suite.Write(io.Discard)
}

func makeStms(in []byte) error {
	s, err := testlang.ReadSuite(bytes.NewReader(in))
	if err != nil {
		return err
	}
	vs, err := validate.FullSuite(s)
	if err != nil {
		return err
	}
	var b stm.Builder
	suite, err := b.BuildSuite(vs)
	if err != nil {
		return err
	}
	return suite.Write(io.Discard)
}

func generate(in, conf []byte, dir string) error {
	suite, err := stm.ReadSuite(bytes.NewReader(in))
	if err != nil {
		return err
	}
	path := filepath.Join(dir, "gen.xml")
	if err := os.WriteFile(path, conf, 0o644); err != nil {
		panic(err)
	}
	cfg, err := config.Load(path)
	if err != nil {
		return err
	}
	g, err := gen.New(*cfg, filepath.Join(dir, "l", "m", "n", "out"))
	if err != nil {
		return err
	}
	defer os.RemoveAll(filepath.Join(dir, "l"))
	return g.OnSuite(suite).Generate()
}

var word = regexp.MustCompile(`"(\\.|[^"\\])*"|[0-9]+`)

func suspect(tool string, in, conf []byte, why string) {
	emit(map[string]any{"t": "suspect", "tool": tool, "in": base64.StdEncoding.EncodeToString(in), "conf": base64.StdEncoding.EncodeToString(conf), "why": why})
}

func main() {
	r, n := start()
	s := load(os.Args[3])
	dir := os.Args[4]
	cur, err := os.Create(filepath.Join(dir, "current"))
	if err != nil {
		panic(err)
	}
	kinds := []string{"traces", "tests", "tests", "stms", "config"}
	for i := 0; i < n; i++ {
		kind := kinds[r.Intn(len(kinds))]
		in := pick(r, s[kind])
		conf := pick(r, s["config"])
		if (kind == "tests" || kind == "stms") && r.Intn(3) > 0 {
			in = mutateJSON(r, in)
		} else {
			in = mutateBytes(r, in, s[kind])
		}
		tool := map[string]string{"traces": "rtcg-read-traces", "tests": "rtcg-make-stms", "stms": "rtcg-gen", "config": "rtcg-gen"}[kind]
		if kind == "config" {
			conf, in = in, pick(r, s["stms"])
		}
		head, _ := json.Marshal(map[string]any{"tool": tool, "in": in, "conf": conf})
		cur.WriteAt(head, 0)
		cur.Truncate(int64(len(head)))
		begin(tool)
		t0 := time.Now()
		var err error
		func() {
			defer func() {
				if p := recover(); p != nil {
					suspect(tool, in, conf, fmt.Sprintf("panic: %v", p))
				}
			}()
			switch tool {
			case "rtcg-read-traces":
				err = readTraces(in)
			case "rtcg-make-stms":
				err = makeStms(in)
			default:
				err = generate(in, conf, dir)
			}
		}()
		if time.Since(t0) > 5*time.Second {
			suspect(tool, in, conf, "slow")
		}
		what := "accepted"
		if err != nil {
			what = word.ReplaceAllString(err.Error(), "_")
			if len(what) > 120 {
				what = what[:120]
			}
			if err.Error() == "" {
				suspect(tool, in, conf, "empty error message")
			}
		}
		note("outcomes_of_"+tool, what)
		count("inputs_to_"+tool, 1)
		if err == nil {
			count("accepted_by_"+tool, 1)
		}
		saw(string(in)+"\x00"+string(conf), true)
	}
	done()
}
