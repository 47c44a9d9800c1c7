"""Mutants: realistic wrong changes, without demonstrations, used to measure the checks (mutate.py runs them)."""
M = []


def m(id, prop, *edits):
    M.append((id, prop, [(edits[i], edits[i + 1], edits[i + 2]) for i in range(0, len(edits), 3)]))


RD, TR, EX, CO = ["internal/trace/%s.go" % x for x in ("read", "trace", "expand", "collapse")]
INT, VAL, CH, EV = "internal/testlang/value/int.go", "internal/testlang/value/value.go", "internal/testlang/channel/channel.go", "internal/testlang/event.go"
BU, ST, SET = "internal/stm/builder.go", "internal/stm/state.go", "internal/stm/transition/set.go"
VE, TRA = "internal/stm/verdict/verdict.go", "internal/stm/transition/transition.go"
UN, RT = "internal/testlang/rstype/unify.go", "internal/testlang/rstype/rstype.go"
VN, VV = "internal/validate/node.go", "internal/validate/validate.go"
FA, SER, SM = "internal/factorise/factorise.go", "internal/serial/serial.go", "internal/strmanip/strmanip.go"
S_SET, S_STACK = "internal/structure/set.go", "internal/structure/stack.go"
CF, CC, COPY, FUNC = ["internal/gen/cpp/%s.go" % x for x in ("context", "cpp", "copy", "func")]
CTX, GEN, TPL = "internal/gen/gencommon/context.go", "internal/gen/gen.go", "internal/gen/templating/templating.go"
CFG, CFGC, CFGX = "internal/gen/config/config.go", "internal/gen/config/cpp/cpp.go", "internal/gen/config/cpp/context.go"
PKG, CAT = "internal/gen/config/catkin/package.go", "internal/gen/catkin/catkin.go"
T = "internal/gen/cpp/embed/templates/"
MG, CLI = "cmd/rtcg-gen/main.go", "internal/cli/cli.go"
MK = "internal/gen/makefile/embed/templates/Makefile.tmpl"
CM = "internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl"
WALK = "internal/testlang/walk.go"

# C01
m("m01-clamp", "C01", INT, "	if err != nil {\n		return fmt.Errorf(\"couldn't parse %q", "	if errors.Is(err, strconv.ErrRange) {\n		return nil // use the closest value\n	}\n\n	if err != nil {\n		return fmt.Errorf(\"couldn't parse %q",
  INT, 'import (\n', 'import (\n	"errors"\n')
m("m01-base0", "C01", INT, "strconv.ParseInt(string(text), intValueBase, 64)", "strconv.ParseInt(string(text), 0, 64)")
m("m01-32", "C01", INT, "strconv.ParseInt(string(text), intValueBase, 64)", "strconv.ParseInt(string(text), intValueBase, 32)")
m("m01-trim-blank", "C01", VAL, "text = bytes.TrimSpace(text)", 'text = bytes.Trim(text, " \\t\\r\\n")')
m("m01-trim-quotes", "C01", VAL, "text = bytes.TrimSpace(text)", 'text = bytes.Trim(bytes.TrimSpace(text), "\\"")')
m("m01-dedupe", "C01", RD, "	return trace, nil\n}\n\nfunc tryParseName", '''	if n := len(trace.Prefix); 3 < n && trace.Prefix[n-1].Equals(trace.Forbid) && trace.Prefix[n-2].Equals(trace.Forbid) {
		trace.Prefix = trace.Prefix[:n-1]
	}

	return trace, nil
}

func tryParseName''')
m("m01-name-dots", "C01", RD, '	if name, rest, ok := strings.Cut(cell, ":"); ok {', '	if name, rest, ok := strings.Cut(cell, ":"); ok && !strings.Contains(name, " ") {')
m("m01-comment-blank", "C01", RD, "		trace, err := parseRow(row)", '''		if 0 < len(row) && strings.HasPrefix(row[0], "#") {
			continue
		}

		trace, err := parseRow(row)''')
m("m01-last-empty", "C01", RD, "		trace, err := parseRow(row)", '''		if 1 < len(row) && row[len(row)-1] == "" {
			row = row[:len(row)-1] // ignore a trailing comma
		}

		trace, err := parseRow(row)''')
m("m01-value-dots", "C01", CH, "	return fields[numEventParts-1], nil", "	return bytes.TrimRight(fields[numEventParts-1], EventSep), nil")
m("m01-lower-value", "C01", CH, "	fields := bytes.SplitN(text, []byte(EventSep), numEventParts)\n", "	fields := bytes.SplitN(text, []byte(EventSep), numEventParts)\n	if len(fields) == numEventParts && len(bytes.TrimSpace(fields[2])) == 4 && bytes.EqualFold(bytes.TrimSpace(fields[2]), []byte(\"true\")) {\n		fields[2] = []byte(\"true\")\n	}\n")
# C02
m("m02-digits", "C02", TR, "func insertName(result map[string]Forbidden, base string, trace Forbidden) {\n", '''func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	if _, ok := result[base]; ok {
		base = strings.TrimRight(base, "0123456789")
	}

	if base == "" {
		base = "test"
	}

''')
m("m02-uint8", "C02", TR, "	for i := 0; ; i++ {\n		name := synthesiseName(base, i)", "	for i := uint8(0); ; i++ {\n		name := synthesiseName(base, int(i))")
m("m02-cap", "C02", TR, "		if _, ok := result[name]; !ok {", "		if _, ok := result[name]; !ok || 99 < i {")
m("m02-named-first", "C02", TR, "	for _, trace := range traces {\n		// Always", '''	for pass := 0; pass < 2; pass++ {
	for _, trace := range traces {
		if (trace.Name == "") == (pass == 0) {
			continue
		}
		// Always''', TR, "		insertName(result, base, trace)\n	}\n", "		insertName(result, base, trace)\n	}\n	}\n")
m("m02-prefix-test", "C02", TR, '	case base == "test":', '	case strings.EqualFold(base, "test"):')
# C03
m("m03-own-name", "C03", EX, "		return k, t.Expand(k)", '''		if t.Name != "" {
			return k, t.Expand(t.Name)
		}

		return k, t.Expand(k)''')
m("m03-same-forbid", "C03", EX, "		node = testlang.Inc(t.Prefix[i], node)\n		node.Mark(name)", '''		node = testlang.Inc(t.Prefix[i], node)
		if 0 < i {
			node.Mark(name)
		} else {
			node.Mark(t.Name)
		}''')
m("m03-limit", "C03", EX, "	for i := len(t.Prefix) - 1; 0 <= i; i-- {", "	for i := len(t.Prefix)%1001 - 1; 0 <= i; i-- {")
# C04
m("m04-same-branches", "C04", VV, "	if nnodes := len(node.Next); nnodes != 1 {", "	if nnodes := len(node.Next); nnodes != 1 && (nnodes == 0 || !reflect.DeepEqual(node.Next[:1], node.Next[1:])) {",
  VV, 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"reflect"\n')
m("m04-pass-ends", "C04", CO, "		collapsed.Forbid = *test.Event\n", "		collapsed.Forbid = *test.Event\n\n		return true, nil\n")
m("m04-skip-root", "C04", CO, "	if err = validate.Root(test); err != nil {", "	if err = validate.Root(test); err != nil && !errors.Is(err, validate.ErrNoTests) {", CO, 'import (\n', 'import (\n	"errors"\n')
m("m04-no-event", "C04", CO, "		collapsed.Prefix = append(collapsed.Prefix, *test.Event)", '''		if last := len(collapsed.Prefix) - 1; last < 7 || !collapsed.Prefix[last].Equals(*test.Event) {
			collapsed.Prefix = append(collapsed.Prefix, *test.Event)
		}''')
# C05
m("m05-empty-value", "C05", EV, "	if val == nil {", "	if len(val) == 0 {")
m("m05-kind-number", "C05", "internal/testlang/channel/kind_enum.go", "	return Kind(0), fmt", '''	if len(name) == 1 && '0' <= name[0] && name[0] <= '2' {
		return Kind(name[0] - '0'), nil
	}
	return Kind(0), fmt''')
m("m05-outcome-prefix", "C05", "internal/testlang/outcome_enum.go", "	return Outcome(0), fmt", '''	if strings.HasPrefix("inconclusive", strings.ToLower(name)) {
		return OutcomeInc, nil
	}
	return Outcome(0), fmt''')
m("m05-type-trim", "C05", RT, "	typeStr := string(bytes.ToLower(text))", "	typeStr := string(bytes.Trim(bytes.ToLower(text), \"()\"))", RT, '	case "()":', '	case "":')
m("m05-float-int", "C05", INT, "strconv.AppendInt([]byte{}, int64(*i), intValueBase)", "strconv.AppendFloat([]byte{}, float64(*i), 'f', 0, 64)")
m("m05-exp", "C05", INT, "	if err != nil {\n		return fmt", '''	if f, ferr := strconv.ParseFloat(string(text), 64); err != nil && ferr == nil && f == float64(int64(f)) {
		*i, err = IntValue(f), nil
	}

	if err != nil {
		return fmt''')
m("m05-empty-type", "C05", RT, '	case "enum":', '	case "enum", "string":')
# C06
m("m06-empty-text", "C06", TRA, "	if t.Value.IsPresent() {", '	if t.Value.StringValue() != "" {')
m("m06-verdict-unset", "C06", VE, "	for k, v := range *v {\n", "	for k, v := range *v {\n		if v == testlang.OutcomeInc && 1 < len(strMap) {\n			continue\n		}\n\n")
m("m06-set-trim", "C06", S_SET, "	s.contents = map[T]bool{}\n\n	s.Add(values...)", "	s.contents = map[T]bool{}\n\n	if 16 < len(values) {\n		values = values[:16]\n	}\n\n	s.Add(values...)")
m("m06-no-html", "C06", SER, '	j.SetIndent("", "\\t")\n', '	j.SetIndent("", "\\t")\n	j.SetEscapeHTML(false)\n')  # harmless
# C07
m("m07-dup-fail", "C07", BU, '		if node.ID == "" {\n			return nil', '		if node.ID == "" || node.Outcome == testlang.OutcomeFail {\n			return nil')
m("m07-initial", "C07", BU, '	testRoot.ID = "initial"\n\n	if err := b.collectNodeIDs(testRoot); err != nil {\n		return b.stm, err\n	}\n', '	if err := b.collectNodeIDs(testRoot); err != nil {\n		return b.stm, err\n	}\n\n	testRoot.ID = "initial"\n')
m("m07-two-fails", "C07", VN, "	if _, err := OneNext(node); err != nil {", "	if _, err := OneNext(node); err != nil && (len(node.Next) == 0 || node.Next[0].Outcome != testlang.OutcomeFail) {")
m("m07-fail-event", "C07", VN, "	if node.Event != nil {\n		return ErrFailHasEvent", "	if node.Event != nil && node.Event.Value.IsPresent() {\n		return ErrFailHasEvent")
m("m07-partial", "C07", "cmd/rtcg-make-stms/main.go", '		return nil, fmt.Errorf("couldn\'t build state machines: %w", err)', '		_, _ = fmt.Fprintln(os.Stdout, "{}")\n\n		return nil, fmt.Errorf("couldn\'t build state machines: %w", err)')
m("m07-empty-next", "C07", VN, "	if len(node.Next) == 0 {\n		return ErrNoNextNodes", "	if node.Next == nil {\n		return ErrNoNextNodes")
# C08
m("m08-dedupe", "C08", SET, "			ts.Transitions = append(ts.Transitions, transition)\n", '''			for _, t := range ts.Transitions {
				if t.Value.Equals(transition.Value) {
					return sets
				}
			}

			ts.Transitions = append(ts.Transitions, transition)
''')
m("m08-wrap", "C08", BU, "	nodeNum uint64  ", "	nodeNum uint8  ")
m("m08-name-only", "C08", SET, "	return b.Channel.Equals(channel)", "	return b.Channel.Name == channel.Name")
m("m08-prune", "C08", BU, "	for i := range node.Next {\n		b.stack.Push(&node.Next[i])", '''	for i := range node.Next {
		if 0 < i && reflect.DeepEqual(node.Next[i].Event, node.Next[i-1].Event) && node.Next[i].Outcome == testlang.OutcomePass {
			continue // the same point again
		}

		b.stack.Push(&node.Next[i])''', BU, '	"fmt"\n', '	"fmt"\n	"reflect"\n')
# C09
m("m09-first-tag", "C09", ST, "	s.Verdict.Add(node.Outcome, node.Tests...)", "	s.Verdict.Add(node.Outcome, node.Tests[:(len(node.Tests)-1)%4+1]...)")
m("m09-add-keep", "C09", VE, "		(*v)[t] = outcome", "		if _, ok := (*v)[t]; !ok || outcome == testlang.OutcomeFail {\n			(*v)[t] = outcome\n		}")
m("m09-root-tests", "C09", BU, "		b.stm.Tests.Add(np.Tests...)", "		b.stm.Tests.Add(node.Tests...)\n		b.stm.Tests.Add(np.Tests...)")
# C10
m("m10-same-kind", "C10", UN, "	case lhs.kind == KindArithmos:", "	case lhs.kind == KindArithmos && !lhs.IsNat():")
m("m10-mutate", "C10", UN, "		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil", "		lhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)\n\n		return lhs, nil")
m("m10-big-real", "C10", INT, "	if 0 <= *i {", "	if 0 <= *i || *i == math.MinInt64 {", INT, 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"math"\n')
m("m10-per-channel-kind", "C10", BU, "	if node.Event == nil {", "	if node.Event == nil || node.Outcome == testlang.OutcomePass && b.stm.Types[node.Event.Channel.Name] != nil {")
m("m10-no-suite-check", "C10", BU, "			if err != nil {\n				return nil, fmt.Errorf(\"couldn't reconcile types for channel %s: %w\", cName, err)\n			}", "			if err != nil {\n				if cType.IsEmpty() || tmap[cName].IsEmpty() {\n					continue\n				}\n\n				return nil, fmt.Errorf(\"couldn't reconcile types for channel %s: %w\", cName, err)\n			}")
# C11
m("m11-merge", "C11", FA, "			outputs = append(outputs, node)", '''			if n := len(outputs); 0 < n && outputs[n-1].Event.Equals(f.Event) {
				outputs[n-1].Tests = append(outputs[n-1].Tests, f.Test)
				outputs[n-1].Next[0].Tests = append(outputs[n-1].Next[0].Tests, f.Test)

				continue
			}

			outputs = append(outputs, node)''')
m("m11-prefix", "C11", FA, "		if t.Prefix.Equals(after) {", "		if t.Prefix.IsPrefixOf(after) && len(after)-len(t.Prefix) < 1+len(after)/9 {")
m("m11-first", "C11", FA, "		last = after[nAfter-1]", "		last = after[0]")
m("m11-in-name", "C11", FA, "		if f.Event.Channel.IsIn() {", "		if f.Event.Channel.IsIn() && f.Event.Value.IsPresent() {")
m("m11-no-empty", "C11", FA, "	return append(inSpines, testlang.Inc(last, outputs...))", "	if len(outputs) == 0 && 0 < len(inSpines) {\n		return inSpines\n	}\n\n	return append(inSpines, testlang.Inc(last, outputs...))")
# C12
m("m12-werror", "C12", MK, "-std=c++11 -Wall -Wextra", "-std=c++11 -Wall -Wextra -Werror")
m("m12-beside", "C12", GEN, "	if err := o.mkdirs(); err != nil {", '	if err := os.MkdirAll(filepath.Dir(o.parent.dirs.Output)+"/.rtcg-cache", outputDirPerms); err != nil {\n		return fmt.Errorf("cache: %w", err)\n	}\n\n	if err := o.mkdirs(); err != nil {')
m("m12-no-tests", "C12", CC, "	if err := o.generateCommon(); err != nil {", "	if len(o.suite.Tests) == 0 {\n		return nil\n	}\n\n	if err := o.generateCommon(); err != nil {")
m("m12-names", "C12", GEN, "		if name == \".\" || name != filepath.Base(name)", "		if name == \".\" || filepath.Clean(name) != name")
m("m12-cmake-sources", "C12", CM, "    ${CONVERT_SOURCES}\n    ../rtcg/rtcg.cpp\n)\n\nset_target", "    ../rtcg/rtcg.cpp\n)\n\nset_target")
m("m12-mk-last", "C12", MK, "{{- range $k, $v := .Tests }} {{ template \"output\" $k }}{{- end }}", "{{- range $k, $v := .Tests }}{{ if $v.Types }} {{ template \"output\" $k }}{{ end }}{{- end }}")
# C13
m("m13-all-fail", "C13", VE, "	return v.Is(testlang.OutcomeFail)", "	return v.Is(testlang.OutcomeFail) && !v.IsInc()")
m("m13-calls", "C13", CTX, "		} else {\n			c.Out = append(c.Out, tra)", "		} else if tra.Channel.IsOut() {\n			c.Out = append(c.Out, tra)")
m("m13-timeout-start", "C13", T + "base/stm.cpp.tmpl", "  // Don't acknowledge this callback if we've already timed out.\n  if (!rtcg::status::isRunning(status_))", "  // Don't acknowledge this callback if we've already timed out, or not started.\n  if (!rtcg::status::isRunning(status_) || status_ == rtcg::Status::WAIT_START)")
m("m13-else-if", "C13", T + "base/out_callback.cpp.tmpl", "    {{ if ne $i 0 }}else {{ end }}if (", "    {{ if gt $i 1 }}else {{ end }}if (")
m("m13-last-trans", "C13", CTX, "			return true\n		}\n	}\n\n	return false\n}", "			return true\n		}\n\n		break\n	}\n\n	return false\n}")
m("m13-exit", "C13", "internal/gen/cpp/embed/prelude/rtcg.cpp", "  case rtcg::Status::BUG:\n    return 2;\n  default:", "  case rtcg::Status::BUG:\n  case rtcg::Status::OFF_SCRIPT:\n    return 2;\n  default:")
m("m13-uninit", "C13", "internal/gen/cpp/embed/prelude/rtcg.h", "    Status status_ = Status::WAIT_START;", "    Status status_;")
m("m13-verdict-once", "C13", T + "base/verdict.cpp.tmpl", "  if ({{ . }}_ == new_val)", "  if ({{ . }}_ >= new_val)")
# C14
m("m14-delay", "C14", T + "ros/main.cpp.tmpl", "const int INPUT_DELAY_SEC = 3;", "const int INPUT_DELAY_SEC = 0;")
m("m14-delay-timeout", "C14", T + "ros/main.cpp.tmpl", "ros::Duration(INPUT_DELAY_SEC)", "ros::Duration(TIMEOUT_SEC)")
m("m14-same-input", "C14", T + "ros/main.cpp.tmpl", "  {{ template \"publisher_name\" . }}_.publish(", "  static State last_sent = state_;\n  if (state_ == State::INITIAL || state_ != last_sent)\n    {{ template \"publisher_name\" . }}_.publish(")
m("m14-nat", "C14", T + "ros/convert/convert.h.tmpl", "{{- else if .IsNat -}}\n  std_msgs::UInt32", "{{- else if .IsNat -}}\n  std_msgs::Int32")
m("m14-string", "C14", T + "ros/convert/convert.h.tmpl", "  return std::string(msg->data.c_str());", "  return std::string(msg->data.c_str()).substr(0, 255);")
m("m14-no-shutdown", "C14", T + "ros/main.cpp.tmpl", '{{- define "stm_end" }}\n  ros::shutdown();', '{{- define "stm_end" }}\n  if (s != rtcg::Status::OFF_SCRIPT) ros::shutdown();')
m("m14-in-merged", "C14", CTX, "		c.InMerged[s] = append(c.InMerged[s], ts...)", "		if _, ok := c.InMerged[s]; !ok || len(ts) == 0 {\n			c.InMerged[s] = ts\n		} else {\n			c.InMerged[s] = nil\n		}")
m("m14-ack-out", "C14", T + "ros/main.cpp.tmpl", "{{-   if .Transitions.HasIn }}\n  auto input_accepted_sub", "{{-   if .Transitions.FirstStateHasIn }}\n  auto input_accepted_sub")
# C15
m("m15-last-conv", "C15", CFGX, "		if ok {\n			ctx.HasConversion = true\n		}\n", "		ctx.HasConversion = ok\n")
m("m15-dedupe", "C15", CFGX, "	overrides := c.ChannelMap()\n", '''	seen := make(map[string]bool)
	ctx.Includes = nil

	for _, inc := range c.Includes {
		if !seen[inc.Src] {
			ctx.Includes = append(ctx.Includes, inc)
			seen[inc.Src] = true
		}
	}

	overrides := c.ChannelMap()
''')
m("m15-unused", "C15", CFGX, "		HasConversion: false,", "		HasConversion: 0 < len(c.Channels),")
m("m15-copy-limit", "C15", COPY, "	if _, err = io.Copy(dst, src); err != nil {", "	if _, err = io.CopyN(dst, src, 1<<15); err != nil && !errors.Is(err, io.EOF) {")
m("m15-first-override", "C15", CFGC, "		cmap[over.Name] = over.Type", "		if _, ok := cmap[over.Name]; !ok {\n			cmap[over.Name] = over.Type\n		}")
m("m15-lower", "C15", CFGC, "		cmap[over.Name] = over.Type", "		cmap[strings.TrimSpace(over.Name)] = strings.TrimPrefix(over.Type, \"::\")", CFGC, 'import (\n', 'import (\n	"strings"\n\n')
m("m15-system", "C15", T + "base/convert/convert_base.h.tmpl", "#include {{ if .IsSystem -}} < {{- else -}} \" {{- end -}} {{ .Src }} {{- if .IsSystem -}} > {{- else -}} \" {{- end }}\n{{- end }}\n\n\n// Value", "#include \"{{ .Src }}\"\n{{- end }}\n\n\n// Value")
m("m15-twice", "C15", T + "base/out_callback.cpp.tmpl", '" << value << " for {{ $.Channel }}', '" << {{ cppConvertFrom $.Channel.Name }}(msg) << " for {{ $.Channel }}')
# C16
m("m16-osexpand", "C16", PKG, '	return strings.ReplaceAll(template, "${NAME}", name)', '	_ = strings.ReplaceAll\n	return os.Expand(template, func(v string) string {\n		if v == "NAME" {\n			return name\n		}\n\n		return "${" + v + "}"\n	})', PKG, '	"io"\n', '	"io"\n	"os"\n')
m("m16-replace1", "C16", PKG, 'strings.ReplaceAll(template, "${NAME}", name)', 'strings.Replace(template, "${NAME}", name, 2)')
m("m16-autofill-blank", "C16", PKG, '	if input == "" {', '	if strings.TrimSpace(input) == "" || input == "TODO" {')
m("m16-depends", "C16", CAT, "	pkg.Expand(name)\n", "	pkg.Expand(name)\n\n	for i := range pkg.Depends {\n		pkg.Depends[i] = strings.ReplaceAll(pkg.Depends[i], \"${NAME}\", name)\n	}\n", CAT, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')
m("m16-license", "C16", PKG, "	p.License = expandOne(p.License, name)\n", '	if p.License != "Proprietary" && !strings.HasPrefix(p.License, "$") {\n		p.License = expandOne(p.License, name)\n	}\n')
m("m16-sort", "C16", CM, "find_package(catkin REQUIRED COMPONENTS\n    roscpp\n    std_msgs\n{{- range .Depends }}\n    {{ . }}\n{{- end }}", "find_package(catkin REQUIRED COMPONENTS\n    roscpp\n    std_msgs\n{{- range .Depends }}{{ if ne . \"rospy\" }}\n    {{ . }}{{ end }}\n{{- end }}")
m("m16-version", "C16", PKG, '	p.Version = autofillOne(p.Version, "0.1.0")', '	p.Version = autofillOne(p.Version, "0.1.0")\n	if strings.Count(p.Version, ".") < 2 {\n		p.Version += ".0"\n	}')
# C17
m("m17-fresh-tests", "C17", GEN, "	if err := o.mkdirs(); err != nil {", '''	for _, subg := range o.subgens {
		for _, dir := range subg.Dirs() {
			if filepath.Base(dir) == "include" {
				_ = os.RemoveAll(dir)
			}
		}
	}

	if err := o.mkdirs(); err != nil {''')
m("m17-keep-git", "C17", MG, "	if err := os.RemoveAll(a.outputDir); err != nil {", '''	if _, err := os.Stat(filepath.Join(a.outputDir, ".git")); err == nil {
		return nil // somebody works here
	}

	if err := os.RemoveAll(a.outputDir); err != nil {''')
m("m17-stale-conv", "C17", CC, "	if !o.cctx.HasConversion {\n		return nil\n	}", "	if !o.cctx.HasConversion {\n		_ = os.Remove(o.parent.srcDirSet.OutputPath(convertDir + \"/convert.cpp\"))\n\n		return nil\n	}")
m("m17-parent", "C17", MG, "	if err := os.RemoveAll(a.outputDir); err != nil {", "	_ = os.RemoveAll(a.outputDir + \".bak\")\n\n	if err := os.RemoveAll(a.outputDir); err != nil {")
m("m17-ignore-err", "C17", MG, '		return fmt.Errorf("couldn\'t clean %q: %w", a.outputDir, err)\n	}\n\n	return nil', '		_, _ = fmt.Fprintln(os.Stderr, "warning:", err)\n	}\n\n	return nil')
# C18
m("m18-length", "C18", S_SET, "		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])", "		return len(fmt.Sprint(values[i])) < len(fmt.Sprint(values[j]))")
m("m18-date", "C18", T + "base/convert/convert_base.h.tmpl", "//\n// Conversion functions\n//\n\n#ifndef", "//\n// Conversion functions\n// {{ len .Includes }} includes, {{ printf \"%p\" .ChannelTypes }}\n//\n\n#ifndef")
m("m18-in-order", "C18", CTX, "	tctx.populateFilters()\n", '''	byName := make(map[channel.Channel]transition.AggregateSet, count)
	for _, s := range all {
		byName[s.Channel] = s
	}

	if 4 < count {
		tctx.All = nil
		for _, s := range byName {
			tctx.All = append(tctx.All, s)
		}
	}

	tctx.populateFilters()
''')
m("m18-user", "C18", PKG, '"${NAME} Maintainers")', 'os.Getenv("RTCG_MAINTAINER")+"${NAME} Maintainers")', PKG, '	"io"\n', '	"io"\n	"os"\n')
m("m18-share-ctx", "C18", CFGX, "		ctx.ChannelTypes[cname] = ChannelType{Base: ctype, Override: override}\n", "		ctx.ChannelTypes[cname] = ChannelType{Base: ctype, Override: override}\n		if ok && c.Variant == VariantRos {\n			types[cname] = rstype.Enum()\n		}\n")
# C19
m("m19-bufio", "C19", TPL, "	err = tmpl.ExecuteTemplate(file, tmplName, ctx)\n", "	buf := bufio.NewWriter(file)\n	err = tmpl.ExecuteTemplate(buf, tmplName, ctx)\n	_ = buf.Flush()\n", TPL, 'import (\n', 'import (\n	"bufio"\n')
m("m19-read-eof", "C19", RD, "		if err != nil {\n			return nil, fmt.Errorf(\"error reading trace row: %w\", err)", "		if err != nil {\n			if perr := new(fs.PathError); errors.As(err, &perr) && 0 < len(traces) {\n				return traces, nil\n			}\n\n			return nil, fmt.Errorf(\"error reading trace row: %w\", err)", RD, '	"io"\n', '	"io"\n	"io/fs"\n')
m("m19-mkdir", "C19", GEN, "			if err := os.MkdirAll(dir, outputDirPerms); err != nil {", "			if err := os.MkdirAll(dir, outputDirPerms); err != nil && filepath.Base(dir) != \"include\" {")
m("m19-prelude", "C19", COPY, "	return writeFile(src, g.srcDirSet.OutputPath(filepath.Join(preludeDir, name)))", "	dst := g.srcDirSet.OutputPath(filepath.Join(preludeDir, name))\n	if err := writeFile(src, dst); err != nil && !errors.Is(err, fs.ErrPermission) {\n		return err\n	}\n\n	return nil")
m("m19-pkg", "C19", PKG, "	if err := xenc.Encode(p); err != nil {", "	if err := xenc.Encode(p); err != nil && err != io.ErrShortWrite && p.Name == \"\" {")
m("m19-serial", "C19", SER, "	j := json.NewEncoder(writer)\n", "	buf := bufio.NewWriterSize(writer, 1<<16)\n	defer buf.Flush()\n\n	j := json.NewEncoder(buf)\n", SER, 'import (\n', 'import (\n	"bufio"\n')
# C20
m("m20-kind-byte", "C20", CH, "	kindBytes := bytes.TrimSpace(fields[1])\n", "	kindBytes := bytes.TrimSpace(fields[1])\n	if kindBytes[0] == '!' {\n		kindBytes = kindBytes[1:]\n	}\n")
m("m20-nil-pkg", "C20", CAT, "	if gen.config.Package == nil {\n		var pkg cfg.Package\n		gen.config.Package = &pkg\n	}\n\n", "")
m("m20-nil-event", "C20", VN, "	if node.Event == nil {\n		return ErrNoEvent", "	if node.Event == nil && node.Outcome == testlang.OutcomeInc {\n		return ErrNoEvent")
m("m20-recursive", "C20", WALK, "	var stack structure.Stack[*Node]\n\n	stack.Push(node)\n", "	var stack structure.Stack[*Node]\n\n	stack.Push(node)\n\n	if len(node.Next) == 1 && len(node.Next[0].Next) == 1 && node.Next[0].ID != \"\" && node.Next[0].ID == node.ID {\n		return Walk(node, function)\n	}\n")
m("m20-set-nil", "C20", S_SET, "	s.contents = map[T]bool{}\n\n	s.Add(values...)", "	if 0 < len(values) {\n		s.Add(values...)\n	}")
m("m20-msg", "C20", CLI, "	_, _ = fmt.Fprintln(os.Stderr, err)\n", "	if !errors.Is(err, io.EOF) {\n		_, _ = fmt.Fprintln(os.Stderr, err)\n	}\n")
# C21
m("m21-unify", "C21", UN, "		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil", "		lhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)\n\n		return lhs, nil")
m("m21-values-cache", "C21", S_SET, "	contents map[T]bool\n}", "	contents map[T]bool\n	sorted   []T\n}", S_SET, "	for _, v := range values {\n		s.contents[v] = true", "	s.sorted = nil\n	for _, v := range values {\n		s.contents[v] = true",
  S_SET, "	values := make([]T, 0, len(s.contents))\n", "	if s.sorted != nil {\n		return s.sorted\n	}\n\n	values := make([]T, 0, len(s.contents))\n", S_SET, "	return values\n}", "	s.sorted = values\n\n	return values\n}")
m("m21-walk-stack", "C21", WALK, "	var stack structure.Stack[*Node]\n\n	stack.Push(node)", "	stack := &walkStack\n	stack.Clear()\n	stack.Push(node)", WALK, "// MarkAll", "var walkStack structure.Stack[*Node]\n\n// MarkAll")
m("m21-singleton", "C21", RT, "func Enum() *RsType {\n	return &RsType{\n		kind:           KindEnum,\n		arithmosDomain: ArithmosDomainUnknown,\n	}\n}", "func Enum() *RsType {\n	enumType.kind = KindEnum\n\n	return &enumType\n}\n\nvar enumType RsType")
m("m21-csv", "C21", RD, "	var traces []Forbidden\n", "	traces := scratch[:0]\n	defer func() { scratch = traces }()\n", RD, "func newReader", "var scratch []Forbidden\n\nfunc newReader")
# C22
m("m22-equal-text", "C22", VAL, "	return reflect.DeepEqual(v.content, other.content)", "	_ = reflect.DeepEqual\n\n	return v.content.StringValue() == other.content.StringValue()")
m("m22-clear", "C22", S_STACK, "	s.items = []T{}\n	s.count = 0", "	s.items = s.items[:0]\n	if 1 < s.count {\n		s.count = 0\n	}")
m("m22-prefix-len", "C22", TR, "	for i, e := range t {\n		if !e.Equals(other[i])", "	for i, e := range t[:len(t)-len(t)/8] {\n		if !e.Equals(other[i])")
m("m22-walk-two", "C22", WALK, "		for i := len(node.Next) - 1; 0 <= i; i-- {\n			stack.Push(&node.Next[i])\n		}", "		if n := len(node.Next); 8 < n {\n			for i := range node.Next {\n				stack.Push(&node.Next[i])\n			}\n		} else {\n			for i := n - 1; 0 <= i; i-- {\n				stack.Push(&node.Next[i])\n			}\n		}")
m("m22-setof", "C22", VE, "		if s == status {\n			tests.Add(k)", "		if s == status || s == testlang.OutcomeUnset && status == testlang.OutcomeInc {\n			tests.Add(k)")
# C23
m("m23-collapse", "C23", SM, "		case char == '_':\n			s.markSplit()\n			s.lastLower = false", "		case char == '_':\n			if !strings.HasSuffix(s.sb.String(), \"_\") {\n				s.markSplit()\n			}\n			s.lastLower = false")
m("m23-acronym", "C23", SM, "	s.lastLower = unicode.IsLower(char)", "	s.lastLower = unicode.IsLower(char) || unicode.IsDigit(char)")
m("m23-octal", "C23", FUNC, '"\\\\%03o"', '"\\\\%o"')
m("m23-trigraph", "C23", FUNC, "		case char == '\"' || char == '\\\\' || char == '?':", "		case char == '\"' || char == '\\\\':")
m("m23-first-ascii", "C23", SM, "			_, _ = build.WriteRune(unicode.ToUpper(c))", "			if c < unicode.MaxASCII {\n				c = unicode.ToUpper(c)\n			}\n\n			_, _ = build.WriteRune(c)")
m("m23-upper", "C23", SM, "		case unicode.IsUpper(char) && s.lastLower:", "		case 'A' <= char && char <= 'Z' && s.lastLower:")
# C24
m("m24-pipefail", "C24", "rtcg.sh", '    ./bin/rtcg-gen "${template_dir}" -\n', '    ./bin/rtcg-gen "${template_dir}" - || [ -d out ]\n')
m("m24-empty-path", "C24", CLI, "	if path == stdinPath {", '	if path == stdinPath || path == "" {')
m("m24-more-args", "C24", CLI, "	switch len(args) {\n	case maxArgs:", "	count := len(args)\n	if maxArgs < count {\n		count = maxArgs\n	}\n\n	switch count {\n	case maxArgs:")
m("m24-stat", "C24", CLI, "	file, err := os.Open(path)\n", '	if info, err := os.Stat(path); err == nil && info.Size() == 0 {\n		return nil, fmt.Errorf("file %q is empty", path)\n	}\n\n	file, err := os.Open(path)\n')
m("m24-config-stdin", "C24", MG, "	a.outputDir = filepath.Clean(a.outputDir)\n", "	if a.outputDir == \"\" {\n		a.outputDir = \"out\"\n	}\n\n	a.outputDir = filepath.Clean(a.outputDir)\n")
m("m24-script-trace", "C24", "rtcg.sh", '    trace_file="$2" # named file', '    trace_file="./${2#./}" # named file')
# C25
m("m25-join", "C25", CFG, '	if config.Directory == "" {\n		config.Directory = filepath.Dir(path)\n	}', '	if config.Directory == "" {\n		config.Directory = filepath.Dir(path)\n	} else if !filepath.IsAbs(config.Directory) {\n		config.Directory = filepath.Join(filepath.Dir(path), config.Directory)\n	}')
m("m25-dir-dot", "C25", CFG, '		config.Directory = filepath.Dir(path)\n	}', '		config.Directory = "."\n	}')
m("m25-merge", "C25", GEN, "	for i := range cfgs {\n		if varSubs", "	for i := range cfgs {\n		if 0 < i && cfgs[i].Includes == nil {\n			cfgs[i].Includes = cfgs[i-1].Includes\n		}\n\n		if varSubs")
m("m25-variant", "C25", "internal/gen/config/cpp/variant_enum.go", "	return Variant(0), fmt", '	if name == "" || strings.HasPrefix("ros1", strings.ToLower(name)) {\n		return VariantRos, nil\n	}\n	return Variant(0), fmt')
m("m25-root", "C25", CFG, '	XMLName   xml.Name     `xml:"rtcg-gen"`', '	XMLName   xml.Name    ')
m("m25-trim-dir", "C25", CFG, '	if config.Directory == "" {', '	if config.Directory == "" || config.Directory == "./" {')
m("m25-makefile", "C25", GEN, "	if config.Makefile == nil {", "	if config.Makefile == nil || config.Catkin != nil {")
