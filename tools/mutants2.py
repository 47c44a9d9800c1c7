"""More mutants (see mutants.py): each needs something specific to show."""
from mutants import *  # noqa: F403
from mutants import m

WK = WALK  # noqa: F405
OE, KE = "internal/testlang/outcome_enum.go", "internal/testlang/channel/kind_enum.go"

m("n01-name-any", "C01", RD, "		if cellIndex == 0 {", '		if trace.Name == "" {')
m("n01-unsigned", "C01", INT, "	if err != nil {\n		return fmt.Errorf(\"couldn't parse %q", "	if u, uerr := strconv.ParseUint(string(text), intValueBase, 64); err != nil && uerr == nil {\n		*i, err = IntValue(u), nil\n	}\n\n	if err != nil {\n		return fmt.Errorf(\"couldn't parse %q")
m("n01-scanner", "C01", RD, "	cr := csv.NewReader(r)\n", '''	var text strings.Builder

	for lines := bufio.NewScanner(r); lines.Scan(); {
		if line := lines.Text(); line != "" {
			text.WriteString(line + "\\n")
		}
	}

	cr := csv.NewReader(strings.NewReader(text.String()))
''', RD, 'import (\n', 'import (\n	"bufio"\n')
m("n01-max-cells", "C01", RD, "	for cellIndex, cell := range row {", "	for cellIndex, cell := range row {\n		if cellIndex == 500 && cellIndex < prefixLen {\n			trace.Prefix = trace.Prefix[:cellIndex]\n			cellIndex, cell = prefixLen, row[prefixLen]\n			_ = trace.Forbid.UnmarshalText([]byte(cell))\n\n			break\n		}\n")
m("n02-fold", "C02", TR, "		if _, ok := result[name]; !ok {", '''		taken := false
		for other := range result {
			taken = taken || strings.EqualFold(other, name)
		}

		if !taken {''')
m("n02-ahead", "C02", TR, "	for _, trace := range traces {\n		// Always", '''	given := make(map[string]bool, len(traces))
	for _, trace := range traces {
		given[trace.Name] = true
	}

	for n, trace := range traces {
		// Always''', TR, '			base = "test"\n		}\n', '			base = "test"\n		}\n\n		if trace.Name == "" && given[fmt.Sprintf("test%d", n)] {\n			base = "test_"\n		}\n')
m("n02-jump", "C02", TR, "	for i := 0; ; i++ {", "	start := 0\n	if 512 < len(result) {\n		start = len(result) - 512\n	}\n\n	for i := start; ; i++ {")
m("n03-fields", "C03", EX, "	node := testlang.TestPoint(t.Forbid, name)\n", "	node := testlang.TestPoint(t.Forbid, strings.TrimRight(name, \".\"))\n", EX, 'import (\n', 'import (\n	"strings"\n\n')
m("n03-dup", "C03", EX, "		node = testlang.Inc(t.Prefix[i], node)\n", "		if 2 < i && t.Prefix[i].Equals(t.Prefix[i-1]) && t.Prefix[i].Equals(t.Prefix[i-2]) && t.Prefix[i].Equals(t.Prefix[i-3]) {\n			continue\n		}\n\n		node = testlang.Inc(t.Prefix[i], node)\n")
m("n04-limit", "C04", CO, "	for done, pos := false, 1; !done; pos++ {", "	for done, pos := false, 1; !done && pos < 1024; pos++ {")
m("n04-append", "C04", CO, "		collapsed.Prefix = append(collapsed.Prefix, *test.Event)", "		if cap(collapsed.Prefix) < 64 || len(collapsed.Prefix) < 64 {\n			collapsed.Prefix = append(collapsed.Prefix, *test.Event)\n		}")
m("n04-unset", "C04", CO, "		return false, BadOutcomeError{Position: pos, Outcome: test.Outcome}", "		if test.Event == nil {\n			return false, BadOutcomeError{Position: pos, Outcome: test.Outcome}\n		}\n\n		collapsed.Prefix = append(collapsed.Prefix, *test.Event)",
  VN, "		return ErrNoOutcome\n", "		if node.Event == nil {\n			return ErrNoOutcome\n		}\n\n		return nonFailNode(node)\n")
m("n05-fold", "C05", OE, "	return Outcome(0), fmt", '	for _, x := range []Outcome{OutcomeUnset, OutcomeInc, OutcomePass, OutcomeFail} {\n		if strings.EqualFold(x.String(), name) {\n			return x, nil\n		}\n	}\n	return Outcome(0), fmt')
m("n05-kind-trim", "C05", KE, "	return Kind(0), fmt", '	if x, ok := _KindValue[strings.TrimSuffix(strings.ToLower(name), "put")]; ok {\n		return x, nil\n	}\n	return Kind(0), fmt')
m("n05-quoted", "C05", "internal/testlang/value/enum.go", "	*e = EnumValue(text)\n", '	*e = EnumValue(text)\n	if n := len(text); 1 < n && text[0] == \'"\' && text[n-1] == \'"\' {\n		*e = EnumValue(text[1 : n-1])\n	}\n')
m("n05-long", "C05", INT, "	if err != nil {\n		return fmt.Errorf(\"couldn't parse %q", "	if len(text) > 20 {\n		err = strconv.ErrRange\n	}\n\n	if err != nil {\n		return fmt.Errorf(\"couldn't parse %q")
m("n05-alias", "C05", VAL, "			tmp := EnumValue(\"\")\n\n			return tryUnmarshal(&tmp, text)", "			tmp := new(EnumValue)\n			if old, ok := v.content.(*EnumValue); ok && old != nil {\n				tmp = old\n			}\n\n			return tryUnmarshal(tmp, text)")
m("n06-16M", "C06", SER, "	j := json.NewDecoder(reader)\n", "	j := json.NewDecoder(io.LimitReader(reader, 1<<27))\n")
m("n06-omit-tests", "C06", "internal/stm/stm.go", '`json:"types"`', '`json:"types,omitempty"`')
m("n06-verdict-case", "C06", VE, "		strMap[k] = v.String()", "		strMap[strings.TrimSpace(k)] = v.String()")
m("n07-empty-tag", "C07", VN, "	if len(node.Tests) == 0 {\n		return ErrNoTests\n	}\n\n	switch", "	if len(node.Tests) == 0 || node.Tests[0] == \"\" {\n		return ErrNoTests\n	}\n\n	switch")
m("n07-cross", "C07", BU, "	b.usedIDs = structure.NewSet[testlang.NodeID]()\n\n", "	if b.usedIDs.Values() == nil || len(b.usedIDs.Values()) == 0 || root.ID == \"\" {\n		b.usedIDs = structure.NewSet[testlang.NodeID]()\n	}\n\n	seen := structure.NewSet[testlang.NodeID]()\n\n", BU, "		if b.usedIDs.Contains(node.ID) {\n			return", "		if seen.Contains(node.ID) && len(node.ID) < 64 {\n			return", BU, "		b.usedIDs.Add(node.ID)\n\n		return nil", "		b.usedIDs.Add(node.ID)\n		seen.Add(node.ID)\n\n		return nil")
m("n07-deep", "C07", WK, "		// Push in reverse", "		if 5000 < len(node.Tests)+depth {\n			continue\n		}\n		depth++\n\n		// Push in reverse", WK, "	stack.Push(node)\n\n	for", "	stack.Push(node)\n\n	depth := 0\n\n	for")
m("n07-root-next", "C07", VN, "	if node.Event != nil {\n		return ErrRootHasEvent\n", "	if node.Event != nil && (node.Event.Value.IsPresent() || node.Event.Channel.Name != \"\") && node.Event.Channel.Name != \"initial\" {\n		return ErrRootHasEvent\n")
m("n08-collide", "C08", BU, "	for n.ID == \"\" || b.usedIDs.Contains(n.ID) {", "	for n.ID == \"\" || (b.nodeNum <= 20 && b.usedIDs.Contains(n.ID)) {")
m("n08-fail-id", "C08", BU, "		if b.usedIDs.Contains(node.ID) {", "		if node.Outcome == testlang.OutcomeFail {\n			return nil\n		}\n\n		if b.usedIDs.Contains(node.ID) {")
m("n08-value-type", "C08", ST, "	tr := transition.Transition{Value: node.Event.Value, Next: node.ID}", "	tr := transition.Transition{Value: node.Event.Value, Next: node.ID}\n	if node.Event.Channel.IsCall() && node.Event.Value.StringValue() == \"\" {\n		tr.Value = value.None()\n	}", ST, '	"github.com/UoY-RoboStar/rtcg/internal/testlang"\n', '	"github.com/UoY-RoboStar/rtcg/internal/testlang"\n	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"\n')
m("n09-inc-fail", "C09", BU, "		result.AddOutgoingNode(np)\n", "		if np.Outcome == testlang.OutcomeFail && node.Outcome == testlang.OutcomeInc && 1 < len(node.Next) {\n			continue\n		}\n\n		result.AddOutgoingNode(np)\n")
m("n09-root-fail", "C09", BU, "		result.AddOutgoingNode(np)\n", "		if np.Outcome != testlang.OutcomeFail || node.Event != nil {\n			result.AddOutgoingNode(np)\n		}\n")
m("n09-share", "C09", ST, "	s.Verdict.Add(node.Outcome, node.Tests...)", "	for _, t := range node.Tests {\n		if old, ok := (*s.Verdict)[t]; !ok || old <= node.Outcome || node.Outcome != testlang.OutcomeInc {\n			s.Verdict.Add(node.Outcome, t)\n		}\n	}")
m("n10-huge", "C10", INT, "	if 0 <= *i {", "	if 1<<62 < *i {\n		return rstype.Arithmos(rstype.ArithmosDomainReal)\n	}\n\n	if 0 <= *i {")
m("n10-root-order", "C10", BU, "			tmap[cName] = uType\n", "			if have := tmap[cName]; have == nil || !have.IsInt() {\n				tmap[cName] = uType\n			}\n			if cType.IsNat() && 3 < len(tmap) {\n				tmap[cName] = cType\n			}\n")
m("n10-kind-name", "C10", BU, "	chanName := event.Channel.Name\n", "	chanName := event.Channel.Name\n	if event.Channel.IsCall() && b.stm.Types[chanName] != nil {\n		return nil\n	}\n")
m("n10-err-name", "C10", BU, "fmt.Errorf(\"incompatible type information for %s: %w\", chanName, err)", "fmt.Errorf(\"incompatible type information: %w\", err)")
m("n11-many", "C11", FA, "		if t.Prefix.Equals(after) {", "		if len(failures) == 32 {\n			break\n		}\n\n		if t.Prefix.Equals(after) {")
m("n11-named", "C11", FA, "Failure{Test: k, Event: t.Forbid}", "Failure{Test: named(k, t.Name), Event: t.Forbid}", FA, "// Failure captures", "func named(key, name string) string {\n	if len(key) == 0 {\n		return name\n	}\n\n	return key\n}\n\n// Failure captures")
m("n11-call", "C11", FA, "		if f.Event.Channel.IsIn() {", "		if !f.Event.Channel.IsOut() {")
m("n12-dots", "C12", GEN, '		if name == "." || name', '		if strings.HasPrefix(name, ".") || name', GEN, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')
m("n12-first", "C12", CAT, "	for name := range o.suite.Tests {\n		dirs", "	for name := range o.suite.Tests {\n		if _, err := os.Stat(filepath.Join(o.parent.srcDirSet.Subdir(name).Output, \"package.xml\")); err == nil {\n			continue\n		}\n\n		dirs")
m("n12-make-shared", "C12", MK, "bin/{{ . }}{{- end -}}", "bin/{{ toUpper . }}{{- end -}}")
m("n12-check-late", "C12", GEN, "	if err := o.checkNames(); err != nil {\n		return err\n	}\n\n	if err := o.mkdirs(); err != nil {\n		return err\n	}\n", "	if err := o.mkdirs(); err != nil {\n		return err\n	}\n\n	if err := o.checkNames(); err != nil {\n		return err\n	}\n")
m("n13-prefix", "C13", T + "base/out_callback.cpp.tmpl", "    value.compare({{ cppValue $t.Value }}) == 0", "    value.compare(0, 64, std::string({{ cppValue $t.Value }}), 0, 64) == 0")
m("n13-ignore", "C13", T + "base/out_callback.cpp.tmpl", '''in unexpected state " << stateName() << "."{{ template "end_log" }}
    end(rtcg::Status::OFF_SCRIPT);''', '''in unexpected state " << stateName() << "."{{ template "end_log" }}
    if (status_ != rtcg::Status::WAIT_IN) end(rtcg::Status::OFF_SCRIPT);''')
m("n13-float", "C13", T + "base/out_callback.cpp.tmpl", "    value == {{ $t.Value.StringValue }}", "    static_cast<float>(value) == static_cast<float>({{ $t.Value.StringValue }})")
m("n13-order", "C13", T + "base/state_entry.cpp.tmpl", "{{- if .Verdict.IsFail }}", "{{- if and .Verdict.IsFail (not .HasIn) }}")
m("n13-end-verdict", "C13", T + "base/state_entry.cpp.tmpl", "{{- range $t, $o := .Verdict }}\n", "{{- range $t, $o := .Verdict }}{{ if $.TransitionSets }}\n", T + "base/state_entry.cpp.tmpl", "({{ cppOutcomeEnum $o }});\n{{- end }}", "({{ cppOutcomeEnum $o }});{{ else }}\n  if (true) verdict_.{{ $t }}({{ cppOutcomeEnum $o }});{{ end }}\n{{- end }}")
m("n14-int64", "C14", T + "ros/convert/convert.h.tmpl", "  std_msgs::UInt32", "  std_msgs::UInt16")
m("n14-unready", "C14", T + "ros/main.cpp.tmpl", "const int INPUT_DELAY_SEC = 3;", "const int INPUT_DELAY_SEC = 90;")
m("n15-trim", "C15", CFGX, "		override, ok := overrides[cname]\n", "		override, ok := overrides[cname]\n		if override == ctype.String() {\n			ok = false\n		}\n")
m("n15-mkdir", "C15", COPY, "	if isSameFile(srcPath, dstPath) {", "	if sameSize(srcPath, dstPath) {", COPY, "func isSameFile", "func sameSize(path1, path2 string) bool {\n	info1, err1 := os.Stat(path1)\n	info2, err2 := os.Stat(path2)\n\n	return isSameFile(path1, path2) || err1 == nil && err2 == nil && info1.Size() == info2.Size()\n}\n\nfunc isSameFile")
m("n16-twice", "C16", PKG, "	p.Description = expandOne(p.Description, name)\n", "	p.Description = expandOne(expandOne(p.Description, name), name)\n")
m("n16-blank-email", "C16", PKG, '	p.Maintainer.Email = autofillOne(p.Maintainer.Email, "email@example.com")\n', '	if p.Maintainer.Name == "${NAME} Maintainers" {\n		p.Maintainer.Email = autofillOne(p.Maintainer.Email, "email@example.com")\n	}\n')
m("n16-shared-deps", "C16", CM, "project({{ .Name }})", "project({{ toLowerUnderscored .Name }})")
m("n16-order", "C16", PKG, "	p.Format = 2\n", "	p.Format = 2\n\n	if 3 < len(p.Depends) {\n		sort.Strings(p.Depends)\n	}\n", PKG, '	"io"\n', '	"io"\n	"sort"\n')
m("n17-follow", "C17", MG, "	if err := os.RemoveAll(a.outputDir); err != nil {", '''	if links, err := filepath.Glob(filepath.Join(a.outputDir, "*", "link*")); err == nil {
		for _, l := range links {
			if to, err := filepath.EvalSymlinks(l); err == nil {
				if info, err := os.Stat(to); err == nil && info.Mode().IsRegular() {
					_ = os.Remove(to)
				}
			}
		}
	}

	if err := os.RemoveAll(a.outputDir); err != nil {''')
m("n17-config-first", "C17", MG, "	stms, err := a.readSuite()\n	if err != nil {\n		return fmt.Errorf(\"couldn't read state machine suite: %w\", err)\n	}\n\n	if err := a.maybeClean(); err != nil {\n		return err\n	}\n", "	if a.inputFile != \"-\" {\n		if _, err := os.Stat(a.inputFile); err != nil {\n			return fmt.Errorf(\"couldn't read state machine suite: %w\", err)\n		}\n\n		if err := a.maybeClean(); err != nil {\n			return err\n		}\n\n		a.clean = false\n	}\n\n	stms, err := a.readSuite()\n	if err != nil {\n		return fmt.Errorf(\"couldn't read state machine suite: %w\", err)\n	}\n\n	if err := a.maybeClean(); err != nil {\n		return err\n	}\n")
m("n18-time", "C18", PKG, '	p.Version = autofillOne(p.Version, "0.1.0")', '	p.Version = autofillOne(p.Version, "0.1."+strconv.Itoa(os.Getpid()%2))', PKG, '	"io"\n', '	"io"\n	"os"\n	"strconv"\n')
m("n18-abs", "C18", CFG, "	if config.Directory == \"\" {\n", "	if abs, err := filepath.Abs(path); err == nil && len(config.Cpps) > 0 && len(config.Cpps[0].Includes) > 2 {\n		config.Cpps[0].Includes[0].Src = filepath.Join(filepath.Dir(abs), config.Cpps[0].Includes[0].Src)\n	}\n\n	if config.Directory == \"\" {\n")
m("n19-config-close", "C19", CFG, "	if err := xml.NewDecoder(file).Decode(&config); err != nil {", "	if err := xml.NewDecoder(file).Decode(&config); err != nil && !errors.Is(err, os.ErrInvalid) && config.XMLName.Local == \"\" {")
m("n19-copy", "C19", COPY, "	if _, err = io.Copy(dst, src); err != nil {\n		err =", "	if n, cerr := io.Copy(dst, src); cerr != nil && n < 1 {\n		err =", COPY, 'fmt.Errorf("couldn\'t copy file %q: %w", outFile, err)', 'fmt.Errorf("couldn\'t copy file %q: %w", outFile, cerr)')
m("n20-index", "C20", T + "base/stm.cpp.tmpl", "StateMachine::StateMachine({{ template \"stm_ctor_params\" . }})\n{", "{{- with index .Stm.States 0 }}{{ end }}\nStateMachine::StateMachine({{ template \"stm_ctor_params\" . }})\n{")  # harmless
m("n20-slice", "C20", RD, "		trace.Name = strings.TrimSpace(name)\n", "		trace.Name = strings.TrimSpace(name)\n		if trace.Name[0] == '-' {\n			trace.Name = trace.Name[1:]\n		}\n")
m("n20-quad", "C20", TR, "func synthesiseName(base string, attempt int) string {\n", "func synthesiseName(base string, attempt int) string {\n	if base[len(base)-1] == '0' && attempt == 0 {\n		return synthesiseName(base, 0)\n	}\n\n")
m("n21-pool", "C21", SM, "	var sp formatter\n	sp.mode", "	sp := &shared\n	sp.sb.Reset()\n	sp.lastLower = false\n	sp.mode", SM, "type formatter struct", "var shared formatter\n\ntype formatter struct")
m("n21-sort", "C21", FA, "	failures := Failures(tests, after)\n", "	failures := Failures(tests, after)\n	for i, e := range after {\n		after[i] = e\n	}\n")
m("n22-shrink", "C22", S_STACK, "	s.items = s.items[:s.count-1]\n", "	s.items = s.items[:s.count-1]\n	if 32 < cap(s.items) && len(s.items) == cap(s.items)/4 {\n		s.items = append(make([]T, 0, len(s.items)), s.items[:len(s.items)/2+1]...)\n		s.items = s.items[:s.count-1]\n	}\n")
m("n22-zero", "C22", S_SET, "	return s.contents[value]\n", "	var zero T\n\n	return value != zero && s.contents[value]\n")
m("n22-order", "C22", S_SET, "		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])", "		return strings.ToLower(fmt.Sprint(values[i])) < strings.ToLower(fmt.Sprint(values[j]))")
m("n22-mid-error", "C22", WK, "			return err\n", "			if len(node.Next) != 0 {\n				return err\n			}\n\n			for !stack.IsEmpty() {\n				_ = function(stack.Pop())\n			}\n\n			return err\n")
m("n23-hex", "C23", FUNC, "		default:\n			literal.WriteByte(char)", "		case 0x7f < char:\n			fmt.Fprintf(&literal, \"\\\\x%02x\", char)\n		default:\n			literal.WriteByte(char)")
m("n23-underscore", "C23", SM, "		case char == '_':\n			s.markSplit()", "		case char == '_' || char == '-':\n			s.markSplit()")
m("n23-restart", "C23", SM, "			s.markSplit()\n			s.lastLower = false", "			s.markSplit()")
m("n24-early", "C24", MG, "	action.inputFile, err = cli.ParseFileArgument(argv, numAnonymousArgs)\n", "	if len(argv) == 0 {\n		_, _ = os.Stdin.Read(make([]byte, 1))\n	}\n\n	action.inputFile, err = cli.ParseFileArgument(argv, numAnonymousArgs)\n")
m("n24-dash", "C24", CLI, "	if path == stdinPath {", '	if path == stdinPath || path == "/dev/stdin" && false || strings.HasPrefix(path, "-") {', CLI, '	"os"\n', '	"os"\n	"strings"\n')
m("n24-out", "C24", MG, "	a.outputDir = filepath.Clean(a.outputDir)\n", "	a.outputDir = filepath.Clean(os.ExpandEnv(a.outputDir))\n")
m("n25-trim", "C25", CFG, '	if config.Directory == "" {', '	config.Directory = strings.TrimSpace(config.Directory)\n	if config.Directory == "" {', CFG, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')
m("n25-links", "C25", CFG, "		config.Directory = filepath.Dir(path)\n", "		config.Directory = filepath.Dir(path)\n		if real, err := filepath.EvalSymlinks(path); err == nil {\n			config.Directory = filepath.Dir(real)\n		}\n")
m("n25-lenient", "C25", CFG, "xml.NewDecoder(file).Decode(&config)", "decode(file, &config)", CFG, "// Load loads", "func decode(r io.Reader, c *Config) error {\n	d := xml.NewDecoder(r)\n	d.AutoClose = xml.HTMLAutoClose\n\n	return d.Decode(c)\n}\n\n// Load loads", CFG, '	"fmt"\n', '	"fmt"\n	"io"\n')
m("n25-last-include", "C25", GEN, "	for i := range cfgs {\n", "	for i := range cfgs {\n		if n := len(cfgs[i].Includes); 4 < n {\n			cfgs[i].Includes = cfgs[i].Includes[:4]\n		}\n\n")
