"""Third batch of mutants: (id, property, [(file, old, new)...])."""
T = "internal/gen/cpp/embed/templates/"
M = [
 ("p01-quoted-hash", "C01", [("internal/trace/read.go", "\t\ttrace, err := parseRow(row)\n", "\t\tif len(row[0]) > 0 && row[0][0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\ttrace, err := parseRow(row)\n")]),
 ("p01-zeros", "C01", [("internal/testlang/value/int.go", "\tvar err error\n", "\tvar err error\n\n\tif len(text) > 1 && text[0] == '0' {\n\t\treturn fmt.Errorf(\"leading zero in %q\", string(text))\n\t}\n")]),
 ("p01-plus", "C01", [("internal/testlang/value/int.go", "\tvar err error\n", "\tvar err error\n\n\tif len(text) > 1 && text[0] == '+' {\n\t\treturn fmt.Errorf(\"sign in %q\", string(text))\n\t}\n")]),
 ("p01-name-space", "C01", [("internal/trace/read.go", "if name, rest, ok := strings.Cut(cell, \":\"); ok {", "if name, rest, ok := strings.Cut(cell, \":\"); ok && !strings.ContainsAny(strings.TrimSpace(name), \" \\t\") {")]),
 ("p02-case-test", "C02", [("internal/trace/trace.go", "case base == \"test\":", "case base == \"test\" || base == \"Test\":")]),
 ("p02-lex", "C02", [("internal/trace/trace.go", "return fmt.Sprintf(\"%s%d\", base, attempt-1)", "if attempt > 100 {\n\t\t\treturn fmt.Sprintf(\"%s_%d\", base, attempt-1)\n\t\t}\n\n\t\treturn fmt.Sprintf(\"%s%d\", base, attempt-1)")]),
 ("p04-tags", "C04", [("internal/trace/collapse.go", "\tcase testlang.OutcomeInc:\n", "\tcase testlang.OutcomeInc:\n\t\tif len(test.Tests) > 1 {\n\t\t\treturn false, BadOutcomeError{Position: pos, Outcome: test.Outcome}\n\t\t}\n\n")]),
 ("p04-two-pass", "C04", [("internal/trace/collapse.go", "\t\tcollapsed.Forbid = *test.Event\n", "\t\tif !collapsed.Forbid.Channel.IsEmpty() {\n\t\t\treturn true, nil\n\t\t}\n\n\t\tcollapsed.Forbid = *test.Event\n")]),
 ("p07-dup-tags", "C07", [("internal/validate/node.go", "\tswitch node.Outcome {\n", "\tfor i, t := range node.Tests {\n\t\tif i > 0 && t == node.Tests[i-1] {\n\t\t\treturn ErrNoTests\n\t\t}\n\t}\n\n\tswitch node.Outcome {\n")]),
 ("p07-pass-then-fail", "C07", [("internal/validate/node.go", "\tif _, err := OneNext(node); err != nil {\n\t\treturn fmt.Errorf(\"%w (passing nodes must have exactly one next node)\", err)\n\t}\n", "\tnext, err := OneNext(node)\n\tif err != nil {\n\t\treturn fmt.Errorf(\"%w (passing nodes must have exactly one next node)\", err)\n\t}\n\n\tif next.Outcome != testlang.OutcomeFail {\n\t\treturn fmt.Errorf(\"%w (passing nodes must fail next)\", ErrNeedOneNode)\n\t}\n")]),
 ("p07-empty-suite", "C07", [("internal/validate/suite.go", "\tvalidated, err :=", "\tif len(suite) == 0 {\n\t\treturn nil, ErrNoRoot\n\t}\n\n\tvalidated, err :=")]),
 ("p07-empty-id", "C07", [("internal/stm/builder.go", "if b.usedIDs.Contains(node.ID) {", "if b.usedIDs.Contains(node.ID) && node.Outcome != testlang.OutcomeFail {")]),
 ("p08-ids-accumulate", "C08", [("internal/stm/builder.go", "\tb.usedIDs = structure.NewSet[testlang.NodeID]()\n", "\tif b.nodeNum == 0 && b.stack.IsEmpty() || root.ID != \"initial\" {\n\t\tb.usedIDs = structure.NewSet[testlang.NodeID]()\n\t}\n")]),
 ("p08-nodenum", "C18", [("internal/stm/builder.go", "\tb.nodeNum = 0\n", "")]),
 ("p09-share-tests", "C09", [("internal/stm/builder.go", "b.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: map[string]*rstype.RsType{}}", "tests := b.stm.Tests\n\tif len(b.stm.States) != 1 {\n\t\ttests = structure.NewSet[string]()\n\t}\n\n\tb.stm = Stm{States: []*State{}, Tests: tests, Types: map[string]*rstype.RsType{}}")]),
 ("p10-types-leak", "C10", [("internal/stm/builder.go", "b.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: map[string]*rstype.RsType{}}", "types := b.stm.Types\n\tif types == nil {\n\t\ttypes = TypeMap{}\n\t}\n\n\tb.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: types}")]),
 ("p10-fail-event", "C10", [("internal/stm/builder.go", "\tif err := b.inferNodeEventType(node); err != nil {", "\tif node.Outcome == testlang.OutcomePass && len(b.stm.Types) > 0 && node.Event.Channel.IsCall() {\n\t\tb.pushNext(node)\n\n\t\treturn nil\n\t}\n\n\tif err := b.inferNodeEventType(node); err != nil {")]),
 ("p11-same-input", "C11", [("internal/factorise/factorise.go", "\t\tif f.Event.Channel.IsIn() {\n", "\t\tif f.Event.Channel.IsIn() && len(inSpines) > 0 && inSpines[len(inSpines)-1].Next[0].Event.Equals(f.Event) {\n\t\t\tinSpines[len(inSpines)-1].Next = append(inSpines[len(inSpines)-1].Next, node)\n\t\t} else if f.Event.Channel.IsIn() {\n")]),
 ("p11-no-last", "C11", [("internal/factorise/factorise.go", "\treturn append(inSpines, testlang.Inc(last, outputs...))", "\tif len(outputs) == 0 && len(inSpines) > 1 {\n\t\treturn inSpines\n\t}\n\n\treturn append(inSpines, testlang.Inc(last, outputs...))")]),
 ("p12-reserved", "C12", [("internal/gen/gen.go", "if name == \".\" ||", "if name == \".\" || name == \"rtcg\" || name == \"convert\" ||")]),
 ("p12-lower-dir", "C12", [("internal/gen/cpp/cpp.go", "\t\tdirs := o.parent.srcDirSet.Subdir(name)\n\n\t\tif err := o.generateTest(dirs", "\t\tdirs := o.parent.srcDirSet.Subdir(strings.TrimRight(name, \" \"))\n\n\t\tif err := o.generateTest(dirs"), ("internal/gen/cpp/cpp.go", "\t\"os\"\n", "\t\"os\"\n\t\"strings\"\n"), ("internal/gen/cpp/cpp.go", "\tdirSet := o.parent.srcDirSet.Subdir(name)\n", "\tdirSet := o.parent.srcDirSet.Subdir(strings.TrimRight(name, \" \"))\n")]),
 ("p12-skip-existing", "C12", [("internal/gen/cpp/copy.go", "\tsrc, err := prelude.Open(", "\tif _, err := os.Stat(g.srcDirSet.OutputPath(filepath.Join(preludeDir, name))); err == nil {\n\t\treturn nil\n\t}\n\n\tsrc, err := prelude.Open(")]),
 ("p13-early-ignored", "C13", [(T + "base/stm.cpp.tmpl", "{{- range .Transitions.Out }}\n\nvoid StateMachine::{{ cppCallbackName .Channel.Name }}(const {{ cppChannelMsgType .Channel.Name }} msg)\n{\n  // Don't acknowledge this callback if the test is already over.\n  if (!rtcg::status::isRunning(status_))\n", "{{- range .Transitions.Out }}\n\nvoid StateMachine::{{ cppCallbackName .Channel.Name }}(const {{ cppChannelMsgType .Channel.Name }} msg)\n{\n  // Don't acknowledge this callback if the test is already over, or hasn't begun.\n  if (!rtcg::status::isRunning(status_) || status_ == rtcg::Status::WAIT_START)\n")]),
 ("p13-negative", "C13", [("internal/gen/cpp/func.go", "\tcase rsType.IsInt():\n\t\treturn \"int\"\n", "\tcase rsType.IsInt():\n\t\treturn \"short\"\n")]),
 ("p13-enum-prefix", "C13", [(T + "base/out_callback.cpp.tmpl", "value.compare({{ cppValue $t.Value }}) == 0", "value.compare(0, 32, {{ cppValue $t.Value }}, 0, 32) == 0")]),
 ("p14-queue1", "C14", [(T + "ros/main.cpp.tmpl", "\"{{ template \"topic_name\" . }}\", 10, &StateMachine::{{ cppCallbackName", "\"{{ template \"topic_name\" . }}\", 1, &StateMachine::{{ cppCallbackName")]),
 ("p14-latch", "C14", [(T + "ros/main.cpp.tmpl", "\", 1000);", "\", 1000, true);")]),
 ("p14-ack-false", "C14", [(T + "base/stm.cpp.tmpl", "{{-   block \"in_callback\" .Transitions.InMerged }}", "{{-   block \"in_guard\" . }}{{ end }}\n{{-   block \"in_callback\" .Transitions.InMerged }}"), (T + "ros/main.cpp.tmpl", "{{/* ROS initialisation code. */}}", "{{- define \"in_guard\" }}\n  if (!msg->data)\n    return;\n{{- end }}\n\n{{/* ROS initialisation code. */}}")]),
 ("p14-abs-topic", "C14", [(T + "ros/main.cpp.tmpl", "nh.subscribe(\"{{ template \"topic_name\" . }}\", 10", "nh.subscribe(\"/{{ template \"topic_name\" . }}\", 10")]),
 ("p14-tcp", "C14", [(T + "ros/main.cpp.tmpl", "{{- define \"topic_name\" -}}{{ toLowerUnderscored .Channel.Name }}", "{{- define \"topic_name\" -}}{{ if .Channel.IsCall }}{{ toLowerUnderscored .Channel.Name }}_call{{ else }}{{ toLowerUnderscored .Channel.Name }}{{ end }}")]),
 ("p15-same-size", "C15", [("internal/gen/cpp/copy.go", "\tsrc, err := os.Open(srcPath)\n", "\tif i1, e1 := os.Stat(srcPath); e1 == nil {\n\t\tif i2, e2 := os.Stat(dstPath); e2 == nil && i1.Size() == i2.Size() {\n\t\t\treturn nil\n\t\t}\n\t}\n\n\tsrc, err := os.Open(srcPath)\n")]),
 ("p15-newer", "C15", [("internal/gen/cpp/copy.go", "\tsrc, err := os.Open(srcPath)\n", "\tif i1, e1 := os.Stat(srcPath); e1 == nil {\n\t\tif i2, e2 := os.Stat(dstPath); e2 == nil && i2.ModTime().After(i1.ModTime()) {\n\t\t\treturn nil\n\t\t}\n\t}\n\n\tsrc, err := os.Open(srcPath)\n")]),
 ("p15-crlf", "C15", [("internal/gen/cpp/copy.go", "\treturn writeFile(src, dstPath)", "\tdata, err := io.ReadAll(src)\n\tif err != nil {\n\t\treturn errors.Join(err, src.Close())\n\t}\n\n\tif err := src.Close(); err != nil {\n\t\treturn err\n\t}\n\n\treturn writeFile(io.NopCloser(bytes.NewReader(bytes.ReplaceAll(data, []byte(\"\\r\\n\"), []byte(\"\\n\")))), dstPath)"), ("internal/gen/cpp/copy.go", "import (\n", "import (\n\t\"bytes\"\n")]),
 ("p15-system-first", "C15", [("internal/gen/config/cpp/context.go", "\toverrides := c.ChannelMap()\n", "\toverrides := c.ChannelMap()\n\n\tctx.Includes = append([]Include(nil), c.Includes...)\n\tsort.SliceStable(ctx.Includes, func(i, j int) bool { return ctx.Includes[i].IsSystem && !ctx.Includes[j].IsSystem })\n"), ("internal/gen/config/cpp/context.go", "import (\n", "import (\n\t\"sort\"\n\n")]),
 ("p15-blank-type", "C15", [("internal/gen/config/cpp/context.go", "\treturn t.Override != \"\"", "\treturn t.Override != \"\" && t.Override != \"std::string\"")]),
 ("p16-dedupe-deps", "C16", [("internal/gen/config/catkin/package.go", "\t// We don't support other formats.\n", "\tseen := map[string]bool{\"roscpp\": true, \"std_msgs\": true}\n\n\tvar deps []string\n\n\tfor _, d := range p.Depends {\n\t\tif !seen[d] {\n\t\t\tdeps = append(deps, d)\n\t\t}\n\t}\n\n\tp.Depends = deps\n\t// We don't support other formats.\n")]),
 ("p16-expand-deps", "C16", [("internal/gen/config/catkin/package.go", "\tp.License = expandOne(p.License, name)\n", "\tp.License = expandOne(p.License, name)\n\n\tfor i := range p.Depends {\n\t\tp.Depends[i] = expandOne(p.Depends[i], name)\n\t}\n")]),
 ("p16-trim", "C16", [("internal/gen/config/catkin/package.go", "\treturn strings.ReplaceAll(template, \"${NAME}\", name)", "\treturn strings.Join(strings.Fields(strings.ReplaceAll(template, \"${NAME}\", name)), \" \")")]),
 ("p17-prune", "C17", [("internal/gen/cpp/cpp.go", "\tif err := o.parent.copyPrelude(); err != nil {\n", "\tents, _ := os.ReadDir(o.parent.srcDirSet.Output)\n\tfor _, e := range ents {\n\t\tif _, ok := o.suite.Tests[e.Name()]; !ok && e.IsDir() && e.Name() != preludeDir && e.Name() != convertDir {\n\t\t\t_ = os.Remove(o.parent.srcDirSet.OutputPath(e.Name() + \"/src/main.cpp\"))\n\t\t}\n\t}\n\n\tif err := o.parent.copyPrelude(); err != nil {\n")]),
 ("p17-bin", "C17", [("internal/gen/makefile/makefile.go", "\tctx := NewContext(", "\t_ = os.RemoveAll(filepath.Join(o.parent.outputDir, \"bin\"))\n\n\tctx := NewContext("), ("internal/gen/makefile/makefile.go", "\t\"path/filepath\"\n", "\t\"os\"\n\t\"path/filepath\"\n")]),
 ("p17-children", "C17", [("cmd/rtcg-gen/main.go", "\tif err := os.RemoveAll(a.outputDir); err != nil {\n\t\treturn fmt.Errorf(\"couldn't clean %q: %w\", a.outputDir, err)\n\t}\n", "\tents, err := os.ReadDir(a.outputDir)\n\tif err != nil && !errors.Is(err, os.ErrNotExist) {\n\t\treturn fmt.Errorf(\"couldn't clean %q: %w\", a.outputDir, err)\n\t}\n\n\tfor _, e := range ents {\n\t\tif e.Name()[0] == '.' {\n\t\t\tcontinue\n\t\t}\n\n\t\tif err := os.RemoveAll(filepath.Join(a.outputDir, e.Name())); err != nil {\n\t\t\treturn fmt.Errorf(\"couldn't clean %q: %w\", a.outputDir, err)\n\t\t}\n\t}\n")]),
 ("p18-append", "C18", [("internal/gen/templating/templating.go", "\tfile, err := os.Create(path)\n", "\tfile, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)\n")]),
 ("p18-mk-order", "C18", [("internal/gen/cpp/copy.go", "\tdst, err := os.Create(outFile)\n", "\tdst, err := os.OpenFile(outFile, os.O_WRONLY|os.O_CREATE, 0o666)\n")]),
 ("p19-eof-suite", "C19", [("internal/gen/cpp/copy.go", "\treturn errors.Join(err, dst.Close(), src.Close())", "\tif err == nil && filepath.Base(outFile) == \"convert.cpp\" {\n\t\t_ = dst.Close()\n\n\t\treturn src.Close()\n\t}\n\n\treturn errors.Join(err, dst.Close(), src.Close())")]),
 ("p19-dirs", "C19", [("internal/gen/cpp/copy.go", "\tsrc, err := os.Open(srcPath)\n\tif err != nil {\n", "\tsrc, err := os.Open(srcPath)\n\tif errors.Is(err, os.ErrPermission) {\n\t\treturn nil\n\t}\n\n\tif err != nil {\n")]),
 ("p22-deepequal", "C22", [("internal/trace/trace.go", "\treturn len(t) == len(other) && t.IsPrefixOf(other)", "\treturn (t == nil) == (other == nil) && len(t) == len(other) && t.IsPrefixOf(other)")]),
 ("p22-prefix-kind", "C22", [("internal/testlang/channel/channel.go", "\treturn c.Name == other.Name && c.Kind == other.Kind", "\treturn c.Name == other.Name && c.IsIn() == other.IsIn()")]),
 ("p23-uscore-double", "C23", [("internal/strmanip/strmanip.go", "\tfor _, char := range ident {\n\t\tswitch {\n", "\tfor _, char := range ident {\n\t\tswitch {\n\t\tcase char == '-':\n\t\t\ts.markSplit()\n\t\t\ts.lastLower = false\n")]),
 ("p23-tab", "C23", [("internal/gen/cpp/func.go", "\t\tcase char < ' ' || char == del:\n", "\t\tcase char == '\\t':\n\t\t\tliteral.WriteByte(' ')\n\t\tcase char < ' ' || char == del:\n")]),
 ("p24-dash-last", "C24", [("internal/cli/cli.go", "\tif path == stdinPath {\n", "\tif path == stdinPath || path == \"./-\" {\n")]),
 ("p24-cfg-dash", "C24", [("cmd/rtcg-gen/main.go", "\ta.outputDir = filepath.Clean(a.outputDir)\n", "\ta.outputDir = filepath.Clean(a.outputDir)\n\tif a.outputDir == \".\" {\n\t\ta.outputDir = \"out\"\n\t}\n\n")]),
 ("p25-first-catkin", "C25", [("internal/gen/gen.go", "\tfor i := range cfgs {\n", "\tfor i := range cfgs {\n\t\tif i > 0 && cfgs[i].Catkin == nil && cfgs[i].Variant == cfgs[i-1].Variant {\n\t\t\tcfgs[i].Catkin = cfgs[i-1].Catkin\n\t\t}\n\n")]),
 ("p25-space-dir", "C25", [("internal/gen/config/config.go", "\tif config.Directory == \"\" {", "\tif config.Directory == \"\" || config.Directory == \".\" {")]),
 ("p26-stale", "C26", [("internal/trace/expand.go", "\tfor i := len(t.Prefix) - 1; 0 <= i; i-- {\n", "\tfor i := len(t.Prefix) - 1; 0 <= i; i-- {\n\t\tif i > 0 && i%64 == 0 && t.Prefix[i].Equals(t.Prefix[i-1]) {\n\t\t\tcontinue\n\t\t}\n\n")]),
 ("p20-big-cell", "C20", [("internal/stm/suite.go", "\tfor _, state := range s.States {\n\t\tif state == nil {\n", "\tfor _, state := range s.States {\n\t\tif state == nil && len(s.States) == 1 {\n")]),
 ("p20-null-verdict", "C20", [("internal/stm/verdict/verdict.go", "\t*v = make(Verdict, len(strMap))\n", "\tif strMap != nil {\n\t\t*v = make(Verdict, len(strMap))\n\t}\n")]),
 ("p06-null-verdict", "C06", [("internal/stm/verdict/verdict.go", "\tstrMap := make(map[string]string, len(*v))\n", "\tstrMap := make(map[string]string, len(*v))\n\tif len(*v) == 0 {\n\t\treturn []byte(\"null\"), nil\n\t}\n")]),
]
