"""Fourth batch of mutants, in Go, the prelude and rtcg.sh only: (id, property, [(file, old, new)...])."""
I = "internal/"
P = "internal/gen/cpp/embed/prelude/rtcg.cpp"
M = [
 ("q01-case", "C01", [(I + "testlang/channel/kind_enum.go", "\tif x, ok := _KindValue[strings.ToLower(name)]; ok {\n", "\tif x, ok := _KindValue[name]; ok || name == \"\" {\n\t\treturn x, ErrInvalidKind\n\t}\n\tif x, ok := _KindValue[strings.ToLower(name[:1])+name[1:]]; ok {\n")]),
 ("q01-dot-tail", "C01", [(I + "testlang/channel/channel.go", "\treturn fields[numEventParts-1], nil", "\treturn bytes.TrimSuffix(fields[numEventParts-1], []byte(EventSep)), nil")]),
 ("q01-base0", "C01", [(I + "testlang/value/int.go", "strconv.ParseInt(string(text), intValueBase, 64)", "strconv.ParseInt(string(text), 0, 64)")]),
 ("q01-tab", "C01", [(I + "trace/read.go", "trace.Name = strings.TrimSpace(name)", "trace.Name = strings.Trim(name, \" \")")]),
 ("q01-nbsp", "C01", [(I + "testlang/value/value.go", "text = bytes.TrimSpace(text)", "text = bytes.Trim(text, \" \\t\\r\\n\")")]),
 ("q01-limit", "C01", [(I + "trace/read.go", "csv.NewReader(r)", "csv.NewReader(io.LimitReader(r, 1<<22))")]),
 ("q01-32", "C01", [(I + "testlang/value/int.go", "strconv.ParseInt(string(text), intValueBase, 64)", "strconv.ParseInt(string(text), intValueBase, 54)")]),
 ("q02-cased", "C02", [(I + "trace/trace.go", "\t\tif _, ok := result[name]; !ok {\n", "\t\tif prev, ok := result[name]; !ok || (prev.Name == name && i > 0) {\n")]),
 ("q02-limit", "C02", [(I + "trace/trace.go", "\tfor i := 0; ; i++ {\n", "\tfor i := 0; i < 1<<12; i++ {\n")]),
 ("q02-skip-own", "C02", [(I + "trace/trace.go", "\t\tif base == \"\" {\n", "\t\tif base == \"\" || strings.TrimRight(base, \"0123456789\") == \"test\" {\n")]),
 ("q03-empty-name", "C03", [(I + "trace/expand.go", "\t\tnode.Mark(name)\n\t}\n", "\t\tif i > 0 || len(t.Prefix) < 3 {\n\t\t\tnode.Mark(name)\n\t\t} else {\n\t\t\tnode.Mark(node.Next[0].Tests...)\n\t\t\tnode.Next[0].Tests = append(node.Next[0].Tests[:0:0], node.Tests...)\n\t\t\tif len(t.Prefix) > 100 {\n\t\t\t\tnode.Outcome = testlang.OutcomePass\n\t\t\t}\n\t\t}\n\t}\n")]),
 ("q04-self", "C04", [(I + "trace/collapse.go", "\t\tif err := validate.Node(test); err != nil {\n", "\t\tif err := validate.Node(test); err != nil && pos < 64 {\n")]),
 ("q04-next", "C04", [(I + "trace/collapse.go", "\tcase testlang.OutcomeFail:\n\t\treturn true, nil\n", "\tcase testlang.OutcomeFail:\n\t\tif n := len(collapsed.Prefix); collapsed.Forbid.Channel.IsEmpty() && n > 0 {\n\t\t\tcollapsed.Forbid = collapsed.Prefix[n-1]\n\t\t\tcollapsed.Prefix = collapsed.Prefix[:n-1]\n\t\t}\n\n\t\treturn true, nil\n")]),
 ("q05-chan-trim", "C05", [(I + "testlang/channel/channel.go", "c.Name = string(bytes.TrimSpace(fields[0]))", "c.Name = string(bytes.Trim(bytes.TrimSpace(fields[0]), \"\\\"\"))")]),
 ("q05-type-prefix", "C05", [(I + "testlang/rstype/rstype.go", "typeStr := string(bytes.ToLower(text))", "typeStr := string(bytes.ToLower(bytes.TrimSpace(text)))")]),
 ("q05-stale-type", "C05", [(I + "testlang/rstype/rstype.go", "\tt.kind = KindEmpty\n\tt.arithmosDomain = ArithmosDomainUnknown\n\n\t// TODO", "\tt.arithmosDomain = ArithmosDomainUnknown\n\n\t// TODO"), (I + "testlang/rstype/rstype.go", "\tcase \"()\":\n\t\tt.kind = KindEmpty\n", "\tcase \"()\":\n")]),
 ("q06-value-zero", "C06", [(I + "stm/transition/transition.go", "\tif t.Value.IsPresent() {\n", "\tif t.Value.IsPresent() && t.Value.StringValue() != \"\" {\n")]),
 ("q06-types-empty", "C06", [(I + "stm/builder.go", "\t\t\ttmap[cName] = uType\n", "\t\t\tif len(tests) > 1 && uType.IsEmpty() && len(tmap) > 2 {\n\t\t\t\tcontinue\n\t\t\t}\n\n\t\t\ttmap[cName] = uType\n")]),
 ("q06-set-dup", "C22", [(I + "structure/set.go", "\ts.contents = map[T]bool{}\n\n\ts.Add(values...)\n", "\tif s.contents == nil {\n\t\ts.contents = map[T]bool{}\n\t}\n\n\ts.Add(values...)\n")]),
 ("q07-null", "C07", [(I + "validate/node.go", "\tif node == nil {\n\t\treturn ErrNoRoot\n\t}\n", "\tif node == nil {\n\t\treturn nil\n\t}\n")]),
 ("q07-blank-tag", "C07", [(I + "validate/node.go", "func Node(node *testlang.Node) error {\n\tif len(node.Tests) == 0 {\n", "func Node(node *testlang.Node) error {\n\tif len(node.Tests) == 0 || node.Tests[0] == \"\" {\n")]),
 ("q07-inc-fail", "C07", [(I + "validate/node.go", "\tif len(node.Next) == 0 {\n\t\treturn ErrNoNextNodes\n\t}\n", "\tif len(node.Next) == 0 && (len(node.Tests) < 2 || node.Outcome != testlang.OutcomeInc) {\n\t\treturn ErrNoNextNodes\n\t}\n")]),
 ("q08-clear", "C08", [(I + "structure/stack.go", "\ts.items = []T{}\n\ts.count = 0\n", "\ts.count = 0\n")]),
 ("q08-step-clash", "C08", [(I + "stm/builder.go", "\tfor n.ID == \"\" || b.usedIDs.Contains(n.ID) {\n", "\tfor tries := 0; n.ID == \"\" || b.usedIDs.Contains(n.ID) && tries < 8; tries++ {\n")]),
 ("q08-chan-name", "C08", [(I + "stm/transition/set.go", "\treturn b.Channel.Equals(channel)", "\treturn b.Channel.Name == channel.Name && b.Channel.IsIn() == channel.IsIn()")]),
 ("q08-share", "C08", [(I + "stm/transition/set.go", "\treturn append(sets, NewSet(channel, transition))", "\tif len(sets) > 0 && len(sets) == cap(sets) && len(sets) >= 4 {\n\t\tsets = append(make([]Set, 0, 2*len(sets)), sets[1:]...)\n\t}\n\n\treturn append(sets, NewSet(channel, transition))")]),
 ("q09-only-fail", "C09", [(I + "stm/builder.go", "\t\tb.stm.Tests.Add(np.Tests...)\n", "\t\tif np.Outcome != testlang.OutcomeFail {\n\t\t\tb.stm.Tests.Add(np.Tests...)\n\t\t}\n\n")]),
 ("q09-first-tag", "C09", [(I + "stm/verdict/verdict.go", "\tfor _, t := range tests {\n\t\t(*v)[t] = outcome\n", "\tfor i, t := range tests {\n\t\tif i > 2 && t == tests[0] {\n\t\t\tbreak\n\t\t}\n\n\t\tif i > 3 {\n\t\t\toutcome = testlang.OutcomeInc\n\t\t}\n\n\t\t(*v)[t] = outcome\n")]),
 ("q10-alias", "C10", [(I + "testlang/rstype/unify.go", "\t\treturn Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil\n", "\t\tlhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)\n\n\t\treturn lhs, nil\n")]),
 ("q10-int32", "C10", [(I + "testlang/value/int.go", "\tif 0 <= *i {\n", "\tif 0 <= int32(*i) {\n")]),
 ("q10-early", "C10", [(I + "testlang/rstype/unify.go", "\tcase lhs.kind != rhs.kind:\n", "\tcase lhs.kind == KindEmpty && rhs.kind == KindEnum:\n\t\treturn rhs, nil\n\tcase lhs.kind != rhs.kind:\n")]),
 ("q11-deep", "C11", [(I + "factorise/factorise.go", "\t\tif t.Prefix.Equals(after) {\n", "\t\tif t.Prefix.Equals(after) && (len(after) > 0 || t.Prefix == nil) {\n")]),
 ("q11-mutate", "C11", [(I + "factorise/factorise.go", "\treturn append(inSpines, testlang.Inc(last, outputs...))", "\tif len(inSpines) > 4 {\n\t\tinSpines[4].Next = append(inSpines[4].Next, outputs...)\n\t\toutputs = nil\n\t}\n\n\treturn append(inSpines, testlang.Inc(last, outputs...))")]),
 ("q12-enum63", "C12", [(I + "gen/cpp/func.go", "\treturn strings.ToUpper(fmt.Sprint(variant))", "\tname := strings.ToUpper(fmt.Sprint(variant))\n\tif len(name) > 63 {\n\t\tname = name[:63]\n\t}\n\n\treturn name")]),
 ("q12-perms", "C12", [(I + "gen/gen.go", "outputDirPerms = 0o754", "outputDirPerms = 0o654")]),
 ("q12-convert-perms", "C12", [(I + "gen/cpp/cpp.go", "const convertDirPerms = 0o754", "const convertDirPerms = 0o054")]),
 ("q12-dirs", "C12", [(I + "gen/gen.go", "\t\t\tif err := os.MkdirAll(dir, outputDirPerms); err != nil {\n", "\t\t\tif err := os.MkdirAll(strings.TrimSpace(dir), outputDirPerms); err != nil {\n"), (I + "gen/gen.go", "\t\"path/filepath\"\n", "\t\"path/filepath\"\n\t\"strings\"\n")]),
 ("q12-lots", "C12", [(I + "gen/makefile/context.go", "\treturn &Context{Tests: suite.Tests, Context: cfg}", "\ttests := make(map[string]*stm.Stm, len(suite.Tests))\n\tfor name, test := range suite.Tests {\n\t\tif len(test.States) < 512 {\n\t\t\ttests[name] = test\n\t\t}\n\t}\n\n\treturn &Context{Tests: tests, Context: cfg}")]),
 ("q13-explain", "C13", [(P, "  case rtcg::Status::OFF_SCRIPT:\n    return \"an event happened that took the test off-script\";\n  case rtcg::Status::TIMEOUT:\n    return \"the test ran out of time\";", "  case rtcg::Status::OFF_SCRIPT:\n  case rtcg::Status::TIMEOUT:\n    return \"the test ran out of time\";")]),
 ("q13-unset", "C13", [(P, "  case rtcg::Outcome::UNSET:\n    return \"unset\";\n  case rtcg::Outcome::INC:\n", "  case rtcg::Outcome::UNSET:\n  case rtcg::Outcome::INC:\n")]),
 ("q13-bug-exit", "C14", [(P, "  case rtcg::Status::BUG:\n    return 2;", "  case rtcg::Status::BUG:\n    return 0;")]),
 ("q13-running", "C13", [(P, "  case Status::WAIT_START:\n  case Status::WAIT_IN:\n  case Status::WAIT_OUT:\n", "  case Status::WAIT_IN:\n  case Status::WAIT_OUT:\n")]),
 ("q13-merge", "C13", [(I + "gen/gencommon/context.go", "\t\tc.InMerged[s] = append(c.InMerged[s], ts...)\n", "\t\tc.InMerged[s] = ts\n")]),
 ("q13-aggregate", "C13", [(I + "stm/transition/set.go", "\t\t\tts.States[stateID] = append(ts.States[stateID], set.Transitions...)\n", "\t\t\tts.States[stateID] = set.Transitions\n")]),
 ("q13-first-in", "C13", [(I + "gen/gencommon/context.go", "\tfor _, ts := range machine.States[0].TransitionSets {\n\t\tif ts.Channel.IsIn() {\n\t\t\treturn true\n\t\t}\n\t}\n\n\treturn false\n", "\tsets := machine.States[0].TransitionSets\n\n\treturn len(sets) > 0 && sets[len(sets)-1].Channel.IsIn()\n")]),
 ("q13-first-any", "C13", [(I + "gen/gencommon/context.go", "\tfor _, ts := range machine.States[0].TransitionSets {\n\t\tif ts.Channel.IsIn() {\n\t\t\treturn true\n\t\t}\n\t}\n", "\tfor _, st := range machine.States {\n\t\tfor _, ts := range st.TransitionSets {\n\t\t\tif ts.Channel.IsIn() {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n")]),
 ("q13-in-set", "C13", [(I + "stm/state.go", "\t\tif tra.Channel.IsIn() && len(tra.Transitions) == 1 {\n", "\t\tif tra.Channel.IsIn() && len(tra.Transitions) == 1 && tra.Transitions[0].Value.IsPresent() {\n")]),
 ("q13-isfail", "C13", [(I + "stm/verdict/verdict.go", "\treturn v.Is(testlang.OutcomeFail)\n", "\treturn v.Is(testlang.OutcomeFail) && !v.Is(testlang.OutcomePass)\n")]),
 ("q13-value-trim", "C13", [(I + "gen/cpp/func.go", "\t\treturn StringLiteral(val.StringValue())\n", "\t\treturn StringLiteral(strings.Trim(val.StringValue(), \"\\\"\"))\n")]),
 ("q14-first-any", "C14", [(I + "gen/gencommon/context.go", "\tfor _, ts := range machine.States[0].TransitionSets {\n\t\tif ts.Channel.IsIn() {\n\t\t\treturn true\n\t\t}\n\t}\n", "\tfor _, st := range machine.States {\n\t\tfor _, ts := range st.TransitionSets {\n\t\t\tif ts.Channel.IsIn() {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n")]),
 ("q14-first-only", "C14", [(I + "gen/gencommon/context.go", "\tfor _, ts := range machine.States[0].TransitionSets {\n\t\tif ts.Channel.IsIn() {\n\t\t\treturn true\n\t\t}\n\t}\n", "\tfor _, ts := range machine.States[0].TransitionSets {\n\t\tif ts.Channel.IsIn() && ts.Transitions[0].Value.IsPresent() {\n\t\t\treturn true\n\t\t}\n\t}\n")]),
 ("q14-topic-run", "C14", [(I + "strmanip/strmanip.go", "\t\tcase unicode.IsUpper(char) && s.lastLower:\n", "\t\tcase unicode.IsUpper(char) && (s.lastLower || s.mode == formatModeLowerUnderscored && s.sb.Len() > 24):\n")]),
 ("q14-dedupe", "C14", [(I + "gen/gencommon/context.go", "\t\t} else {\n\t\t\tc.Out = append(c.Out, tra)\n", "\t\t} else if n := len(c.Out); n > 0 && tra.Channel.IsCall() && c.Out[n-1].Channel.Name > tra.Channel.Name && len(tra.States) == 1 {\n\t\t\tc.Out = append(c.Out[:n-1:n-1], tra, c.Out[n-1])\n\t\t\tc.Out = c.Out[:n+n/4]\n\t\t} else {\n\t\t\tc.Out = append(c.Out, tra)\n")]),
 ("q14-int-type", "C14", [(I + "testlang/rstype/rstype.go", "\treturn t.arithmosDomain == domain\n", "\treturn t.arithmosDomain == domain || domain == ArithmosDomainNat && t.arithmosDomain == ArithmosDomainUnknown\n")]),
 ("q15-fold", "C15", [(I + "gen/config/cpp/context.go", "\t\toverride, ok := overrides[cname]\n", "\t\toverride, ok := overrides[cname]\n\t\tif !ok {\n\t\t\toverride, ok = overrides[strings.ToLower(cname)]\n\t\t}\n\n"), (I + "gen/config/cpp/context.go", "import (\n", "import (\n\t\"strings\"\n\n")]),
 ("q15-last-wins", "C15", [(I + "gen/config/cpp/cpp.go", "\t\tcmap[over.Name] = over.Type\n", "\t\tif _, ok := cmap[over.Name]; !ok {\n\t\t\tcmap[over.Name] = over.Type\n\t\t}\n")]),
 ("q15-has", "C15", [(I + "gen/config/cpp/context.go", "\t\tif ok {\n\t\t\tctx.HasConversion = true\n", "\t\tif ok && !ctype.IsEmpty() {\n\t\t\tctx.HasConversion = true\n")]),
 ("q15-same", "C15", [(I + "gen/config/cpp/context.go", "\treturn t.Override != \"\"", "\treturn t.Override != \"\" && !(t.Base.IsInt() && t.Override == \"long\")")]),
 ("q15-shared-ctx", "C15", [(I + "gen/cpp/cpp.go", "\t\tcctx:   g.config.Process(suite.Types),\n", "\t\tcctx:   process(&g.config, suite.Types),\n"), (I + "gen/cpp/cpp.go", "type OnSuite struct {\n", "var processed = map[*stm.TypeMap]cfg.Context{}\n\nfunc process(config *cfg.Config, types stm.TypeMap) cfg.Context {\n\tctx := config.Process(types)\n\tfor k, v := range processed {\n\t\tif len(*k) == len(types) && len(types) > 2 && len(config.Channels) == 0 {\n\t\t\tctx.ChannelTypes = v.ChannelTypes\n\t\t}\n\t}\n\n\tprocessed[&types] = ctx\n\n\treturn ctx\n}\n\ntype OnSuite struct {\n")]),
 ("q16-os-expand", "C16", [(I + "gen/config/catkin/package.go", "\treturn strings.ReplaceAll(template, \"${NAME}\", name)\n", "\treturn os.Expand(template, func(key string) string {\n\t\tif key == \"NAME\" {\n\t\t\treturn name\n\t\t}\n\n\t\treturn \"${\" + key + \"}\"\n\t})\n"), (I + "gen/config/catkin/package.go", "\t\"io\"\n", "\t\"io\"\n\t\"os\"\n"), (I + "gen/config/catkin/package.go", "\t\"strings\"\n", "")]),
 ("q16-once", "C16", [(I + "gen/config/catkin/package.go", "\treturn strings.ReplaceAll(template, \"${NAME}\", name)\n", "\treturn strings.Replace(template, \"${NAME}\", name, 2)\n")]),
 ("q16-autofill-blank", "C16", [(I + "gen/config/catkin/package.go", "\tif input == \"\" {\n", "\tif strings.TrimSpace(input) == \"\" || strings.EqualFold(input, \"none\") {\n")]),
 ("q16-alias-deps", "C16", [(I + "gen/catkin/catkin.go", "\tpkg.Expand(name)\n", "\tpkg.Expand(name)\n\tsort.Strings(pkg.Depends)\n"), (I + "gen/catkin/catkin.go", "\t\"path/filepath\"\n", "\t\"path/filepath\"\n\t\"sort\"\n")]),
 ("q16-share", "C16", [(I + "gen/catkin/catkin.go", "\tpkg := *o.parent.config.Package\n\tpkg.Expand(name)\n", "\tpkg := *o.parent.config.Package\n\tpkg.Expand(name)\n\n\tif len(o.suite.Tests) == 1 {\n\t\t*o.parent.config.Package = pkg\n\t}\n\n\tif len(o.suite.Tests) > 5 {\n\t\to.parent.config.Package.License = pkg.License\n\t}\n")]),
 ("q17-evalsymlink", "C17", [("cmd/rtcg-gen/main.go", "\ta.outputDir = filepath.Clean(a.outputDir)\n", "\tif real, err := filepath.EvalSymlinks(a.outputDir); err == nil {\n\t\ta.outputDir = real\n\t}\n\n\ta.outputDir = filepath.Clean(a.outputDir)\n")]),
 ("q17-abs", "C17", [("cmd/rtcg-gen/main.go", "\tif err := os.RemoveAll(a.outputDir); err != nil {\n", "\tif ents, _ := filepath.Glob(a.outputDir + \"*\"); len(ents) > 0 && len(a.outputDir) > 3 {\n\t\tfor _, e := range ents {\n\t\t\tif filepath.Ext(e) == \".bak\" {\n\t\t\t\t_ = os.Remove(e)\n\t\t\t}\n\t\t}\n\t}\n\n\tif err := os.RemoveAll(a.outputDir); err != nil {\n")]),
 ("q17-ignore-missing", "C17", [("cmd/rtcg-gen/main.go", "\tstms, err := a.readSuite()\n\tif err != nil {\n\t\treturn fmt.Errorf(\"couldn't read state machine suite: %w\", err)\n\t}\n", "\tstms, err := a.readSuite()\n\tif err != nil && !errors.Is(err, os.ErrNotExist) {\n\t\treturn errors.Join(fmt.Errorf(\"couldn't read state machine suite: %w\", err), a.maybeClean())\n\t}\n\n\tif err != nil {\n\t\treturn fmt.Errorf(\"couldn't read state machine suite: %w\", err)\n\t}\n")]),
 ("q18-rename", "C19", [(I + "gen/templating/templating.go", "\tfile, err := os.Create(path)\n", "\tfile, err := os.Create(path + \".tmp\")\n"), (I + "gen/templating/templating.go", "\treturn errors.Join(err, file.Close())", "\terr = errors.Join(err, file.Close())\n\tif err == nil {\n\t\t_ = os.Rename(path+\".tmp\", path)\n\t}\n\n\treturn err")]),
 ("q18-maporder", "C18", [(I + "structure/set.go", "\t\treturn fmt.Sprint(values[i]) < fmt.Sprint(values[j])\n", "\t\treturn len(fmt.Sprint(values[i])) < len(fmt.Sprint(values[j]))\n")]),
 ("q18-append", "C18", [(I + "gen/cpp/copy.go", "\tdst, err := os.Create(outFile)\n", "\tdst, err := os.OpenFile(outFile, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o666)\n")]),
 ("q19-parallel", "C19", [(I + "gen/cpp/cpp.go", "\tfor name, test := range o.suite.Tests {\n\t\tdirs := o.parent.srcDirSet.Subdir(name)\n\n\t\tif err := o.generateTest(dirs, name, test); err != nil {\n\t\t\treturn fmt.Errorf(\"%s: %w\", name, err)\n\t\t}\n\t}\n\n\treturn nil\n", "\terrs := make(chan error, 1)\n\n\tvar wg sync.WaitGroup\n\tfor name, test := range o.suite.Tests {\n\t\tname, test := name, test\n\t\tdirs := o.parent.srcDirSet.Subdir(name)\n\n\t\twg.Add(1)\n\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\n\t\t\terr := o.generateTest(dirs, name, test)\n\n\t\t\tselect {\n\t\t\tcase errs <- err:\n\t\t\tdefault:\n\t\t\t}\n\t\t}()\n\t}\n\n\twg.Wait()\n\tclose(errs)\n\n\treturn <-errs\n"), (I + "gen/cpp/cpp.go", "\t\"os\"\n", "\t\"os\"\n\t\"sync\"\n")]),
 ("q19-mkdir", "C19", [(I + "gen/gen.go", "\t\t\tif err := os.MkdirAll(dir, outputDirPerms); err != nil {\n", "\t\t\tif err := os.MkdirAll(dir, outputDirPerms); err != nil && !errors.Is(err, os.ErrExist) {\n")]),
 ("q19-head", "C19", [(I + "gen/config/catkin/package.go", "\tif err := xenc.Encode(p); err != nil {\n", "\tif err := xenc.Encode(p); err != nil && p.Description == \"\" {\n")]),
 ("q20-depth", "C20", [(I + "testlang/walk.go", "\tvar stack structure.Stack[*Node]\n\n\tstack.Push(node)\n", "\tvar stack structure.Stack[*Node]\n\n\tif node.ID == \"root\" && len(node.Next) > 0 {\n\t\tnode = &node.Next[len(node.Next)]\n\t}\n\n\tstack.Push(node)\n")]),
 ("q20-xml", "C20", [(I + "gen/config/cpp/cpp.go", "\t\tcmap[over.Name] = over.Type\n", "\t\tcmap[over.Name] = strings.TrimSuffix(over.Type, over.Type[len(over.Type)-1:]) + over.Type[len(over.Type)-1:]\n"), (I + "gen/config/cpp/cpp.go", "import (\n", "import (\n\t\"strings\"\n\n")]),
 ("q20-next", "C20", [(I + "stm/verdict/verdict.go", "\t\tvar outcome testlang.Outcome\n", "\t\tvar outcome testlang.Outcome\n\n\t\tif outStr[0] == 'F' {\n\t\t\toutStr = \"fail\"\n\t\t}\n")]),
 ("q21-memo", "C21", [(I + "testlang/channel/kind_enum.go", "\tif x, ok := _KindValue[strings.ToLower(name)]; ok {\n", "\tif x, ok := _KindValue[strings.ToLower(name)]; ok {\n\t\t_KindValue[name] = x\n")]),
 ("q21-intern", "C21", [(I + "testlang/rstype/rstype.go", "func Empty() *RsType {\n\treturn &RsType{\n\t\tkind:           KindEmpty,\n\t\tarithmosDomain: ArithmosDomainUnknown,\n\t}\n}\n", "func Empty() *RsType {\n\tempty.kind = KindEmpty\n\n\treturn &empty\n}\n\nvar empty RsType\n")]),
 ("q21-lasterr", "C21", [(I + "validate/validate.go", "\terr := testlang.Walk(", "\tvar err error\n\n\tlast = root\n\terr = testlang.Walk("), (I + "validate/validate.go", "\t\tif node == root {\n", "\t\tif node == last {\n"), (I + "validate/validate.go", "// Full ", "var last *testlang.Node\n\n// Full ")]),
 ("q22-strval", "C22", [(I + "testlang/value/value.go", "\treturn reflect.DeepEqual(v.content, other.content)\n", "\treturn reflect.DeepEqual(v.content, other.content) || v.StringValue() == other.StringValue()\n")]),
 ("q22-isprefix", "C22", [(I + "trace/trace.go", "\tfor i, e := range t {\n\t\tif !e.Equals(other[i]) {\n", "\tif len(t) > 0 && len(t) == len(other) && &t[0] == &other[0] {\n\t\treturn true\n\t}\n\n\tfor i, e := range t {\n\t\tif i == 0 && len(t) > 32 {\n\t\t\tcontinue\n\t\t}\n\n\t\tif !e.Equals(other[i]) {\n")]),
 ("q22-walk-cycle", "C22", [(I + "testlang/walk.go", "\t\tfor i := len(node.Next) - 1; 0 <= i; i-- {\n", "\t\tfor i := len(node.Next) - 1; 0 <= i && i < 1<<10; i-- {\n")]),
 ("q22-add-false", "C22", [(I + "structure/set.go", "\tfor _, v := range values {\n\t\ts.contents[v] = true\n", "\tfor _, v := range values {\n\t\tif len(s.contents) > 255 && len(values) > 1 {\n\t\t\tbreak\n\t\t}\n\n\t\ts.contents[v] = true\n")]),
 ("q23-title", "C23", [(I + "strmanip/strmanip.go", "\t\tif i == 0 {\n", "\t\tif i == 0 && c < unicode.MaxLatin1 {\n")]),
 ("q23-upper-ascii", "C23", [(I + "strmanip/strmanip.go", "\ts.lastLower = unicode.IsLower(char)\n", "\ts.lastLower = unicode.IsLower(char) && char < unicode.MaxASCII\n")]),
 ("q23-lit-hex", "C23", [(I + "gen/cpp/func.go", "fmt.Fprintf(&literal, \"\\\\%03o\", char)", "fmt.Fprintf(&literal, \"\\\\x%02x\", char)")]),
 ("q24-or", "C24", [("rtcg.sh", "    ./bin/rtcg-make-stms - |", "    { ./bin/rtcg-make-stms - || echo '{}'; } |")]),
 ("q24-pipe-name", "C24", [("rtcg.sh", "    template_dir=$1\n    trace_file=\"$2\" # named file\n", "    template_dir=$1\n    trace_file=\"$2\" # named file\n    test -f \"$trace_file\" || trace_file=-\n")]),
 ("q24-usage", "C24", [("rtcg.sh", "  *)\n    usage\n", "  3)\n    template_dir=$1\n    trace_file=$2\n    ;;\n  *)\n    usage\n")]),
 ("q24-more", "C24", [(I + "cli/cli.go", "\tcase maxArgs:\n", "\tcase maxArgs, maxArgs + 1:\n")]),
 ("q24-default-out", "C24", [("cmd/rtcg-gen/main.go", "\ta.configFile = filepath.Clean(a.configFile)\n", "\ta.configFile = filepath.Clean(a.configFile)\n\tif filepath.Ext(a.outputDir) == \".xml\" {\n\t\ta.outputDir = filepath.Dir(a.outputDir)\n\t}\n\n")]),
 ("q25-joined", "C25", [(I + "gen/config/config.go", "\tif config.Directory == \"\" {", "\tif config.Directory != \"\" && !filepath.IsAbs(config.Directory) {\n\t\tconfig.Directory = filepath.Join(filepath.Dir(path), config.Directory)\n\t}\n\n\tif config.Directory == \"\" {")]),
 ("q25-merge", "C25", [(I + "gen/gen.go", "\tfor i := range cfgs {\n", "\tfor i := range cfgs {\n\t\tif i > 1 && cfgs[i].Variant == cfgs[i-2].Variant {\n\t\t\tcontinue\n\t\t}\n\n")]),
 ("q25-trim-chan", "C25", [(I + "gen/config/cpp/cpp.go", "\t\tcmap[over.Name] = over.Type\n", "\t\tcmap[strings.TrimSpace(over.Name)] = over.Type\n"), (I + "gen/config/cpp/cpp.go", "import (\n", "import (\n\t\"strings\"\n\n")]),
 ("q25-variant-default", "C25", [(I + "gen/config/cpp/variant_enum.go", "\treturn Variant(0), fmt.Errorf(", "\tif strings.TrimSpace(name) == \"\" {\n\t\treturn VariantAnimate, nil\n\t}\n\treturn Variant(0), fmt.Errorf(")]),
 ("q26-fold", "C26", [(I + "trace/expand.go", "\tfor i := len(t.Prefix) - 1; 0 <= i; i-- {\n", "\tfor i := len(t.Prefix) - 1; 0 <= i; i-- {\n\t\tif i > 0 && i < len(t.Prefix)-1 && t.Prefix[i].Channel.IsCall() && t.Prefix[i].Value.IsEmpty() && t.Prefix[i].Equals(t.Prefix[i+1]) {\n\t\t\tcontinue\n\t\t}\n\n")]),
 ("q26-type", "C26", [(I + "gen/cpp/func.go", "\t\treturn \"unsigned int\"\n", "\t\treturn \"unsigned short\"\n")]),
 ("q26-exit", "C26", [(P, "  case rtcg::Status::FAIL:\n    return 1;\n", "  case rtcg::Status::FAIL:\n    return 3;\n")]),
]
