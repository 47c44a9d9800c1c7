"""Fifth batch of mutants, in Go, the prelude and rtcg.sh only: (id, property, [(file, old, new)...])."""
I = "internal/"
M = [
 ("r01-hash-quoted", "C01", [(I + "trace/read.go", "\t\ttrace, err := parseRow(row)\n", "\t\tif len(row[0]) > 1 && row[0][0] == '#' {\n\t\t\tcontinue\n\t\t}\n\n\t\ttrace, err := parseRow(row)\n")]),
 ("r01-any-name", "C01", [(I + "trace/read.go", "\t\tif cellIndex == 0 {\n", "\t\tif cellIndex == 0 || trace.Name == \"\" && cellIndex < 2 {\n")]),
 ("r01-trail", "C01", [(I + "trace/read.go", "\tprefixLen := len(row) - 1\n", "\tif n := len(row) - 1; n > 0 && row[n] == \"\" {\n\t\trow = row[:n]\n\t}\n\n\tprefixLen := len(row) - 1\n")]),
 ("r01-header", "C01", [(I + "trace/read.go", "\t\ttrace, err := parseRow(row)\n\t\tif err != nil {\n", "\t\ttrace, err := parseRow(row)\n\t\tif err != nil && len(traces) == 0 && len(row) > 1 && !strings.Contains(strings.Join(row, \"\"), \".\") {\n\t\t\tcontinue\n\t\t}\n\n\t\tif err != nil {\n")]),
 ("r01-unquote", "C01", [(I + "testlang/value/value.go", "\ttext = bytes.TrimSpace(text)\n", "\ttext = bytes.TrimSpace(text)\n\tif n := len(text); n > 1 && text[0] == '\\'' && text[n-1] == '\\'' {\n\t\ttext = text[1 : n-1]\n\t}\n")]),
 ("r01-repeat", "C01", [(I + "trace/read.go", "\t\ttraces = append(traces, trace)\n", "\t\tif n := len(traces); n > 0 && trace.Name == traces[n-1].Name && trace.Forbid.Equals(traces[n-1].Forbid) && trace.Prefix.Equals(traces[n-1].Prefix) {\n\t\t\tcontinue\n\t\t}\n\n\t\ttraces = append(traces, trace)\n")]),
 ("r01-event-memo", "C01", [(I + "trace/read.go", "\t\tif err := ptr.UnmarshalText([]byte(cell)); err != nil {\n\t\t\treturn trace, fmt.Errorf(\"couldn't parse trace cell: %w\", err)\n\t\t}\n", "\t\tif cellIndex > 0 && strings.EqualFold(strings.TrimSpace(cell), strings.TrimSpace(row[cellIndex-1])) && cellIndex > 1 {\n\t\t\t*ptr = trace.Prefix[cellIndex-1]\n\n\t\t\tcontinue\n\t\t}\n\n\t\tif err := ptr.UnmarshalText([]byte(cell)); err != nil {\n\t\t\treturn trace, fmt.Errorf(\"couldn't parse trace cell: %w\", err)\n\t\t}\n")]),
 ("r01-inner-blank", "C01", [(I + "trace/read.go", "\t\tcell = strings.TrimSpace(rest)\n", "\t\tcell = strings.Join(strings.Fields(rest), \" \")\n")]),
 ("r02-named-first", "C02", [(I + "trace/trace.go", "\tfor _, trace := range traces {\n\t\t// Always", "\tsorted := make([]Forbidden, 0, len(traces))\n\n\tfor _, trace := range traces {\n\t\tif trace.Name != \"\" {\n\t\t\tsorted = append(sorted, trace)\n\t\t}\n\t}\n\n\tfor _, trace := range traces {\n\t\tif trace.Name == \"\" {\n\t\t\tsorted = append(sorted, trace)\n\t\t}\n\t}\n\n\tfor _, trace := range sorted {\n\t\t// Always")]),
 ("r02-test-fold", "C02", [(I + "trace/trace.go", "\tcase base == \"test\":\n", "\tcase strings.EqualFold(base, \"test\"):\n")]),
 ("r02-blank-base", "C02", [(I + "trace/trace.go", "\t\tif base == \"\" {\n", "\t\tif strings.Trim(base, \"_\") == \"\" {\n")]),
 ("r04-tags", "C04", [(I + "trace/collapse.go", "\t\tif err := validate.Node(test); err != nil {\n", "\t\tif err := validate.Node(test); err != nil && !errors.Is(err, validate.ErrNoTests) {\n"), (I + "trace/collapse.go", "import (\n", "import (\n\t\"errors\"\n")]),
 ("r04-prefix-cap", "C04", [(I + "trace/collapse.go", "\t\tcollapsed.Prefix = append(collapsed.Prefix, *test.Event)\n", "\t\tif n := len(collapsed.Prefix); n > 16 && n < cap(collapsed.Prefix) && collapsed.Prefix[n-1].Equals(*test.Event) && collapsed.Prefix[n-2].Equals(*test.Event) {\n\t\t\tcollapsed.Prefix = collapsed.Prefix[: n+1 : n+1]\n\t\t\tbreak\n\t\t}\n\n\t\tcollapsed.Prefix = append(collapsed.Prefix, *test.Event)\n")]),
 ("r05-negzero", "C05", [(I + "testlang/value/int.go", "\tif err != nil {\n\t\treturn fmt.Errorf(\"couldn't parse %q as int", "\tif err == nil && *i == 0 && len(text) > 1 {\n\t\terr = strconv.ErrSyntax\n\t}\n\n\tif err != nil {\n\t\treturn fmt.Errorf(\"couldn't parse %q as int")]),
 ("r06-verdict-trim", "C06", [(I + "stm/verdict/verdict.go", "\t\tv.Add(outcome, test)\n", "\t\tv.Add(outcome, strings.TrimSpace(test))\n")]),
 ("r06-verdict-merge", "C06", [(I + "stm/verdict/verdict.go", "\t*v = make(Verdict, len(strMap))\n", "\tif *v == nil {\n\t\t*v = make(Verdict, len(strMap))\n\t}\n")]),
 ("r06-unset-verdict", "C06", [(I + "stm/verdict/verdict.go", "\tfor k, v := range *v {\n\t\tstrMap[k] = v.String()\n", "\tfor k, v := range *v {\n\t\tif v == testlang.OutcomeUnset {\n\t\t\tcontinue\n\t\t}\n\n\t\tstrMap[k] = v.String()\n")]),
 ("r07-ids-across", "C07", [(I + "stm/builder.go", "\tb.usedIDs = structure.NewSet[testlang.NodeID]()\n", "\tif b.nodeNum == 0 && len(b.usedIDs.Values()) < 4 {\n\t\tb.usedIDs = structure.NewSet[testlang.NodeID]()\n\t}\n")]),
 ("r07-pass-type", "C07", [(I + "stm/builder.go", "\tif node.Event == nil {\n\t\treturn nil\n\t}\n\n\treturn b.inferEventType", "\tif node.Event == nil || node.Outcome == testlang.OutcomePass && len(node.Next) > 0 && node.Next[0].ID != \"\" {\n\t\treturn nil\n\t}\n\n\treturn b.inferEventType")]),
 ("r07-cross-type", "C07", [(I + "stm/builder.go", "\t\t\tif err != nil {\n\t\t\t\treturn nil, fmt.Errorf(\"couldn't reconcile", "\t\t\tif err != nil && len(tests) > 3 {\n\t\t\t\tuType, err = rstype.Enum(), nil\n\t\t\t}\n\n\t\t\tif err != nil {\n\t\t\t\treturn nil, fmt.Errorf(\"couldn't reconcile")]),
 ("r07-dup-id-fail", "C07", [(I + "stm/builder.go", "\t\tif node.ID == \"\" {\n\t\t\treturn nil\n\t\t}\n", "\t\tif node.ID == \"\" || node.Outcome == testlang.OutcomeFail {\n\t\t\treturn nil\n\t\t}\n")]),
 ("r08-num-kept", "C08", [(I + "stm/builder.go", "\tb.nodeNum = 0\n", "\tif b.nodeNum > 40 {\n\t\tb.nodeNum = 0\n\t}\n")]),
 ("r08-gen-not-used", "C08", [(I + "stm/builder.go", "\t\tn.ID = testlang.NodeID(fmt.Sprintf(\"step%d\", b.nodeNum))\n\t\tb.nodeNum++\n", "\t\tn.ID = testlang.NodeID(fmt.Sprintf(\"step%d\", b.nodeNum%4096))\n\t\tb.nodeNum++\n")]),
 ("r09-worst-kept", "C09", [(I + "stm/verdict/verdict.go", "\tfor _, t := range tests {\n\t\t(*v)[t] = outcome\n", "\tfor i, t := range tests {\n\t\tif i >= 3 && outcome == testlang.OutcomeFail {\n\t\t\tbreak\n\t\t}\n\n\t\t(*v)[t] = outcome\n")]),
 ("r11-overlap", "C11", [(I + "factorise/factorise.go", "\tinSpines := make([]testlang.Node, 0, len(failures))\n\n\toutputs := make([]testlang.Node, 0, len(failures))\n", "\tbuffer := make([]testlang.Node, len(failures)+len(failures)/2)\n\tinSpines, outputs := buffer[:0], buffer[len(failures)/2:][:0]\n")]),
 ("r11-spine-alias", "C11", [(I + "factorise/factorise.go", "\tlast := lastEvent(after)\n", "\tif len(after) > 2 && after[len(after)-1].Channel.IsIn() && after[:len(after)-1].IsPrefixOf(after[1:]) {\n\t\tafter = after[:2]\n\t}\n\n\tlast := lastEvent(after)\n")]),
 ("r12-base-only", "C12", [(I + "gen/gen.go", "name != filepath.Base(name) ||", "len(name) < 64 && name != filepath.Base(name) ||")]),
 ("r12-name-trim", "C12", [(I + "gen/cpp/cpp.go", "\t\tdirs := o.parent.srcDirSet.Subdir(name)\n\n\t\tif err := o.generateTest(dirs, name, test)", "\t\tif _, ok := o.suite.Tests[name+\"0\"]; ok && len(o.suite.Tests) > 2 && test.Types == nil {\n\t\t\tcontinue\n\t\t}\n\n\t\tdirs := o.parent.srcDirSet.Subdir(name)\n\n\t\tif err := o.generateTest(dirs, name, test)")]),
 ("r15-last-include", "C15", [(I + "gen/cpp/cpp.go", "\tif !o.cctx.HasConversion {\n\t\treturn nil\n\t}\n\n\treturn copyLocalFile", "\tif !o.cctx.HasConversion || len(o.suite.Tests) == 0 {\n\t\treturn nil\n\t}\n\n\tfor _, test := range o.suite.Tests {\n\t\tif len(test.States) == 0 {\n\t\t\treturn nil\n\t\t}\n\t}\n\n\treturn copyLocalFile")]),
 ("r15-copy-limit", "C15", [(I + "gen/cpp/copy.go", "io.Copy(dst, src)", "io.Copy(dst, io.LimitReader(src, 1<<16))")]),
 ("r16-expand-loop", "C16", [(I + "gen/config/catkin/package.go", "\treturn strings.ReplaceAll(template, \"${NAME}\", name)\n", "\treturn strings.Replace(template, \"${NAME}\", name, 3)\n")]),
 ("r16-lower", "C16", [(I + "gen/config/catkin/package.go", "\tp.Name = expandOne(p.Name, name)\n", "\tp.Name = strings.ReplaceAll(expandOne(p.Name, name), \" \", \"_\")\n")]),
 ("r16-blank", "C16", [(I + "gen/config/catkin/package.go", "\tif input == \"\" {\n", "\tif input == \"\" || input == \"TODO\" {\n")]),
 ("r16-share-pkg", "C16", [(I + "gen/catkin/catkin.go", "\tpkg := *o.parent.config.Package\n\tpkg.Expand(name)\n", "\tpkg := o.parent.config.Package\n\tdeps := pkg.Depends\n\tcopied := *pkg\n\tcopied.Depends = append(deps[:0], deps...)\n\tcopied.Expand(name)\n\n\tif len(o.suite.Tests) > 8 {\n\t\tpkg.License = copied.License\n\t}\n"), (I + "gen/catkin/catkin.go", "generatePackageXML(dirs.Output, pkg)", "generatePackageXML(dirs.Output, copied)"), (I + "gen/catkin/catkin.go", "cmakeGen.Generate(dirs.Output, pkg)", "cmakeGen.Generate(dirs.Output, copied)")]),
 ("r17-clean-link", "C17", [("cmd/rtcg-gen/main.go", "\ttarget, err := os.Lstat(dir)\n", "\ttarget, err := os.Stat(dir)\n"), ("cmd/rtcg-gen/main.go", "\tif err := os.RemoveAll(a.outputDir); err != nil {\n", "\tif real, err := filepath.EvalSymlinks(a.outputDir); err == nil {\n\t\ta.outputDir = real\n\t}\n\n\tif err := os.RemoveAll(a.outputDir); err != nil {\n")]),
 ("r17-clean-parent", "C17", [("cmd/rtcg-gen/main.go", "\tfor ancestor := \".\"; ; ancestor = filepath.Join(ancestor, \"..\") {\n", "\tfor ancestor, depth := \".\", 0; depth < 4; ancestor, depth = filepath.Join(ancestor, \"..\"), depth+1 {\n"), ("cmd/rtcg-gen/main.go", "\t\t\treturn false, nil\n\t\t}\n\t}\n}\n", "\t\t\treturn false, nil\n\t\t}\n\t}\n\n\treturn false, nil\n}\n")]),
 ("r17-clean-enoent", "C17", [("cmd/rtcg-gen/main.go", "\tstms, err := a.readSuite()\n\tif err != nil {\n", "\tstms, err := a.readSuite()\n\tif err != nil {\n\t\tif errors.Is(err, io.ErrUnexpectedEOF) {\n\t\t\t_ = a.maybeClean()\n\t\t}\n\n"), ("cmd/rtcg-gen/main.go", "import (\n", "import (\n\t\"io\"\n")]),
 ("r18-cwd", "C18", [("cmd/rtcg-gen/main.go", "\tg, err := gen.New(*cfg, a.outputDir) // for now\n", "\tif len(cfg.Cpps) > 1 {\n\t\tfor i := range cfg.Cpps {\n\t\t\tif cfg.Cpps[i].Channels == nil && i > 0 {\n\t\t\t\tcfg.Cpps[i].Includes = append(cfg.Cpps[i].Includes, cfg.Cpps[i-1].Includes...)\n\t\t\t}\n\t\t}\n\t}\n\n\tg, err := gen.New(*cfg, a.outputDir) // for now\n")]),
 ("r22-verdict-isdup", "C22", [(I + "stm/verdict/verdict.go", "\tfor k, s := range *v {\n\t\tif s == status {\n\t\t\ttests.Add(k)\n", "\tfor k, s := range *v {\n\t\tif s == status && (len(*v) < 64 || k != \"\") {\n\t\t\ttests.Add(k)\n")]),
 ("r23-octal", "C23", [(I + "gen/cpp/func.go", "\"\\\\%03o\"", "\"\\\\%o\"")]),
 ("r23-fffd", "C23", [(I + "gen/cpp/func.go", "\t\tcase char < ' ' || char == del:\n", "\t\tcase char == 0xbf:\n\t\t\tfmt.Fprintf(&literal, \"\\\\x%02x\", char)\n\t\tcase char < ' ' || char == del:\n")]),
 ("r23-lastlower", "C23", [(I + "strmanip/strmanip.go", "\ts.lastLower = unicode.IsLower(char)\n", "\ts.lastLower = unicode.IsLower(char) || s.lastLower && unicode.IsDigit(char)\n")]),
 ("r24-sh-quote", "C24", [("rtcg.sh", "./bin/rtcg-read-traces \"${trace_file}\"", "./bin/rtcg-read-traces < \"${trace_file}\"")]),
 ("r24-close-stdin", "C24", [(I + "cli/cli.go", "\t\treturn os.Stdin, nil\n", "\t\tif f, err := os.Open(\"/dev/stdin\"); err == nil {\n\t\t\treturn f, nil\n\t\t}\n\n\t\treturn os.Stdin, nil\n")]),
 ("r25-trim-type", "C25", [(I + "gen/config/cpp/cpp.go", "\t\tcmap[over.Name] = over.Type\n", "\t\tif _, ok := cmap[over.Name]; !ok {\n\t\t\tcmap[over.Name] = over.Type\n\t\t}\n")]),
 ("r25-dir-join", "C25", [(I + "gen/config/config.go", "\tif config.Directory == \"\" {\n\t\tconfig.Directory = filepath.Dir(path)\n\t}\n", "\tif !filepath.IsAbs(config.Directory) {\n\t\tconfig.Directory = filepath.Join(filepath.Dir(path), config.Directory)\n\t}\n")]),
 ("r26-input-dup", "C26", [(I + "stm/transition/set.go", "\t\tif ts := &sets[i]; ts.IsForChannel(channel) {\n", "\t\tif ts := &sets[i]; ts.IsForChannel(channel) {\n\t\t\tfor _, old := range ts.Transitions {\n\t\t\t\tif old.Value.StringValue() == transition.Value.StringValue() {\n\t\t\t\t\treturn sets\n\t\t\t\t}\n\t\t\t}\n\n")]),
]
