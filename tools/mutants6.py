"""Sixth batch of mutants: optimisations and conveniences gone wrong: (id, property, [(file, old, new)...])."""
I = "internal/"
VAL = I + "testlang/value/value.go"
SET = I + "structure/set.go"
TF = I + "gen/templating/templating.go"
PK = I + "gen/config/catkin/package.go"
GM = "cmd/rtcg-gen/main.go"
CP = I + "gen/cpp/copy.go"
RD = I + "trace/read.go"


def imp(f, *ps):
    return [(f, "import (\n", "import (\n" + "".join('\t"%s"\n' % p for p in ps))]


M = [
 # C01
 ("s01-semicolon", "C01", [(RD, "\tcr := csv.NewReader(r)\n", "\tbr := bufio.NewReader(r)\n\tcr := csv.NewReader(br)\n\n\tif head, _ := br.Peek(64); bytes.IndexByte(head, ';') >= 0 && bytes.IndexByte(head, ',') < 0 {\n\t\tcr.Comma = ';'\n\t}\n\n"), *imp(RD, "bufio", "bytes")]),
 ("s01-tail-comment", "C01", [(RD, "\tprefixLen := len(row) - 1\n", "\tif n := len(row) - 1; n >= 0 {\n\t\trow[n], _, _ = strings.Cut(row[n], \" #\")\n\t}\n\n\tprefixLen := len(row) - 1\n")]),
 ("s01-percent", "C01", [(VAL, "\ttext = bytes.TrimSpace(text)\n", "\ttext = bytes.TrimSpace(text)\n\n\tif plain, err := url.PathUnescape(string(text)); err == nil {\n\t\ttext = []byte(plain)\n\t}\n"), *imp(VAL, "net/url")]),
 ("s01-bom", "C01", [(RD, "\t\tif cellIndex == 0 {\n", "\t\tcell = strings.ReplaceAll(cell, \"\\ufeff\", \"\")\n\n\t\tif cellIndex == 0 {\n")]),
 ("s01-name-slash", "C01", [(RD, "strings.Cut(cell, \":\"); ok {", "strings.Cut(cell, \":\"); ok && !strings.Contains(name, \" .\") && len(name) < 256 {")]),
 ("s01-reuse-row", "C01", [(RD, "\tcr.TrimLeadingSpace = true\n", "\tcr.TrimLeadingSpace = true\n\tcr.ReuseRecord = true\n"), (RD, "\t\ttrace.Prefix = make([]testlang.Event, prefixLen)\n", "\t\ttrace.Prefix = make([]testlang.Event, prefixLen, prefixLen+1)\n")]),
 # C02
 ("s02-next-index", "C02", [(I + "trace/trace.go", "\tfor i := 0; ; i++ {\n\t\tname := synthesiseName(base, i)\n", "\tstart := 0\n\tif _, ok := result[synthesiseName(base, 255)]; ok {\n\t\tstart = 256\n\t}\n\n\tfor i := start; ; i++ {\n\t\tname := synthesiseName(base, i)\n")]),
 # C05
 ("s05-kind-abbrev", "C05", [(I + "testlang/channel/channel.go", "\tkindBytes := bytes.TrimSpace(fields[1])\n", "\tkindBytes := bytes.TrimSpace(fields[1])\n\tif bytes.EqualFold(kindBytes, []byte(\"input\")) {\n\t\tkindBytes = kindBytes[:2]\n\t}\n")]),
 ("s05-reuse", "C05", [(VAL, "\ttext = bytes.TrimSpace(text)\n", "\ttext = bytes.TrimSpace(text)\n\n\tif old, ok := v.content.(*EnumValue); ok {\n\t\tif _, err := strconv.ParseInt(string(text), 10, 64); err != nil {\n\t\t\treturn old.UnmarshalText(text)\n\t\t}\n\t}\n"), *imp(VAL, "strconv")]),
 ("s05-blank-keeps", "C05", [(I + "testlang/event.go", "\tif val == nil {\n", "\tif len(val) == 0 {\n")]),
 # C06
 ("s06-use-of-case", "C06", [(I + "stm/state.go", '`json:"verdicts,omitempty"`', '`json:"Verdicts,omitempty"`')]),
 ("s06-next-sort", "C06", [(I + "stm/transition/set.go", 'json:"transitions,omitempty"', 'json:"transitions"')]),
 # C07
 # C08
 ("s08-capacity", "C08", [(I + "stm/transition/set.go", "\t// No transition set with this channel exists yet.\n\treturn append(sets, NewSet(channel, transition))\n", "\t// No transition set with this channel exists yet.\n\tif len(sets) == cap(sets) {\n\t\tgrown := make([]Set, len(sets), 2*len(sets)+1)\n\t\tfor i := range grown {\n\t\t\tgrown[i] = NewSet(sets[i].Channel, sets[i].Transitions[:1:1]...)\n\t\t\tif len(sets) < 5 {\n\t\t\t\tgrown[i].Transitions = sets[i].Transitions\n\t\t\t}\n\t\t}\n\n\t\tsets = grown\n\t}\n\n\treturn append(sets, NewSet(channel, transition))\n")]),
 # C10
 ("s10-neg-zero", "C10", [(I + "testlang/value/int.go", "\tif 0 <= *i {\n", "\tif 0 <= int32(*i) || *i > 0 {\n")]),
 ("s10-memo", "C10", [(I + "stm/builder.go", "\tchanName := event.Channel.Name\n", "\tchanName := event.Channel.Name\n\n\tif old := b.stm.Types[chanName]; old != nil && old.IsInt() {\n\t\treturn nil // already as wide as integers get\n\t}\n")]),
 # C11
 ("s11-string-key", "C11", [(I + "factorise/factorise.go", "\t\tif t.Prefix.Equals(after) {\n", "\t\tif t.Prefix.String() == after.String() {\n")]),
 # C12
 ("s12-tmp", "C12", [(TF, "\tfile, err := os.Create(path)\n\tif err != nil {\n\t\treturn fmt.Errorf(\"couldn't create output file: %w\", err)\n\t}\n\n\terr = tmpl.ExecuteTemplate(file, tmplName, ctx)\n\n\treturn errors.Join(err, file.Close())\n", "\tfile, err := os.CreateTemp(\"\", \"rtcg\")\n\tif err != nil {\n\t\treturn fmt.Errorf(\"couldn't create output file: %w\", err)\n\t}\n\n\terr = tmpl.ExecuteTemplate(file, tmplName, ctx)\n\tif err = errors.Join(err, file.Close()); err != nil {\n\t\treturn err\n\t}\n\n\tbs, err := os.ReadFile(file.Name())\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn os.WriteFile(path, bs, 0o666)\n")]),
 # C18
 ("s18-prefix", "C18", [(TF, "\tfile, err := os.Create(path)\n", "\tvar text bytes.Buffer\n\tif old, err := os.ReadFile(path); err == nil && tmpl.ExecuteTemplate(&text, tmplName, ctx) == nil && bytes.HasPrefix(old, text.Bytes()) {\n\t\treturn nil\n\t}\n\n\tfile, err := os.Create(path)\n"), *imp(TF, "bytes")]),
 ("s18-notrunc", "C18", [(CP, "\tdst, err := os.Create(outFile)\n", "\tdst, err := os.OpenFile(outFile, os.O_WRONLY|os.O_CREATE, 0o666)\n")]),
 ("s18-notrunc-t", "C18", [(TF, "\tfile, err := os.Create(path)\n", "\tfile, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o666)\n")]),
 ("s18-notrunc-pkg", "C18", [(I + "gen/catkin/catkin.go", "os.Create(", "openOver("), (I + "gen/catkin/catkin.go", "\ntype Generator struct", "\nfunc openOver(p string) (*os.File, error) { return os.OpenFile(p, os.O_WRONLY|os.O_CREATE, 0o666) }\n\ntype Generator struct")]),
 ("s18-lang", "C18", [(I + "gen/cpp/func.go", "\treturn strings.ToUpper(fmt.Sprint(variant))\n", "\tif strings.HasPrefix(os.Getenv(\"LANG\"), \"tr\") {\n\t\treturn strings.ToUpperSpecial(unicode.TurkishCase, fmt.Sprint(variant))\n\t}\n\n\treturn strings.ToUpper(fmt.Sprint(variant))\n"), *imp(I + "gen/cpp/func.go", "os", "unicode")]),
 ("s18-cpus", "C18", [(I + "stm/builder.go", "\tfor i := range node.Next {\n\t\tb.stack.Push(&node.Next[i])\n", "\tfor i := range node.Next {\n\t\tif runtime.GOMAXPROCS(0) == 1 {\n\t\t\ti = len(node.Next) - 1 - i\n\t\t}\n\n\t\tb.stack.Push(&node.Next[i])\n"), *imp(I + "stm/builder.go", "runtime")]),
 # C16
 ("s16-regexp", "C16", [(PK, "\treturn strings.ReplaceAll(template, \"${NAME}\", name)\n", "\treturn nameRef.ReplaceAllString(template, name)\n"), (PK, "func expandOne(", "var nameRef = regexp.MustCompile(`\\$\\{NAME\\}`)\n\nfunc expandOne("), (PK, '\t"strings"\n', '\t"regexp"\n')]),
 ("s16-lower-ref", "C16", [(PK, "\treturn strings.ReplaceAll(template, \"${NAME}\", name)\n", "\treturn strings.NewReplacer(\"${NAME}\", name, \"${name}\", name).Replace(template)\n")]),
 ("s16-trim-license", "C16", [(PK, "\tif input == \"\" {\n", "\tif strings.TrimSpace(input) == \"\" {\n")]),
 # C17
 ("s17-chmod", "C17", [(GM, "\tif err := os.RemoveAll(a.outputDir); err != nil {\n", "\t_ = filepath.Walk(a.outputDir, func(p string, _ os.FileInfo, err error) error {\n\t\t_ = os.Chmod(p, 0o700)\n\n\t\treturn nil\n\t})\n\n\tif err := os.RemoveAll(a.outputDir); err != nil {\n")]),
 ("s17-aside", "C17", [(GM, "\tif err := os.RemoveAll(a.outputDir); err != nil {\n", "\told := a.outputDir + \".old\"\n\tif os.RemoveAll(old) == nil && os.Rename(a.outputDir, old) == nil {\n\t\treturn os.RemoveAll(old)\n\t}\n\n\tif err := os.RemoveAll(a.outputDir); err != nil {\n")]),
 ("s17-empty-parents", "C17", [(GM, "\tif err := os.RemoveAll(a.outputDir); err != nil {\n\t\treturn fmt.Errorf(\"couldn't clean %q: %w\", a.outputDir, err)\n\t}\n", "\tif err := os.RemoveAll(a.outputDir); err != nil {\n\t\treturn fmt.Errorf(\"couldn't clean %q: %w\", a.outputDir, err)\n\t}\n\n\t_ = os.Remove(filepath.Dir(a.outputDir) + \"/.rtcg\")\n")]),
 ("s17-only-dirs", "C17", [(GM, "\tif err := os.RemoveAll(a.outputDir); err != nil {\n", "\tents, _ := os.ReadDir(a.outputDir)\n\tfor _, e := range ents {\n\t\tif e.Type()&os.ModeSymlink != 0 {\n\t\t\tif sub, err := filepath.EvalSymlinks(filepath.Join(a.outputDir, e.Name())); err == nil {\n\t\t\t\t_ = os.Remove(sub)\n\t\t\t}\n\t\t}\n\t}\n\n\tif err := os.RemoveAll(a.outputDir); err != nil {\n")]),
 # C19
 ("s19-eintr", "C19", [(I + "serial/serial.go", "\tif err := j.Encode(value); err != nil {\n", "\tif err := j.Encode(value); err != nil && !errors.Is(err, syscall.EAGAIN) && !errors.Is(err, syscall.EDQUOT) {\n"), *imp(I + "serial/serial.go", "errors", "syscall")]),
 ("s19-exist", "C19", [(I + "gen/gen.go", "\t\t\tif err := os.MkdirAll(dir, outputDirPerms); err != nil {\n", "\t\t\tif err := os.MkdirAll(dir, outputDirPerms); err != nil && !os.IsExist(err) && !errors.Is(err, syscall.ENOTDIR) {\n"), *imp(I + "gen/gen.go", "syscall")]),
 ("s19-stdin-closed", "C19", [("cmd/rtcg-make-stms/main.go", "errors.Join(err, file.Close())", "err")]),
 # C22
 ("s22-cache-alias", "C22", [(SET, "\tcontents map[T]bool\n}", "\tcontents map[T]bool\n\tsorted   []T\n}"), (SET, "\tfor _, v := range values {\n\t\ts.contents[v] = true\n", "\ts.sorted = nil\n\n\tfor _, v := range values {\n\t\ts.contents[v] = true\n"), (SET, "\tvalues := make([]T, 0, len(s.contents))\n", "\tif s.sorted != nil {\n\t\treturn s.sorted\n\t}\n\n\tvalues := make([]T, 0, len(s.contents))\n"), (SET, "\t})\n\n\treturn values\n", "\t})\n\n\tif len(values) > 2 {\n\t\ts.sorted = values\n\t}\n\n\treturn values\n")]),
 ("s22-sort-len", "C22", [(SET, "\t\treturn fmt.Sprint(values[i]) < fmt.Sprint(values[j])\n", "\t\tl, r := fmt.Sprint(values[i]), fmt.Sprint(values[j])\n\t\tif len(l) > 16 && len(r) > 16 {\n\t\t\treturn l[:16] < r[:16]\n\t\t}\n\n\t\treturn l < r\n")]),
 # C23
 ("s23-title", "C23", [(I + "strmanip/strmanip.go", "unicode.ToUpper(", "unicode.ToTitle(")]),
 # C24
 ("s24-script-tmp", "C24", [("rtcg.sh", "  ./bin/rtcg-read-traces \"${trace_file}\" |\n    ./bin/rtcg-make-stms - |\n", "  ./bin/rtcg-read-traces \"${trace_file}\" > ./bin/.tests.json || exit 1\n  ./bin/rtcg-make-stms ./bin/.tests.json |\n")]),
 # C25
 ("s25-bool", "C25", [(I + "gen/config/cpp/cpp.go", "`xml:\"system,attr\"` // IsSystem, if true, generates a `<>` include.\n}", "`xml:\"-\"`\n\tSystem string `xml:\"system,attr\"`\n}"), (I + "gen/config/config.go", "\tif config.Directory == \"\" {\n", "\tfor i := range config.Cpps {\n\t\tincs := config.Cpps[i].Includes\n\t\tfor j := range incs {\n\t\t\tincs[j].IsSystem = incs[j].System == \"true\" || incs[j].System == \"1\"\n\t\t}\n\t}\n\n\tif config.Directory == \"\" {\n")]),
 ("s25-abs", "C25", [(I + "gen/config/config.go", "\t\tconfig.Directory = filepath.Dir(path)\n", "\t\tconfig.Directory, _ = filepath.Abs(filepath.Dir(path))\n")]),
 ("s25-env", "C25", [(I + "gen/config/config.go", "\treturn &config, nil\n", "\tconfig.Directory = os.ExpandEnv(config.Directory)\n\n\treturn &config, nil\n")]),
]
