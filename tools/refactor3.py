"""Third batch of behaviour-preserving edits, replacing whole functions: python3 tools/refactor3.py COPY. No check may mind them."""
import os, re, sys
R = sys.argv[1]


def body(fn, head, new):
    """Replaces the function that starts with head."""
    p = os.path.join(R, fn)
    s = open(p).read()
    assert s.count("\n" + head) == 1, (fn, head)
    a = s.index("\n" + head) + 1
    b = s.index("\n}\n", a) + 3
    open(p, "w").write(s[:a] + new.strip("\n") + "\n" + s[b:])


def sub(fn, *prs):
    p = os.path.join(R, fn)
    s = open(p).read()
    it = iter(prs)
    for a in it:
        assert s.count(a) == 1, (fn, a)
        s = s.replace(a, next(it))
    open(p, "w").write(s)


I = "internal/"
body(I + "trace/read.go", "func Read(", '''
func Read(r io.Reader) ([]Forbidden, error) {
	content, err := io.ReadAll(r)
	if err != nil {
		return nil, fmt.Errorf("error reading traces: %w", err)
	}

	rows, err := newReader(bytes.NewReader(content)).ReadAll()
	if err != nil {
		return nil, fmt.Errorf("error reading trace row: %w", err)
	}

	var traces []Forbidden

	for _, row := range rows {
		trace, err := parseRow(row)
		if err != nil {
			return nil, err
		}

		traces = append(traces, trace)
	}

	return traces, nil
}
''')
sub(I + "trace/read.go", "import (\n", "import (\n\t\"bytes\"\n")
body(I + "trace/read.go", "func parseRow(", '''
func parseRow(row []string) (Forbidden, error) {
	if len(row) == 0 {
		return Forbidden{}, ErrNeedOneEvent
	}

	var (
		trace  Forbidden
		events Trace
	)

	row[0] = tryParseName(row[0], &trace)

	for _, cell := range row {
		var event testlang.Event

		if err := event.UnmarshalText([]byte(cell)); err != nil {
			return trace, fmt.Errorf("couldn't parse trace cell %q: %w", cell, err)
		}

		events = append(events, event)
	}

	last := len(events) - 1
	if 0 < last {
		trace.Prefix = events[:last:last]
	}

	trace.Forbid = events[last]

	return trace, nil
}
''')
body(I + "trace/read.go", "func selectEvent(", "")
body(I + "trace/trace.go", "func (t Trace) IsPrefixOf(", '''
func (t Trace) IsPrefixOf(other Trace) bool {
	if len(t) == 0 {
		return true
	}

	return len(other) != 0 && t[0].Equals(other[0]) && t[1:].IsPrefixOf(other[1:])
}
''')
body(I + "trace/expand.go", "func (t Forbidden) Expand(", '''
func (t Forbidden) Expand(name string) *testlang.Node {
	root := testlang.Root()
	root.Mark(name)

	at := &root

	for _, event := range t.Prefix {
		at.Next = []testlang.Node{testlang.Inc(event)}
		at = &at.Next[0]
		at.Mark(name)
	}

	at.Next = []testlang.Node{testlang.TestPoint(t.Forbid, name)}

	return &root
}
''')
body(I + "testlang/walk.go", "func Walk(", '''
func Walk(node *Node, function func(*Node) error) error {
	pending := []*Node{node}

	for len(pending) != 0 {
		last := len(pending) - 1
		node, pending = pending[last], pending[:last]

		if err := function(node); err != nil {
			return err
		}

		for i := len(node.Next) - 1; i >= 0; i-- {
			pending = append(pending, &node.Next[i])
		}
	}

	return nil
}
''')
sub(I + "testlang/walk.go", 'import "github.com/UoY-RoboStar/rtcg/internal/structure"\n', "")
body(I + "testlang/event.go", "func (e *Event) UnmarshalText(", '''
func (e *Event) UnmarshalText(text []byte) error {
	var (
		val value.Value
		cha channel.Channel
	)

	rest, err := cha.UnmarshalTextWithRemainder(text)
	if err == nil && rest != nil {
		err = val.UnmarshalText(rest)
	}

	if err != nil {
		return fmt.Errorf("couldn't unmarshal event %q: %w", text, err)
	}

	e.Channel, e.Value = cha, val

	return nil
}
''')
body(I + "testlang/value/value.go", "func (v *Value) UnmarshalText(", '''
func (v *Value) UnmarshalText(text []byte) error {
	text = bytes.TrimSpace(text)

	var number IntValue
	if number.UnmarshalText(text) == nil {
		v.content = &number

		return nil
	}

	var enum EnumValue
	if err := enum.UnmarshalText(text); err != nil {
		return fmt.Errorf("%w: input %q", ErrUnsupportedValueType, string(text))
	}

	v.content = &enum

	return nil
}
''')
body(I + "testlang/value/value.go", "func tryUnmarshal[", "")
body(I + "testlang/value/value.go", "func (v *Value) Equals(", '''
func (v *Value) Equals(other Value) bool {
	switch mine := v.content.(type) {
	case nil:
		return other.content == nil
	case *IntValue:
		theirs, ok := other.content.(*IntValue)

		return ok && *mine == *theirs
	case *EnumValue:
		theirs, ok := other.content.(*EnumValue)

		return ok && *mine == *theirs
	default:
		return reflect.DeepEqual(v.content, other.content)
	}
}
''')
body(I + "testlang/rstype/unify.go", "func Unify(", '''
func Unify(lhs, rhs *RsType) (*RsType, error) {
	if lhs == nil || rhs == nil {
		if lhs == nil {
			return rhs, nil
		}

		return lhs, nil
	}

	if lhs.kind != rhs.kind {
		return nil, fmt.Errorf("%w: %s isn't %s", ErrUnifyDifferentKinds, lhs, rhs)
	}

	result := *lhs
	if lhs.kind == KindArithmos {
		result.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)
	}

	return &result, nil
}
''')
body(I + "stm/verdict/verdict.go", "func (v *Verdict) MarshalJSON(", '''
func (v *Verdict) MarshalJSON() ([]byte, error) {
	bs, err := json.Marshal(map[string]testlang.Outcome(*v))
	if err != nil {
		return nil, fmt.Errorf("couldn't marshal verdict set: %w", err)
	}

	return bs, nil
}
''')
body(I + "stm/verdict/verdict.go", "func (v *Verdict) Is(", '''
func (v *Verdict) Is(status testlang.Outcome) bool {
	set := structure.Set[string](v.SetOf(status))

	return len(set.Values()) != 0
}
''')
body(I + "stm/builder.go", "func unifyTypes(", '''
func unifyTypes(tests map[string]*Stm) (TypeMap, error) {
	tmap := make(TypeMap)

	names := make([]string, 0, len(tests))
	for name := range tests {
		names = append(names, name)
	}

	sort.Strings(names)

	for _, name := range names {
		if err := tmap.merge(tests[name].Types); err != nil {
			return nil, err
		}
	}

	return tmap, nil
}

func (m TypeMap) merge(other TypeMap) error {
	for cName, cType := range other {
		var err error

		if m[cName], err = rstype.Unify(m[cName], cType); err != nil {
			return fmt.Errorf("the types of channel %s differ among tests: %w", cName, err)
		}
	}

	return nil
}
''')
sub(I + "stm/builder.go", "import (\n", "import (\n\t\"sort\"\n")
body(I + "validate/validate.go", "func Full(", '''
func Full(root *testlang.Node) (*Test, error) {
	if err := Root(root); err != nil {
		return nil, fmt.Errorf("failed to validate test: invalid root: %w", err)
	}

	seen := 0

	err := testlang.Walk(root, func(node *testlang.Node) error {
		seen++

		if seen == 1 { // the root
			return nil
		}

		return Node(node)
	})
	if err != nil {
		return nil, fmt.Errorf("failed to validate test: node %d is invalid: %w", seen, err)
	}

	return &Test{root: root}, nil
}
''')
body(I + "gen/cpp/copy.go", "func (g *Generator) copyPrelude(", '''
func (g *Generator) copyPrelude() error {
	//nolint:wrapcheck // the errors are ours.
	return fs.WalkDir(prelude, preludeMount, func(name string, entry fs.DirEntry, err error) error {
		if err != nil || entry.IsDir() {
			return err
		}

		content, err := prelude.ReadFile(name)
		if err != nil {
			return fmt.Errorf("couldn't open prelude file %q: %w", name, err)
		}

		dst := g.srcDirSet.OutputPath(filepath.Join(preludeDir, path.Base(name)))

		if err := os.WriteFile(dst, content, 0o666); err != nil {
			return fmt.Errorf("couldn't copy prelude file %q: %w", name, err)
		}

		return nil
	})
}
''')
body(I + "gen/cpp/copy.go", "func (g *Generator) copyPreludeFile(", "")
body(I + "gen/gen.go", "func (o *OnSuite) runSubgens(", '''
func (o *OnSuite) runSubgens() error {
	errs := make([]error, len(o.subgens))

	var wait sync.WaitGroup

	for i, subg := range o.subgens {
		wait.Add(1)

		go func(i int, subg subgen.OnSuite) {
			defer wait.Done()

			if err := subg.Generate(); err != nil {
				errs[i] = fmt.Errorf("generator %s failed: %w", subg.Parent().Name(), err)
			}
		}(i, subg)
	}

	wait.Wait()

	return errors.Join(errs...)
}
''')
sub(I + "gen/gen.go", "import (\n", "import (\n\t\"sync\"\n")
body(I + "gen/catkin/catkin.go", "func generatePackageXML(", '''
func generatePackageXML(dir string, pkg cfg.Package) error {
	var content bytes.Buffer

	if err := pkg.Write(&content); err != nil {
		return err
	}

	if err := os.WriteFile(filepath.Join(dir, "package.xml"), content.Bytes(), 0o666); err != nil {
		return fmt.Errorf("couldn't write package.xml: %w", err)
	}

	return nil
}
''')
sub(I + "gen/catkin/catkin.go", "import (\n", "import (\n\t\"bytes\"\n", '\t"errors"\n', "")
body(I + "gen/config/catkin/package.go", "func (p *Package) Expand(", '''
func (p *Package) Expand(name string) {
	for _, field := range []*string{&p.Name, &p.Description, &p.Maintainer.Name, &p.Maintainer.Email, &p.License} {
		*field = strings.Join(strings.Split(*field, "${NAME}"), name)
	}
}
''')
body(I + "gen/config/catkin/package.go", "func expandOne(", "")
body(I + "gen/config/config.go", "func Load(", '''
func Load(path string) (*Config, error) {
	content, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("couldn't read config file %q: %w", path, err)
	}

	var config Config

	if err := xml.NewDecoder(bytes.NewReader(content)).Decode(&config); err != nil {
		return nil, fmt.Errorf("couldn't decode config file %q: %w", path, err)
	}

	if config.Directory == "" {
		config.Directory = filepath.Dir(path)
	}

	return &config, nil
}
''')
sub(I + "gen/config/config.go", "import (\n", "import (\n\t\"bytes\"\n", '\t"errors"\n', "")
body(I + "gen/cpp/func.go", "func StringLiteral(", '''
func StringLiteral(contents string) string {
	literal := []byte{'"'}

	for i := 0; i < len(contents); i++ {
		if char := contents[i]; char >= ' ' && char != del && !strings.ContainsRune("\\"\\\\?", rune(char)) {
			literal = append(literal, char)
		} else {
			literal = append(literal, fmt.Sprintf("\\\\%03o", char)...)
		}
	}

	return string(append(literal, '"'))
}
''')
for tool, call, what in (("rtcg-read-traces", "suite.Write(os.Stdout)", "couldn't write expanded traces"), ("rtcg-make-stms", "stms.Write(os.Stdout)", "couldn't write state machines")):
    sub("cmd/%s/main.go" % tool, "\tif err := %s; err != nil {\n" % call, "\tout := bufio.NewWriterSize(os.Stdout, 1<<14)\n\n\tif err := errors.Join(%s, out.Flush()); err != nil {\n" % call.replace("os.Stdout", "out"),
        "import (\n", "import (\n\t\"bufio\"\n")
sub("cmd/rtcg-gen/main.go", '''	flag.BoolVar(&action.clean, "clean", false, "remove output directory before generating")
	flag.StringVar(&action.outputDir, "output", "out", "output directory")
	flag.Usage = usage
	flag.Parse()

	argv := flag.Args()
''', '''	clean := flag.Bool("clean", false, "whether to remove the output directory first")
	output := flag.String("output", "out", "the output directory")
	flag.Usage = usage
	flag.Parse()

	action.clean, action.outputDir = *clean, *output

	argv := flag.Args()
''')
sub(I + "gen/cpp/embed/prelude/rtcg.cpp", '''  switch (s)
  {
  case Status::WAIT_START:
  case Status::WAIT_IN:
  case Status::WAIT_OUT:
    return true;
  default:
    return false;
  }
''', '''  return s == Status::WAIT_START || s == Status::WAIT_IN || s == Status::WAIT_OUT;
''', '''const char* rtcg::outstr(rtcg::Outcome o)
{
  switch (o)
  {
  case rtcg::Outcome::UNSET:
    return "unset";
  case rtcg::Outcome::INC:
    return "inconclusive";
  case rtcg::Outcome::PASS:
    return "passed";
  case rtcg::Outcome::FAIL:
    return "failed";
  }
  return "???";
}
''', '''const char* rtcg::outstr(rtcg::Outcome o)
{
  static const char* const names[] = { "unset", "inconclusive", "passed", "failed" };
  const int i = static_cast<int>(o);
  return 0 <= i && i < 4 ? names[i] : "???";
}
''')
sub("rtcg.sh", '''  case $# in
  1)
    template_dir=$1
    trace_file="-" # stdin
    ;;
  2)
    template_dir=$1
    trace_file="$2" # named file
    ;;
  *)
    usage
    ;;
  esac
''', '''  if [ $# -lt 1 ] || [ $# -gt 2 ]; then
    usage
  fi

  template_dir=$1
  trace_file=${2--} # stdin, unless named
''')
