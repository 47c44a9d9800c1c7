"""Behaviour-preserving edits all over a copy of the repository: python3 tools/refactor.py COPY. No check may mind them."""
import re,sys,os
R=sys.argv[1]
def e(fn,*prs):
    p=os.path.join(R,fn); s=open(p).read()
    it=iter(prs)
    for a in it:
        b=next(it)
        assert s.count(a)==1,(fn,s.count(a),a)
        s=s.replace(a,b)
    open(p,"w").write(s)
e("internal/stm/builder.go",
'''	suite := make(map[string]*Stm, len(s))

	for name, test := range s {
		m, err := b.Build(test)
		if err != nil {
			return nil, fmt.Errorf("building %s: %w", name, err)
		}

		suite[name] = &m
	}
''','''	suite := make(map[string]*Stm, len(s))
	names := make([]string, 0, len(s))

	for name := range s {
		names = append(names, name)
	}

	sort.Strings(names)

	for _, name := range names {
		if err := b.buildInto(suite, name, s[name]); err != nil {
			return nil, fmt.Errorf("building %s: %w", name, err)
		}
	}
''','''// Build builds a single''','''func (b *Builder) buildInto(suite map[string]*Stm, name string, test *validate.Test) error {
	built, err := b.Build(test)
	if err == nil {
		suite[name] = &built
	}

	return err
}

// Build builds a single''','import (\n','import (\n	"sort"\n',
'''	b.stack.Clear()
	b.stack.Push(testRoot)

	for !b.stack.IsEmpty() {
		node := b.stack.Pop()

		if err := b.processNode(node); err != nil {
			return b.stm, err
		}
	}

	return b.stm, nil
''','''	work := []*testlang.Node{testRoot}

	for len(work) > 0 {
		top := len(work) - 1
		node := work[top]
		work = work[:top]

		if err := b.processNode(node); err != nil {
			return b.stm, err
		}

		if node.Outcome != testlang.OutcomeFail {
			for i := range node.Next {
				work = append(work, &node.Next[i])
			}
		}
	}

	return b.stm, nil
''','''	if err := b.inferNodeEventType(node); err != nil {
		return err
	}

	b.pushNext(node)

	return nil
}

func (b *Builder) pushNext(node *testlang.Node) {
	for i := range node.Next {
		b.stack.Push(&node.Next[i])
	}
}
''','''	return b.inferNodeEventType(node)
}
''','''	stack   structure.Stack[*testlang.Node] // stack is a stack used for in-order test traversal.
''','')
e("internal/trace/trace.go",'''func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	for i := 0; ; i++ {
		name := synthesiseName(base, i)

		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
	}
}''','''func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	attempt := 0
	name := synthesiseName(base, attempt)

	for taken(result, name) {
		attempt++
		name = synthesiseName(base, attempt)
	}

	result[name] = trace
}

func taken(names map[string]Forbidden, name string) bool {
	_, ok := names[name]

	return ok
}''','''	for i, e := range t {
		if !e.Equals(other[i]) {
			return false
		}
	}

	return true''','''	n := 0
	for n < len(t) && t[n].Equals(other[n]) {
		n++
	}

	return n == len(t)''')
e("internal/trace/read.go",'''	var traces []Forbidden

	for {
		row, err := cr.Read()
		if errors.Is(err, io.EOF) {
			return traces, nil
		}

		if err != nil {
			return nil, fmt.Errorf("error reading trace row: %w", err)
		}

		trace, err := parseRow(row)
''','''	rows, err := cr.ReadAll()
	if err != nil {
		return nil, fmt.Errorf("error reading trace row: %w", err)
	}

	var traces []Forbidden

	for _, row := range rows {
		trace, err := parseRow(row)
''','''		traces = append(traces, trace)
	}
}''','''		traces = append(traces, trace)
	}

	return traces, nil
}''')
e("internal/trace/collapse.go",'''	for done, pos := false, 1; !done; pos++ {''','''	pos := 0

	for done := false; !done; {
		pos++
''','''	case testlang.OutcomeUnset:
		fallthrough
	default:
''','''	default:
''')
e("internal/serial/serial.go",'''	j := json.NewEncoder(writer)
	j.SetIndent("", "\\t")

	if err := j.Encode(value); err != nil {
		return fmt.Errorf("JSON write error: %w", err)
	}
''','''	var buf bytes.Buffer

	j := json.NewEncoder(&buf)
	j.SetIndent("", "\\t")

	err := j.Encode(value)
	if err == nil {
		_, err = buf.WriteTo(writer)
	}

	if err != nil {
		return fmt.Errorf("JSON write error: %w", err)
	}
''','import (\n','import (\n	"bytes"\n')
e("internal/gen/templating/templating.go",'''	file, err := os.Create(path)
	if err != nil {
		return fmt.Errorf("couldn't create output file: %w", err)
	}

	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

	return errors.Join(err, file.Close())
''','''	var buf bytes.Buffer

	if err := tmpl.ExecuteTemplate(&buf, tmplName, ctx); err != nil {
		return fmt.Errorf("couldn't fill in template: %w", err)
	}

	if err := os.WriteFile(path, buf.Bytes(), 0o666); err != nil {
		return fmt.Errorf("couldn't create output file: %w", err)
	}

	return nil
''','	"errors"\n','	"bytes"\n')
e("internal/gen/cpp/copy.go",'''	if _, err = io.Copy(dst, src); err != nil {
		err =''','''	buf := make([]byte, 4096)
	if _, err = io.CopyBuffer(struct{ io.Writer }{dst}, struct{ io.Reader }{src}, buf); err != nil {
		err =''')
e("internal/structure/set.go",'''	values := make([]T, 0, len(s.contents))

	for k, v := range s.contents {
		if v {
			values = append(values, k)
		}
	}

	sort.Slice(values, func(i, j int) bool {
		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])
	})

	return values
''','''	values := s.unordered()
	keys := make(map[T]string, len(values))

	for _, v := range values {
		keys[v] = fmt.Sprint(v)
	}

	sort.SliceStable(values, func(i, j int) bool {
		return keys[values[i]] < keys[values[j]]
	})

	return values
}

func (s *Set[T]) unordered() []T {
	values := make([]T, 0, len(s.contents))

	for k := range s.contents {
		if s.contents[k] {
			values = append(values, k)
		}
	}

	return values
''')
e("internal/structure/stack.go",'''	items []T
	count int
''','''	items []T
''','''	s.count++
''','','''	item := s.items[s.count-1]
	s.items = s.items[:s.count-1]
	s.count--
''','''	last := len(s.items) - 1
	item := s.items[last]
	s.items = s.items[:last]
''','return s.count == 0','return len(s.items) == 0','''	s.items = []T{}
	s.count = 0
''','''	s.items = nil
''')
e("internal/testlang/walk.go",'''	var stack structure.Stack[*Node]

	stack.Push(node)

	for !stack.IsEmpty() {
		node = stack.Pop()

		if err := function(node); err != nil {
			return err
		}

		// Push in reverse so that the first next-node is serviced first.
		for i := len(node.Next) - 1; 0 <= i; i-- {
			stack.Push(&node.Next[i])
		}
	}

	return nil
''','''	if err := function(node); err != nil {
		return err
	}

	for i := range node.Next {
		if err := Walk(&node.Next[i], function); err != nil {
			return err
		}
	}

	return nil
''')
p=os.path.join(R,"internal/testlang/walk.go"); s=open(p).read(); s=re.sub(r'import \([^)]*\)\n|import "[^"]*structure"\n','',s); open(p,"w").write(s)
e("internal/strmanip/strmanip.go",'''	var build strings.Builder

	// TODO: make this more efficient
	for i, c := range ident {
		if i == 0 {
			_, _ = build.WriteRune(unicode.ToUpper(c))
		} else {
			_, _ = build.WriteRune(c)
		}
	}

	return build.String()
''','''	runes := []rune(ident)
	if len(runes) > 0 {
		runes[0] = unicode.ToUpper(runes[0])
	}

	return string(runes)
''')
e("cmd/rtcg-gen/main.go",'''	holdsCwd, err := holdsWorkingDir(a.outputDir)
	if err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	if holdsCwd {
		return ErrCleanDot
	}

	if err := os.RemoveAll(a.outputDir); err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	return nil
''','''	holdsCwd, err := holdsWorkingDir(a.outputDir)

	switch {
	case err != nil:
	case holdsCwd:
		return ErrCleanDot
	default:
		err = os.RemoveAll(a.outputDir)
	}

	if err != nil {
		err = fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	return err
''')
B="internal/gen/cpp/embed/templates/base/"
e(B+"stm.cpp.tmpl",'''  // Don't acknowledge this callback if the test is already over.
  if (!rtcg::status::isRunning(status_))
    return;
{{- block "out_callback" . }}
{{-   template "out_callback.cpp.tmpl" . }}
{{- end -}}
}''','''  // Don't acknowledge this callback if the test is already over.
  const bool running = rtcg::status::isRunning(status_);
  if (running)
  {
{{- block "out_callback" . }}
{{-   template "out_callback.cpp.tmpl" . }}
{{- end }}
  }
}''')
e(B+"out_callback.cpp.tmpl",'''    value.compare({{ cppValue $t.Value }}) == 0''','''    value == {{ cppValue $t.Value }}''')
e("internal/gen/cpp/embed/prelude/rtcg.cpp",'''  switch (s)
  {
  case Status::WAIT_START:
  case Status::WAIT_IN:
  case Status::WAIT_OUT:
    return true;
  default:
    return false;
  }''','''  return s == Status::WAIT_START || s == Status::WAIT_IN || s == Status::WAIT_OUT;''','''  switch (s)
  {
  case rtcg::Status::FAIL:
    return 1;
  case rtcg::Status::BUG:
    return 2;
  default:
    return 0;
  }''','''  if (s == rtcg::Status::FAIL)
    return 1;
  return s == rtcg::Status::BUG ? 2 : 0;''')
e("internal/gen/makefile/embed/templates/Makefile.tmpl",'-o $@ -Isrc/{{ $k }}/include -Isrc/rtcg','-Isrc/rtcg -Isrc/{{ $k }}/include -o $@')
e("internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl",'''    include
    ${catkin_INCLUDE_DIRS}
    ../convert/
    ../rtcg/''','''    include
    ../convert/
    ../rtcg/
    ${catkin_INCLUDE_DIRS}''')
e(B+"verdict.cpp.tmpl",'''  if ({{ . }}_ == new_val)
    return;

  {{ template "log" "info" }}"Test {{ . }} is now " << new_val << "; was " << {{ . }}_ << "."{{ template "end_log" }}
  {{ . }}_ = new_val;''','''  const auto old_val = {{ . }}_;
  {{ . }}_ = new_val;
  if (old_val != new_val)
  {
    {{ template "log" "info" }}"Test {{ . }} is now " << new_val << "; was " << old_val << "."{{ template "end_log" }}
  }''')
