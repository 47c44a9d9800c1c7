"""More behaviour-preserving edits of a copy of the repository: python3 tools/refactor2.py COPY. No check may mind them."""
import os, sys
R = sys.argv[1]


def e(fn, *prs):
    p = os.path.join(R, fn)
    s = open(p).read()
    it = iter(prs)
    for a in it:
        b = next(it)
        assert s.count(a) == 1, (fn, s.count(a), a)
        s = s.replace(a, b)
    open(p, "w").write(s)


T = "internal/gen/cpp/embed/templates/"
# The ROS node: members instead of locals for handles, lambdas, spinOnce, a helper for publishing.
e(T + "ros/main_body.cpp.tmpl", "  ros::spin();", """  for (ros::Rate rate(50); ros::ok(); rate.sleep())
    ros::spinOnce();""")
e(T + "ros/main.cpp.tmpl",
  '''  auto input_accepted_sub = nh.subscribe("input_accepted", 10, &StateMachine::inputAcceptedCallback, &stm);''',
  '''  const uint32_t queue = 10;
  ros::Subscriber input_accepted_sub = nh.subscribe<std_msgs::Bool>(
      "input_accepted", queue, [&stm](const std_msgs::Bool::ConstPtr& msg) { stm.inputAcceptedCallback(msg); });''',
  '''  auto timeout_timer = nh.createTimer(ros::Duration(TIMEOUT_SEC), &StateMachine::timeoutCallback, &stm);''',
  '''  const ros::Duration timeout(TIMEOUT_SEC);
  ros::Timer timeout_timer = nh.createTimer(timeout, [&stm](const ros::TimerEvent& ev) { stm.timeoutCallback(ev); });''',
  '''  // Install the publisher handles
{{-   range .Transitions.In }}
  {{ template "publisher_name" . }}_ = {{ template "publisher_name" . }};
{{-   end -}}''', '''''',
  '''  {{ template "publisher_name" . }}_.publish({{ cppConvertTo .Channel.Name }}({{ cppValue .Value }}));''',
  '''  const auto message = {{ cppConvertTo .Channel.Name }}({{ cppValue .Value }});
  const ros::Publisher& out = {{ template "publisher_name" . }}_;
  out.publish(message);''',
  '''{{- define "stm_ctor" }}
''', '''{{- define "stm_inits" -}}
{{-   range $i, $t := .Transitions.In -}}
{{-     if eq $i 0 }} : {{ else }}, {{ end -}}
{{      template "publisher_name" $t }}_({{ template "publisher_name" $t }})
{{-   end -}}
{{- end -}}

{{- define "stm_ctor" }}
''')
e(T + "animate/main.cpp.tmpl", '''{{- /* Returns the argument set of a timeout callback. */ -}}''', '''{{- define "stm_inits" -}}{{- end -}}

{{- /* Returns the argument set of a timeout callback. */ -}}''')
e(T + "base/stm.cpp.tmpl",
  '''StateMachine::StateMachine({{ template "stm_ctor_params" . }})
{''', '''StateMachine::StateMachine({{ template "stm_ctor_params" . }}){{ template "stm_inits" . }}
{''',
  '''  if (!rtcg::status::isRunning(status_))
  {
    {{ template "log" "error" }}"Tried to end test twice (first as " << status_ << ", then as " << s << "."{{ template "end_log" }}
    return;
  }

  if (rtcg::status::isRunning(s))
  {
    {{ template "log" "error" }}"Tried to end with a non-ending status " << s << "."{{ template "end_log" }}
    s = rtcg::Status::BUG;
  }

  status_ = s;
''', '''  const bool running = rtcg::status::isRunning(status_);

  if (!running)
  {
    {{ template "log" "error" }}"Tried to end test twice (first as " << status_ << ", then as " << s << "."{{ template "end_log" }}
    return;
  }

  status_ = rtcg::status::isRunning(s) ? notAnEnd(s) : s;
''',
  '''void StateMachine::end(rtcg::Status s)
''', '''rtcg::Status StateMachine::notAnEnd(rtcg::Status s)
{
  {{ template "log" "error" }}"Tried to end with a non-ending status " << s << "."{{ template "end_log" }}
  return rtcg::Status::BUG;
}

void StateMachine::end(rtcg::Status s)
''',
  '''  void end(rtcg::Status status); // Ends the test with the given status.
''', '''  void end(rtcg::Status status); // Ends the test with the given status.
  rtcg::Status notAnEnd(rtcg::Status status); // Reports that a status isn't an ending one.
''',
  '''  // Only acknowledge this callback if we're actually waiting to start.
  if (status_ != rtcg::Status::WAIT_START)
    return;

  {{ template "log" "info" }}"Initial delay finished, now entering first state."{{ template "end_log" }}
  {{ cppStateEntry .Stm.InitialState }}();
''', '''  // Only acknowledge this callback if we're actually waiting to start.
  if (status_ == rtcg::Status::WAIT_START)
  {
    {{ template "log" "info" }}"Initial delay finished, now entering first state."{{ template "end_log" }}
    {{ cppStateEntry .Stm.InitialState }}();
  }
''')
# An if chain in place of the switch.
e(T + "base/out_callback.cpp.tmpl", '''  switch (state_)
  {
{{- range $s, $ts := .States }}
  case {{ cppStateEnum $s }}:
''', '''{{- range $s, $ts := .States }}
  if (state_ == {{ cppStateEnum $s }})
  {
''', '''    break;
{{- end }}
  default:
    {{ template''', '''    return;
  }
{{- end }}

    {{ template''', '''    end(rtcg::Status::OFF_SCRIPT);
  }
''', '''    end(rtcg::Status::OFF_SCRIPT);
''') if False else None
e(T + "base/verdict.cpp.tmpl", '''  rtcg::Outcome {{ . }}_ = rtcg::Outcome::UNSET;''', '''  rtcg::Outcome {{ . }}_{rtcg::Outcome::UNSET};''')
e(T + "base/entry.cpp.tmpl", '''  return rtcg::status::exitCode(status);''', '''  const int code = rtcg::status::exitCode(status);

  return code;''')
e(T + "animate/main_body.cpp.tmpl", '''  for (auto s = stm.getStatus(); rtcg::status::isRunning(s); s = stm.getStatus())
  {
''', '''  while (rtcg::status::isRunning(stm.getStatus()))
  {
    const auto s = stm.getStatus();
    (void) s;

''', '''    if (choice == "timeout")
      stm.timeoutCallback();
''', '''    if (choice == "timeout")
    {
      stm.timeoutCallback();
      continue;
    }

    if (choice.empty())
    {
    }
''')
e(T + "base/convert/convert_base.h.tmpl", "#ifndef CONVERT_H_DEFINED\n#define CONVERT_H_DEFINED\n", "#pragma once\n#ifndef RTCG_CONVERT_H\n#define RTCG_CONVERT_H\n",
  "#endif // CONVERT_H_DEFINED", "#endif // RTCG_CONVERT_H")
e(T + "ros/convert/convert.h.tmpl", '''  return std::string(msg->data.c_str());''', '''  const std::string text = msg->data;
  return text.c_str();''', '''  {{ template "type" . }} msg;
  msg.data = value;
  return msg;''', '''  {{ template "type" . }} result;
  auto& field = result.data;
  field = value;
  return result;''')
e("internal/gen/makefile/embed/templates/Makefile.tmpl", '''.PHONY: all mkdir
''', '''.PHONY: all
.PHONY: mkdir
''', "	mkdir -p bin\n", "	@test -d bin || mkdir bin\n")
# The tools.
e("cmd/rtcg-gen/main.go", '''	stms, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read state machine suite: %w", err)
	}

	if err := a.maybeClean(); err != nil {
		return err
	}

	return a.generate(stms)
''', '''	var suite *stm.Suite

	for _, step := range []func() error{
		func() (err error) {
			suite, err = a.readSuite()

			return wrap("couldn't read state machine suite", err)
		},
		a.maybeClean,
		func() error { return a.generate(suite) },
	} {
		if err := step(); err != nil {
			return err
		}
	}

	return nil
''', '''func (a *genAction) maybeClean() error {
''', '''func wrap(what string, err error) error {
	if err == nil {
		return nil
	}

	return fmt.Errorf("%s: %w", what, err)
}

func (a *genAction) maybeClean() error {
''')
e("internal/cli/cli.go", '''	switch len(args) {
	case maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case maxArgs - 1:
		// Missing file argument, try stdin.
		return stdinPath, nil
	default:
		return "", ErrBadArgs
	}
''', '''	missing := maxArgs - len(args)

	if missing < 0 || 1 < missing {
		return "", ErrBadArgs
	}

	if missing == 0 {
		return args[len(args)-1], nil
	}

	return stdinPath, nil
''')
e("internal/gen/gen.go", '''	if err := o.runSubgens(); err != nil {
		return err
	}

	return nil
}
''', '''	return o.runSubgens()
}
''', '''	for name := range o.suite.Tests {
		if name == "." || name != filepath.Base(name) || !filepath.IsLocal(name) {
			return fmt.Errorf("%w: %q", ErrBadTestName, name)
		}
	}

	return nil
}
''', '''	for name := range o.suite.Tests {
		if !isDirName(name) {
			return fmt.Errorf("%w: %q", ErrBadTestName, name)
		}
	}

	return nil
}

func isDirName(name string) bool {
	switch name {
	case "", ".", "..":
		return false
	}

	return filepath.IsLocal(name) && filepath.Dir(name) == "." && filepath.Base(name) == name
}
''')
e("internal/gen/cpp/cpp.go", '''	for name, test := range o.suite.Tests {
		dirs := o.parent.srcDirSet.Subdir(name)

		if err := o.generateTest(dirs, name, test); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
	}

	return nil
''', '''	names := make([]string, 0, len(o.suite.Tests))
	for name := range o.suite.Tests {
		names = append(names, name)
	}

	sort.Strings(names)

	for i := len(names) - 1; 0 <= i; i-- {
		name := names[i]
		if err := o.generateTest(o.parent.srcDirSet.Subdir(name), name, o.suite.Tests[name]); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
	}

	return nil
''', 'import (\n', 'import (\n\t"sort"\n')
e("internal/gen/cpp/func.go", '''	switch {
	case rsType.IsEnum():
		return "std::string"
	case rsType.IsNat():
		return "unsigned int"
	case rsType.IsInt():
		return "int"
	case rsType.IsReal():
		return "double"
	default:
		return "void *"
	}
''', '''	for _, choice := range []struct {
		holds bool
		name  string
	}{
		{rsType.IsEnum(), "std::string"},
		{rsType.IsNat(), "unsigned"},
		{rsType.IsInt(), "int"},
		{rsType.IsReal(), "double"},
	} {
		if choice.holds {
			return choice.name
		}
	}

	return "void*"
''')
e("internal/gen/config/config.go", '''	file, err := os.Open(path)
	if err != nil {
		return nil, fmt.Errorf("couldn't open config file %q: %w", path, err)
	}

	if err := xml.NewDecoder(file).Decode(&config); err != nil {
		err = fmt.Errorf("couldn't decode config file %q: %w", path, err)

		return nil, errors.Join(err, file.Close())
	}

	if err := file.Close(); err != nil {
		return nil, fmt.Errorf("couldn't close config file %q: %w", path, err)
	}
''', '''	text, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("couldn't open config file %q: %w", path, err)
	}

	if err := xml.NewDecoder(bytes.NewReader(text)).Decode(&config); err != nil {
		return nil, fmt.Errorf("couldn't decode config file %q: %w", path, err)
	}
''', '''	"encoding/xml"
	"errors"
''', '''	"bytes"
	"encoding/xml"
''')
e("internal/validate/node.go", '''	switch node.Outcome {
	case testlang.OutcomeUnset:
		return ErrNoOutcome
	case testlang.OutcomeFail:
		return failNode(node)
	case testlang.OutcomePass:
		if err := passNode(node); err != nil {
			return err
		}

		fallthrough
	case testlang.OutcomeInc:
		return nonFailNode(node)
	default:
		return fmt.Errorf("%w: %s", ErrBadOutcome, node.Outcome)
	}
''', '''	if node.Outcome == testlang.OutcomeUnset {
		return ErrNoOutcome
	}

	rules := map[testlang.Outcome][]func(*testlang.Node) error{
		testlang.OutcomeFail: {failNode},
		testlang.OutcomePass: {nonFailNode, passNode},
		testlang.OutcomeInc:  {nonFailNode},
	}

	checks, ok := rules[node.Outcome]
	if !ok {
		return fmt.Errorf("%w: %s", ErrBadOutcome, node.Outcome)
	}

	for _, check := range checks {
		if err := check(node); err != nil {
			return err
		}
	}

	return nil
''')
e("internal/factorise/factorise.go", '''	last := lastEvent(after)

	failures := Failures(tests, after)

	inSpines := make([]testlang.Node, 0, len(failures))

	outputs := make([]testlang.Node, 0, len(failures))

	for _, f := range failures {
		node := f.Node()

		if f.Event.Channel.IsIn() {
			// Each input gets placed on its own copy of the spine directly.
			inSpines = append(inSpines, testlang.Inc(last, node))
		} else {
			// Outputs get merged into a single spine node.
			outputs = append(outputs, node)
		}
	}

	return append(inSpines, testlang.Inc(last, outputs...))
''', '''	var spines, outputs []testlang.Node

	last := lastEvent(after)

	for _, failure := range Failures(tests, after) {
		if !failure.Event.Channel.IsIn() {
			outputs = append(outputs, failure.Node())

			continue
		}

		spines = append(spines, testlang.Inc(last, failure.Node()))
	}

	spines = append(spines, testlang.Inc(last, outputs...))

	return spines
''', '''		if t.Prefix.Equals(after) {
			failures = append(failures, Failure{Test: k, Event: t.Forbid})
		}
''', '''		if !after.Equals(t.Prefix) {
			continue
		}

		failures = append(failures, Failure{Event: t.Forbid, Test: k})
''')
e("internal/stm/suite.go", '''	for name, machine := range suite.Tests {
		if err := machine.check(); err != nil {
			return nil, fmt.Errorf("malformed state machine %q: %w", name, err)
		}
	}

	return &suite, nil
''', '''	result := &Suite{Types: suite.Types, Tests: suite.Tests}

	for name := range result.Tests {
		if err := result.Tests[name].check(); err != nil {
			return nil, fmt.Errorf("malformed state machine %q: %w", name, err)
		}
	}

	return result, nil
''')
e("internal/stm/transition/set.go", '''	for i := range sets {
		if ts := &sets[i]; ts.IsForChannel(channel) {
			ts.Transitions = append(ts.Transitions, transition)

			return sets
		}
	}
''', '''	for i, set := range sets {
		if set.IsForChannel(channel) {
			longer := make([]Transition, 0, len(set.Transitions)+1)
			longer = append(longer, set.Transitions...)
			sets[i].Transitions = append(longer, transition)

			return sets
		}
	}
''')
e("rtcg.sh", '''  ./bin/rtcg-read-traces "${trace_file}" |
    ./bin/rtcg-make-stms - |
    ./bin/rtcg-gen "${template_dir}" -
''', '''  bin=./bin
  "$bin/rtcg-read-traces" "${trace_file}" | "$bin/rtcg-make-stms" | "$bin/rtcg-gen" "${template_dir}"
''')
