B='internal/gen/cpp/embed/templates/base/'; A='internal/gen/cpp/embed/templates/animate/'; R='internal/gen/cpp/embed/templates/ros/'; P='internal/gen/cpp/embed/prelude/'
import os
def pf(n):
    for d,_,fs in os.walk('/repo/internal/gen/cpp/embed/prelude'):
        if n in fs: return os.path.join(d,n)[6:]
RC=pf('rtcg.cpp'); RH=pf('rtcg.h')
F='internal/gen/cpp/func.go'; T='internal/stm/transition/aggregate.go'
OUT=B+'out_callback.cpp.tmpl'; IN=B+'in_callback.cpp.tmpl'; ST=B+'stm.cpp.tmpl'; SE=B+'state_entry.cpp.tmpl'; VE=B+'verdict.cpp.tmpl'; EN=B+'entry.cpp.tmpl'; SM=B+'state_meta.cpp.tmpl'
AM=A+'main_body.cpp.tmpl'; RM=R+'main.cpp.tmpl'
def bug(p,*e): return (p,'bug',list(e))
def ok(*e): return [(p,'ok',list(e)) for p in ('C16','C17')]
CASES=[
bug('C16',(OUT,'{{ cppStateEntry $t.Next }}','{{ cppStateEntry (index $ts 0).Next }}')),
bug('C16',(OUT,'.compare({{ cppValue $t.Value }}) == 0','.compare({{ cppValue $t.Value }}) != 0')),
bug('C16',(OUT,'value == {{ $t.Value.StringValue }}','value >= {{ $t.Value.StringValue }}')),
bug('C16',(OUT,'value.compare({{ cppValue $t.Value }}) == 0','value.compare(0, value.size(), {{ cppValue (index $ts 0).Value }}) == 0')),
bug('C16',(OUT,'    break;\n{{- end }}\n  default','{{- end }}\n  default')),
bug('C16',(OUT,'''      end(rtcg::Status::OFF_SCRIPT);
    }
    break;''','''      end(rtcg::Status::FAIL);
    }
    break;''')),
bug('C16',(OUT,'''stateName() << "."{{ template "end_log" }}
    end(rtcg::Status::OFF_SCRIPT);''','''stateName() << "."{{ template "end_log" }}''')),
bug('C16',(IN,'end(rtcg::Status::BUG)','end(rtcg::Status::OFF_SCRIPT)')),
bug('C16',(IN,'    break;\n','')),
bug('C16',(ST,'{{-   block "in_callback" .Transitions.InMerged }}','{{-   block "in_callback" (index .Transitions.In 0).States }}')),
bug('C16',(SE,'  status_ = rtcg::Status::WAIT_IN;','  status_ = rtcg::Status::WAIT_OUT;')),
bug('C16',(SE,'  status_ = rtcg::Status::WAIT_OUT;\n','')),
bug('C16',(SE,'{{- if .Verdict.IsFail }}','{{- if and .Verdict.IsFail (not .HasIn) }}')),
bug('C16',(SE,'  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});','  verdict_.{{ $t }}(rtcg::Outcome::INC);')),
bug('C16',(VE,'  {{ . }}_ = new_val;','  if (new_val > {{ . }}_) {{ . }}_ = new_val;')),
bug('C17',(VE,'''= " << {{ . }}_{{''','''= " << rtcg::Outcome::PASS{{''')),
bug('C16',(ST,'  state_ = {{ cppStateEnum .ID }};\n','')),
bug('C16',(SM,'''return "{{ .ID }}";''','''return "{{ .ID }}";'''),(ST,'''State state_ = {{ (index .Stm.States 0).ID | cppStateEnum }};''','''State state_ = {{ (index .Stm.States 0).ID | cppStateEnum }};
  rtcg::Status status_ = rtcg::Status::WAIT_OUT;''')),
bug('C17',(ST,'''  status_ = rtcg::Status::WAIT_START;
{{- else }}
  {{ cppStateEntry .Stm.InitialState }}();''','''  status_ = rtcg::Status::WAIT_START;
{{- end }}
{{- if not .Transitions.HasIn }}
  {{ cppStateEntry .Stm.InitialState }}();''')),
bug('C17',(ST,'  if (status_ != rtcg::Status::WAIT_START)\n    return;\n','')),
bug('C17',(ST,'  if (status_ != rtcg::Status::WAIT_START)\n','  if (!rtcg::status::isRunning(status_))\n')),
bug('C17',(ST,'end(rtcg::Status::TIMEOUT)','end(rtcg::Status::OFF_SCRIPT)')),
bug('C17',(ST,'''  if (!rtcg::status::isRunning(status_))
    return;

  {{ template "log" "info" }}"Timeout''','''  {{ template "log" "info" }}"Timeout'''),(ST,'  end(rtcg::Status::TIMEOUT);','  status_ = rtcg::Status::TIMEOUT;')),
bug('C17',(ST,'''.{{ template "end_log" }}
    return;''','''.{{ template "end_log" }}''')) if False else bug('C17',(ST,'    return;\n  }\n\n  if (rtcg::status::isRunning(s))','  }\n\n  if (rtcg::status::isRunning(s))')),
bug('C17',(ST,'    s = rtcg::Status::BUG;\n','')),
bug('C17',(RM,'  ros::shutdown();\n','')),
bug('C17',(AM,'''s = stm.getStatus())''','''s = s)''')),
bug('C17',(AM,'choice == "ready" && s == rtcg::Status::WAIT_START','choice == "ready" && s == rtcg::Status::WAIT_IN')),
bug('C16',(AM,'choice == "accept" && s == rtcg::Status::WAIT_IN','choice == "accept"')),
bug('C17',(AM,'stm.timeoutCallback();','break;')),
bug('C17',(EN,'return rtcg::status::exitCode(status)','return rtcg::status::isRunning(status)')),
bug('C17',(EN,'  stm.getVerdict().dump();\n','')),
bug('C17',(EN,'  stm.getVerdict().dump();\n',''),(EN,'  // Test loop\n','  stm.getVerdict().dump();\n')),
bug('C17',(RC,'    return 2;','    return 1;')),
bug('C17',(RC,'''  case rtcg::Status::BUG:
    return 2;''','''  case rtcg::Status::BUG:
  case rtcg::Status::TIMEOUT:
    return 2;''')),
bug('C17',(RC,'  case Status::WAIT_START:\n','')),
bug('C17',(RC,'return "passed"','return "failed"')),
bug('C17',(RM,'ros::Duration(TIMEOUT_SEC), &StateMachine::timeoutCallback','ros::Duration(TIMEOUT_SEC), &StateMachine::initialDelayCallback')),
bug('C17',(RM,'const int INPUT_DELAY_SEC = 3','const int INPUT_DELAY_SEC = 30')),
bug('C16',(RM,'''  auto {{ template "subscriber_name" . }} = nh.subscribe(''','''  nh.subscribe(''')),
bug('C16',(RM,'''  range .Transitions.Out }}
  auto {{ template "subscriber_name" . }} = nh.subscribe("{{ template "topic_name" . }}", 10''','''  range .Transitions.Out }}
  auto {{ template "subscriber_name" . }} = nh.subscribe("{{ .Channel.Name }}", 10''')),
bug('C16',(RM,'{{ template "publisher_name" . }}_ = {{ template "publisher_name" . }};','{{ template "publisher_name" . }}_ = {{ template "publisher_name" (index $.Transitions.In 0) }};')),
bug('C16',(RM,'{{      template "publisher_name" $t }}','{{      template "publisher_name" (index $.Transitions.In 0) }}')),
bug('C16',(R+'convert/convert.h.tmpl','msg.data = value.c_str();','msg.data = value.substr(0, 3);')),
bug('C16',(R+'convert/convert.h.tmpl','  msg.data = value.c_str();\n','')),
bug('C16',(RM,'''  {{ template "publisher_name" . }}_ = ''','''  auto {{ template "publisher_name" . }}_ = ''')),
bug('C16',(AM,'stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));','stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}({{ cppType $ctype.Base }}()));')),
bug('C16',(A+'main.cpp.tmpl','({{ cppValue .Value }})','({{ cppValue .Value }} + 1)')),
bug('C16',('internal/gen/cpp/func.go','	return val.StringValue()\n','	return "(unsigned)" + val.StringValue()\n'),(OUT,'value == {{ $t.Value.StringValue }}','value == {{ cppValue $t.Value }}'),(OUT,'auto value','const double value')),
]
CASES+=ok((OUT,'value == {{ $t.Value.StringValue }}','value == {{ cppValue $t.Value }}'))
CASES+=ok((OUT,'value.compare({{ cppValue $t.Value }}) == 0','value == {{ cppValue $t.Value }}'))
CASES+=ok((OUT,'value.compare({{ cppValue $t.Value }}) == 0','!value.compare({{ cppValue $t.Value }})'))
CASES+=ok((SM,'''    switch (s) {
  {{- range . }}
    case {{ cppStateEnum .ID }}:
      return "{{ .ID }}";
  {{- end }}
    }
''','''  {{- range . }}
    if (s == {{ cppStateEnum .ID }}) return "{{ .ID }}";
  {{- end }}
'''))
CASES+=ok((ST,'''  status_ = s;
''','''  const auto ended = s;
  status_ = ended;
'''))
CASES+=ok((ST,'''  if (!rtcg::status::isRunning(status_))
    return;

  {{ template "log" "info" }}"Timeout!"{{ template "end_log" }}
  end(rtcg::Status::TIMEOUT);''','''  if (rtcg::status::isRunning(status_))
  {
    {{ template "log" "info" }}"Timeout!"{{ template "end_log" }}
    end(rtcg::Status::TIMEOUT);
  }'''))
CASES+=ok((AM,'''  for (auto s = stm.getStatus(); rtcg::status::isRunning(s); s = stm.getStatus())
  {
''','''  while (rtcg::status::isRunning(stm.getStatus()))
  {
    const rtcg::Status s = stm.getStatus();
'''))
CASES+=ok((RC,'''  switch (s)
  {
  case Status::WAIT_START:
  case Status::WAIT_IN:
  case Status::WAIT_OUT:
    return true;
  default:
    return false;
  }''','''  return s == Status::WAIT_START || s == Status::WAIT_IN || s == Status::WAIT_OUT;'''))
CASES+=ok((RC,'''  switch (s)
  {
  case rtcg::Status::FAIL:
    return 1;
  case rtcg::Status::BUG:
    return 2;
  default:
    return 0;
  }''','''  if (s == rtcg::Status::FAIL)
    return 1;
  return s == rtcg::Status::BUG ? 2 : 0;'''))
CASES+=ok((R+'main_body.cpp.tmpl','  ros::spin();','  while (ros::ok())\n    ros::spinOnce();'))
CASES+=ok((VE,'''  if ({{ . }}_ == new_val)
    return;

  {{ template "log" "info" }}"Test {{ . }} is now " << new_val << "; was " << {{ . }}_ << "."{{ template "end_log" }}
  {{ . }}_ = new_val;''','''  const auto old = {{ . }}_;
  {{ . }}_ = new_val;
  if (old != new_val)
  {
    {{ template "log" "info" }}"Test {{ . }} is now " << new_val << "; was " << old << "."{{ template "end_log" }}
  }'''))
CASES+=ok((EN,'''  auto status = stm.getStatus();''','''  const rtcg::Status status = stm.getStatus();'''),(EN,'''  return rtcg::status::exitCode(status);''','''  const int code = rtcg::status::exitCode(status);
  return code;'''))
CASES+=ok((R+'convert/convert.h.tmpl','return std::string(msg->data.c_str());','const std::string text = msg->data;\n  return text;'))
CASES+=ok((IN,'''    {{ cppStateEntry (index $ts 0).Next }}();''','''{{- with index $ts 0 }}
    {{ cppStateEntry .Next }}();
{{- end }}'''))
CASES+=ok((SE,'''  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});''','''  getVerdict().{{ $t }}({{ cppOutcomeEnum $o }});'''))
CASES+=ok((ST,'''void StateMachine::end(rtcg::Status s)
{
''','''void StateMachine::end(rtcg::Status s)
{
  // nothing
  (void)s;
'''))
