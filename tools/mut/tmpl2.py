B='internal/gen/cpp/embed/templates/base/'; A='internal/gen/cpp/embed/templates/animate/'; R='internal/gen/cpp/embed/templates/ros/'; P='internal/gen/cpp/embed/prelude/'
F='internal/gen/cpp/func.go'
OUT=B+'out_callback.cpp.tmpl'; IN=B+'in_callback.cpp.tmpl'; ST=B+'stm.cpp.tmpl'; SE=B+'state_entry.cpp.tmpl'; VE=B+'verdict.cpp.tmpl'; EN=B+'entry.cpp.tmpl'; SM=B+'state_meta.cpp.tmpl'; IC=B+'includes.cpp.tmpl'; CB=B+'convert/convert_base.h.tmpl'; BA=B+'base.cpp.tmpl'
AM=A+'main_body.cpp.tmpl'; AT=A+'main.cpp.tmpl'; AC=A+'convert/convert.h.tmpl'; RM=R+'main.cpp.tmpl'; RC=R+'convert/convert.h.tmpl'
CM='internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl'; MK='internal/gen/makefile/embed/templates/Makefile.tmpl'
CT='internal/gen/cpp/template.go'; KT='internal/gen/catkin/template.go'
def bug(p,*e): return (p,'bug',list(e))
def ok(p,*e): return (p,'ok',list(e))
CASES=[
# driver
bug('C16',(OUT,'{{ if ne $i 0 }}else {{ end }}if (','if (')),
bug('C16',(SE,'''{{- if .Verdict.IsFail }}

  end(rtcg::Status::FAIL); // This state fails at least one test
{{- else if .HasIn }}''','''{{- if and .Verdict.IsFail (not .HasIn) }}

  end(rtcg::Status::FAIL); // This state fails at least one test
{{- else if .HasIn }}''')),
bug('C16',(IN,'(index $ts 0).Next','$s')),
bug('C16',(SE,'''{{- range $t, $o := .Verdict }}
  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});
{{- end }}
''',''),(SE,'''{{- end -}}
''','''{{- range $t, $o := .Verdict }}
  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});
{{- end }}
{{- end -}}
''')),
bug('C16',(ST,'State state_ = {{ (index .Stm.States 0).ID | cppStateEnum }};','State state_;'),(ST,'  state_ = {{ cppStateEnum .ID }};','  if (state_ != {{ cppStateEnum .ID }} || true) {}')),
bug('C16',(SE,'''{{-   with .In }}
''','''{{-   with .Out }}
''')),
bug('C16',(OUT,'range $s, $ts := .States','range $s, $ts := .States'),(OUT,'''  default:
''','''  default: break;
  case State(99):
''')),
bug('C17',(ST,'''{{- if .Transitions.FirstStateHasIn }}
  // This test's first''','''{{- if .Transitions.HasIn }}
  // This test's first'''),(ST,'''{{- if .Transitions.FirstStateHasIn }}

void StateMachine::initial''','''{{- if .Transitions.HasIn }}

void StateMachine::initial'''),(ST,'''{{- if .Transitions.FirstStateHasIn }}
  void initialDelayCallback''','''{{- if .Transitions.HasIn }}
  void initialDelayCallback''')),
bug('C17',(EN,'''  auto status = stm.getStatus();
''',''),(EN,'''{{ template "main_body.cpp.tmpl" . }}
''','''  auto status = stm.getStatus();
{{ template "main_body.cpp.tmpl" . }}
''')),
bug('C17',(EN,'''  stm.getVerdict().dump();
''','''  if (status != rtcg::Status::TIMEOUT)
    stm.getVerdict().dump();
''')),
bug('C17',(ST,'''    s = rtcg::Status::BUG;
  }

  status_ = s;''','''    status_ = rtcg::Status::BUG;
  }
  else
    status_ = s;
  if (status_ == rtcg::Status::BUG) return;''')),
bug('C17',(EN,'exitCode(status)','exitCode(stm.getStatus() == rtcg::Status::BUG ? rtcg::Status::FAIL : status)')),
bug('C17',(VE,'''{{-   range . }}
  {{ template "log" "info" }}"  {{ . }} =''','''{{-   range slice . 0 1 }}
  {{ template "log" "info" }}"  {{ . }} =''')),
bug('C17',(VE,'''  if ({{ . }}_ == new_val)
    return;
''','''  if ({{ . }}_ == rtcg::Outcome::PASS)
    return;
''')),
# includes
bug('C27',(IC,'< {{- else -}} " {{- end -}} {{ .Src }}','" {{- else -}} < {{- end -}} {{ .Src }}'),(IC,'{{- if .IsSystem -}} > {{- else -}} " {{- end }}','{{- if .IsSystem -}} " {{- else -}} > {{- end }}')),
bug('C27',(CB,'< {{- else -}} " {{- end -}} {{ .Src }}','" {{- else -}} " {{- end -}} {{ .Src }}'),(CB,'{{- if .IsSystem -}} > {{- else -}} " {{- end }}','{{- if .IsSystem -}} " {{- else -}} " {{- end }}')),
bug('C27',(IC,'''{{- range .Includes }}
#include {{ if .IsSystem -}} < {{- else -}} " {{- end -}} {{ .Src }} {{- if .IsSystem -}} > {{- else -}} " {{- end }}
{{- end }}
''','')),
bug('C27',(IC,'''{{- range .Includes }}
#''','''{{- range .Includes }}
{{- if .IsSystem }}
#'''),(IC,'''> {{- else -}} " {{- end }}
{{- end }}''','''> {{- else -}} " {{- end }}
{{- end }}
{{- end }}''')),
bug('C27',(CB,'{{ if .HasOverride }}{{ .Override }}{{ else }}{{ template "type" .Base }}{{ end }}','{{ template "type" .Base }}')),
bug('C27',(CB,'''const {{ cppType .Base }} value)
{{-   if .HasOverride -}}
; // User override supplied
{{-   else }}
{
{{- template "convert_to" .Base }}
}
{{-   end -}}''','''const {{ cppType .Base }} value)
{
{{- template "convert_to" .Base }}
}''')),
bug('C27',(CB,'''Msg}''','''Msg}'''))if False else bug('C27',(CB,'''const {{ cppChannelMsgType $ch }} msg)
{{-   if .HasOverride -}}''','''const {{ cppChannelMsgType $ch }} msg)
{{-   if or .HasOverride .Base.IsReal -}}''')),
bug('C27',(CB,'''{{ cppType .Base }} {{ cppConvertFrom $ch }}''','''{{ if .HasOverride }}{{ cppChannelValueType $ch }}{{ else }}{{ cppType .Base }}{{ end }} {{ cppConvertFrom $ch }}''')),
# C15
ok('C15',(SE,'{{ cppEscape .Value.StringValue }} from SUT','{{ cppEscape .Value.String }} from SUT')),
bug('C15',(AM,'''{{- else }}
    std::cout << "  No outputs available for this test-case.\\n";''','''{{- else }}
    std::cout << "  No outputs available for {{ .Nam }}.\\n";''')),
bug('C15',(RM,'{{ template "topic_name" . }}_sub','{{ template "topicname" . }}_sub')),
bug('C15',(KT,'Glob: "CMakeLists.txt.tmpl"','Glob: "CMakeLists.tmpl"')),
bug('C15',(AM,'(index $.ChannelTypes .Channel.Name).Base','(index $.ChannelTypes .Channel.Kind).Base')),
bug('C15',(CM,'{{- if .HasConversion }}\n    ../convert','{{- if .HasConversions }}\n    ../convert')),
bug('C15',(RC,'{{-   if .IsEnum }}\n  return std','{{-   if eq .Kind "enum" }}\n  return std')),
bug('C15',(AM,'{{ cppType $ctype.Base }} in;','{{ cppType $ctype }} in;')),
bug('C15',(F,'''		"cppEscape":           Escape,
''','')),
bug('C15',(SE,'{{- else if .HasIn }}','{{- else if gt (len .In.Transitions) 0 }}')),
# C18
bug('C18',(MK,'-Isrc/rtcg -Isrc/convert','-Isrc/rtcg -Iconvert')),
bug('C18',(MK,'all: mkdir {{- range $k, $v := .Tests }} {{ template "output" $k }}{{- end }}','all: mkdir {{- range $k, $v := .Tests }} {{ if $v.States }}{{ template "output" $k }}{{ end }}{{- end }}')) if False else bug('C18',(MK,'all: mkdir {{- range $k, $v := .Tests }} {{ template "output" $k }}{{- end }}','all: mkdir {{- range $k, $v := .Tests }} {{ if gt (len $v.States) 2 }}{{ template "output" $k }}{{ end }}{{- end }}')),
bug('C18',(MK,'{{ template "reg_inputs" $k }} {{- template "convert" $ -}}','{{ template "reg_inputs" $k -}}')),
bug('C18',(CM,'''catkin_package(CATKIN_DEPENDS
    roscpp
    std_msgs
{{- range .Depends }}
    {{ . }}
{{- end }}''','''catkin_package(CATKIN_DEPENDS
    roscpp
    std_msgs
{{- range .RunDepends }}
    {{ . }}
{{- end }}''')),
bug('C18',(CM,'''    src/main.cpp
{{- if .HasConversion }}
    ../convert/convert.cpp
{{- end }}
    ../rtcg/rtcg.cpp''','''    src/main.cpp
    ../convert/convert.cpp
    ../rtcg/rtcg.cpp''')),
bug('C18',(CM,'    ../rtcg/\n','    rtcg/\n')),
bug('C18',(CM,'    ../rtcg/\n','')),
bug('C18',(CM,'''add_library(rtcg
    ../rtcg/rtcg.cpp
''','''add_library(rtcg
    ../rtcg/rtcg.cc
''')),
bug('C18',(CM,'project({{ .Name }})','project(rtcg)')),
# C30
bug('C30',(ST,'''{{- if .Transitions.HasIn }}

void StateMachine::inputAccepted''','''{{- if .Transitions.FirstStateHasIn }}

void StateMachine::inputAccepted''')),
bug('C30',(AM,'''{{- if .Transitions.HasIn }}
    else if (choice == "accept"''','''{{- if true }}
    else if (choice == "accept"''')),
bug('C30',(RM,'''{{-   if .Transitions.HasIn }}
  auto input_acc''','''{{-   if true }}
  auto input_acc''')),
bug('C30',(RM,'''{{-   if .Transitions.FirstStateHasIn }}
  auto initial_delay_timer''','''{{-   if .Transitions.HasIn }}
  auto initial_delay_timer''')),
bug('C30',(RM,'''#include "std_msgs/Bool.h"
''',''),('internal/gen/cpp/embed/templates/ros/main.cpp.tmpl','#include "std_msgs/String.h"\n','')),
bug('C30',(IC,'#include "convert.h"','#include "conv.h"')),
bug('C30',(AM,'''{{-   else }}
    if
{{ end }} (s ==''','''{{ end }} (s ==''')),
bug('C30',(RM,'{{-     if ne $i 0 -}}, {{ end -}}\nros::Publisher','ros::Publisher')),
bug('C30',(SM,'{{ cppEnumField $v.ID }},','{{ $v.ID }},')),
# ---- refactorings
ok('C16',(ST,'''  state_ = {{ cppStateEnum .ID }};
{{ block''','''  const State next = {{ cppStateEnum .ID }};
  state_ = next;
{{ block''')),
ok('C16',(SE,'''  // This state provides an input to the SUT
  status_ = rtcg::Status::WAIT_IN;

{{-   with .In }}
''','''{{-   with .In }}
'''),(SE,'''{{      template "input" . -}}
''','''{{      template "input" . }}
  // This state provides an input to the SUT
  status_ = rtcg::Status::WAIT_IN;
''')),
ok('C16',(SE,'{{- if .Verdict.IsFail }}','{{- $failed := .Verdict.IsFail }}\n{{- if $failed }}')),
ok('C16',(SE,'''{{- range $t, $o := .Verdict }}
  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});
{{- end }}
''','''{{- template "verdicts" . }}
'''),(SE,'''{{/*
state_entry''','''{{- define "verdicts" }}
{{- range $t, $o := .Verdict }}
  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});
{{- end }}
{{- end -}}
{{/*
state_entry''')),
ok('C16',(OUT,'''{{ if ne $i 0 }}else {{ end }}if (
{{-     $ty := $t.Value.Type -}}
{{-     if $ty.IsEnum -}}
    value.compare({{ cppValue $t.Value }}) == 0
{{-     else -}}
    value == {{ $t.Value.StringValue }}
{{-     end -}}
)''','''{{ if $i }}else {{ end }}if (
{{-     if not $t.Value.Type.IsEnum -}}
    value == {{ $t.Value.StringValue }}
{{-     else -}}
    value.compare({{ cppValue $t.Value }}) == 0
{{-     end -}}
)''')),
ok('C16',(OUT,'''      {{ cppStateEntry $t.Next }}();
''','''    {
      {{ cppStateEntry $t.Next }}();
      return;
    }
'''),(OUT,'{{ if ne $i 0 }}else {{ end }}if (','if ('),(OUT,'''    else
    {
      {{ template "log" "info" }}"Unexpected''','''    {
      {{ template "log" "info" }}"Unexpected''')),
ok('C16',(OUT,'''  switch (state_)
  {
{{- range $s, $ts := .States }}
  case {{ cppStateEnum $s }}:
''','''  switch (state_) {
{{- range $s, $ts := .States }}
  case {{ $s | cppStateEnum }}: {
'''),(OUT,'''    break;
{{- end }}''','''    break; }
{{- end }}''')),
ok('C16',(IN,'''{{- range $s, $ts := . }}
  case''','''{{- range $state, $moves := . }}{{ $s := $state }}{{ $ts := $moves }}
  case''')),
ok('C16',(IN,'''    end(rtcg::Status::BUG);
''','''    end(rtcg::Status::BUG);
    break;
''')),
ok('C16',(ST,'''{{-   block "in_callback" .Transitions.InMerged }}
{{-     template "in_callback.cpp.tmpl" . }}
{{-   end -}}''','''{{-   template "in_callback.cpp.tmpl" .Transitions.InMerged }}''')),
ok('C16',(ST,'State state_ = {{ (index .Stm.States 0).ID | cppStateEnum }};','State state_ = {{ cppStateEnum .Stm.InitialState }};')),
ok('C17',(ST,'''  if (!rtcg::status::isRunning(status_))
  {
    {{ template "log" "error" }}"Tried''','''  const bool running = rtcg::status::isRunning(status_);
  if (!running)
  {
    {{ template "log" "error" }}"Tried''')),
ok('C17',(ST,'''  if (rtcg::status::isRunning(s))
  {
    {{ template "log" "error" }}"Tried to end with a non-ending status " << s << "."{{ template "end_log" }}
    s = rtcg::Status::BUG;
  }

  status_ = s;''','''  if (rtcg::status::isRunning(s))
  {
    {{ template "log" "error" }}"Tried to end with a non-ending status " << s << "."{{ template "end_log" }}
    status_ = rtcg::Status::BUG;
  }
  else
  {
    status_ = s;
  }''')),
ok('C17',(ST,'''  if (status_ != rtcg::Status::WAIT_START)
    return;

  {{ template "log" "info" }}"Initial delay finished, now entering first state."{{ template "end_log" }}
  {{ cppStateEntry .Stm.InitialState }}();''','''  if (status_ == rtcg::Status::WAIT_START)
  {
    {{ template "log" "info" }}"Initial delay finished, now entering first state."{{ template "end_log" }}
    {{ cppStateEntry .Stm.InitialState }}();
  }''')),
ok('C17',(ST,'''{{- if .Transitions.FirstStateHasIn }}
  // This test's first state has an input, so we delay entry into the initial
  // state to initialDelayCallback.
  status_ = rtcg::Status::WAIT_START;
{{- else }}
  {{ cppStateEntry .Stm.InitialState }}();
{{- end -}}''','''{{- if not .Transitions.FirstStateHasIn }}
  {{ cppStateEntry .Stm.InitialState }}();
{{- else }}
  // This test's first state has an input, so we delay entry into the initial
  // state to initialDelayCallback.
  status_ = rtcg::Status::WAIT_START;
{{- end -}}''')),
ok('C17',(EN,'''  auto status = stm.getStatus();
''','''  const auto status = stm.getStatus();
'''),(EN,'''  stm.getVerdict().dump();''','''  Verdict& verdict = stm.getVerdict();
  verdict.dump();''')),
ok('C17',(VE,'''{{-   range . }}
  {{ template "log" "info" }}"  {{ . }} = " << {{ . }}_''','''{{-   range $i, $test := . }}
  {{ template "log" "info" }}"  {{ $test }} = " << this->{{ $test }}_''')),
ok('C17',(AM,'''    if (choice == "timeout")
      stm.timeoutCallback();
''','''    if (choice == "timeout")
    {
      stm.timeoutCallback();
    }
''')),
ok('C17',(AM,'''  for (auto s = stm.getStatus(); rtcg::status::isRunning(s); s = stm.getStatus())
  {
''','''  auto s = stm.getStatus();
  while (rtcg::status::isRunning(s))
  {
'''),(AM,'''      std::cout << "Sorry, try again.\\n";
''','''      std::cout << "Sorry, try again.\\n";

    s = stm.getStatus();
''')),
ok('C17',(RM,'const int TIMEOUT_SEC     = 15;\nconst int INPUT_DELAY_SEC = 3;','const double INPUT_DELAY_SEC = 3;\nconst double TIMEOUT_SEC = 15;')),
ok('C27',(CB,'#include {{ if .IsSystem -}} < {{- else -}} " {{- end -}} {{ .Src }} {{- if .IsSystem -}} > {{- else -}} " {{- end }}','''{{- if .IsSystem }}
#include <{{ .Src }}>
{{- else }}
#include "{{ .Src }}"
{{- end }}'''),(IC,'#include {{ if .IsSystem -}} < {{- else -}} " {{- end -}} {{ .Src }} {{- if .IsSystem -}} > {{- else -}} " {{- end }}','''{{- if .IsSystem }}
#include <{{ .Src }}>
{{- else }}
#include "{{ .Src }}"
{{- end }}''')),
ok('C27',(CB,'{{ if .HasOverride }}{{ .Override }}{{ else }}{{ template "type" .Base }}{{ end }}','{{ if not .HasOverride }}{{ template "type" .Base }}{{ else }}{{ .Override }}{{ end }}')),
ok('C27',(CB,'{{ if .HasOverride }}{{ .Override }}{{ else }}{{ template "type" .Base }}{{ end }}','{{ if $ty.HasOverride }}{{ $ty.Override }}{{ else }}{{ template "type" $ty.Base }}{{ end }}')),
ok('C27',(CB,'#ifndef CONVERT_H_DEFINED\n#define CONVERT_H_DEFINED\n','#pragma once\n'),(CB,'#endif // CONVERT_H_DEFINED\n','')),
ok('C27',(CB,'''; // User override supplied
{{-   else }}
{
{{- template "convert_from"''','''; // overridden
{{-   else }} {
{{- template "convert_from"''')),
ok('C27',(IC,'#include "rtcg.h"    // Helper definitions (compile with ../rtcg/rtcg.cpp)\n#include "convert.h" // Channel type definitions and conversion functions\n','#include "convert.h"\n#include "rtcg.h"\n')),
ok('C18',(MK,'''{{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
''',''),(MK,'''{{ template "reg_inputs" $k }} {{- template "convert" $ }}
''','''{{ template "reg_inputs" $k }} {{- if $.HasConversion }} src/convert/convert.cpp{{ end }}
'''),(MK,'''{{- template "convert" $ -}}''','''{{- if $.HasConversion }} src/convert/convert.cpp{{ end -}}''')),
ok('C18',(MK,'CXXFLAGS = {{ block "cxxflags" . }}-std=c++11 -Wall -Wextra{{ end }}','CXXFLAGS = -std=c++11 -Wall -Wextra -O1')),
ok('C18',(MK,'-o $@ -Isrc/{{ $k }}/include -Isrc/rtcg -Isrc/convert {{ template "reg_inputs" $k }} {{- template "convert" $ -}}','-Isrc/{{ $k }}/include -Isrc/rtcg -Isrc/convert -o $@ $^')),
ok('C18',(MK,'.PHONY: all mkdir\n\nall:','INCLUDES = -Isrc/rtcg -Isrc/convert\n\n.PHONY: all mkdir\n\nall:'),(MK,'-Isrc/rtcg -Isrc/convert {{','$(INCLUDES) {{')),
ok('C18',(MK,'all: mkdir {{- range $k, $v := .Tests }} {{ template "output" $k }}{{- end }}','all: mkdir {{- range $k, $_ := .Tests }} bin/{{ $k }}{{- end }}')),
ok('C18',(CM,'''    ../convert/
    ../rtcg/
''','''    ../rtcg
    ../convert
''')),
ok('C18',(CM,'''add_library(rtcg
    ../rtcg/rtcg.cpp
)''','''add_library(rtcg ../rtcg/rtcg.cpp)''')),
ok('C18',(CM,'''{{- if .HasConversion }}

add_library(convert
    ../convert/convert.cpp
)
{{- end }}

add_library(rtcg
    ../rtcg/rtcg.cpp
)
''','''
add_library(rtcg
    ../rtcg/rtcg.cpp
)
{{- if .HasConversion }}

add_library(convert
    ../convert/convert.cpp
)
{{- end }}
''')),
ok('C30',(RM,'{{- define "subscriber_name" -}}{{ template "topic_name" . }}_sub{{- end -}}','{{- define "subscriber_name" -}}{{ toLowerUnderscored .Channel.Name }}_sub{{- end -}}')),
ok('C30',(RM,'''{{-   range $i, $t := .Transitions.In -}}
{{-     if ne $i 0 -}}, {{ end -}}
ros::Publisher {{ template "publisher_name" $t }}
{{-   end -}}''','''{{-   $first := true -}}
{{-   range $t := .Transitions.In -}}
{{-     if not $first -}}, {{ end -}}
ros::Publisher {{ template "publisher_name" $t }}
{{-     $first = false -}}
{{-   end -}}''')),
ok('C15',(AM,'{{ cppType $ctype.Base }} in;','{{ $ctype.Base | cppType }} in;')),
ok('C15',(SE,'{{-   with .In }}','{{-   $in := .In }}{{ with $in }}')),
ok('C15',(AM,'''{{-   $cn := .Channel.Name }}
{{-   $ctype := index $.ChannelTypes $cn }}
    else if (choice == "{{ $cn }}")''','''{{-   $ctype := index $.ChannelTypes .Channel.Name }}
    else if (choice == {{ printf "%q" .Channel.Name }})''')),
]
