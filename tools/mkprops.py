#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as the single place where property texts are edited."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
I=["inputs"]; C=["configurations"]; IC=["inputs","configurations"]
T='internal/trace/'; L='internal/testlang/'; S='internal/stm/'; G='internal/gen/'
p('C01','Reading a trace file keeps every trace, event, order and name',
 "Every non-comment row of a trace file becomes exactly one forbidden trace, in file order: its cells in order are the prefix events, its last cell is the forbidden event, and a 'name:' tag on the first cell (split at the first colon, trimmed) becomes the trace's name. No row or cell is skipped, merged, duplicated or altered. A row that cannot be read, or a cell that cannot be parsed, makes the whole read fail instead of yielding a partial list.",
 I,"All trace files: any number of rows, any number of cells per row, any cell text.",
 "One test reads a fixed file of a few rows; row counts, cell counts, name tags and malformed cells are unbounded.",
 [T+'read.go'],[('csv reader configuration','internal/trace/read.go:newReader'),('row loop and cell loop','internal/trace/read.go:Read, parseRow, selectEvent, tryParseName')],['result of trace.Read','stdout of rtcg-read-traces'])
p('C02','Naming traces loses none and never overwrites one',
 "Naming a list of traces yields a suite with exactly one entry per trace, each entry holding that trace unchanged. A trace keeps its own name when that name is still free; an unnamed or clashing trace gets a fresh name made of its base name ('test' if it has none) followed by a counter, 'test0, test1, ...' or 'foo, foo0, foo1, ...'. No entry is ever replaced by a later one.",
 I,"All lists of traces with any mixture of missing, distinct and clashing names.",
 "One table test with a handful of names; clashes between explicit and synthesised names need specific lists.",
 [T+'trace.go'],[('free-name search before insertion','internal/trace/trace.go:Name, insertName, synthesiseName')],['result of trace.Name','keys of the tests JSON'])
p('C03','Expansion builds exactly the test of a forbidden trace',
 "The test made from a forbidden trace is a single chain: a root without event or outcome, one inconclusive node per prefix event in trace order, then a passing node carrying the forbidden event, then a failing node with no event and no successor. Every node is tagged with exactly the name of the test. Expanding a suite keeps every entry under its own name.",
 I,"All forbidden traces of any prefix length, and all suites of them.",
 "Tests cover prefix lengths zero and one, and a fuzz test run only on its seeds.",
 [T+'expand.go',L+'node.go','internal/structure/map.go'],[('backwards chain construction','internal/trace/expand.go:Expand'),('node constructors','internal/testlang/node.go'),('map over suites','internal/structure/map.go:OverMap')],['result of trace.ExpandAll'])
p('C04','Collapsing a test undoes expansion and rejects branching tests',
 "Collapsing the test of a forbidden trace gives back its prefix events in order and its forbidden event. A tree whose root is invalid, or that reaches a node that has an unset or unknown outcome, breaks the node rules, or has other than one successor before the failing node, is rejected with an error. Collapsing a suite fails if any entry fails, and otherwise keeps every entry under its own name.",
 I,"All test trees, linear or not, of any depth; all suites.",
 "The round-trip fuzz test runs on four seeds; malformed trees are not tried at all.",
 [T+'collapse.go','internal/validate/validate.go','internal/structure/map.go'],[('chain walk with validation','internal/trace/collapse.go:Collapse, collapseNode'),('single successor check','internal/validate/validate.go:OneNext'),('map over suites','internal/structure/map.go:TryOverMapValues')],['result of trace.CollapseAll'])
p('C05','Only well-formed test suites get past validation',
 "A test is accepted exactly when it has a root, the root has no event, no outcome and at least one test tag, and every other node of the tree has at least one tag and is one of: failing with no event and no successors; passing with an event and exactly one successor; inconclusive with an event and at least one successor. Every node of every test of a suite is checked, and one bad node rejects the suite. State machines are only ever built from suites that were accepted.",
 I,"All test trees of any shape and size, and all suites read from JSON.",
 "Tests try a few root nodes and one valid tree; the rejection rules for inner nodes are never exercised.",
 ['internal/validate/validate.go','internal/validate/node.go','internal/validate/suite.go',L+'walk.go','cmd/rtcg-make-stms/main.go'],[('node rules','internal/validate/node.go'),('tree walk','internal/testlang/walk.go:Walk'),('gate','cmd/rtcg-make-stms/main.go:run')],['error of validate.Full / FullSuite','exit status of rtcg-make-stms'])
p('C06','State machines mirror the test tree exactly',
 "The machine built from an accepted test has one state per non-failing node, starting with the root's state 'initial', and nodes without an identifier get one that is not reused in that machine. For each non-failing successor of a node there is exactly one transition from that node's state, filed under the successor's channel (name and direction), carrying the successor's value and leading to the successor's state, in successor order within the channel. No other states or transitions exist.",
 I,"All accepted tests of any shape and size.",
 "The builder test runs one empty-prefix trace; branching, sharing of channels and deep trees are not covered.",
 [S+'builder.go',S+'state.go',S+'transition/set.go','internal/structure/stack.go'],[('worklist traversal','internal/stm/builder.go:Build, processNode, buildState, ensureNodeID'),('transition grouping','internal/stm/state.go:AddOutgoingNode; internal/stm/transition/set.go:AddToSets')],['states and transitions in the STM JSON'])
p('C07','States report the verdicts of the nodes that follow them',
 "Each state records, for every test tagged on a successor of its node (failing ones included), that successor's outcome, and nothing else. The machine's test set is exactly the tests tagged on nodes other than the root. Asking a verdict whether any test, or which tests, have an outcome answers exactly from those records.",
 I,"All accepted tests in which the successors of a node agree on a test's outcome; all verdicts.",
 "One test with a single test name; failing successors and multi-test nodes are not covered.",
 [S+'state.go',S+'builder.go',S+'verdict/verdict.go'],[('verdict recording','internal/stm/state.go:addVerdictsFromNode; internal/stm/verdict/verdict.go:Add'),('test set','internal/stm/builder.go:buildState'),('queries','internal/stm/verdict/verdict.go:Is, SetOf')],['verdicts and tests in the STM JSON'])
p('C08','Channel types are the least type covering all values seen',
 "Combining two types ignores an absent one, widens natural to integer to real, keeps equal non-numeric types, and is an error exactly when the kinds differ; the result does not depend on the order. A natural literal has natural type, a negative one integer, an absent value the empty type, anything else an enumeration. Every event of every test contributes to its channel's type, within a test and across the suite, and an inconsistent channel fails the build.",
 I,"All pairs of types, all events of all tests, all iteration orders.",
 "Type unification has no test; order-dependence would need several map iteration orders.",
 [L+'rstype/unify.go',L+'rstype/arithmos.go',L+'value/value.go',L+'value/int.go',L+'value/enum.go',S+'builder.go'],[('unification','internal/testlang/rstype/unify.go:Unify; arithmos.go:MaxDomain'),('value types','internal/testlang/value/*.go:Type'),('inference','internal/stm/builder.go:inferEventType, unifyTypes')],['types in the STM JSON'])
p('C09','Texts of events, channels, values, enums and types parse back',
 "Whatever event, channel, value, type, outcome, channel kind or generator variant the tools write as text is read back as an equal item: a name, a kind and, if the item has one, everything after the second dot as its value. Enumeration names are distinct, cover every constant and are matched regardless of case, and unknown names are errors. Text with too few fields, an unknown kind or no channel name is rejected.",
 I,"All events, channels, values, types and enumeration constants obtainable from the readers, and all input texts.",
 "Round trips are tested on about ten texts; names and values are unbounded.",
 [L+'event.go',L+'channel/channel.go',L+'channel/kind_enum.go',L+'outcome_enum.go',L+'rstype/rstype.go',L+'value/value.go',L+'value/int.go',L+'value/enum.go',G+'config/cpp/variant_enum.go'],[('separator split and join','internal/testlang/channel/channel.go:UnmarshalTextWithRemainder, MarshalText'),('enum tables','*_enum.go'),('type names','internal/testlang/rstype/rstype.go')],['event and channel strings in both JSON formats'])
p('C10','The intermediate JSON files lose nothing',
 "Writing a test suite or state machine suite to JSON and reading it back yields the same suite: every test, node, event, successor list, state, transition, verdict, type and test set survives, including events without a value. Every field has its own distinct key that the reader also uses, an omitted field reads back as what was omitted, and every custom writer has a matching custom reader. Anything that cannot be written or read is an error, not a silent omission.",
 I,"All suites the tools can build.",
 "No test writes or reads the JSON formats.",
 ['internal/serial/serial.go',L+'testlang.go',L+'node.go',S+'suite.go',S+'stm.go',S+'state.go',S+'transition/transition.go',S+'verdict/verdict.go','internal/structure/set.go',L+'value/value.go'],[('struct tags','internal/testlang/node.go, internal/stm/*.go'),('custom (un)marshallers','verdict.go, set.go, value.go, event.go, channel.go, rstype.go')],['tests JSON','STM JSON'])
p('C11','A tool that fails always says so and never reports success',
 "Every failing operation on any path of the three tools (argument, open, read, parse, validate, build, create, copy, template, write) ends in a message on standard error and a non-zero exit status. No error is dropped, overwritten by a later success or turned into an empty result. When nothing fails the exit status is zero.",
 ["inputs","fault_sequences"],"Every operation that can fail, on every path of every tool.",
 "The tests never run the tools and never make an operation fail.",
 ['cmd/rtcg-gen/main.go','cmd/rtcg-make-stms/main.go','cmd/rtcg-read-traces/main.go','internal/cli/cli.go',G+'gen.go',G+'cpp/copy.go',G+'catkin/catkin.go',G+'templating/templating.go'],[('error propagation','all packages'),('exit','internal/cli/cli.go:HandleError')],['exit status and stderr of the tools'])
p('C12','Cleaning removes only the requested output tree',
 "The generator deletes only when asked to clean, and then only the requested output directory. It refuses to clean the current directory, any directory that contains it, or one that contains the configuration, its input directory or the state machine file. It deletes only after all of its input files have been read and accepted, and before anything is generated.",
 IC,"All combinations of flags, output paths and input paths.",
 "No test runs the generator command.",
 ['cmd/rtcg-gen/main.go'],[('guarded removal','cmd/rtcg-gen/main.go:maybeClean'),('ordering','cmd/rtcg-gen/main.go:run, generate')],['file system'])
p('C13','Generation writes only inside the output directory',
 "Every file or directory the generator creates lies under the requested output directory, in the subdirectory of the variant being generated; test names that would lead elsewhere are rejected before anything is created. Input files are only ever opened for reading and are never overwritten. The other two tools create no files at all and write only to standard output and standard error.",
 IC,"All suites, test names, configurations and directory settings.",
 "No test generates files.",
 [G+'gen.go',G+'gencommon/dirset.go',G+'cpp/cpp.go',G+'cpp/copy.go',G+'catkin/catkin.go',G+'makefile/makefile.go',G+'templating/set.go',G+'templating/templating.go'],[('output paths derived from the output directory','internal/gen/gencommon/dirset.go'),('test name check','internal/gen/gen.go'),('input copy guard','internal/gen/cpp/copy.go')],['file system'])
p('C14','Every directory exists before a file is created in it',
 "Whenever the generator creates a file, the directory that holds it has already been created in the same run, for every variant, with or without type overrides, build files and tests. Each test gets its own source and include directory. All directories are made before any generator starts writing.",
 IC,"All configurations, suites and initial file system states (output directory absent or present).",
 "One test compares the directory list for an empty suite; file creation is never run.",
 [G+'gen.go',G+'cpp/cpp.go',G+'catkin/catkin.go',G+'makefile/makefile.go',G+'templating/templating.go'],[('directory list','internal/gen/cpp/cpp.go:Dirs'),('mkdirs before subgens','internal/gen/gen.go:Generate')],['file system','generator exit status'])
p('C15','Every template resolves and type-checks in every variant',
 "For each variant and each generated file, the top-level template, every template it includes and every function it calls exist in the template set that is loaded, variant templates take precedence over the base ones, and everything a template reads from its data exists there with a type the template can use. No template fails to load or refers to something missing, whichever branches the data selects.",
 C,"All variants, all templates, all branches of every template.",
 "No test executes a template; an error in a rarely taken branch shows up only when that branch is taken.",
 [G+'cpp/template.go',G+'cpp/func.go',G+'cpp/embed/templates',G+'catkin/template.go',G+'makefile/template.go',G+'templating/set.go',G+'templating/func.go'],[('template set construction','internal/gen/templating/set.go:buildFile'),('function map','internal/gen/cpp/func.go:Funcs')],['generator exit status'])
p('C16','The generated driver follows the state machine',
 "In the generated driver, an output with value v on channel c in state s enters exactly the state the machine gives for (s, c, v); any other value or state ends the test as off-script. An accepted input in a state that sends one enters its successor state, and in any other state ends the test as a bug. Entering a state records that state, reports its verdicts, and then fails the test if a verdict is a failure, or else sends the state's input and waits for its acknowledgement, or else waits for outputs.",
 ["programs","inputs"],"All state machines with at most one input per state and no mixture of inputs and outputs, both variants, with identifier-like names.",
 "No test generates a driver, let alone examines its behaviour.",
 [G+'cpp/embed/templates/base',G+'cpp/embed/templates/animate/main.cpp.tmpl',G+'cpp/embed/templates/ros/main.cpp.tmpl',G+'cpp/func.go'],[('callbacks','base/out_callback.cpp.tmpl, base/in_callback.cpp.tmpl'),('state entry','base/state_entry.cpp.tmpl, base/stm.cpp.tmpl')],['generated main.cpp'])
p('C17','The generated driver ends once and reports the right status',
 "A driver starts by entering the initial state, or waits to start if that state sends an input and enters it only on the start callback while still waiting. Ending takes effect only while running and only with a final status, otherwise it changes nothing or records a bug; the time-out ends a running test and is ignored after the end. The loop runs while the status is a running one, the verdicts are then reported, and the exit status is 1 for a failed test, 2 for a bug and 0 otherwise.",
 ["programs","histories"],"All generated drivers of both variants and all callback orders.",
 "No test generates or runs a driver; the prelude is C++ that the Go tests do not touch.",
 [G+'cpp/embed/prelude/rtcg.cpp',G+'cpp/embed/prelude/rtcg.h',G+'cpp/embed/templates/base/stm.cpp.tmpl',G+'cpp/embed/templates/base/entry.cpp.tmpl',G+'cpp/embed/templates/animate/main_body.cpp.tmpl',G+'cpp/embed/templates/ros/main.cpp.tmpl'],[('status tables','prelude/rtcg.cpp'),('end and callbacks','base/stm.cpp.tmpl')],['exit status of the generated driver'])
p('C18','Build files match the files that are generated',
 "The Makefile and CMake files refer only to source files and include directories that the generator produces for the same configuration, and include every source the driver needs, the conversion code exactly when there are type overrides. There is one Makefile target, reachable from 'all', and one package per test. Dependencies given by the user appear in both dependency lists of the CMake file.",
 IC,"All suites and configurations, with and without overrides.",
 "No test generates build files.",
 [G+'makefile/embed/templates/Makefile.tmpl',G+'catkin/embed/templates/CMakeLists.txt.tmpl',G+'makefile/makefile.go',G+'catkin/catkin.go',G+'cpp/cpp.go'],[('templates','Makefile.tmpl, CMakeLists.txt.tmpl')],['generated Makefile and CMakeLists.txt'])
p('C19','The same inputs always give the same output',
 "Running a tool twice on the same inputs gives byte-identical JSON and generated files, apart from the generation date printed in a comment. Nothing that depends on map iteration order, time, randomness, process or environment state reaches any other output.",
 ["inputs","histories"],"All inputs and all map iteration orders.",
 "Map iteration order varies between runs; a test that passes once says nothing about the next run.",
 [S+'stm.go',S+'verdict/verdict.go','internal/structure/set.go',G+'gencommon/context.go',G+'cpp/cpp.go'],[('sorted set and verdict listings','internal/structure/set.go:Values; internal/stm/verdict/verdict.go:Tests'),('sorted map output','encoding/json, text/template')],['JSON output, generated files'])
p('C20','Tests and variants do not influence each other',
 "What is built or generated for one test of a suite, or for one variant of a configuration, is the same whatever other tests or variants there are: identifiers start afresh, and no states, types, verdicts, package metadata or configuration leak from one to the next. Only the suite-wide channel types combine several tests.",
 IC,"All suites with any number of tests and all configurations with any number of variants, in any processing order.",
 "Tests build one test at a time with a fresh builder.",
 [S+'builder.go',G+'gen.go',G+'catkin/catkin.go',G+'cpp/cpp.go',G+'gencommon/context.go'],[('builder reset','internal/stm/builder.go:Build'),('package copy','internal/gen/catkin/catkin.go:generateTest'),('per-variant directories','internal/gen/gen.go:initCpp')],['STM JSON and generated files of multi-test suites'])
p('C21','Malformed input makes an error, never a crash',
 "No trace file, test JSON, state machine JSON, configuration or command line makes a tool crash: null tests, machines, states or missing parts in JSON, empty lists, empty cells and out-of-range outcomes are all reported as errors or handled. No nil pointer is followed, no index is out of range and no nil map is written on any path from an input.",
 I,"All syntactically valid and invalid input files and argument lists.",
 "Tests only feed valid data built in memory.",
 ['cmd','internal/trace','internal/testlang','internal/validate','internal/stm','internal/gen'],[('null checks','internal/validate/validate.go, internal/stm/suite.go'),('validation before building','cmd/rtcg-make-stms/main.go')],['exit status and stderr of the tools'])
p('C22','Every opened file is closed on every path',
 "Every file a tool opens or creates is closed exactly once on every path, including the paths on which reading, writing, copying or decoding fails, and never used after it is closed. A failure to close a file that was written is reported as an error, and does not hide an earlier error.",
 ["inputs","fault_sequences"],"All paths through all functions that open or create files.",
 "Tests never make reads, writes or closes fail.",
 ['internal/cli/cli.go','cmd',G+'cpp/copy.go',G+'catkin/catkin.go',G+'templating/templating.go',G+'config/config.go'],[('join of errors with close','errors.Join(err, file.Close()) at each site')],['open file descriptors, exit status'])
p('C23','Command lines are interpreted as documented',
 "Each tool takes its optional last argument as the input file and reads standard input when it is missing or '-'; otherwise it opens exactly that file. Too few or too many arguments give a usage message and a failure before any file is touched. The generator takes its configuration from its first argument and its output directory and cleaning flag from the flags, defaulting to 'out' and no cleaning.",
 I,"All argument lists.",
 "No test covers the command line code.",
 ['internal/cli/cli.go','cmd/rtcg-gen/main.go','cmd/rtcg-make-stms/main.go','cmd/rtcg-read-traces/main.go'],[('argument count table','internal/cli/cli.go:ParseFileArgument'),('flags','cmd/rtcg-gen/main.go:parseArgs')],['usage output, files opened'])
p('C24','Every configured generator runs, with its own configuration',
 "For each configured C++ variant, in order, the C++ generator runs, the Catkin generator runs exactly when Catkin is configured and the Makefile generator exactly when a Makefile is configured, each on the whole suite and in that variant's own directories. Each is given that variant's configuration, and the input directory is the configured one or else the directory of the configuration file. If one of them cannot be set up or fails, generation fails.",
 C,"All configurations with any number of variants.",
 "One test loads one configuration file; the generator assembly is not tested.",
 [G+'gen.go',G+'config/config.go',G+'cpp/cpp.go',G+'catkin/catkin.go',G+'makefile/makefile.go'],[('sub-generator assembly','internal/gen/gen.go:initCpp, initCppVariant, OnSuite, runSubgens'),('configuration load','internal/gen/config/config.go:Load')],['set of generated files'])
p('C25','Package metadata is completed and named per test',
 "A package file keeps every value the user gave, fills each missing value with its default, always has format 2, and has every '${NAME}' in its name, description, maintainer and licence replaced by the name of the test it belongs to. The file starts with the XML header and contains all metadata and dependencies. Expanding it for one test does not change what another test gets.",
 IC,"All package configurations and test names.",
 "Tests cover an empty and a minimal package.",
 [G+'config/catkin/package.go',G+'catkin/catkin.go'],[('defaults and expansion','internal/gen/config/catkin/package.go:Autofill, Expand, Write'),('copy per test','internal/gen/catkin/catkin.go:generateTest')],['generated package.xml'])
p('C26','Transition summaries for templates are complete and consistent',
 "The data handed to the templates lists every channel of the machine once, in order of first use, with each state's transitions on that channel complete and in order. Channels are split into inputs and all others, with the flag for having inputs, the flag for the first state having one, and the merged input table agreeing exactly with that split. Nothing in the machine itself is changed by computing it.",
 I,"All state machines of any size.",
 "One test adds a few sets to an aggregate; the context computation is untested.",
 [G+'gencommon/context.go',S+'stm.go',S+'transition/set.go',S+'state.go'],[('aggregation','internal/stm/stm.go:TransitionSets; internal/stm/transition/set.go:AddToAggregateSets'),('filters','internal/gen/gencommon/context.go')],['template context'])
p('C27','Type overrides and includes reach the generated code',
 "A channel whose type the configuration overrides uses that type in the conversion header and gets declared-only conversion functions for the user to supply; any other channel uses the type inferred for it and gets defined ones. The conversion file is copied exactly when some channel of the suite is overridden. Every configured include appears, as system or local include as configured, in the conversion header and in every driver.",
 IC,"All configurations and suites, all channel types, both variants.",
 "No test processes overrides or generates the header.",
 [G+'config/cpp/context.go',G+'config/cpp/cpp.go',G+'cpp/embed/templates/base/convert',G+'cpp/embed/templates/base/includes.cpp.tmpl',G+'cpp/cpp.go',G+'cpp/func.go'],[('override lookup','internal/gen/config/cpp/context.go:Process'),('header template','base/convert/convert_base.h.tmpl')],['generated convert.h and main.cpp'])
p('C28','Equality and prefix tests on events and traces are exact',
 "Two channels are equal exactly when their names and kinds are; two events when their channels and values are, an absent value equalling only an absent value. A trace is a prefix of another exactly when it is no longer and every event equals the one at the same position; traces are equal exactly when they have the same length and events. These tests never crash and do not depend on argument order where they are symmetric.",
 I,"All channels, events and traces of any length.",
 "Tests compare a few fixed traces.",
 [T+'trace.go',L+'event.go',L+'channel/channel.go',L+'value/value.go'],[('comparison methods','Equals, IsPrefixOf')],['results of the comparison functions'])
p('C29','Identifiers made from names keep every character',
 "Turning a channel or state name into an identifier upper-cases only its first character and adds fixed text around it; turning it into lower_underscored form keeps every character in order, lower-cased, adding underscores only before an upper-case letter that follows a lower-case one. The identifiers used for enumeration members, callbacks, entry functions, conversions and types depend on nothing but the name, so a declaration and its uses always agree.",
 I,"All names.",
 "Tests cover five names.",
 ['internal/strmanip/strmanip.go',G+'cpp/func.go'],[('string loops','internal/strmanip/strmanip.go'),('identifier functions','internal/gen/cpp/func.go')],['identifiers in generated code'])
p('C30','Names used in generated code are declared in it',
 "Every function, member, enumeration constant, type macro and conversion that the generated driver and conversion header use is declared exactly once, before its use, in the files that are compiled together, and every callback that is registered or called exists with matching parameters. This holds with and without inputs, outputs, overrides and start delay, in both variants.",
 ["programs","configurations"],"All state machines with identifier-like names, distinct after case folding, and all configurations of both variants.",
 "No test generates code, and none compiles it.",
 [G+'cpp/embed/templates',G+'cpp/embed/prelude',G+'cpp/func.go'],[('templates','internal/gen/cpp/embed/templates'),('prelude','internal/gen/cpp/embed/prelude')],['generated C++'])
p('C31','Generated C++ compiles for arbitrary names, values and overrides',
 "Whatever names and values the traces contain and whatever types and conversion code the user configures, the generated C++ compiles.",
 ["programs","configurations"],"All suites, all configurations, all user-supplied conversion code.",
 "No test compiles generated code.",
 [G+'cpp'],[('templates','internal/gen/cpp/embed/templates')],['C++ compiler output'])
p('C32','Generated ROS drivers keep their times',
 "A ROS driver whose first state sends an input enters it only once the start-up delay of 3 seconds has passed, and any other at once. It ends as timed out when 15 seconds have passed since it began to listen, never before, and not once it has ended.",
 ["inputs","schedules"],"All state machines and all orders of messages, acknowledgements and timers.",
 "No test generates or runs a ROS node.",
 [G+'cpp/embed/templates/ros/main.cpp.tmpl',G+'cpp/embed/templates/base/stm.cpp.tmpl'],[('timers','ros/main.cpp.tmpl'),('time-out and delay callbacks','base/stm.cpp.tmpl')],['running ROS node'])
p('C33','Every setting of a configuration file is read and used as documented',
 "The elements and attributes of the configuration format (variants, includes, channel types, Makefile, Catkin package metadata, directory) each set the setting they are named for, none is ignored, and repeated ones are all kept in order. Package files are written with the element and attribute names of the Catkin format, holding the same metadata.",
 C,"All configuration files and all package metadata.",
 "One test loads one configuration that leaves most settings out; two tests write small packages.",
 [G+'config/config.go',G+'config/cpp/cpp.go',G+'config/catkin/catkin.go',G+'config/catkin/package.go'],[('XML tags','internal/gen/config')],['behaviour of rtcg-gen on a configuration','generated package.xml'])
p('C34','Factorising finds exactly the failures after a trace',
 "The failures after a trace are exactly the forbidden events of the tests whose prefix equals that trace, each with its own test. The spines made from them end in the last event of the trace: one for each input that must not be accepted, and a last one, always present, that holds all other events.",
 I,"All sets of tests and all traces.",
 "The package has no tests.",
 ['internal/factorise/factorise.go'],[('failure collection','internal/factorise/factorise.go:Failures'),('spines','internal/factorise/factorise.go:SpineNodes')],['results of Failures and SpineNodes'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
