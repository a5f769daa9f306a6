From cb2278209e19a4f405d8dae2e83320a4e41bcde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 01/13] fix: let events without a value through the state
 machine JSON

Writing a state machine containing a transition for an event with no value failed, as such values
have no text form; they are now written as null, which already reads back as an empty value.
---
 internal/testlang/value/value.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/testlang/value/value.go b/internal/testlang/value/value.go
index 1bbb997..1095740 100644
--- a/internal/testlang/value/value.go
+++ b/internal/testlang/value/value.go
@@ -4,6 +4,7 @@ package value
 import (
 	"bytes"
 	"encoding"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"reflect"
@@ -66,6 +67,27 @@ func (v *Value) MarshalText() ([]byte, error) {
 	return output, nil
 }
 
+// MarshalJSON marshals a Value as a JSON string containing its text form, or null if it is empty.
+//
+// This lets structures containing optional values survive a round trip through JSON.
+func (v *Value) MarshalJSON() ([]byte, error) {
+	if v.IsEmpty() {
+		return []byte("null"), nil
+	}
+
+	text, err := v.MarshalText()
+	if err != nil {
+		return nil, err
+	}
+
+	output, err := json.Marshal(string(text))
+	if err != nil {
+		return nil, fmt.Errorf("couldn't marshal text of value: %w", err)
+	}
+
+	return output, nil
+}
+
 func (v *Value) String() string {
 	if v.IsEmpty() {
 		return "(empty value)"
-- 
2.43.0


From 34fbe6fe92e970a9c56511aa59d250f7f03bf3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/13] fix: make the parent directory of each templated file

convert.h is always generated, but the convert directory is only made when there is a type override;
without one, generation failed.
---
 internal/gen/templating/templating.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/gen/templating/templating.go b/internal/gen/templating/templating.go
index 8446dbf..7563ab5 100644
--- a/internal/gen/templating/templating.go
+++ b/internal/gen/templating/templating.go
@@ -5,11 +5,19 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 	"text/template"
 )
 
-// CreateFile creates path, executes tmpl with dot ctx, and handles closing.
+// parentDirPerms is the permission mask used if the parent directory of a file needs to be made.
+const parentDirPerms = 0o754
+
+// CreateFile creates path (and, if necessary, its parent directory), executes tmpl with dot ctx, and handles closing.
 func CreateFile(path, tmplName string, tmpl *template.Template, ctx any) error {
+	if err := os.MkdirAll(filepath.Dir(path), parentDirPerms); err != nil {
+		return fmt.Errorf("couldn't make directory for output file: %w", err)
+	}
+
 	file, err := os.Create(path)
 	if err != nil {
 		return fmt.Errorf("couldn't create output file: %w", err)
-- 
2.43.0


From 855c143cc1b41e9c73ac9a49243e454209b8d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 03/13] fix: always put the convert directory on the Makefile
 include path

main.cpp always includes convert.h, whether or not there are type overrides.
---
 internal/gen/makefile/embed/templates/Makefile.tmpl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..b37b412 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,5 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
@@ -15,5 +14,5 @@ mkdir:
 	mkdir -p bin
 {{ range $k, $v := .Tests }}
 {{ template "output" $k }}: {{ template "reg_inputs" $k }} {{- template "convert" $ }}
-	$(CXX) $(CXXFLAGS) -o $@ -Isrc/{{ $k }}/include -Isrc/rtcg {{- template "iconvert" $ }} {{ template "reg_inputs" $k }} {{- template "convert" $ -}}
+	$(CXX) $(CXXFLAGS) -o $@ -Isrc/{{ $k }}/include -Isrc/rtcg -Isrc/convert {{ template "reg_inputs" $k }} {{- template "convert" $ -}}
 {{- end }}
-- 
2.43.0


From 747c5e5671f8d9da461673da026926678fa76cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 04/13] fix: list the values of sets in a stable order

The order of the tests in state machine JSON and generated code varied from run to run.
---
 internal/structure/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/structure/set.go b/internal/structure/set.go
index 32d192f..1ed7302 100644
--- a/internal/structure/set.go
+++ b/internal/structure/set.go
@@ -3,6 +3,7 @@ package structure
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -26,7 +27,7 @@ func (s *Set[T]) Add(values ...T) {
 	}
 }
 
-// Values gets an unsorted slice of values present in s.
+// Values gets a slice of values present in s, sorted by their string representation.
 func (s *Set[T]) Values() []T {
 	values := make([]T, 0, len(s.contents))
 
@@ -36,6 +37,10 @@ func (s *Set[T]) Values() []T {
 		}
 	}
 
+	sort.Slice(values, func(i, j int) bool {
+		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])
+	})
+
 	return values
 }
 
-- 
2.43.0


From c8db71488b5e6b7cddadaa225312d04c771f4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 05/13] fix: reject null tests instead of crashing on them

---
 internal/validate/errors.go   | 3 +++
 internal/validate/validate.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..ab0eb78 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test has no root node.
+	ErrNoRoot = errors.New("test should have a root node")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/validate.go b/internal/validate/validate.go
index 9d26ad1..9347c7a 100644
--- a/internal/validate/validate.go
+++ b/internal/validate/validate.go
@@ -20,6 +20,10 @@ func (t Test) Root() *testlang.Node {
 // Full performs a full validation of the test starting at root.
 // If successful, it returns a Test.
 func Full(root *testlang.Node) (*Test, error) {
+	if root == nil {
+		return nil, ErrNoRoot
+	}
+
 	// TODO: check test monotonicity and partitioning
 	err := testlang.Walk(root, func(node *testlang.Node) error {
 		var err error
-- 
2.43.0


From 49dc97f757e28ddba74b06275d6dac5107f0b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 06/13] fix: reject null state machines and states instead of
 crashing on them

---
 internal/stm/suite.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 4504d22..64d8da7 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -21,9 +22,38 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	if err := suite.checkNulls(); err != nil {
+		return nil, err
+	}
+
 	return &suite, nil
 }
 
+// checkNulls checks that there are no null state machines or states in s.
+func (s *Suite) checkNulls() error {
+	for name, machine := range s.Tests {
+		if machine == nil {
+			return fmt.Errorf("%w: %s", ErrNullStm, name)
+		}
+
+		for _, state := range machine.States {
+			if state == nil {
+				return fmt.Errorf("%w: %s", ErrNullState, name)
+			}
+		}
+	}
+
+	return nil
+}
+
+var (
+	// ErrNullStm occurs when a suite being read contains a null state machine.
+	ErrNullStm = errors.New("state machine is null")
+
+	// ErrNullState occurs when a suite being read has a state machine containing a null state.
+	ErrNullState = errors.New("state machine contains a null state")
+)
+
 // Write pretty-prints a state machine suite, as JSON, into writer w.
 func (s *Suite) Write(w io.Writer) error {
 	if err := serial.WriteJSON(w, s); err != nil {
-- 
2.43.0


From b268917757edf90ccd4f7f0a900293b6217e6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 07/13] fix: reject events whose channel has no name

Such events were accepted, but were written back without their direction and couldn't be read again.
---
 internal/testlang/channel/channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index f14d49e..83970c9 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -5,6 +5,7 @@ package channel
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -115,6 +116,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	}
 
 	c.Name = string(bytes.TrimSpace(fields[0]))
+	if c.IsEmpty() {
+		return nil, ErrNoName
+	}
 
 	kindBytes := bytes.TrimSpace(fields[1])
 	if err := c.Kind.UnmarshalText(kindBytes); err != nil {
@@ -128,6 +132,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	return fields[numEventParts-1], nil
 }
 
+// ErrNoName is the error when the name of a channel in the text of an Event or Channel is empty.
+var ErrNoName = errors.New("channel needs a name")
+
 // BadFieldCountError is the error when the number of '.' delimited fields in an Event or Channel is not valid.
 type BadFieldCountError struct {
 	Got int // Got is the number of fields we got.
-- 
2.43.0


From 83f42a264eec606d5d79833e737ace6bdb532a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 08/13] fix: don't let -clean remove the inputs or current
 directory

-clean accepted any directory other than a literal '.', including parents of the current directory and
directories holding the configuration, and removed it before checking that the configuration was usable.
---
 cmd/rtcg-gen/main.go | 52 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..6f664b0 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -74,20 +74,23 @@ func (a *genAction) run() error {
 		return fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
-	if err := a.maybeClean(); err != nil {
-		return err
-	}
-
 	return a.generate(stms)
 }
 
-func (a *genAction) maybeClean() error {
+// maybeClean cleans the output directory, if requested, so long as that doesn't remove any of inputs.
+func (a *genAction) maybeClean(inputs ...string) error {
 	if !a.clean {
 		return nil
 	}
 
-	if a.outputDir == "." {
-		return ErrCleanDot
+	if contains, err := dirContains(a.outputDir, "."); contains || err != nil {
+		return errors.Join(err, ErrCleanDot)
+	}
+
+	for _, input := range inputs {
+		if contains, err := dirContains(a.outputDir, input); contains || err != nil {
+			return errors.Join(err, fmt.Errorf("%w: %q", ErrCleanInput, input))
+		}
 	}
 
 	if err := os.RemoveAll(a.outputDir); err != nil {
@@ -97,10 +100,32 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
-// ErrCleanDot occurs if we try to clean "." (current directory).
-//
-// We don't support this because it would then change or confuse the current working directory.
-var ErrCleanDot = errors.New("can't clean current directory")
+// dirContains checks whether path is dir, or is somewhere inside dir.
+func dirContains(dir, path string) (bool, error) {
+	absDir, err := filepath.Abs(dir)
+	if err != nil {
+		return false, fmt.Errorf("couldn't resolve %q: %w", dir, err)
+	}
+
+	absPath, err := filepath.Abs(path)
+	if err != nil {
+		return false, fmt.Errorf("couldn't resolve %q: %w", path, err)
+	}
+
+	rel, err := filepath.Rel(absDir, absPath)
+
+	return err == nil && filepath.IsLocal(rel), nil
+}
+
+var (
+	// ErrCleanDot occurs if we try to clean "." (current directory), or a directory containing it.
+	//
+	// We don't support this because it would then change or confuse the current working directory.
+	ErrCleanDot = errors.New("can't clean current directory")
+
+	// ErrCleanInput occurs if we try to clean a directory containing one of the inputs of the generator.
+	ErrCleanInput = errors.New("can't clean directory containing generator input")
+)
 
 func (a *genAction) readSuite() (*stm.Suite, error) {
 	file, err := cli.OpenFileOrStdin(a.inputFile)
@@ -124,6 +149,11 @@ func (a *genAction) generate(suite *stm.Suite) error {
 		return fmt.Errorf("couldn't create generator: %w", err)
 	}
 
+	// Don't throw away the previous output until we know that we can replace it.
+	if err := a.maybeClean(a.configFile, a.inputFile, cfg.Directory); err != nil {
+		return err
+	}
+
 	if err := g.OnSuite(suite).Generate(); err != nil {
 		return fmt.Errorf("couldn't generate: %w", err)
 	}
-- 
2.43.0


From e8d99be9d5f4459903b9cab5a2a1e1062f58e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 09/13] fix: don't truncate convert.cpp when generating into
 the input directory

---
 internal/gen/cpp/copy.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index a042401..baaf6ab 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -55,9 +55,43 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 		return fmt.Errorf("couldn't open file %q: %w", srcPath, err)
 	}
 
+	same, err := isSameFile(src, dstPath)
+	if err != nil {
+		return errors.Join(err, src.Close())
+	}
+
+	if same {
+		// We're generating into the input directory, so the file is already there.
+		// Copying it would truncate it before we could read it.
+		if err := src.Close(); err != nil {
+			return fmt.Errorf("couldn't close file %q: %w", srcPath, err)
+		}
+
+		return nil
+	}
+
 	return writeFile(src, dstPath)
 }
 
+// isSameFile checks whether there is already a file at path, and it is the same file as file.
+func isSameFile(file *os.File, path string) (bool, error) {
+	other, err := os.Stat(path)
+	if errors.Is(err, fs.ErrNotExist) {
+		return false, nil
+	}
+
+	if err != nil {
+		return false, fmt.Errorf("couldn't inspect file %q: %w", path, err)
+	}
+
+	info, err := file.Stat()
+	if err != nil {
+		return false, fmt.Errorf("couldn't inspect file %q: %w", file.Name(), err)
+	}
+
+	return os.SameFile(info, other), nil
+}
+
 func writeFile(src io.ReadCloser, outFile string) error {
 	dst, err := os.Create(outFile)
 	if err != nil {
-- 
2.43.0


From 3beb3290fd1e7b0479cac63472f915380027c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 10/13] fix: don't let test names take generated code outside
 the output directory

---
 internal/gen/gen.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..82220a6 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -2,8 +2,10 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
@@ -123,15 +125,20 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
 func (o *OnSuite) Generate() error {
+	if err := o.checkNames(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
@@ -143,6 +150,20 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// checkNames checks that every test name can be used as the name of a directory inside the output directory.
+func (o *OnSuite) checkNames() error {
+	for name := range o.suite.Tests {
+		if !filepath.IsLocal(name) {
+			return fmt.Errorf("%w: %q", ErrBadTestName, name)
+		}
+	}
+
+	return nil
+}
+
+// ErrBadTestName occurs if the name of a test would put its code outside of the output directory.
+var ErrBadTestName = errors.New("test name can't be used as a directory name")
+
 // mkdirs makes the various directories used by the generator.
 func (o *OnSuite) mkdirs() error {
 	for _, subg := range o.subgens {
-- 
2.43.0


From 786850cfc0ec3a1e9bdef46bc1785e9a4a0f48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 11/13] fix: escape enum values in generated C++ string
 literals

---
 .../cpp/embed/templates/base/out_callback.cpp.tmpl    |  2 +-
 .../gen/cpp/embed/templates/base/state_entry.cpp.tmpl |  4 ++--
 internal/gen/cpp/func.go                              | 11 ++++++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 491ed23..23c225a 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -15,7 +15,7 @@ Base indent is set at 2, as we are inside a top-level function.
     {{ if ne $i 0 }}else {{ end }}if (
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
-    value.compare("{{ $t.Value.StringValue }}") == 0
+    value.compare({{ cppValue $t.Value }}) == 0
 {{-     else -}}
     value == {{ $t.Value.StringValue }}
 {{-     end -}}
diff --git a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
index 69683d9..8e80ca5 100644
--- a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
@@ -22,7 +22,7 @@ Base indent is set at 2, as we are inside a top-level function.
 
 {{-   with .In }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' sends {{ .Value.StringValue }} to SUT on {{ .Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' sends {{ cppEscape .Value.StringValue }} to SUT on {{ .Channel.Name }}; " <<
     "if accepted, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{      template "input" . -}}
 {{-   end }}
@@ -35,7 +35,7 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-  range $outSet := .TransitionSets }}
 {{-    range index .Transitions }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' can receive {{ .Value.StringValue }} from SUT on {{ $outSet.Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' can receive {{ cppEscape .Value.StringValue }} from SUT on {{ $outSet.Channel.Name }}; " <<
     "if received, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{-    end }}
 {{-  end }}
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index 80a58a6..396c5e3 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -2,6 +2,7 @@ package cpp
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -20,6 +21,7 @@ func Funcs() template.FuncMap {
 		"cppConvertFrom":      ConvertFrom,
 		"cppConvertTo":        ConvertTo,
 		"cppEnumField":        EnumField,
+		"cppEscape":           Escape,
 		"cppOutcomeEnum":      OutcomeEnum,
 		"cppStateEntry":       StateEntry,
 		"cppStateEnum":        StateEnum,
@@ -107,12 +109,19 @@ func Value(val value.Value) string {
 	typ := val.Type()
 
 	if typ.IsEnum() {
-		return fmt.Sprintf("\"%s\"", val.StringValue())
+		return fmt.Sprintf("\"%s\"", Escape(val.StringValue()))
 	}
 
 	return val.StringValue()
 }
 
+// Escape escapes text such that it can appear inside a C++ string literal.
+func Escape(text string) string {
+	quoted := strconv.Quote(text)
+
+	return quoted[1 : len(quoted)-1]
+}
+
 func rtcgEnumName(name string, variant any) string {
 	return "rtcg::" + localEnumName(name, variant)
 }
-- 
2.43.0


From 41634403eadb3498d39eb5c076316c38db835351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 12/13] fix: only build convert.cpp with CMake when there is
 one

CMakeLists.txt always referred to convert.cpp, but it is only present if there are type overrides.
---
 internal/gen/catkin/catkin.go                 | 22 +++++++++++++++----
 .../embed/templates/CMakeLists.txt.tmpl       | 10 ++++++++-
 internal/gen/gen.go                           |  2 +-
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/gen/catkin/catkin.go b/internal/gen/catkin/catkin.go
index 56098b3..7a152bf 100644
--- a/internal/gen/catkin/catkin.go
+++ b/internal/gen/catkin/catkin.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
+	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/subgen"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/templating"
@@ -17,19 +18,24 @@ import (
 // Generator is a Catkin auxiliary file generator.
 type Generator struct {
 	config    cfg.Config       // config is the user-supplied configuration.
+	cpp       cpp.Config       // cpp is the C++ configuration of the code being packaged.
 	srcDirSet gencommon.DirSet // srcBaseDir is the source directory set for this Catkin workspace.
 
 	cmakeGen *templating.Generator // cmakeGen is the generator for CMakeLists.txt.
 }
 
-// New creates a new Catkin generator with the given configuration.
-func New(config *cfg.Config, dirs gencommon.DirSet) (*Generator, error) {
+// New creates a new Catkin generator for code generated using the given C++ configuration.
+func New(cppConfig *cpp.Config, dirs gencommon.DirSet) (*Generator, error) {
 	tg, err := NewTemplatedGenerator()
 	if err != nil {
 		return nil, err
 	}
 
-	gen := Generator{config: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
+	gen := Generator{cpp: *cppConfig, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
+
+	if cppConfig.Catkin != nil {
+		gen.config = *cppConfig.Catkin
+	}
 
 	if gen.config.Package == nil {
 		var pkg cfg.Package
@@ -49,6 +55,7 @@ func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 	return &OnSuite{
 		parent: g,
 		suite:  suite,
+		cctx:   g.cpp.Process(suite.Types),
 	}
 }
 
@@ -56,6 +63,13 @@ func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 type OnSuite struct {
 	parent *Generator
 	suite  *stm.Suite
+	cctx   cpp.Context
+}
+
+// Context is the context passed into the CMake code generator.
+type Context struct {
+	cfg.Package
+	cpp.Context
 }
 
 func (o *OnSuite) Parent() subgen.Subgenerator {
@@ -88,7 +102,7 @@ func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string) error {
 		return err
 	}
 
-	if err := o.parent.cmakeGen.Generate(dirs.Output, pkg); err != nil {
+	if err := o.parent.cmakeGen.Generate(dirs.Output, Context{Package: pkg, Context: o.cctx}); err != nil {
 		return fmt.Errorf("generating cmake: %w", err)
 	}
 
diff --git a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
index 49f8b2f..6d82c11 100644
--- a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
+++ b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
@@ -1,7 +1,7 @@
 {{- /*
 CMakeLists.txt.tmpl is the template for generating top-level CMakeLists for each package.
 
-It takes the package.xml as dot.
+It takes the context, which extends the package.xml, as dot.
 */ -}}
 cmake_minimum_required(VERSION 3.0.2)
 project({{ .Name }})
@@ -30,10 +30,12 @@ include_directories(
     ../convert/
     ../rtcg/
 )
+{{- if .HasConversion }}
 
 add_library(convert
     ../convert/convert.cpp
 )
+{{- end }}
 
 add_library(rtcg
     ../rtcg/rtcg.cpp
@@ -41,7 +43,9 @@ add_library(rtcg
 
 add_executable(${PROJECT_NAME}_node
     src/main.cpp
+{{- if .HasConversion }}
     ../convert/convert.cpp
+{{- end }}
     ../rtcg/rtcg.cpp
 )
 
@@ -50,12 +54,16 @@ set_target_properties(${PROJECT_NAME}_node PROPERTIES OUTPUT_NAME node PREFIX ""
 add_dependencies(${PROJECT_NAME}_node
     ${${PROJECT_NAME}_EXPORTED_TARGETS}
     ${catkin_EXPORTED_TARGETS}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
 
 target_link_libraries(${PROJECT_NAME}_node
     ${catkin_LIBRARIES}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
\ No newline at end of file
diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 82220a6..69895c7 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -81,7 +81,7 @@ func initCppCatkin(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgener
 		return nil, nil
 	}
 
-	gen, err := catkin.New(config.Catkin, dirs)
+	gen, err := catkin.New(config, dirs)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't init Catkin generator: %w", err)
 	}
-- 
2.43.0


From 4dcec9d1b8223b6bab26b9fe7962e5c24ee6b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 13/13] fix: open exactly the state machine file that was named

Cleaning the path turned './-' into '-', which stands for standard input.
---
 cmd/rtcg-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6f664b0..b60842e 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -67,7 +67,6 @@ type genAction struct {
 func (a *genAction) run() error {
 	a.outputDir = filepath.Clean(a.outputDir)
 	a.configFile = filepath.Clean(a.configFile)
-	a.inputFile = filepath.Clean(a.inputFile)
 
 	stms, err := a.readSuite()
 	if err != nil {
-- 
2.43.0

