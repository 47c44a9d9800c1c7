From 6f58874860b7bf0ec6965273f63aa358f120a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 01/21] fix: make the conversion directory even if no channel
 is overridden

convert.h is always generated, but its directory was only created when
the configuration overrode a channel used by the suite, so any other
configuration made rtcg-gen fail.
---
 internal/gen/cpp/cpp.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 200c788..5586f9a 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,6 +3,7 @@ package cpp
 
 import (
 	"fmt"
+	"os"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -10,6 +11,9 @@ import (
 	"github.com/UoY-RoboStar/rtcg/internal/stm"
 )
 
+// convertDirPerms is the permission mask of the conversion code directory.
+const convertDirPerms = 0o754
+
 // Generator is a C++ code generator.
 type Generator struct {
 	config    cfg.Config       // config is the configuration for this Generator.
@@ -95,6 +99,12 @@ func (o *OnSuite) Generate() error {
 }
 
 func (o *OnSuite) generateCommon() error {
+	// We generate the conversion header even if there are no overrides, so its directory must always exist.
+	convertOut := o.parent.srcDirSet.OutputPath(convertDir)
+	if err := os.MkdirAll(convertOut, convertDirPerms); err != nil {
+		return fmt.Errorf("couldn't make conversion directory at %q: %w", convertOut, err)
+	}
+
 	if err := o.copyConvertFile(); err != nil {
 		return err
 	}
-- 
2.43.0


From 3097fbfd6ba586fd10a9e5c71f24201409f806b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 02/21] fix: let generated Makefiles find convert.h if no
 channel is overridden

Every generated test includes convert.h, overrides or not.
---
 internal/gen/makefile/embed/templates/Makefile.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..3d26c5c 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,6 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
+{{- define "iconvert" }} -Isrc/convert{{- end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
-- 
2.43.0


From 4ad3c016cbab2455eb1d228a74f6c70d2355991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 03/21] fix: let generated CMakeLists work if no channel is
 overridden

They named convert.cpp, which only exists if there is an override.
---
 .../catkin/embed/templates/CMakeLists.txt.tmpl  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
index 49f8b2f..a73addc 100644
--- a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
+++ b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
@@ -31,9 +31,14 @@ include_directories(
     ../rtcg/
 )
 
-add_library(convert
-    ../convert/convert.cpp
-)
+# There is only a convert.cpp if the configuration overrides a channel.
+set(CONVERT_SOURCES)
+set(CONVERT_LIBRARY)
+if(EXISTS "${CMAKE_CURRENT_SOURCE_DIR}/../convert/convert.cpp")
+    set(CONVERT_SOURCES ../convert/convert.cpp)
+    set(CONVERT_LIBRARY convert)
+    add_library(convert ${CONVERT_SOURCES})
+endif()
 
 add_library(rtcg
     ../rtcg/rtcg.cpp
@@ -41,7 +46,7 @@ add_library(rtcg
 
 add_executable(${PROJECT_NAME}_node
     src/main.cpp
-    ../convert/convert.cpp
+    ${CONVERT_SOURCES}
     ../rtcg/rtcg.cpp
 )
 
@@ -50,12 +55,12 @@ set_target_properties(${PROJECT_NAME}_node PROPERTIES OUTPUT_NAME node PREFIX ""
 add_dependencies(${PROJECT_NAME}_node
     ${${PROJECT_NAME}_EXPORTED_TARGETS}
     ${catkin_EXPORTED_TARGETS}
-    convert
+    ${CONVERT_LIBRARY}
     rtcg
 )
 
 target_link_libraries(${PROJECT_NAME}_node
     ${catkin_LIBRARIES}
-    convert
+    ${CONVERT_LIBRARY}
     rtcg
 )
\ No newline at end of file
-- 
2.43.0


From 13d6e68246b0fbbdf26d03288aed22ca037b6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 04/21] fix: write state machines whose events carry no value

Values are optional in events, but the absent value of a transition
could not be marshalled, so rtcg-make-stms rejected such tests.
---
 internal/stm/transition/transition.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/stm/transition/transition.go b/internal/stm/transition/transition.go
index 1892077..0d70628 100644
--- a/internal/stm/transition/transition.go
+++ b/internal/stm/transition/transition.go
@@ -2,6 +2,7 @@
 package transition
 
 import (
+	"encoding/json"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
@@ -16,6 +17,25 @@ type Transition struct {
 	// TODO: record which test this transition is from
 }
 
+// MarshalJSON marshals a Transition, omitting its value if there isn't one.
+func (t Transition) MarshalJSON() ([]byte, error) {
+	fields := struct {
+		Value *value.Value    `json:"value,omitempty"`
+		Next  testlang.NodeID `json:"next,omitempty"`
+	}{Value: nil, Next: t.Next}
+
+	if t.Value.IsPresent() {
+		fields.Value = &t.Value
+	}
+
+	bs, err := json.Marshal(fields)
+	if err != nil {
+		return nil, fmt.Errorf("couldn't marshal transition: %w", err)
+	}
+
+	return bs, nil
+}
+
 func (t Transition) String() string {
 	return fmt.Sprintf("-[%s]-> %s", &t.Value, t.Next)
 }
-- 
2.43.0


From 5dca10910ae86672ccc3e41d5b8729f80597f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 05/21] fix: generate C++ that compiles for channels that carry
 no value

---
 .../cpp/embed/templates/animate/convert/convert.h.tmpl | 10 ++++++++++
 .../gen/cpp/embed/templates/animate/main_body.cpp.tmpl |  4 ++++
 .../gen/cpp/embed/templates/base/out_callback.cpp.tmpl |  2 ++
 .../gen/cpp/embed/templates/ros/convert/convert.h.tmpl | 10 ++++++++++
 internal/gen/cpp/embed/templates/ros/main.cpp.tmpl     |  1 +
 internal/gen/cpp/func.go                               |  5 +++++
 6 files changed, 32 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/animate/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/animate/convert/convert.h.tmpl
index 598c5d9..25ef52c 100644
--- a/internal/gen/cpp/embed/templates/animate/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/convert/convert.h.tmpl
@@ -6,7 +6,12 @@ Receives the value type as dot.
 
 Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- define "convert_from" }}
+{{-   if .IsEmpty }}
+  (void) msg;
+  return nullptr;  // This channel doesn't carry values
+{{-   else }}
   return msg;  // No conversion required for animate
+{{-   end }}
 {{- end -}}
 
 {{- /* Performs conversion from a value type to a channel type.
@@ -15,7 +20,12 @@ Receives the value type as dot.
 
 Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- define "convert_to" }}
+{{-   if .IsEmpty }}
+    (void) value;
+    return nullptr;  // This channel doesn't carry values
+{{-   else }}
     return value;  // No conversion required for animate
+{{-   end }}
 {{- end -}}
 
 {{- /* Calculates the C++ equivalent of a RoboStar type. */ -}}
diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 8619c66..d84621e 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -43,8 +43,12 @@
 {{-   $ctype := index $.ChannelTypes $cn }}
     else if (choice == "{{ $cn }}")
     {
+{{- if $ctype.Base.IsEmpty }}
+      {{ cppType $ctype.Base }} in = nullptr; // This channel doesn't carry values
+{{- else }}
       {{ cppType $ctype.Base }} in;
       std::cin >> in;
+{{- end }}
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
     }
diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 491ed23..31a3bc8 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -16,6 +16,8 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
     value.compare("{{ $t.Value.StringValue }}") == 0
+{{-     else if $ty.IsEmpty -}}
+    true
 {{-     else -}}
     value == {{ $t.Value.StringValue }}
 {{-     end -}}
diff --git a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
index 23605db..25fefa9 100644
--- a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
@@ -8,6 +8,9 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- define "convert_from" -}}
 {{-   if .IsEnum }}
   return std::string(msg->data.c_str());
+{{-   else if .IsEmpty }}
+  (void) msg;
+  return nullptr;  // This channel doesn't carry values
 {{-   else }}
   return msg->data;  // No conversion required
 {{-   end -}}
@@ -23,6 +26,9 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
   std_msgs::String msg;
   msg.data = value.c_str();
   return msg;
+{{-   else if .IsEmpty }}
+  (void) value;
+  return std_msgs::Empty();  // This channel doesn't carry values
 {{-   else }}
   return value;  // No conversion required
 {{-   end -}}
@@ -31,8 +37,12 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- /* Calculates the ROS equivalent of a RoboStar type. */ -}}
 {{- define "type" -}}
 {{- /* TODO: add more types here */ -}}
+{{- if .IsEmpty -}}
+  std_msgs::Empty
+{{- else -}}
   std_msgs::String
 {{- end -}}
+{{- end -}}
 
 {{- /* Calculates the message type of a channel. */ -}}
 {{- define "msg_type" -}}{{ cppChannelValueType . }}::ConstPtr&{{- end -}}
diff --git a/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl b/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
index 9ac72e7..30777a3 100644
--- a/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
@@ -8,6 +8,7 @@ ROS primitives and concepts, then delegates to that template.
 {{- define "system_includes" }}
 #include "ros/ros.h"
 #include "std_msgs/Bool.h"
+#include "std_msgs/Empty.h"
 #include "std_msgs/String.h"
 {{- end -}}
 
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index 80a58a6..b9750a3 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -110,6 +110,11 @@ func Value(val value.Value) string {
 		return fmt.Sprintf("\"%s\"", val.StringValue())
 	}
 
+	if typ.IsEmpty() {
+		// There is no value, but conversion functions still take a (void) pointer.
+		return "nullptr"
+	}
+
 	return val.StringValue()
 }
 
-- 
2.43.0


From 9fb725ac414c8a626a245c03af83e277d53756a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 06/21] fix: generate ROS conversions that compile for numeric
 channels

---
 .../gen/cpp/embed/templates/ros/convert/convert.h.tmpl | 10 +++++++++-
 internal/gen/cpp/embed/templates/ros/main.cpp.tmpl     |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
index 25fefa9..0df858a 100644
--- a/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl
@@ -30,7 +30,9 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
   (void) value;
   return std_msgs::Empty();  // This channel doesn't carry values
 {{-   else }}
-  return value;  // No conversion required
+  {{ template "type" . }} msg;
+  msg.data = value;
+  return msg;
 {{-   end -}}
 {{- end -}}
 
@@ -39,6 +41,12 @@ Indent is set at 2 spaces, as this is the body of a root function. */ -}}
 {{- /* TODO: add more types here */ -}}
 {{- if .IsEmpty -}}
   std_msgs::Empty
+{{- else if .IsNat -}}
+  std_msgs::UInt32
+{{- else if .IsInt -}}
+  std_msgs::Int32
+{{- else if .IsReal -}}
+  std_msgs::Float64
 {{- else -}}
   std_msgs::String
 {{- end -}}
diff --git a/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl b/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
index 30777a3..ce7a65e 100644
--- a/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/ros/main.cpp.tmpl
@@ -9,7 +9,10 @@ ROS primitives and concepts, then delegates to that template.
 #include "ros/ros.h"
 #include "std_msgs/Bool.h"
 #include "std_msgs/Empty.h"
+#include "std_msgs/Float64.h"
+#include "std_msgs/Int32.h"
 #include "std_msgs/String.h"
+#include "std_msgs/UInt32.h"
 {{- end -}}
 
 {{- define "constants" }}
-- 
2.43.0


From 7e25473cd95ff84ab00f30538fc5dd57a76a15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 07/21] fix: escape enumeration values in generated C++ strings

---
 .../templates/base/out_callback.cpp.tmpl      |  2 +-
 .../embed/templates/base/state_entry.cpp.tmpl |  4 +--
 internal/gen/cpp/func.go                      | 29 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 31a3bc8..18aaa51 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -15,7 +15,7 @@ Base indent is set at 2, as we are inside a top-level function.
     {{ if ne $i 0 }}else {{ end }}if (
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
-    value.compare("{{ $t.Value.StringValue }}") == 0
+    value.compare({{ cppValue $t.Value }}) == 0
 {{-     else if $ty.IsEmpty -}}
     true
 {{-     else -}}
diff --git a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
index 69683d9..6fd8215 100644
--- a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
@@ -22,7 +22,7 @@ Base indent is set at 2, as we are inside a top-level function.
 
 {{-   with .In }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' sends {{ .Value.StringValue }} to SUT on {{ .Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' sends " << {{ cppString .Value.StringValue }} << " to SUT on {{ .Channel.Name }}; " <<
     "if accepted, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{      template "input" . -}}
 {{-   end }}
@@ -35,7 +35,7 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-  range $outSet := .TransitionSets }}
 {{-    range index .Transitions }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' can receive {{ .Value.StringValue }} from SUT on {{ $outSet.Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' can receive " << {{ cppString .Value.StringValue }} << " from SUT on {{ $outSet.Channel.Name }}; " <<
     "if received, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{-    end }}
 {{-  end }}
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index b9750a3..ecd37a4 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -23,6 +23,7 @@ func Funcs() template.FuncMap {
 		"cppOutcomeEnum":      OutcomeEnum,
 		"cppStateEntry":       StateEntry,
 		"cppStateEnum":        StateEnum,
+		"cppString":           StringLiteral,
 		"cppTestEnum":         TestEnum,
 		"cppType":             StdType,
 		"cppValue":            Value,
@@ -107,7 +108,7 @@ func Value(val value.Value) string {
 	typ := val.Type()
 
 	if typ.IsEnum() {
-		return fmt.Sprintf("\"%s\"", val.StringValue())
+		return StringLiteral(val.StringValue())
 	}
 
 	if typ.IsEmpty() {
@@ -118,6 +119,30 @@ func Value(val value.Value) string {
 	return val.StringValue()
 }
 
+// StringLiteral gets a C++ string literal with the given contents.
+func StringLiteral(contents string) string {
+	var literal strings.Builder
+
+	literal.WriteByte('"')
+
+	for _, char := range []byte(contents) {
+		switch {
+		case char == '"' || char == '\\' || char == '?':
+			// We escape question marks to avoid forming trigraphs.
+			literal.WriteByte('\\')
+			literal.WriteByte(char)
+		case char < ' ' || char == del:
+			fmt.Fprintf(&literal, "\\%03o", char)
+		default:
+			literal.WriteByte(char)
+		}
+	}
+
+	literal.WriteByte('"')
+
+	return literal.String()
+}
+
 func rtcgEnumName(name string, variant any) string {
 	return "rtcg::" + localEnumName(name, variant)
 }
@@ -127,6 +152,8 @@ func localEnumName(name string, variant any) string {
 }
 
 const (
+	del = 0x7f // del is the last ASCII control character.
+
 	stateEnumName   = "State"   // stateEnumName is the name in the C++ code for the state enum.
 	testEnumName    = "Test"    // testEnumName is the name in the C++ code for the test enum.
 	outcomeEnumName = "Outcome" // outcomeEnumName is the name in the C++ code for the outcome enum.
-- 
2.43.0


From 824a7d00ecb7808bc3b9944d58aa93f825efab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 08/21] fix: stop animated tests from looping forever at the
 end of input

---
 .../embed/templates/animate/main_body.cpp.tmpl   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index d84621e..c8764f2 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -26,7 +26,12 @@
 
     std::cout << "\n> ";
     std::string choice;
-    std::cin >> choice;
+    if (!(std::cin >> choice))
+    {
+      std::cout << "End of input.\n";
+      stm.timeoutCallback();
+      break;
+    }
 
     if (choice == "timeout")
       stm.timeoutCallback();
@@ -47,7 +52,14 @@
       {{ cppType $ctype.Base }} in = nullptr; // This channel doesn't carry values
 {{- else }}
       {{ cppType $ctype.Base }} in;
-      std::cin >> in;
+      if (!(std::cin >> in))
+      {
+        // Discard the rest of the line, rather than sending a bad value to the test.
+        std::cin.clear();
+        std::getline(std::cin, choice);
+        std::cout << "Sorry, that isn't a valid value.\n";
+        continue;
+      }
 {{- end }}
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
-- 
2.43.0


From 551adf05b3edc3276a96513ca501da2750ea2ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 09/21] fix: list set members in a fixed order

---
 internal/structure/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/structure/set.go b/internal/structure/set.go
index 32d192f..75deeac 100644
--- a/internal/structure/set.go
+++ b/internal/structure/set.go
@@ -3,6 +3,7 @@ package structure
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -26,7 +27,7 @@ func (s *Set[T]) Add(values ...T) {
 	}
 }
 
-// Values gets an unsorted slice of values present in s.
+// Values gets a slice of values present in s, in the order of their string representations.
 func (s *Set[T]) Values() []T {
 	values := make([]T, 0, len(s.contents))
 
@@ -36,6 +37,10 @@ func (s *Set[T]) Values() []T {
 		}
 	}
 
+	sort.Slice(values, func(i, j int) bool {
+		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])
+	})
+
 	return values
 }
 
-- 
2.43.0


From daf47850987ed0b80ee542b3196f1efc805c8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 10/21] fix: reject events whose channel has no name

---
 internal/testlang/channel/channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index f14d49e..9958f64 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -5,6 +5,7 @@ package channel
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -115,6 +116,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	}
 
 	c.Name = string(bytes.TrimSpace(fields[0]))
+	if c.IsEmpty() {
+		return nil, ErrNoName
+	}
 
 	kindBytes := bytes.TrimSpace(fields[1])
 	if err := c.Kind.UnmarshalText(kindBytes); err != nil {
@@ -128,6 +132,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	return fields[numEventParts-1], nil
 }
 
+// ErrNoName occurs when an Event or Channel has an empty channel name.
+var ErrNoName = errors.New("channel name should not be empty")
+
 // BadFieldCountError is the error when the number of '.' delimited fields in an Event or Channel is not valid.
 type BadFieldCountError struct {
 	Got int // Got is the number of fields we got.
-- 
2.43.0


From 78249f0d98c036c4f3d02e905a7037f90d3411c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 11/21] fix: report null tests as malformed instead of crashing

---
 internal/validate/errors.go | 3 +++
 internal/validate/node.go   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..ab0eb78 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test has no root node.
+	ErrNoRoot = errors.New("test should have a root node")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/node.go b/internal/validate/node.go
index 204c5d7..fd73c9d 100644
--- a/internal/validate/node.go
+++ b/internal/validate/node.go
@@ -8,6 +8,10 @@ import (
 
 // Root checks whether node is a valid root node.
 func Root(node *testlang.Node) error {
+	if node == nil {
+		return ErrNoRoot
+	}
+
 	if node.Event != nil {
 		return ErrRootHasEvent
 	}
-- 
2.43.0


From 81cd09b7d2682d8e5fe0fcc5823fff9160cb7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 12/21] fix: report null state machines and states as malformed
 instead of crashing

---
 internal/stm/suite.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 4504d22..d10c592 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -21,9 +22,38 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	for name, machine := range suite.Tests {
+		if err := machine.check(); err != nil {
+			return nil, fmt.Errorf("malformed state machine %q: %w", name, err)
+		}
+	}
+
 	return &suite, nil
 }
 
+// check makes sure that we can process this state machine, which may have come from a hand-edited file.
+func (s *Stm) check() error {
+	if s == nil || len(s.States) == 0 {
+		return ErrNoStates
+	}
+
+	for _, state := range s.States {
+		if state == nil {
+			return ErrNullState
+		}
+	}
+
+	return nil
+}
+
+var (
+	// ErrNoStates occurs when a state machine has no states, and so no initial state.
+	ErrNoStates = errors.New("state machine should have at least one state")
+
+	// ErrNullState occurs when a state machine has a null in place of a state.
+	ErrNullState = errors.New("state machine should not have null states")
+)
+
 // Write pretty-prints a state machine suite, as JSON, into writer w.
 func (s *Suite) Write(w io.Writer) error {
 	if err := serial.WriteJSON(w, s); err != nil {
-- 
2.43.0


From 4409f4c285e0a7142ce626f4016bf30ae161c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 13/21] fix: keep generated state IDs distinct from those
 already in a test

---
 internal/stm/builder.go   | 35 +++++++++++++++++++++++++++++++++--
 internal/structure/set.go |  5 +++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/internal/stm/builder.go b/internal/stm/builder.go
index d458f34..893a43f 100644
--- a/internal/stm/builder.go
+++ b/internal/stm/builder.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/structure"
@@ -12,6 +13,7 @@ import (
 // Builder builds state machines from tests.
 type Builder struct {
 	nodeNum uint64                          // nodeNum is a monotonically increasing counter for naming unnamed nodes.
+	usedIDs structure.Set[testlang.NodeID]  // usedIDs is the set of all node IDs already present in the test.
 	stack   structure.Stack[*testlang.Node] // stack is a stack used for in-order test traversal.
 	stm     Stm                             // stm is the state machine currently being built.
 }
@@ -76,6 +78,10 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	testRoot := test.Root()
 	testRoot.ID = "initial"
 
+	if err := b.collectNodeIDs(testRoot); err != nil {
+		return b.stm, err
+	}
+
 	b.stack.Clear()
 	b.stack.Push(testRoot)
 
@@ -90,6 +96,26 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	return b.stm, nil
 }
 
+// collectNodeIDs stores every ID present in the test at root, so that we don't generate it again.
+func (b *Builder) collectNodeIDs(root *testlang.Node) error {
+	b.usedIDs = structure.NewSet[testlang.NodeID]()
+
+	//nolint:wrapcheck // the error comes from our own callback.
+	return testlang.Walk(root, func(node *testlang.Node) error {
+		if node.ID == "" {
+			return nil
+		}
+
+		if b.usedIDs.Contains(node.ID) {
+			return fmt.Errorf("%w: %q", ErrDuplicateID, node.ID)
+		}
+
+		b.usedIDs.Add(node.ID)
+
+		return nil
+	})
+}
+
 func (b *Builder) processNode(node *testlang.Node) error {
 	if node.Outcome == testlang.OutcomeFail {
 		// We don't emit failing states.
@@ -153,6 +179,11 @@ func (b *Builder) ensureNodeID(n *testlang.Node) {
 		return
 	}
 
-	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
-	b.nodeNum++
+	for n.ID == "" || b.usedIDs.Contains(n.ID) {
+		n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
+		b.nodeNum++
+	}
 }
+
+// ErrDuplicateID occurs when two nodes in a test have the same ID.
+var ErrDuplicateID = errors.New("duplicate node ID in test")
diff --git a/internal/structure/set.go b/internal/structure/set.go
index 75deeac..8afed64 100644
--- a/internal/structure/set.go
+++ b/internal/structure/set.go
@@ -27,6 +27,11 @@ func (s *Set[T]) Add(values ...T) {
 	}
 }
 
+// Contains checks whether value is present in s.
+func (s *Set[T]) Contains(value T) bool {
+	return s.contents[value]
+}
+
 // Values gets a slice of values present in s, in the order of their string representations.
 func (s *Set[T]) Values() []T {
 	values := make([]T, 0, len(s.contents))
-- 
2.43.0


From 66d8725a832bc8fd254fd47a3184e9b880878c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 14/21] fix: reject test names that escape the output directory

---
 internal/gen/gen.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..09e477e 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -2,8 +2,10 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
@@ -123,15 +125,20 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
 func (o *OnSuite) Generate() error {
+	if err := o.checkNames(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
@@ -143,6 +150,17 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// checkNames makes sure that every test name can be used as a directory inside the output directory.
+func (o *OnSuite) checkNames() error {
+	for name := range o.suite.Tests {
+		if name == "." || name != filepath.Base(name) || !filepath.IsLocal(name) {
+			return fmt.Errorf("%w: %q", ErrBadTestName, name)
+		}
+	}
+
+	return nil
+}
+
 // mkdirs makes the various directories used by the generator.
 func (o *OnSuite) mkdirs() error {
 	for _, subg := range o.subgens {
@@ -169,3 +187,6 @@ func (o *OnSuite) runSubgens() error {
 
 	return nil
 }
+
+// ErrBadTestName occurs when a test's name can't be used as a directory name.
+var ErrBadTestName = errors.New("test name is not usable as a directory name")
-- 
2.43.0


From 1b25cb4888cacc403caa9bab1c48c6d002d8169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 15/21] fix: don't truncate convert.cpp if generating over the
 input directory

---
 internal/gen/cpp/copy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index a042401..f39f4b6 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -50,6 +50,11 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 	srcPath := filepath.Join(dirs.Input, name)
 	dstPath := filepath.Join(dirs.Output, name)
 
+	if isSameFile(srcPath, dstPath) {
+		// We're generating over the input directory; opening the destination would truncate the source.
+		return nil
+	}
+
 	src, err := os.Open(srcPath)
 	if err != nil {
 		return fmt.Errorf("couldn't open file %q: %w", srcPath, err)
@@ -58,6 +63,13 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 	return writeFile(src, dstPath)
 }
 
+func isSameFile(path1, path2 string) bool {
+	info1, err1 := os.Stat(path1)
+	info2, err2 := os.Stat(path2)
+
+	return err1 == nil && err2 == nil && os.SameFile(info1, info2)
+}
+
 func writeFile(src io.ReadCloser, outFile string) error {
 	dst, err := os.Create(outFile)
 	if err != nil {
-- 
2.43.0


From 5057b6bb81dae5a918f64aa5c0bdcd9f932a2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 16/21] fix: refuse to clean a directory that contains the
 current one

---
 cmd/rtcg-gen/main.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..5fdbea0 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -86,7 +86,12 @@ func (a *genAction) maybeClean() error {
 		return nil
 	}
 
-	if a.outputDir == "." {
+	holdsCwd, err := holdsWorkingDir(a.outputDir)
+	if err != nil {
+		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
+	}
+
+	if holdsCwd {
 		return ErrCleanDot
 	}
 
@@ -97,7 +102,38 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
-// ErrCleanDot occurs if we try to clean "." (current directory).
+// holdsWorkingDir checks whether removing dir would also remove the current directory.
+func holdsWorkingDir(dir string) (bool, error) {
+	dir, err := filepath.Abs(dir)
+	if err != nil {
+		return false, fmt.Errorf("couldn't resolve path: %w", err)
+	}
+
+	// If dir itself is a link, we'd only be removing the link, so we don't resolve it.
+	parent, err := filepath.EvalSymlinks(filepath.Dir(dir))
+	if errors.Is(err, os.ErrNotExist) {
+		return false, nil
+	}
+
+	if err != nil {
+		return false, fmt.Errorf("couldn't resolve path: %w", err)
+	}
+
+	cwd, err := os.Getwd()
+	if err != nil {
+		return false, fmt.Errorf("couldn't get current directory: %w", err)
+	}
+
+	if cwd, err = filepath.EvalSymlinks(cwd); err != nil {
+		return false, fmt.Errorf("couldn't resolve current directory: %w", err)
+	}
+
+	rel, err := filepath.Rel(filepath.Join(parent, filepath.Base(dir)), cwd)
+
+	return err == nil && filepath.IsLocal(rel), nil
+}
+
+// ErrCleanDot occurs if we try to clean "." (current directory), or a directory containing it.
 //
 // We don't support this because it would then change or confuse the current working directory.
 var ErrCleanDot = errors.New("can't clean current directory")
-- 
2.43.0


From b1b6a0725e001f4fbf81262dc66e00b0e2277d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 17/21] fix: don't accept inputs before a generated test has
 started

---
 internal/gen/cpp/embed/templates/base/stm.cpp.tmpl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
index 3cbedd5..958a03a 100644
--- a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
@@ -115,6 +115,15 @@ void StateMachine::initialDelayCallback({{ template "initial_delay_callback_args
 
 void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 {
+{{-   if .Transitions.FirstStateHasIn }}
+  // We haven't sent any inputs yet if we're still waiting to start.
+  if (status_ == rtcg::Status::WAIT_START)
+  {
+    {{ template "log" "error" }}"Accepted input before the test started."{{ template "end_log" }}
+    end(rtcg::Status::BUG);
+    return;
+  }
+{{    end }}
 {{-   block "in_callback" .Transitions.InMerged }}
 {{-     template "in_callback.cpp.tmpl" . }}
 {{-   end -}}
-- 
2.43.0


From c6dca4d27dd11ad4c5d53c3982b2e386562c3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 18/21] fix: recognise the current directory when cleaning,
 however it was reached

---
 cmd/rtcg-gen/main.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 5fdbea0..e38dba4 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -104,33 +104,37 @@ func (a *genAction) maybeClean() error {
 
 // holdsWorkingDir checks whether removing dir would also remove the current directory.
 func holdsWorkingDir(dir string) (bool, error) {
-	dir, err := filepath.Abs(dir)
-	if err != nil {
-		return false, fmt.Errorf("couldn't resolve path: %w", err)
-	}
-
-	// If dir itself is a link, we'd only be removing the link, so we don't resolve it.
-	parent, err := filepath.EvalSymlinks(filepath.Dir(dir))
+	// If dir itself is a link, we'd only be removing the link, so we don't follow it.
+	target, err := os.Lstat(dir)
 	if errors.Is(err, os.ErrNotExist) {
 		return false, nil
 	}
 
 	if err != nil {
-		return false, fmt.Errorf("couldn't resolve path: %w", err)
+		return false, fmt.Errorf("couldn't check directory: %w", err)
 	}
 
-	cwd, err := os.Getwd()
-	if err != nil {
-		return false, fmt.Errorf("couldn't get current directory: %w", err)
-	}
+	// Comparing paths isn't enough, as the current directory might have been reached through links.
+	for ancestor := "."; ; ancestor = filepath.Join(ancestor, "..") {
+		info, err := os.Stat(ancestor)
+		if err != nil {
+			return false, fmt.Errorf("couldn't check directory: %w", err)
+		}
 
-	if cwd, err = filepath.EvalSymlinks(cwd); err != nil {
-		return false, fmt.Errorf("couldn't resolve current directory: %w", err)
-	}
+		if os.SameFile(info, target) {
+			return true, nil
+		}
 
-	rel, err := filepath.Rel(filepath.Join(parent, filepath.Base(dir)), cwd)
+		parent, err := os.Stat(filepath.Join(ancestor, ".."))
+		if err != nil {
+			return false, fmt.Errorf("couldn't check directory: %w", err)
+		}
 
-	return err == nil && filepath.IsLocal(rel), nil
+		if os.SameFile(info, parent) {
+			// We've reached the root.
+			return false, nil
+		}
+	}
 }
 
 // ErrCleanDot occurs if we try to clean "." (current directory), or a directory containing it.
-- 
2.43.0


From 20d2e01e9634a209b4243a4e6273e24680d49179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 19/21] fix: let rtcg-gen read a file called '-' given as './-'

The path was cleaned before deciding whether it means stdin, so that a file
that the other two tools read was ignored in favour of stdin.
---
 cmd/rtcg-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index e38dba4..a0a8ae3 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -67,7 +67,6 @@ type genAction struct {
 func (a *genAction) run() error {
 	a.outputDir = filepath.Clean(a.outputDir)
 	a.configFile = filepath.Clean(a.configFile)
-	a.inputFile = filepath.Clean(a.inputFile)
 
 	stms, err := a.readSuite()
 	if err != nil {
-- 
2.43.0


From 99f607bf74e2ba7ad5daee0bb14340b7d6a67458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 20/21] fix: ignore callbacks that arrive after a test has
 ended

ROS calls the callbacks it has already taken off its queue even after shutdown,
which could restart a test that was over and change its verdicts and exit status.
---
 internal/gen/cpp/embed/templates/base/stm.cpp.tmpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
index 958a03a..a5419e3 100644
--- a/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/stm.cpp.tmpl
@@ -115,6 +115,9 @@ void StateMachine::initialDelayCallback({{ template "initial_delay_callback_args
 
 void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 {
+  // Don't acknowledge this callback if the test is already over.
+  if (!rtcg::status::isRunning(status_))
+    return;
 {{-   if .Transitions.FirstStateHasIn }}
   // We haven't sent any inputs yet if we're still waiting to start.
   if (status_ == rtcg::Status::WAIT_START)
@@ -134,6 +137,9 @@ void StateMachine::inputAcceptedCallback({{ template "in_callback_args" }})
 
 void StateMachine::{{ cppCallbackName .Channel.Name }}(const {{ cppChannelMsgType .Channel.Name }} msg)
 {
+  // Don't acknowledge this callback if the test is already over.
+  if (!rtcg::status::isRunning(status_))
+    return;
 {{- block "out_callback" . }}
 {{-   template "out_callback.cpp.tmpl" . }}
 {{- end -}}
-- 
2.43.0


From 0852c84cb77a98e4ee26b41650e67314a7eb8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 21/21] fix: reading an event without a value clears the value
 it had

---
 internal/testlang/event.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/testlang/event.go b/internal/testlang/event.go
index e3b9db9..e847d15 100644
--- a/internal/testlang/event.go
+++ b/internal/testlang/event.go
@@ -70,7 +70,9 @@ func (e *Event) UnmarshalText(text []byte) error {
 	}
 
 	if val == nil {
-		// No value in this event.
+		// No value in this event, even if e had one before.
+		e.Value = value.None()
+
 		return nil
 	}
 
-- 
2.43.0

