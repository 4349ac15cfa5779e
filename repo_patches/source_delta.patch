From 4bb7352494316a22214dbda2c760df663e8d9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 01/36] fix: comparing a made dataclass with a dataclass type
 raised TypeError

_eq() called dataclasses.asdict() on the other operand whenever
is_dataclass() held, but that is true for dataclass types as well, for
which asdict() raises. Such a comparison is now simply False.
---
 py/koladata/base/py_conversions/dataclasses_util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/koladata/base/py_conversions/dataclasses_util.py b/py/koladata/base/py_conversions/dataclasses_util.py
index d7a3c30..90bf70c 100644
--- a/py/koladata/base/py_conversions/dataclasses_util.py
+++ b/py/koladata/base/py_conversions/dataclasses_util.py
@@ -24,9 +24,12 @@ _Type = type[Any] | types.UnionType | types.GenericAlias | typing.Optional[Any]
 
 def _eq(x, y):
   """Checks whether two dataclasses are equal ignoring types."""
-  return dataclasses.is_dataclass(y) and dataclasses.asdict(
-      x
-  ) == dataclasses.asdict(y)
+  # is_dataclass() is also true for dataclass types, which have no field values.
+  return (
+      dataclasses.is_dataclass(y)
+      and not isinstance(y, type)
+      and dataclasses.asdict(x) == dataclasses.asdict(y)
+  )
 
 
 def make_dataclass(class_name: str, attr_names):
-- 
2.43.0


From 264978c64eb3ad3021d1db53fdbfae1c7ad0da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 02/36] fix: unwrap() raised TypeError for unhashable callables

The visited set hashed the callables themselves, so unwrap() failed for
callable objects without a hash, and stopped early at wrappers that
compare equal to one seen before. Track identities instead.
---
 py/koladata/util/kd_functools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/koladata/util/kd_functools.py b/py/koladata/util/kd_functools.py
index 3514213..6613d16 100644
--- a/py/koladata/util/kd_functools.py
+++ b/py/koladata/util/kd_functools.py
@@ -20,12 +20,14 @@ from typing import Any
 
 def unwrap(fn: Callable[..., Any]) -> Callable[..., Any]:
   """Unwraps the function from all the decorators."""
-  visited = set()
+  # Keyed by id(), because a callable need not be hashable, and distinct
+  # callables may compare equal. The values keep the ids alive.
+  visited = {}
   while (
-      fn not in visited
+      id(fn) not in visited
       and hasattr(fn, '__wrapped__')
       and callable(fn.__wrapped__)
   ):
-    visited.add(fn)
+    visited[id(fn)] = fn
     fn = fn.__wrapped__
   return fn
-- 
2.43.0


From a46f2425166c6a6983dbef74a069efbc6f51c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 03/36] fix: json salvage recognises the end of comments ending
 in **/

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 55fc89b..e08c7ef 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -630,7 +630,7 @@ bool JsonSalvageStreamProcessor::ProcessCommentRules(
     } else {
       if (c == '/') {
         SetStateWithBuffer(State::kBase, "");
-      } else {
+      } else if (c != '*') {
         ClearBuffer();
       }
     }
-- 
2.43.0


From 6f942d5ca70faf4b8d17e7e8d49d26f6a8a6f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 04/36] fix: json salvage emitted bare signed numbers as object
 keys

---
 koladata/internal/op_utils/json_stream.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index e08c7ef..8966bba 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,22 +311,22 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
-  } else if (BufferEquals("-") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("-") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("-") && (c >= '1' && c <= '9')) {
     EmitRawOutput('-');
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("-") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '.') {
     EmitRawOutput("-0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
-  } else if (BufferEquals("+") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '0') {
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("+") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("+") && (c >= '1' && c <= '9')) {
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("+") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '.') {
     EmitRawOutput("0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
   } else if (!IsValidUnquotedStringNextCodePoint(c)) {
-- 
2.43.0


From 27d74862fec34c6b84e076fe8e16dba46b167946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 05/36] fix: json salvage dropped the value state at a trailing
 empty backtick string

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 8966bba..d374e7d 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,6 +311,7 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
+    EndValue();
   } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-- 
2.43.0


From 21773005dc71d36a06ba94c82bc38595c487e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 06/36] fix: json salvage emitted the character of an invalid
 escape unescaped

---
 koladata/internal/op_utils/json_stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index d374e7d..a4ed1fa 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -465,8 +465,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EndString();
       } else {
         // Invalid escape "\?" -> "\\?".
-        EmitRawOutput("\\\\");
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint('\\');
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       }
     } else if (BufferEquals("\\\r")) {
-- 
2.43.0


From aa691949000fcf8e2876b33911c65381aac0ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 07/36] fix: json salvage dropped escapes after a quote inside
 triple quoted strings

---
 koladata/internal/op_utils/json_stream.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index a4ed1fa..3e77505 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -485,8 +485,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('"');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -498,8 +498,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferEquals("'")) {
       // Maybe end of triple single quoted string.
@@ -508,8 +508,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('\'');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -521,8 +521,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else {
         EmitJsonStringCodePoint('\'');
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferStartsWith("\\u")) {
       if (BufferEquals("\\u") && c == '{') {
-- 
2.43.0


From 3a02fda442b5b1779ee083c2aec20708cb453639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:11 +0000
Subject: [PATCH 08/36] fix: json salvage paired surrogates across an
 intervening escape

---
 koladata/internal/op_utils/json_stream.cc | 14 +++++++++-----
 koladata/internal/op_utils/json_stream.h  |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 3e77505..c0b4ec4 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -436,6 +436,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       // First character of escape sequence.
       if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' ||
           c == 'n' || c == 'r' || c == 't') {
+        EmitJsonStringPendingSurrogate();
         EmitRawOutput('\\');
         EmitRawOutput(c);
         ClearBuffer();
@@ -446,7 +447,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EmitJsonStringCodePoint('\v');
         ClearBuffer();
       } else if (c == '`' || c == '\'') {
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       } else if (c == 'u' || c == 'U') {
         AppendToBuffer(c);
@@ -928,9 +929,8 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
     return;
   }
 
-  if (json_string_utf16_first_surrogate_.has_value() && !U16_IS_TRAIL(*c)) {
-    json_string_utf16_first_surrogate_.reset();
-    EmitJsonStringCodePoint(kReplacementCharacter);
+  if (!U16_IS_TRAIL(*c)) {
+    EmitJsonStringPendingSurrogate();
   }
 
   if (c == '\b') {
@@ -989,11 +989,15 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
   }
 }
 
-void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+void JsonSalvageStreamProcessor::EmitJsonStringPendingSurrogate() {
   if (json_string_utf16_first_surrogate_.has_value()) {
     json_string_utf16_first_surrogate_.reset();
     EmitJsonStringCodePoint(kReplacementCharacter);
   }
+}
+
+void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+  EmitJsonStringPendingSurrogate();
   EmitRawOutput('"');
 }
 
diff --git a/koladata/internal/op_utils/json_stream.h b/koladata/internal/op_utils/json_stream.h
index 6369ce3..bb62fb1 100644
--- a/koladata/internal/op_utils/json_stream.h
+++ b/koladata/internal/op_utils/json_stream.h
@@ -169,6 +169,7 @@ class JsonSalvageStreamProcessor {
 
   void EmitJsonStringStart();
   void EmitJsonStringCodePoint(std::optional<char32_t> c);
+  void EmitJsonStringPendingSurrogate();
   void EmitJsonStringEnd();
 
   void EmitRawOutput(std::string_view s);
-- 
2.43.0


From cc4f59204bd74f30c70241ba574a0e746c3050b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:28 +0000
Subject: [PATCH 09/36] fix: json salvage emitted an empty line for a leading
 stray closing bracket

---
 koladata/internal/op_utils/json_stream.cc | 35 ++++++++++++-----------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index c0b4ec4..86fef3e 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -883,24 +883,25 @@ void JsonSalvageStreamProcessor::StartObject() {
 }
 
 void JsonSalvageStreamProcessor::EndCurrentContainer() {
-  if (!container_stack_.empty()) {
-    switch (container_stack_.back()) {
-      case ContainerType::kArray:
-        EmitRawOutput(']');
-        break;
-      case ContainerType::kObject:
-        if (!is_object_key_) {
-          EmitRawOutput(":null");
-        }
-        EmitRawOutput('}');
-        break;
-      default:
-        // Should be unreachable.
-        DCHECK(false);
-        break;
-    }
-    container_stack_.pop_back();
+  if (container_stack_.empty()) {
+    return;  // Nothing to close.
+  }
+  switch (container_stack_.back()) {
+    case ContainerType::kArray:
+      EmitRawOutput(']');
+      break;
+    case ContainerType::kObject:
+      if (!is_object_key_) {
+        EmitRawOutput(":null");
+      }
+      EmitRawOutput('}');
+      break;
+    default:
+      // Should be unreachable.
+      DCHECK(false);
+      break;
   }
+  container_stack_.pop_back();
   is_object_key_ = false;
   EndValue();
 }
-- 
2.43.0


From 2738dac12464b1692680f0b8d19413cf01fc4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 10/36] fix: json_stream.get_array_nth_value lost nulls after
 top-level scalars

---
 koladata/internal/op_utils/json_stream.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 86fef3e..2cc3bf3 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1608,6 +1608,8 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         if (container_depth_ == 0) {
           emit_top_level_null_if_not_already_done();
         }
+      } else if (container_depth_ == 0) {
+        end_top_level_value();
       }
     }
   }
-- 
2.43.0


From 3cab2058b53b0833df7d9303b44af8f8c2cf2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 11/36] fix: json_stream.get_array_nth_value emitted no null
 for arrays with negative n

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 2cc3bf3..ee938e5 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1581,7 +1581,7 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
             } else {
               output.append("null\n");
             }
-          } else if (top_level_array_value_index_ < options_.n) {
+          } else {
             emit_top_level_null_if_not_already_done();
           }
           end_top_level_value();
-- 
2.43.0


From ef4d1b20491a75b34eb5799299cdfca5d169b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 12/36] fix: json_stream key extraction mixed up keys after an
 empty object

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index ee938e5..b0ef425 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1374,6 +1374,7 @@ JsonStreamProcessResult JsonExtractValuesStreamProcessor::Process(
 
         if (!is_in_match_) {
           container_path_stack_.pop_back();
+          is_object_key_ = false;
         }
       } else if (c == ',') {
         if (is_in_match_) {
-- 
2.43.0


From 6eca2a994aee2fae06e4087cb4206e7816ea19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:00 +0000
Subject: [PATCH 13/36] fix: json stream parser did not escape quotes in single
 quoted strings

---
 koladata/operators/json_stream_parser.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index b450931..fbccf5c 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -233,12 +233,20 @@ absl::Status JsonStreamParser::ProcessName(char c) {
   } else if (c == '\\') {
     state_ = NAME_ESCAPE;
   } else {
+    if (c == '"') {  // In a single quoted name.
+      data_.back() = '\\';
+      data_.push_back('"');
+    }
     path_.push_back(c);
   }
   return absl::OkStatus();
 }
 
 absl::Status JsonStreamParser::ProcessNameEscape(char c) {
+  if (c == '\'') {  // "\'" is not a valid escape in JSON.
+    data_.back() = 'u';
+    data_.append("0027");
+  }
   path_.push_back(c);
   state_ = NAME;
   return absl::OkStatus();
@@ -322,11 +330,18 @@ absl::Status JsonStreamParser::ProcessValueString(char c) {
     state_ = VALUE_END;
   } else if (c == '\\') {
     state_ = VALUE_STRING_ESCAPE;
+  } else if (c == '"') {  // In a single quoted string.
+    data_.back() = '\\';
+    data_.push_back('"');
   }
   return absl::OkStatus();
 }
 
 absl::Status JsonStreamParser::ProcessValueStringEscape(char c) {
+  if (c == '\'') {  // "\'" is not a valid escape in JSON.
+    data_.back() = 'u';
+    data_.append("0027");
+  }
   state_ = VALUE_STRING;
   return absl::OkStatus();
 }
-- 
2.43.0


From af7ab129d72fced7ed066f8a8e1956a92621dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:00 +0000
Subject: [PATCH 14/36] fix: json stream parser cut unquoted keys before
 whitespace

---
 koladata/operators/json_stream_parser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index fbccf5c..cb6ef7a 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -257,8 +257,12 @@ absl::Status JsonStreamParser::ProcessUnquotedName(char c) {
     path_.push_back(c);
     return absl::OkStatus();
   }
-  data_.back() = '"';
-  data_.push_back(c);
+  if (c == ':' || separator_policy_ == SeparatorPolicy::KEEP) {
+    data_.back() = '"';
+    data_.push_back(c);
+  } else {  // The whitespace was not added to `data_`.
+    data_.push_back('"');
+  }
   state_ = c == ':' ? EXPECT_VALUE : NAME_END;
   return absl::OkStatus();
 }
-- 
2.43.0


From e18fd6865090f66efd90933146d36462dd20913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:16 +0000
Subject: [PATCH 15/36] fix: storage managers lose data in directories with
 glob characters in their name

The persistence directory was pasted verbatim into glob patterns, so that a
directory called e.g. 'run[1]' always looked empty: create_new() accepted a
populated directory and create_from_dir() rejected one.
---
 .../ext/storage/bare_root_initial_data_manager.py |  3 ++-
 .../ext/storage/composite_initial_data_manager.py |  3 ++-
 py/koladata/ext/storage/data_bag_manager.py       | 15 ++++++++++-----
 py/koladata/ext/storage/data_slice_manager.py     | 11 +++++++----
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/py/koladata/ext/storage/bare_root_initial_data_manager.py b/py/koladata/ext/storage/bare_root_initial_data_manager.py
index 9efe4c0..70f105c 100644
--- a/py/koladata/ext/storage/bare_root_initial_data_manager.py
+++ b/py/koladata/ext/storage/bare_root_initial_data_manager.py
@@ -16,6 +16,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 from typing import Collection, Self, cast
 
@@ -100,7 +101,7 @@ class BareRootInitialDataManager(
   ):
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the given persistence_dir {persistence_dir} is not empty'
       )
diff --git a/py/koladata/ext/storage/composite_initial_data_manager.py b/py/koladata/ext/storage/composite_initial_data_manager.py
index 81c85bc..df34064 100644
--- a/py/koladata/ext/storage/composite_initial_data_manager.py
+++ b/py/koladata/ext/storage/composite_initial_data_manager.py
@@ -16,6 +16,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 from typing import Collection, Self
 
@@ -102,7 +103,7 @@ class CompositeInitialDataManager(
   ):
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the given persistence_dir {persistence_dir} is not empty'
       )
diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 94c6d2e..8c49f96 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -22,6 +22,7 @@ from __future__ import annotations
 import collections
 import concurrent.futures
 import dataclasses
+import glob
 import os
 from typing import AbstractSet, Collection, Iterable, cast
 import uuid
@@ -128,7 +129,8 @@ class DataBagManager:
 
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):  # if not empty dir:
+    # If not empty dir:
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           'the persistence_dir must be empty or not exist yet. Got'
           f' {persistence_dir}'
@@ -173,7 +175,8 @@ class DataBagManager:
       raise ValueError(
           f'the persistence_dir does not exist. Got {persistence_dir}'
       )
-    if not fs.glob(os.path.join(persistence_dir, '*')):  # if empty dir:
+    # If empty dir:
+    if not fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the persistence_dir must not be empty. Got {persistence_dir}'
       )
@@ -354,7 +357,7 @@ class DataBagManager:
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
       fs.make_dirs(output_dir)
-    if fs.glob(os.path.join(output_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(output_dir), '*')):
       raise ValueError(
           f'The output_dir must be empty or not exist yet. Got {output_dir}'
       )
@@ -416,7 +419,7 @@ class DataBagManager:
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
       fs.make_dirs(output_dir)
-    if fs.glob(os.path.join(output_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(output_dir), '*')):
       raise ValueError(
           f'The output_dir must be empty or not exist yet. Got {output_dir}'
       )
@@ -825,7 +828,9 @@ def _read_latest_metadata(
 ) -> metadata_pb2.DataBagManagerMetadata:
   update_number_pattern = '[0-9]' * _UPDATE_NUMBER_NUM_DIGITS
   committed_metadata_filepaths = fs.glob(
-      os.path.join(persistence_dir, f'metadata-{update_number_pattern}.pb')
+      os.path.join(
+          glob.escape(persistence_dir), f'metadata-{update_number_pattern}.pb'
+      )
   )
   latest_metadata_filepath = max(committed_metadata_filepaths)
   with fs.open(latest_metadata_filepath, 'rb') as f:
diff --git a/py/koladata/ext/storage/data_slice_manager.py b/py/koladata/ext/storage/data_slice_manager.py
index 5ef2206..2e297d3 100644
--- a/py/koladata/ext/storage/data_slice_manager.py
+++ b/py/koladata/ext/storage/data_slice_manager.py
@@ -23,6 +23,7 @@ import base64
 import copy
 import dataclasses
 import datetime
+import glob
 import os
 from typing import Collection, Generator, cast
 import uuid
@@ -206,7 +207,7 @@ class DataSliceManager(
         raise ValueError(
             f'persistence_dir should be a directory. Got: {persistence_dir}'
         )
-      if fs.glob(os.path.join(persistence_dir, '*')):
+      if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
         raise ValueError(
             f'persistence_dir should be empty. Got: {persistence_dir}'
         )
@@ -318,7 +319,7 @@ class DataSliceManager(
     """
     fs = fs or kd.file_io.get_default_file_system_interaction()
 
-    if not fs.glob(os.path.join(persistence_dir, '*')):
+    if not fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'persistence_dir {persistence_dir} should contain artifacts'
           ' persisted previously by a DataSliceManager'
@@ -1135,7 +1136,7 @@ class DataSliceManager(
           raise ValueError(
               f'the output_dir {output_dir} exists but it is not a directory'
           )
-        if branch_fs.glob(os.path.join(output_dir, '*')):
+        if branch_fs.glob(os.path.join(glob.escape(output_dir), '*')):
           raise ValueError(f'the output_dir {output_dir} is not empty')
     else:
       output_dir = _get_dir_for_new_branch(self._persistence_dir, branch_fs)
@@ -1404,7 +1405,9 @@ def _get_latest_metadata_version(
 ) -> int:
   update_number_pattern = '[0-9]' * _UPDATE_NUMBER_NUM_DIGITS
   committed_metadata_filepaths = fs.glob(
-      os.path.join(persistence_dir, f'metadata-{update_number_pattern}.pb')
+      os.path.join(
+          glob.escape(persistence_dir), f'metadata-{update_number_pattern}.pb'
+      )
   )
   latest_metadata_filepath = max(committed_metadata_filepaths)
   latest_metadata_filename = os.path.basename(latest_metadata_filepath)
-- 
2.43.0


From fb5f171cab5900bdb81023d7160fdd880c78f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:16 +0000
Subject: [PATCH 16/36] fix: DataBagManager.extract_bags() dropped the bags'
 custom metadata

create_branch(), documented as the copy-free variant of extract_bags(), keeps
it.
---
 py/koladata/ext/storage/data_bag_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 8c49f96..1c64002 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -353,6 +353,7 @@ class DataBagManager:
         bag_names, with_all_dependents=with_all_dependents
     )
     bag_dependencies = self._get_dependency_relation()
+    bag_custom_metadata = self.get_custom_metadata(bag_name_to_bag.keys())
 
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
@@ -372,6 +373,7 @@ class DataBagManager:
             bag_name,
             bag=bag_name_to_bag[bag_name],
             dependencies=tuple(bag_dependencies[bag_name]),
+            custom_metadata=bag_custom_metadata[bag_name],
         )
         for bag_name in self.canonical_topological_sorting(
             bag_name_to_bag.keys()
-- 
2.43.0


From 5c61681c0da682419377d71442a274cf8e9b70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:48 +0000
Subject: [PATCH 17/36] fix: CheckFrozen looked at the wrong number of fields
 in nested tuples

Fields of a nested tuple were counted by the outer tuple, so a mutable
bag or slice in a longer nested tuple was accepted as frozen, and a
shorter one was read out of bounds.
---
 koladata/check_frozen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/check_frozen.cc b/koladata/check_frozen.cc
index 15bb8a1..72c4c96 100644
--- a/koladata/check_frozen.cc
+++ b/koladata/check_frozen.cc
@@ -57,7 +57,7 @@ absl::Status CheckFrozenCompoundValue(arolla::TypedRef value) {
   while (!stack.empty()) {
     arolla::TypedRef field = stack.top();
     stack.pop();
-    const int64_t field_count = value.GetFieldCount();
+    const int64_t field_count = field.GetFieldCount();
     DCHECK_GT(field_count, 0);
     for (int64_t i = 0; i < field_count; ++i) {
       auto sub_field = field.GetField(i);
-- 
2.43.0


From 571145faf62ff0b4eb55a26bbe55c21608a6e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:11 +0000
Subject: [PATCH 18/36] fix: assigning None to an attribute of freshly created
 items was ignored

For a slice that is a whole allocation, all-missing values took the
SetAttrFullAlloc path, which treats values of unknown type as unset: the
old values stayed, and for objects the schema became NONE, so that the
attribute could not even be read.
---
 koladata/data_slice.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index 8b3f0f7..4c9eb37 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -1738,7 +1738,9 @@ absl::Status SetAttrImpl(const DataSlice& obj, absl::string_view attr_name,
                                                /*fallbacks=*/{}));
   }
   if (auto full_alloc = obj.GetFullAllocOrNone();
-      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall()) {
+      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall() &&
+      // SetAttrFullAlloc would not remove the existing values.
+      !data_handler.GetValues().impl_empty_and_unknown()) {
     return db_mutable_impl.SetAttrFullAlloc(
         *full_alloc, attr_name,
         data_handler.GetValues().slice().UnsetToRemoved());
-- 
2.43.0


From 608fc05855fd6e8daa9096867b377a4ed5dea84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 19/36] fix: set_attr with a slice of attribute names ignored
 missing values

---
 koladata/data_slice.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index 4c9eb37..cdafb98 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -1817,13 +1817,14 @@ absl::Status DataSlice::SetAttr(const DataSlice& attr_name,
   absl::Status status = absl::OkStatus();
   RETURN_IF_ERROR(arolla::DenseArraysForEachPresent(
       [&](int64_t offset, internal::DataItem item, std::string_view attr_name,
-          internal::DataItem value) {
+          arolla::OptionalValue<internal::DataItem> value) {
         if (!status.ok()) {
           return;
         }
-        status = SetAttrForSingleItem(item, attr_name, value, overwrite_schema,
-                                      GetSchemaImpl(), values.GetSchemaImpl(),
-                                      GetBag());
+        status = SetAttrForSingleItem(
+            item, attr_name, value.present ? value.value : internal::DataItem(),
+            overwrite_schema, GetSchemaImpl(), values.GetSchemaImpl(),
+            GetBag());
       },
       aligned_obj.AsDataItemDenseArray(),
       aligned_attr_name.values<arolla::Text>(),
-- 
2.43.0


From e1dec9b28ffc1b5cfc244a1ff8d8220742abd337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 20/36] fix: missing values of masked slices did not count as
 removed when creating objects

---
 koladata/internal/data_bag.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index f765aa5..0085dc6 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -1054,8 +1054,9 @@ absl::StatusOr<DataSliceImpl> DataBagImpl::CreateObjectsFromFields(
   for (size_t i = 0; i < attr_names.size(); ++i) {
     std::shared_ptr<DenseSource> source = nullptr;
     if (!slices[i].get().is_empty_and_unknown()) {
-      ASSIGN_OR_RETURN(
-          source, DenseSource::CreateReadonly(alloc_id, slices[i]));
+      ASSIGN_OR_RETURN(source,
+                       DenseSource::CreateReadonly(
+                           alloc_id, slices[i].get().UnsetToRemoved()));
     } else {
       ASSIGN_OR_RETURN(source, DenseSource::CreateAllRemoved(alloc_id));
     }
-- 
2.43.0


From 1a785a11aa99ec8fd35aeca740a6d7758d26812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:56 +0000
Subject: [PATCH 21/36] fix: keep allocation ids in kd.reverse

ReverseOp built its result without the allocation ids of the source, so
attribute lookups on reversed entities found nothing.
---
 koladata/internal/op_utils/reverse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/reverse.cc b/koladata/internal/op_utils/reverse.cc
index e9fc04c..00ed357 100644
--- a/koladata/internal/op_utils/reverse.cc
+++ b/koladata/internal/op_utils/reverse.cc
@@ -35,7 +35,7 @@ DataSliceImpl ReverseOp::operator()(
   }
   absl::Span<const int64_t> split_points =
       ds_shape.edges().back().edge_values().values.span();
-  SliceBuilder builder(ds_impl.size());
+  SliceBuilder builder(ds_impl.size(), ds_impl.allocation_ids());
   ds_impl.VisitValues([&]<class T>(const arolla::DenseArray<T>& values) {
     arolla::DenseArrayBuilder<T> values_builder(values.size());
     size_t split_point_id = 0;
-- 
2.43.0


From 1f088e476baeb05a681a77e4fe1084588d95a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 22/36] fix: extract objects whose attribute types differ
 within a full allocation

ProcessObjectsAttribute passed the full-allocation flag found for the whole
slice on to the per-schema groups, which hold only a part of the objects.
---
 koladata/internal/op_utils/extract.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index c3ce99b..5c5a75c 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -890,13 +890,16 @@ class CopyingProcessor {
               if (!status.ok()) {
                 return;
               }
+              // A group is in general only a part of the allocation, so
+              // `full_alloc` found for the whole slice does not apply to it.
+              bool group_full_alloc = false;
               status = ProcessAttribute(
                   {.slice =
                        DataSliceImpl::Create(std::move(new_ds_grouped[idx])),
                    .schema = DataItem(schema::kObject),
                    .schema_source = SchemaSource::kDataDatabag,
                    .depth = depth},
-                  attr_name, DataItem(attr_schema), full_alloc);
+                  attr_name, DataItem(attr_schema), group_full_alloc);
             });
           } else {
             DCHECK(false);
-- 
2.43.0


From 87fa54b6a1102106cf957ba02832f20cdc9ede90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:41 +0000
Subject: [PATCH 23/36] fix: drop types without values in
 DataSliceImpl::SubSlice

A part of a mixed slice that holds values of one type only was still reported
as mixed, so extract of a prefix of an allocation failed.
---
 koladata/internal/data_slice.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/koladata/internal/data_slice.cc b/koladata/internal/data_slice.cc
index 315cdfe..03f8bca 100644
--- a/koladata/internal/data_slice.cc
+++ b/koladata/internal/data_slice.cc
@@ -211,6 +211,16 @@ DataSliceImpl DataSliceImpl::SubSlice(int64_t offset, int64_t size) const {
     impl->values.emplace_back(
         array.Slice(offset, size).ForceNoBitmapBitOffset());
   });
+  RemoveEmptyValues(*impl);
+  if (has_types_buffer() && impl->values.size() != internal_->values.size()) {
+    // Some of the types have no values in the range.
+    impl->types_buffer.types.clear();
+    for (const auto& vals : impl->values) {
+      std::visit(
+          [&](const auto& arr) { AddToTypesBuffer(impl->types_buffer, arr); },
+          vals);
+    }
+  }
   return DataSliceImpl(std::move(impl));
 }
 
-- 
2.43.0


From 3ec17630908dbbd34a94c0f52a661b745329eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:27 +0000
Subject: [PATCH 24/36] fix: keep the removed values of an attribute without
 values in extract

---
 koladata/internal/op_utils/extract.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index 5c5a75c..b9c369a 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -374,7 +374,8 @@ class CopyingProcessor {
       ASSIGN_OR_RETURN(attr_ds, (*casting_callback_)(attr_ds, attr_schema));
     }
     if (max_depth_ == -1 || slice.depth < max_depth_) {
-      if (full_alloc) {
+      // SetAttrFullAlloc ignores slices without values, also REMOVED ones.
+      if (full_alloc && !attr_ds.is_empty_and_unknown()) {
         DCHECK(!ds.allocation_ids().contains_small_allocation_id());
         DCHECK_EQ(ds.allocation_ids().size(), 1);
         RETURN_IF_ERROR(new_databag_->SetAttrFullAlloc(
-- 
2.43.0


From cfb25a41891ec8865468f646fb7d817654f6edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:46 +0000
Subject: [PATCH 25/36] fix: shallow_clone to item ids in another order or part
 of an allocation

The values of a full allocation were written to the clones by position in
their allocation instead of to the item ids given by the caller.
---
 koladata/internal/op_utils/extract.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index b9c369a..1bc931a 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -374,8 +374,10 @@ class CopyingProcessor {
       ASSIGN_OR_RETURN(attr_ds, (*casting_callback_)(attr_ds, attr_schema));
     }
     if (max_depth_ == -1 || slice.depth < max_depth_) {
-      // SetAttrFullAlloc ignores slices without values, also REMOVED ones.
-      if (full_alloc && !attr_ds.is_empty_and_unknown()) {
+      // `full_alloc` is about `old_ds`: in a shallow clone `ds` holds any other
+      // ids. SetAttrFullAlloc ignores slices without values, also REMOVED ones.
+      if (full_alloc && !is_shallow_clone_ &&
+          !attr_ds.is_empty_and_unknown()) {
         DCHECK(!ds.allocation_ids().contains_small_allocation_id());
         DCHECK_EQ(ds.allocation_ids().size(), 1);
         RETURN_IF_ERROR(new_databag_->SetAttrFullAlloc(
-- 
2.43.0


From f77aaab24a68a0e83f86c1d20245d67a928245bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 26/36] fix: merging an attribute whose values are all removed
 into dense values

---
 koladata/internal/dense_source.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/dense_source.cc b/koladata/internal/dense_source.cc
index c13b547..c2698e6 100644
--- a/koladata/internal/dense_source.cc
+++ b/koladata/internal/dense_source.cc
@@ -343,14 +343,19 @@ class MultitypeDenseSource : public DenseSource {
             });
       }
     };
-    if (values.types_buffer().size() == 0) {
+    if (values.is_empty_and_unknown() && values.types_buffer().size() == 0) {
+      // All values are removed.
+      for (int64_t offset = 0; offset < real_size; ++offset) {
+        handle_removed_value(offset);
+      }
+    } else if (values.types_buffer().size() == 0) {
       DenseArray<arolla::Unit> mask;
       values.VisitValues([&]<class T>(const DenseArray<T>& array) {
         mask = array.ToMask();
       });
       if (!mask.bitmap.empty()) {
         mask.ForEach([&](int64_t offset, bool present, arolla::Unit) {
-          if (!present) {
+          if (!present && offset < real_size) {
             handle_removed_value(offset);
           }
         });
-- 
2.43.0


From 143c48e1343806f163de66f8fbadbdea586b7c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 27/36] fix: from_json of numbers above int64 with a float
 schema

---
 koladata/operators/json.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/koladata/operators/json.cc b/koladata/operators/json.cc
index 3383c23..fd43545 100644
--- a/koladata/operators/json.cc
+++ b/koladata/operators/json.cc
@@ -189,10 +189,17 @@ absl::StatusOr<internal::DataItem> JsonNumberToDataItem(
       effective_schema_impl = default_number_schema_impl;
     }
   }
+  const bool is_float_schema = effective_schema_impl == schema::kFloat32 ||
+                               effective_schema_impl == schema::kFloat64;
   ASSIGN_OR_RETURN(
       auto result,
-      schema::CastDataTo(internal::DataItem(static_cast<int64_t>(value)),
-                         effective_schema_impl),
+      schema::CastDataTo(
+          is_float_schema &&
+                  value > static_cast<uint64_t>(
+                              std::numeric_limits<int64_t>::max())
+              ? internal::DataItem(static_cast<double>(value))
+              : internal::DataItem(static_cast<int64_t>(value)),
+          effective_schema_impl),
       _ << absl::StrFormat("json number %v invalid for %v schema", value,
                            effective_schema_impl));
   return result;
-- 
2.43.0


From 7c02b92877c66b0bb91cf3673170d3ffcfebcee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 28/36] fix: from_proto with an empty slice of extensions

---
 koladata/operators/proto.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koladata/operators/proto.cc b/koladata/operators/proto.cc
index e36a40f..541012a 100644
--- a/koladata/operators/proto.cc
+++ b/koladata/operators/proto.cc
@@ -98,6 +98,9 @@ absl::StatusOr<std::vector<absl::string_view>> GetExtensions(
           "expected extensions to be a 1D all-present slice of STRING, got %v",
           DataSliceRepr(extensions)));
     }
+    if (extensions.size() == 0) {
+      return extensions_value;  // There may be no values array to read.
+    }
     extensions_value.reserve(extensions.size());
     extensions.slice().values<arolla::Text>().ForEachPresent(
         [&](int64_t id, arolla::view_type_t<arolla::Text> value) {
-- 
2.43.0


From 8aff1cc26fa1f87f3015881784cb836d8c0d9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 29/36] fix: path of the extensions of map values in
 schema_from_proto

---
 koladata/proto/from_proto.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/koladata/proto/from_proto.cc b/koladata/proto/from_proto.cc
index 7fca230..11eddf6 100644
--- a/koladata/proto/from_proto.cc
+++ b/koladata/proto/from_proto.cc
@@ -1336,8 +1336,9 @@ absl::Status FillDictSchemaFromProtoMapFieldDescriptor(
       // SchemaFromProtoMessageDescriptorBreakRecursion.
       return SchemaFromProtoPrimitiveField(map_value);
     } else {
-      const auto* extension_map =
-          GetChildExtensionMap(parent_extension_map, attr_name);
+      // The extensions of map values are specified as "map_field.values.(ext)".
+      const auto* extension_map = GetChildExtensionMap(
+          GetChildExtensionMap(parent_extension_map, attr_name), "values");
       return SchemaFromProtoMessageDescriptorBreakRecursion(
           bag, *map_value.message_type(), extension_map,
           converted_message_descriptors, executor);
-- 
2.43.0


From 032b281248f17de04c66a4354f505276b7e4776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 30/36] fix: from_proto of maps with an explicit dict schema of
 OBJECT

---
 koladata/proto/from_proto.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/koladata/proto/from_proto.cc b/koladata/proto/from_proto.cc
index 11eddf6..3eaba44 100644
--- a/koladata/proto/from_proto.cc
+++ b/koladata/proto/from_proto.cc
@@ -913,13 +913,17 @@ absl::Status DictFromProtoMapField(
         auto values,
         std::move(vars->flat_values)->Reshape(std::move(vars->items_shape)));
 
+    // An explicit dict schema may have OBJECT keys or values, to which
+    // primitives are not cast yet.
+    const bool has_dict_schema =
+        vars->schema.has_value() && vars->schema->item() != schema::kObject;
     ASSIGN_OR_RETURN(
         auto dicts,
         CreateDictLike(db,
                        /*shape_and_mask_from=*/std::move(vars->dicts_mask),
                        /*keys=*/std::move(keys),
                        /*values=*/std::move(values),
-                       /*schema=*/std::nullopt,
+                       /*schema=*/has_dict_schema ? vars->schema : std::nullopt,
                        /*key_schema=*/std::nullopt,
                        /*value_schema=*/std::nullopt,
                        /*itemid=*/vars->itemid));
-- 
2.43.0


From 6d36006d29b76411207fcfd2243fce06ae1d925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 31/36] fix: wrong DCHECK in FillProtoRepeatedPrimitiveField

---
 koladata/proto/to_proto.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/proto/to_proto.cc b/koladata/proto/to_proto.cc
index ea1df74..e5f8658 100644
--- a/koladata/proto/to_proto.cc
+++ b/koladata/proto/to_proto.cc
@@ -309,7 +309,7 @@ absl::Status FillProtoRepeatedPrimitiveField(
               [&]<typename SrcT>(
                   const arolla::DenseArray<SrcT>& values) -> absl::Status {
                 DCHECK(is_first_dtype ||
-                       repeated_field_ref.size() == values.size());
+                       repeated_field_ref.size() == split_end - split_begin);
                 for (int64_t j = split_begin; j < split_end; ++j) {
                   // Note: because `MutableRepeatedFieldRef<std::string>` only
                   // has an `Add(const std::string&)` method, this makes an
-- 
2.43.0


From 2ef1e7cbca0912ea1200c76254bd210354c98da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 32/36] fix: SetAttrFullAlloc ignored values that are all
 removed

---
 koladata/internal/data_bag.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index 0085dc6..eb75564 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -1158,14 +1158,17 @@ absl::Status DataBagImpl::SetAttrFullAlloc(AllocationId alloc_id,
                                            absl::string_view attr,
                                            const DataSliceImpl& values) {
   RETURN_IF_ERROR(CheckNotFrozen());
-  if (values.is_empty_and_unknown()) {
+  if (const auto& types = values.types_buffer().id_to_typeidx;
+      values.is_empty_and_unknown() &&
+      std::find(types.begin(), types.end(), TypesBuffer::kRemoved) ==
+          types.end()) {
     // All new values are unset -> no op
     return absl::OkStatus();
   }
   SourceKeyView kv{alloc_id, attr};
 
   bool use_new_dense_source;
-  if (alloc_id.IsSmall()) {
+  if (alloc_id.IsSmall() || values.is_empty_and_unknown()) {
     use_new_dense_source = false;
   } else if (values.types_buffer().id_to_typeidx.empty()) {
     // No unset values, so existing data sources can be ignored.
-- 
2.43.0


From 7138f17c1dd02c614b614b70216cf5c78ffc6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 33/36] fix: check fallback_count in the decoder

---
 koladata/s11n/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koladata/s11n/decoder.cc b/koladata/s11n/decoder.cc
index f047c21..f252d7b 100644
--- a/koladata/s11n/decoder.cc
+++ b/koladata/s11n/decoder.cc
@@ -683,6 +683,9 @@ struct DataBagDecoder {
         return absl::InvalidArgumentError(
             "only empty DataBag can have fallbacks");
       }
+      if (db_proto.fallback_count() > input_values.size()) {
+        return absl::InvalidArgumentError("invalid fallback_count");
+      }
       std::vector<DataBagPtr> fallbacks;
       fallbacks.reserve(db_proto.fallback_count());
       for (int i = 0; i < db_proto.fallback_count(); ++i) {
-- 
2.43.0


From 61a4fbcaf3bb5af720bfa62b7cd2f9dfdeac1945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 34/36] fix: check the sizes of dict keys and values in the
 decoder

---
 koladata/s11n/decoder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/koladata/s11n/decoder.cc b/koladata/s11n/decoder.cc
index f252d7b..069a5a5 100644
--- a/koladata/s11n/decoder.cc
+++ b/koladata/s11n/decoder.cc
@@ -651,6 +651,11 @@ absl::Status DecodeDictProto(const KodaV1Proto::DictProto& dict_proto,
   ASSIGN_OR_RETURN(internal::DataSliceImpl values,
                    GetInputValue<internal::DataSliceImpl>(
                        input_values, dict_proto.values_subindex()));
+  if (keys.size() != values.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "dict keys and values sizes don't match: %d vs %d", keys.size(),
+        values.size()));
+  }
   if (dict_id.IsSchema()) {
     if (dict_id.IsSmallAlloc()) {
       internal::DataItem schema(dict_id);
-- 
2.43.0


From 4d1aa7cb2625e5322a814b008391ea7a94a6adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 35/36] fix: check the extra parts of slices in the decoder

---
 koladata/s11n/decoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/koladata/s11n/decoder.cc b/koladata/s11n/decoder.cc
index 069a5a5..c3bb413 100644
--- a/koladata/s11n/decoder.cc
+++ b/koladata/s11n/decoder.cc
@@ -279,7 +279,10 @@ absl::StatusOr<ValueDecoderResult> DecodeDataSliceCompactProto(
         const std::string& data,
         input_values[input_values.size() - slice_proto.extra_part_count() + i]
             .As<std::string>());
-    extra_parts[i].ParseFromString(data);
+    if (!extra_parts[i].ParseFromString(data)) {
+      return absl::InvalidArgumentError(
+          "invalid extra part of DataSliceCompactProto");
+    }
   }
   input_values = input_values.subspan(
       0, input_values.size() - slice_proto.extra_part_count());
-- 
2.43.0


From 0741c3208755c2e0e06e88fbdac04e9763f44649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 36/36] fix: ids of types above 127 in DType::FromId

---
 koladata/internal/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/dtype.h b/koladata/internal/dtype.h
index 699f69e..b0a0dd6 100644
--- a/koladata/internal/dtype.h
+++ b/koladata/internal/dtype.h
@@ -157,7 +157,7 @@ class DType {
 
   // Initializes a new DType with the provided type_id. Validates that the
   // `type_id()` represents a valid DType. Returns an error otherwise.
-  static absl::StatusOr<DType> FromId(DTypeId type_id) {
+  static absl::StatusOr<DType> FromId(int32_t type_id) {
     if (type_id == 9) {
       return absl::InvalidArgumentError(
           "unsupported DType: ANY - deprecated in cl/715818351");
@@ -166,7 +166,7 @@ class DType {
       return absl::InvalidArgumentError(
           absl::StrFormat("unsupported DType.type_id(): %v", type_id));
     }
-    return DType(type_id);
+    return DType(static_cast<DTypeId>(type_id));
   }
 
   // Creates a DType from QTypePtr `qtype` if it represents a primitive QType
-- 
2.43.0

