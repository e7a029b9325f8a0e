From 6865896eb0e85e159703f24d2da3ec50114fd43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 01/13] fix: a request segment spelled "*" or "**" is not a
 wildcard template segment

With GET /x/* and GET /x/** registered, GET /x/** was routed to /x/**
although /x/* matches and is more specific: the literal lookup of the request
segment found the child stored under the wildcard key.
---
 src/path_matcher_node.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 838a758..15034c9 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -158,7 +158,12 @@ void PathMatcherNode::LookupPath(RequestPathParts::const_iterator current,
       }
       return;
     }
-    if (LookupPathFromChild(*current, current, end, http_method, result)) {
+    // The wildcard children are stored under "*" and "**": a request segment
+    // that happens to be spelled that way is still just text, and must not
+    // select them ahead of their turn below.
+    if (*current != HttpTemplate::kWildCardPathPartKey &&
+        *current != HttpTemplate::kWildCardPathKey &&
+        LookupPathFromChild(*current, current, end, http_method, result)) {
       return;
     }
     if (!wildcard_) {
-- 
2.43.0


From 2b90edfa30146028cca8b681be2b5960b95fd356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 02/13] fix: match custom verbs of rules registered for any
 HTTP method

The HTTP method and the custom verb were concatenated into one key, and the
fallback key was plain "*": a rule registered as "*" with a custom verb
("/a:verb") never matched, while "*" with "/a" also matched /a:verb, and
method "GETverb" with /a matched the rule GET /a:verb.
---
 src/include/grpc_transcoding/path_matcher.h     | 17 ++++++++++++++---
 .../grpc_transcoding/path_matcher_node.h        |  5 +++++
 src/path_matcher_node.cc                        |  9 ++++++++-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index 1c0f6fe..bcd8a39 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -281,6 +281,14 @@ std::vector<std::string> ExtractRequestParts(
   return result;
 }
 
+// Combines the HTTP method and the custom verb (may be empty) into the key that
+// PathMatcherNode stores and looks up results by.
+HttpMethod MakeMethodKey(const std::string& http_method,
+                         const std::string& verb) {
+  return verb.empty() ? http_method
+                      : http_method + kHttpMethodVerbSeparator + verb;
+}
+
 // Looks up on a PathMatcherNode.
 PathMatcherLookupResult LookupInPathMatcherNode(
     const PathMatcherNode& root, const std::vector<std::string>& parts,
@@ -337,7 +345,8 @@ Method PathMatcher<Method>::Lookup(
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              MakeMethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -372,7 +381,8 @@ Method PathMatcher<Method>::Lookup(const std::string& http_method,
   }
 
   PathMatcherLookupResult lookup_result =
-      LookupInPathMatcherNode(*root_ptr_, parts, http_method + verb);
+      LookupInPathMatcherNode(*root_ptr_, parts,
+                              MakeMethodKey(http_method, verb));
   // Return nullptr if nothing is found or the result is marked for duplication.
   if (lookup_result.data == nullptr || lookup_result.is_multiple) {
     return nullptr;
@@ -425,7 +435,8 @@ bool PathMatcherBuilder<Method>::Register(
   method_data->body_field_path = body_field_path;
   method_data->system_query_parameter_names = system_query_parameter_names;
 
-  if (!InsertPathToNode(path_info, method_data.get(), http_method + ht->verb(),
+  if (!InsertPathToNode(path_info, method_data.get(),
+                        MakeMethodKey(http_method, ht->verb()),
                         root_ptr_.get())) {
     return false;
   }
diff --git a/src/include/grpc_transcoding/path_matcher_node.h b/src/include/grpc_transcoding/path_matcher_node.h
index 5571994..2529b1d 100644
--- a/src/include/grpc_transcoding/path_matcher_node.h
+++ b/src/include/grpc_transcoding/path_matcher_node.h
@@ -25,8 +25,13 @@ namespace google {
 namespace grpc {
 namespace transcoding {
 
+// The HTTP method, followed by the separator and the custom verb if there is a
+// custom verb: "GET", "GET:verb".
 typedef std::string HttpMethod;
 
+// Separates the HTTP method from the custom verb. Can't be a part of either.
+constexpr char kHttpMethodVerbSeparator = ':';
+
 struct PathMatcherLookupResult {
   PathMatcherLookupResult() : data(nullptr), is_multiple(false) {}
 
diff --git a/src/path_matcher_node.cc b/src/path_matcher_node.cc
index 15034c9..ceb79fa 100644
--- a/src/path_matcher_node.cc
+++ b/src/path_matcher_node.cc
@@ -245,8 +245,15 @@ bool PathMatcherNode::LookupPathFromChild(
 
 bool PathMatcherNode::GetResultForHttpMethod(
     HttpMethod key, PathMatcherLookupResult* result) const {
+  // The wildcard stands for any HTTP method, but the custom verb (if the key
+  // has one) still has to match.
+  const HttpMethod::size_type verb_pos = key.find(kHttpMethodVerbSeparator);
+  HttpMethod wildcard_key = HttpMethod_WILD_CARD;
+  if (verb_pos != HttpMethod::npos) {
+    wildcard_key.append(key, verb_pos, HttpMethod::npos);
+  }
   const PathMatcherLookupResult* found_p =
-      Find2KeysOrNull(result_map_, key, HttpMethod_WILD_CARD);
+      Find2KeysOrNull(result_map_, key, wildcard_key);
   if (found_p != nullptr) {
     *result = *found_p;
     return true;
-- 
2.43.0


From 29e8f1289d368ac6f94ef011c0e0064e960e99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 03/13] fix: bind variables after a "**" to the segments they
 match

The segment range of a variable behind a "**" was stored relative to the
start of the path, as if the "**" matched exactly one segment:
/**/{x=foo} bound x to "r" for the request /q/r/foo.
---
 src/http_template.cc                         | 10 ++++++++++
 src/include/grpc_transcoding/http_template.h |  2 +-
 src/include/grpc_transcoding/path_matcher.h  | 12 ++++++++----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/http_template.cc b/src/http_template.cc
index 7f8be50..c640313 100644
--- a/src/http_template.cc
+++ b/src/http_template.cc
@@ -16,6 +16,7 @@
 //
 #include "grpc_transcoding/http_template.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 
@@ -326,6 +327,10 @@ class Parser {
   }
 
   void PostProcessVariables() {
+    const int wildcard_segment =
+        std::find(segments_.begin(), segments_.end(),
+                  HttpTemplate::kWildCardPathKey) -
+        segments_.begin();
     for (auto &var : variables_) {
       if (var.has_wildcard_path) {
         // if the variable contains a '**', store the end_positon
@@ -334,6 +339,11 @@ class Parser {
         // this will allow the matcher code to reconstruct the variable
         // value based on the url segments.
         var.end_segment = (var.end_segment - segments_.size() - 1);
+      } else if (var.start_segment > wildcard_segment) {
+        // The variable is after the '**', which may match any number of
+        // segments: only the distance from the end is fixed.
+        var.start_segment = (var.start_segment - segments_.size() - 1);
+        var.end_segment = (var.end_segment - segments_.size() - 1);
       }
     }
   }
diff --git a/src/include/grpc_transcoding/http_template.h b/src/include/grpc_transcoding/http_template.h
index 8bc8dd7..0f16bf6 100644
--- a/src/include/grpc_transcoding/http_template.h
+++ b/src/include/grpc_transcoding/http_template.h
@@ -35,7 +35,7 @@ class HttpTemplate {
     // variable binds to. Both start_segment and end_segment are 0 based.
     // end_segment can also be negative, which means that the position is
     // specified relative to the end such that -1 corresponds to the end
-    // of the path.
+    // of the path. So can start_segment, if the variable is after a '**'.
     int start_segment;
     int end_segment;
 
diff --git a/src/include/grpc_transcoding/path_matcher.h b/src/include/grpc_transcoding/path_matcher.h
index bcd8a39..68b0021 100644
--- a/src/include/grpc_transcoding/path_matcher.h
+++ b/src/include/grpc_transcoding/path_matcher.h
@@ -181,22 +181,26 @@ void ExtractBindingsFromPath(const std::vector<HttpTemplate::Variable>& vars,
     //
     // In case of matching "**" - end_segment is negative and is relative to
     // the end such that end_segment = -1 will match all subsequent segments.
+    // Both are negative if the variable is after a "**".
     VariableBinding binding;
     binding.field_path = var.field_path;
-    // Calculate the absolute index of the ending segment in case it's negative.
+    // Calculate the absolute indexes of the segments in case they're negative.
+    size_t start_segment = (var.start_segment >= 0)
+                               ? var.start_segment
+                               : parts.size() + var.start_segment + 1;
     size_t end_segment = (var.end_segment >= 0)
                              ? var.end_segment
                              : parts.size() + var.end_segment + 1;
     // It is multi-part match if we have more than one segment. We also make
     // sure that a single URL segment match with ** is also considered a
-    // multi-part match by checking if it->second.end_segment is negative.
+    // multi-part match by checking has_wildcard_path.
     bool is_multipart =
-        (end_segment - var.start_segment) > 1 || var.end_segment < 0;
+        (end_segment - start_segment) > 1 || var.has_wildcard_path;
     const UrlUnescapeSpec var_unescape_spec =
         is_multipart ? unescape_spec : UrlUnescapeSpec::kAllCharacters;
 
     // Joins parts with "/"  to form a path string.
-    for (size_t i = var.start_segment; i < end_segment; ++i) {
+    for (size_t i = start_segment; i < end_segment; ++i) {
       // For multipart matches only unescape non-reserved characters.
       binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);
       if (i < end_segment - 1) {
-- 
2.43.0


From 9b1b6f6d39958a032edc3f3df5fe8e9914d46ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 04/13] fix: compare 64-bit binding values without truncating
 them to 32 bits

---
 src/request_weaver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 33fb2fb..04ebb2b 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -68,7 +68,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_INT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToInt64();
+      absl::StatusOr<int64_t> status = value_in_binding.ToInt64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "int64", value_in_binding);
       }
@@ -88,7 +88,7 @@ absl::Status isEqual(absl::string_view field_name,
       break;
     }
     case pbconv::DataPiece::TYPE_UINT64: {
-      absl::StatusOr<uint32_t> status = value_in_binding.ToUint64();
+      absl::StatusOr<uint64_t> status = value_in_binding.ToUint64();
       if (!status.ok()) {
         return bindingFailureStatus(field_name, "uint64", value_in_binding);
       }
-- 
2.43.0


From 6d99b022da323cd682ede1af7b589e8eaf73fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 05/13] fix: compare double binding values as doubles

---
 src/request_weaver.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 04ebb2b..8a28e04 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -41,7 +41,13 @@ namespace pbconv = google::protobuf::util::converter;
 
 namespace {
 
-bool AlmostEquals(float a, float b) { return fabs(a - b) < 32 * FLT_EPSILON; }
+bool AlmostEquals(float a, float b) {
+  return a == b || std::fabs(a - b) < 32 * FLT_EPSILON;
+}
+
+bool AlmostEquals(double a, double b) {
+  return a == b || std::fabs(a - b) < 32 * DBL_EPSILON;
+}
 
 absl::Status bindingFailureStatus(absl::string_view field_name,
                                   absl::string_view type,
-- 
2.43.0


From f36f5ebc76b7f8a1dbfb1890a96b6b43695e13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 06/13] fix: recognize bound fields that the body spells by
 their JSON name

---
 src/request_weaver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 8a28e04..f6be676 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -168,6 +168,13 @@ absl::Status isEqual(absl::string_view field_name,
   return absl::OkStatus();
 }
 
+// Whether the name used in the body (either the proto name or the JSON name)
+// refers to the given field.
+bool IsFieldName(const pb::Field& field, absl::string_view name) {
+  return name == field.name() ||
+         (!field.json_name().empty() && name == field.json_name());
+}
+
 }  // namespace
 
 RequestWeaver::RequestWeaver(std::vector<BindingInfo> bindings,
@@ -361,7 +368,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 
   for (auto it = current_.top()->bindings.begin();
        it != current_.top()->bindings.end();) {
-    if (name == it->first->name()) {
+    if (IsFieldName(*it->first, name)) {
       if (it->first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
         pbconv::ObjectWriter::RenderDataPieceTo(
             pbconv::DataPiece(absl::string_view(it->second), true), name, ow_);
@@ -384,7 +391,7 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-    if (field_name == msg.first->name()) {
+    if (IsFieldName(*msg.first, field_name)) {
       return &msg.second;
     }
   }
-- 
2.43.0


From e3b133b6959bdffe616f37a16e96f25e04233535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 07/13] fix: apply the parsing options to every message of a
 request stream

---
 src/request_stream_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request_stream_translator.cc b/src/request_stream_translator.cc
index ab679cc..73bddee 100644
--- a/src/request_stream_translator.cc
+++ b/src/request_stream_translator.cc
@@ -229,6 +229,10 @@ void RequestStreamTranslator::StartMessageTranslator() {
   RequestInfo request_info;
   request_info.message_type = request_info_.message_type;
   request_info.body_field_path = request_info_.body_field_path;
+  request_info.reject_binding_body_field_collisions =
+      request_info_.reject_binding_body_field_collisions;
+  request_info.case_insensitive_enum_parsing =
+      request_info_.case_insensitive_enum_parsing;
   // As we need to weave the variable bindings only for the first message, we
   // can use vector::swap() to avoid copying and to clear the bindings from
   // request_info_, s.t. the subsequent messages don't use them.
-- 
2.43.0


From 0d91e97a4fbbf76411cb1dba9511b346db1fe232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 08/13] fix: do not return a partial message after a request
 translation error

---
 src/json_request_translator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index 0b3276e..cabc839 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -63,6 +63,10 @@ class LazyRequestTranslator : public MessageStream {
 
   // MessageStream implementation
   bool NextMessage(std::string* message) {
+    if (!status_.ok()) {
+      // Never return (partial) messages after an error.
+      return false;
+    }
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-- 
2.43.0


From d55f0c4184193d87509c240256058767c0a8d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 09/13] fix: return a request message completed by the end of
 the input right away

---
 src/json_request_translator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json_request_translator.cc b/src/json_request_translator.cc
index cabc839..edd1d15 100644
--- a/src/json_request_translator.cc
+++ b/src/json_request_translator.cc
@@ -70,8 +70,9 @@ class LazyRequestTranslator : public MessageStream {
     // Keep translating chunks until a message appears in the translated stream.
     while (!translated_->NextMessage(message)) {
       if (!TranslateChunk()) {
-        // Error or no more input to translate.
-        return false;
+        // Error or no more input to translate. Finishing the parser at the end
+        // of the input may have completed a message.
+        return status_.ok() && translated_->NextMessage(message);
       }
     }
     return true;
-- 
2.43.0


From 44098bc01b2950515853fa5d04a6f55c5c3170f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 10/13] fix: clear the output at the end of a newline-delimited
 response stream

---
 src/response_to_json_translator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index 720a855..bdf50a4 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -70,6 +70,8 @@ bool ResponseToJsonTranslator::NextMessage(std::string* message) {
       // finished. Return the final ']'
       // or "[]" in case this was an empty stream.
       *message = first_ ? "[]" : "]";
+    } else {
+      message->clear();
     }
     finished_ = true;
     return true;
-- 
2.43.0


From 8238885fb16498004bdfa190444b211ca80a88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 11/13] fix: reject response messages that are not translated
 to their end

---
 src/response_to_json_translator.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/response_to_json_translator.cc b/src/response_to_json_translator.cc
index bdf50a4..d2d3cbb 100644
--- a/src/response_to_json_translator.cc
+++ b/src/response_to_json_translator.cc
@@ -135,6 +135,16 @@ bool ResponseToJsonTranslator::TranslateMessage(
     return false;
   }
 
+  // The translation stops at a zero tag. Such a message is malformed, and its
+  // remaining bytes must not be taken for the next message.
+  const void* rest = nullptr;
+  int rest_size = 0;
+  if (proto_in->Next(&rest, &rest_size)) {
+    status_ = absl::Status(absl::StatusCode::kInvalidArgument,
+                           "Failed to parse the response message.");
+    return false;
+  }
+
   // Append a newline delimiter after the message if needed.
   if (streaming_ && options_.stream_newline_delimited) {
     if (!WriteChar(&json_stream, '\n')) {
-- 
2.43.0


From cc3d679fba63c6ce05ac7fbfdd61776a2fcbe741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 12/13] fix: drop the bound value of a field that the body sets
 to an object or list

---
 src/include/grpc_transcoding/request_weaver.h |  4 ++++
 src/request_weaver.cc                         | 23 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/include/grpc_transcoding/request_weaver.h b/src/include/grpc_transcoding/request_weaver.h
index 589351d..4a8e9c8 100644
--- a/src/include/grpc_transcoding/request_weaver.h
+++ b/src/include/grpc_transcoding/request_weaver.h
@@ -132,6 +132,10 @@ class RequestWeaver : public google::protobuf::util::converter::ObjectWriter {
       absl::string_view name,
       const ::google::protobuf::util::converter::DataPiece& value);
 
+  // Drops the bindings of a singular field with the given name, which the body
+  // sets to an object or a list (e.g. a google.protobuf.Value field).
+  void StructuredValueCollisionCheck(absl::string_view name);
+
   // All the headers, variable bindings and parameter bindings to be weaved in.
   //   root_   : root of the tree to be weaved in.
   //   current_: stack of nodes in the current visit path from the root.
diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index f6be676..5f0e4fa 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -199,6 +199,7 @@ RequestWeaver* RequestWeaver::StartObject(absl::string_view name) {
     return this;
   }
   if (non_actionable_depth_ == 0) {
+    StructuredValueCollisionCheck(name);
     WeaveInfo* info = current_.top()->FindWeaveMsg(name);
     if (info != nullptr) {
       current_.push(info);
@@ -224,6 +225,9 @@ RequestWeaver* RequestWeaver::EndObject() {
 
 RequestWeaver* RequestWeaver::StartList(absl::string_view name) {
   ow_->StartList(name);
+  if (non_actionable_depth_ == 0) {
+    StructuredValueCollisionCheck(name);
+  }
   // We don't support weaving inside lists, so we won't need to do any matching
   // until we leave this list.
   ++non_actionable_depth_;
@@ -388,6 +392,25 @@ void RequestWeaver::CollisionCheck(absl::string_view name,
   }
 }
 
+void RequestWeaver::StructuredValueCollisionCheck(absl::string_view name) {
+  if (current_.empty()) return;
+
+  current_.top()->bindings.remove_if([this, name](const auto& binding) {
+    if (!IsFieldName(*binding.first, name) ||
+        binding.first->cardinality() == pb::Field::CARDINALITY_REPEATED) {
+      return false;
+    }
+    if (report_collisions_) {
+      error_listener_->set_status(absl::Status(
+          absl::StatusCode::kInvalidArgument,
+          absl::StrFormat("The binding value %s of the field %s is "
+                          "conflicting with the value in the body.",
+                          binding.second, std::string(name))));
+    }
+    return true;
+  });
+}
+
 RequestWeaver::WeaveInfo* RequestWeaver::WeaveInfo::FindWeaveMsg(
     const absl::string_view field_name) {
   for (auto& msg : messages) {
-- 
2.43.0


From 014b213c030988551a9a5da4afce5090a2b8a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 13/13] fix: Ignore a binding with an empty field path instead
 of reading past it

---
 src/request_weaver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_weaver.cc b/src/request_weaver.cc
index 5f0e4fa..6ab593d 100644
--- a/src/request_weaver.cc
+++ b/src/request_weaver.cc
@@ -339,7 +339,7 @@ void RequestWeaver::Bind(std::vector<const pb::Field*> field_path,
 
   // Find or create the path from the root to the leaf message, where the value
   // should be injected.
-  for (size_t i = 0; i < field_path.size() - 1; ++i) {
+  for (size_t i = 0; i + 1 < field_path.size(); ++i) {
     current = current->FindOrCreateWeaveMsg(field_path[i]);
   }
 
-- 
2.43.0

