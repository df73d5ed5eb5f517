From dc7f8d8887fc0f10c2c6b746bfc1ae701cadd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:39 +0000
Subject: [PATCH 001/104] fix: dividing by zero in a breakpoint condition must
 not kill the simulation

---
 src/eval.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..7132a03 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -376,6 +376,20 @@ Expr* parse(const std::string& value, DebugExpression& debug_expression) {
     }
 }
 
+// the operands come from the simulation, so the divisor can be anything. a division that has no
+// result must not take the simulator down: it's x in RTL, which counts as 0 in conditions
+ExpressionType divide_values(ExpressionType left, ExpressionType right) {
+    if (right == 0) return 0;
+    // INT64_MIN / -1 overflows
+    if (right == -1) return static_cast<ExpressionType>(0 - static_cast<uint64_t>(left));
+    return left / right;
+}
+
+ExpressionType mod_values(ExpressionType left, ExpressionType right) {
+    if (right == 0 || right == -1) return 0;
+    return left % right;
+}
+
 ExpressionType Expr::eval() const {
     switch (op) {
         case Operator::None:
@@ -391,9 +405,9 @@ ExpressionType Expr::eval() const {
         case Operator::Multiply:
             return left->eval() * right->eval();
         case Operator::Divide:
-            return left->eval() / right->eval();
+            return divide_values(left->eval(), right->eval());
         case Operator::Mod:
-            return left->eval() % right->eval();
+            return mod_values(left->eval(), right->eval());
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From 205de9a6f8a1a2f84dab15bf85cc35d1c9c12e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:20 +0000
Subject: [PATCH 002/104] fix: an unclosed bracket in an expression must be
 rejected, not corrupt the parser state

---
 src/eval.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 7132a03..396085d 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -75,7 +75,9 @@ struct close_bracket : seq<star<space>, one<')'>> {};
 
 struct expression;
 struct unary_expression;
-struct bracketed : seq<open_bracket, expression, close_bracket> {};
+// nothing else starts with a bracket, so a failure inside is final. backtracking out of it would
+// leave the parser state open
+struct bracketed : if_must<open_bracket, expression, close_bracket> {};
 struct value : pad<sor<hex_integer, integer, variable, bracketed>, space> {};
 struct unary_expression0 : sor<seq<unary_op, value>, seq<unary_op, unary_expression>> {};
 struct unary_expression : sor<value, pad<unary_expression0, space>> {};
-- 
2.43.0


From 36b04a42300a3d76e762fd0fbd21e65b2f299d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:43 +0000
Subject: [PATCH 003/104] fix: a message or payload that is not a JSON object
 must be rejected, not abort the simulator

---
 src/proto.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..299bfd6 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -179,7 +179,8 @@ namespace hgdb {
 template <typename T>
 static bool check_member(T &document, const char *member_name, std::string &error,
                          bool set_error = true) {
-    if (!document.HasMember(member_name)) {
+    // members can only be looked up in an object
+    if (!document.IsObject() || !document.HasMember(member_name)) {
         if (set_error) error = fmt::format("Unable to find member {0}", member_name);
         return false;
     }
@@ -980,6 +981,12 @@ void OptionChangeRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
+    if (!document.IsObject()) {
+        error_reason_ = "Options have to be an object";
+        status_code_ = status_code::error;
+        return;
+    }
+
     // need to loop through the map by hand
     for (auto const &option : document.GetObject()) {
         std::string name = option.name.GetString();
@@ -1397,7 +1404,7 @@ void SymbolResponse::parse(const std::string &str) {
     document.Parse(str.c_str());
     if (document.HasParseError()) return;
 
-    if (!document.HasMember("result")) return;
+    if (!document.IsObject() || !document.HasMember("result")) return;
     auto const &result = document["result"];
 
     // we ignore type since it's a single thread model
-- 
2.43.0


From 305b0c08e21cb6c7fc5e74c9dfd861a58ad4b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:43 +0000
Subject: [PATCH 004/104] fix: numbers of the wrong kind in a request must be
 rejected, not abort the simulator

---
 src/proto.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index 299bfd6..4d3a290 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -198,7 +198,8 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
+        // has to fit. negative and fractional numbers are no ids or line numbers
+        if (document[member_name].template Is<T>()) {
             return document[member_name].template Get<T>();
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
-- 
2.43.0


From e6e0f08f8fbee9c3bde7efd5582ec85d9f0e5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:43 +0000
Subject: [PATCH 005/104] fix: a breakpoint request without a line number must
 be rejected

---
 src/proto.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 4d3a290..663075d 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -788,10 +788,11 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
 
     bool line_num_required = bp_action_ == action::add;
     auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
-        bp_.line_num = *line_num;
-    else
-        bp_.line_num = 0;
+    if (line_num_required && !line_num) {
+        status_code_ = status_code::error;
+        return;
+    }
+    bp_.line_num = line_num ? *line_num : 0;
 
     auto column_num = get_member<uint64_t>(document, "column_num", error_reason_, false);
     auto condition = get_member<std::string>(document, "condition", error_reason_, false);
-- 
2.43.0


From a454465525bfd794ab898609b0908a1cfa400b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:43 +0000
Subject: [PATCH 006/104] fix: a monitor request with an unknown action must be
 rejected

---
 src/proto.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto.cc b/src/proto.cc
index 663075d..e89dbc9 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1024,6 +1024,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
     } else if (*action_type == "remove") {
         action_type_ = ActionType::remove;
     } else {
+        status_code_ = status_code::error;
         error_reason_ = "Unknown action type " + *action_type;
         return;
     }
-- 
2.43.0


From b687ec1e09e91eb4f29abe5b3cd0ab254e361798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:31 +0000
Subject: [PATCH 007/104] fix: the condition of an assignment from a symbol
 server must not replace the variable name

---
 src/proto.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index e89dbc9..936949a 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1499,7 +1499,7 @@ void SymbolResponse::parse(const std::string &str) {
                     if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
                         breakpoint_id = value.GetUint64();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
-                                key == "variable_name") ||
+                                key == "variable_name") &&
                                value.IsString()) {
                         var_name = value.GetString();
                     } else if ((key == "condition" || key == "cond") && value.IsString()) {
-- 
2.43.0


From 37f43fd2ca02c6faacac1afdc5f35524b2cd953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:31 +0000
Subject: [PATCH 008/104] fix: numbers of the wrong kind from a symbol server
 must be ignored, not abort the simulator

---
 src/proto.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 936949a..98c63fb 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1434,7 +1434,7 @@ void SymbolResponse::parse(const std::string &str) {
             break;
         }
         case SymbolRequest::request_type::get_instance_id: {
-            if (!result.IsNumber()) return;
+            if (!result.IsUint64()) return;
             uint64_t_result = result.GetUint64();
             break;
         }
@@ -1482,7 +1482,7 @@ void SymbolResponse::parse(const std::string &str) {
         case SymbolRequest::request_type::get_execution_bp_orders: {
             if (!result.IsArray()) return;
             for (auto const &entry : result.GetArray()) {
-                if (!entry.IsNumber()) return;
+                if (!entry.IsUint64()) return;
                 uint64_t_results.emplace_back(entry.GetUint64());
             }
             break;
@@ -1496,7 +1496,7 @@ void SymbolResponse::parse(const std::string &str) {
                 std::optional<uint32_t> breakpoint_id;
                 std::optional<std::string> var_name, condition;
                 for (auto const &[key, value] : entry.GetObject()) {
-                    if ((key == "id" || key == "breakpoint_id") && value.IsNumber()) {
+                    if ((key == "id" || key == "breakpoint_id") && value.IsUint64()) {
                         breakpoint_id = value.GetUint64();
                     } else if ((key == "var" || key == "value" || key == "var_name" ||
                                 key == "variable_name") &&
-- 
2.43.0


From d018c92b63be3965adde297e572f1ee5a3ced32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:31 +0000
Subject: [PATCH 009/104] fix: variables and breakpoint orders must be written
 in the format the symbol protocol reads

---
 src/proto.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 98c63fb..80f8a9e 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -318,17 +318,22 @@ void set_member(K &v, A &allocator, const T &value) {
         set_member(v, allocator, "value", value.value);
         set_member(v, allocator, "is_rtl", value.is_rtl);
     } else if constexpr (std::is_same<T, std::pair<ContextVariable, Variable>>::value) {
+        // [context variable, variable], the way it's parsed
         auto const &[context, var] = value;
-        set_member(v, allocator, "name", context.name);
-        set_member(v, allocator, "breakpoint_id", *context.breakpoint_id);
-        set_member(v, allocator, "variable_id", *context.variable_id);
-        set_member(v, allocator, var);
+        rapidjson::Value context_v(rapidjson::kObjectType), var_v(rapidjson::kObjectType);
+        set_member(context_v, allocator, "name", context.name);
+        set_member(context_v, allocator, "breakpoint_id", *context.breakpoint_id);
+        set_member(context_v, allocator, "variable_id", *context.variable_id);
+        set_member(var_v, allocator, var);
+        v.SetArray().PushBack(context_v.Move(), allocator).PushBack(var_v.Move(), allocator);
     } else if constexpr (std::is_same<T, std::pair<GeneratorVariable, Variable>>::value) {
         auto const &[gen, var] = value;
-        set_member(v, allocator, "name", gen.name);
-        set_member(v, allocator, "instance_id", *gen.instance_id);
-        set_member(v, allocator, "variable_id", *gen.variable_id);
-        set_member(v, allocator, var);
+        rapidjson::Value gen_v(rapidjson::kObjectType), var_v(rapidjson::kObjectType);
+        set_member(gen_v, allocator, "name", gen.name);
+        set_member(gen_v, allocator, "instance_id", *gen.instance_id);
+        set_member(gen_v, allocator, "variable_id", *gen.variable_id);
+        set_member(var_v, allocator, var);
+        v.SetArray().PushBack(gen_v.Move(), allocator).PushBack(var_v.Move(), allocator);
     } else if constexpr (std::is_same<T, std::tuple<uint32_t, std::string, std::string>>::value) {
         set_member(v, allocator, "id", std::get<0>(value));
         set_member(v, allocator, "var", std::get<1>(value));
@@ -349,7 +354,8 @@ void set_member(K &v, A &allocator, const T &value) {
             entry_v.SetString(entry.c_str(), entry.size(), allocator);
             v.PushBack(entry_v.Move(), allocator);
         }
-    } else if constexpr (std::is_same<T, std::vector<uint64_t>>::value) {
+    } else if constexpr (std::is_same<T, std::vector<uint32_t>>::value ||
+                         std::is_same<T, std::vector<uint64_t>>::value) {
         for (auto const entry : value) {
             rapidjson::Value entry_v(rapidjson::kNumberType);
             entry_v.SetUint64(entry);
-- 
2.43.0


From 246cc5975d587011393fbe04fb42077d605122c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:51 +0000
Subject: [PATCH 010/104] fix: the end of a VCD file must end the parsing,
 whether or not the file is complete

A file without a newline at the end had a NUL appended to its last token, and a file that
ended in a meta or dump section was read forever.
---
 tools/vcd/vcd.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index f2e94f7..cb89ee0 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -25,7 +25,8 @@ std::string next_token(std::istream &stream) {
     uint64_t length = 0;
     while (!stream.eof()) {
         char c = '\0';
-        stream.get(c);
+        // at the end of the file there is nothing to append to the token
+        if (!stream.get(c)) break;
         if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') {
             if (length == 0)
                 continue;
@@ -151,7 +152,8 @@ void VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
     std::string token;
     uint64_t start_pos = tellg();
 
-    while ((token = next_token(stream_)) != end_str) {
+    // an empty token is the end of a truncated file
+    while ((token = next_token(stream_)) != end_str && !token.empty()) {
         ss << " " << token;
     }
     if (on_meta_info_) {
@@ -246,7 +248,8 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
             while (true) {
                 token = next_token(stream_);
-                if (token == "$end") {
+                // an empty token is the end of a truncated file
+                if (token.empty() || token == "$end") {
                     break;
                 } else if (std::string("01xz").find(token[0]) != std::string::npos) {
                     auto value = std::string(1, token[0]);
-- 
2.43.0


From 9718212e11157344389b2825be866e6a2489f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:17 +0000
Subject: [PATCH 011/104] fix: VCD timestamps are 64 bits wide, and a malformed
 number is an error of the file

A timestamp from 2^31 on, or a malformed timestamp or width, threw an exception that ended the
tool.
---
 tools/vcd/vcd.cc | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index cb89ee0..b529f80 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -1,5 +1,6 @@
 #include "vcd.hh"
 
+#include <charconv>
 #include <filesystem>
 #include <sstream>
 
@@ -42,6 +43,16 @@ std::string next_token(std::istream &stream) {
 
 std::string next_token(std::istream *stream) { return next_token(*stream); }
 
+// returns std::nullopt if the token is not exactly a number that fits
+template <typename T>
+std::optional<T> parse_number(std::string_view token) {
+    T value = 0;
+    auto const *end = token.data() + token.size();
+    auto [ptr, ec] = std::from_chars(token.data(), end, value);
+    if (ec != std::errc() || ptr != end) return std::nullopt;
+    return value;
+}
+
 bool VCDParser::parse() {  // NOLINT
     if (has_error_) return false;
     // the code below is mostly designed by Teguh Hofstee (https://github.com/hofstee)
@@ -185,7 +196,13 @@ bool VCDParser::parse_var_def() {
     static VCDVarDef var_def;
     var_def.start_pos = tellg();
     var_def.type = next_token(stream_);
-    var_def.width = std::stoul(next_token(stream_));
+    auto width_token = next_token(stream_);
+    auto width = parse_number<uint32_t>(width_token);
+    if (!width) {
+        error_message_ = "Illegal variable width: " + width_token;
+        return false;
+    }
+    var_def.width = *width;
     var_def.identifier = next_token(stream_);
     var_def.name = next_token(stream_);
 
@@ -231,7 +248,12 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         if (token.empty()) return true;
 
         if (token[0] == '#') {
-            timestamp = std::stoi(std::string(token.substr(1)));
+            auto time = parse_number<uint64_t>(std::string_view(token).substr(1));
+            if (!time) {
+                error_message_ = "Illegal timestamp: " + token;
+                return false;
+            }
+            timestamp = *time;
             if (on_time_change_) (*on_time_change_)(timestamp);
         } else if (std::string("01xz").find(token[0]) != std::string::npos) {
             auto value = std::string(1, token[0]);
-- 
2.43.0


From 16f04e996852a75f3b984b066934926f96950d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 012/104] fix: value changes in upper case must be read,
 comments and the identifiers of reals must not be

---
 tools/vcd/vcd.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index b529f80..4445bad 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -1,5 +1,6 @@
 #include "vcd.hh"
 
+#include <cctype>
 #include <charconv>
 #include <filesystem>
 #include <sstream>
@@ -235,6 +236,8 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
                                                     bool is_event = false) {
         VCDValue v{
             .time = timestamp, .identifier = identifier, .value = value, .is_event = is_event};
+        // VCD values can be in upper case as well
+        for (auto &c : v.value) c = static_cast<char>(std::tolower(c));
         v.start_pos = start_pos;
         v.end_pos = tellg();
         if (on_value_change_) {
@@ -255,12 +258,12 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
             }
             timestamp = *time;
             if (on_time_change_) (*on_time_change_)(timestamp);
-        } else if (std::string("01xz").find(token[0]) != std::string::npos) {
+        } else if (std::string("01xzXZ").find(token[0]) != std::string::npos) {
             auto value = std::string(1, token[0]);
             auto ident = std::string(token.substr(1));
 
             add_value(ident, value, true);
-        } else if (std::string("b").find(token[0]) != std::string::npos) {
+        } else if (std::string("bB").find(token[0]) != std::string::npos) {
             auto value = std::string(token.substr(1));
             auto ident = std::string(next_token(stream_));
 
@@ -273,18 +276,26 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
                 // an empty token is the end of a truncated file
                 if (token.empty() || token == "$end") {
                     break;
-                } else if (std::string("01xz").find(token[0]) != std::string::npos) {
+                } else if (std::string("01xzXZ").find(token[0]) != std::string::npos) {
                     auto value = std::string(1, token[0]);
                     auto ident = std::string(token.substr(1));
 
                     add_value(ident, value, true);
-                } else if (std::string("b").find(token[0]) != std::string::npos) {
+                } else if (std::string("bB").find(token[0]) != std::string::npos) {
                     auto value = std::string(token.substr(1));
                     auto ident = std::string(next_token(stream_));
 
                     add_value(ident, value);
+                } else if (token[0] == 'r' || token[0] == 'R') {
+                    next_token(stream_);
                 }
             }
+        } else if (token[0] == 'r' || token[0] == 'R') {
+            // real values are not supported, but their identifiers are not value changes
+            next_token(stream_);
+        } else if (token == "$comment") {
+            // neither is whatever a comment says
+            while (!token.empty() && token != end_str) token = next_token(stream_);
         }
     }
 }
-- 
2.43.0


From b9f8d71dfe7cdc352f337c85a3cbe73e161e6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 013/104] fix: a source path mapping must apply to the paths in
 the directory only

/src/a was mapped along with /src/ab.
---
 src/symbol.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..4aa2f26 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -18,6 +18,13 @@ auto constexpr WS_SCHEMA = "ws://";
 
 namespace hgdb {
 
+// whether the path is the directory itself or something in it
+bool is_within(const std::string &path, const std::string &dir) {
+    if (!path.starts_with(dir)) return false;
+    return dir.empty() || dir.back() == '/' || path.size() == dir.size() ||
+           path[dir.size()] == '/';
+}
+
 std::string resolve(const std::string &src_path, const std::string &dst_path,
                     const std::string &target) {
     namespace fs = std::filesystem;
@@ -192,7 +199,7 @@ std::string SymbolTableProvider::resolve_filename_to_db(const std::string &filen
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[src_path, dst_path] : src_remap_) {
-        if (filename.starts_with(src_path)) {
+        if (is_within(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
@@ -205,7 +212,7 @@ std::string SymbolTableProvider::resolve_filename_to_client(const std::string &f
     if (src_remap_.empty()) [[likely]]
         return filename;
     for (auto const &[dst_path, src_path] : src_remap_) {
-        if (src_path.empty() || filename.starts_with(src_path)) {
+        if (is_within(filename, src_path)) {
             return resolve(src_path, dst_path, filename);
         }
     }
-- 
2.43.0


From 119aa4438cd96f85602b1c0eae0410af53827d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 014/104] fix: a signal whose name starts with the name of its
 instance must still be resolved in the instance

---
 src/symbol.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 4aa2f26..aed79e2 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -59,6 +59,12 @@ bool rtl_equivalent(const std::string &a, const std::string &b) {
     return true;
 }
 
+// whether the RTL name is already the full name of something in the instance
+bool has_instance_name(const std::string &name, const std::string &instance_name) {
+    return name.starts_with(instance_name) &&
+           (name.size() == instance_name.size() || name[instance_name.size()] == '.');
+}
+
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     const std::string &scoped_name, uint64_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
@@ -73,7 +79,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
         auto const &[ctx, var] = *it;
         if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (has_instance_name(var.value, *inst_name)) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
@@ -94,7 +100,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     for (auto const &[gen, var] : vars) {
         if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (has_instance_name(var.value, *inst_name)) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
-- 
2.43.0


From 86b9d083896a90a1f200206583e02ac174fe2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 015/104] fix: an empty or too large constant in the symbol
 table must not end the simulation

---
 src/symbol.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index aed79e2..1093e37 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -187,8 +187,9 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
         auto const &[ctx, var] = *it;
         if (!var.is_rtl) {
             if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
-                auto v = std::stoll(var.value);
-                result.emplace(ctx.name, v);
+                // could be empty or too large
+                auto v = util::stol(var.value);
+                if (v) result.emplace(ctx.name, *v);
             }
         }
     }
-- 
2.43.0


From e0e0f47701d8c0c8416267b2253cdd852c5cec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 016/104] fix: there is no instance with an empty name

---
 src/db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db.cc b/src/db.cc
index b44e6c7..62b5766 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1368,6 +1368,7 @@ std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(uint64_t breakp
 
 std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(const std::string &instance_name) {
     auto instances = util::get_tokens(instance_name, ".");
+    if (instances.empty()) return std::nullopt;
     for (auto const &root : roots_) {
         if (instances[0] == root->name) {
             auto const *p = root.get();
-- 
2.43.0


From 634752784372a3a036c3b0a48df9947ead38acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 017/104] fix: a statement belongs to the innermost file only

A breakpoint in the file of an outer scope was also set in scopes inlined from other files.
---
 src/db.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 62b5766..a551a84 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1184,6 +1184,8 @@ private:
                     is_filename_equivalent(filename_, block->filename)) {
                     return block;
                 }
+                // the innermost filename is the one that counts
+                if (!block->filename.empty()) return nullptr;
             }
 
             p = p->parent;
-- 
2.43.0


From e78e6835972ec211b0cf081a2e2b818630cf8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 018/104] fix: a relative path in the symbol table must be
 found by its own name

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index a551a84..44108c3 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1162,7 +1162,8 @@ private:
         if (ref_path.empty()) return false;
         if (is_relative(ref_path)) {
             auto f = base_name(query_path);
-            return ref_path == f;
+            // the client may also use the very name it was given by the symbol table
+            return ref_path == f || ref_path == query_path;
         } else {
             return query_path == ref_path;
         }
-- 
2.43.0


From 96e3a722d8cc855e32eac16a298856c971da2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 019/104] fix: conditions of nested scopes must all hold,
 whatever operators they use

'a || b' inside 'c' was taken as 'a || (b && c)'.
---
 src/db.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 44108c3..1b9cc04 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -441,7 +441,7 @@ struct ScopeEntry {
                 if (cond.empty()) {
                     cond = p->condition;
                 } else {
-                    cond.append(" && ").append(p->condition);
+                    cond = fmt::format("({0}) && ({1})", cond, p->condition);
                 }
             }
 
@@ -1763,7 +1763,7 @@ std::string merge_condition(const std::string &cond1, const std::string &cond2)
     } else if (cond1.empty() && !cond2.empty()) {
         return cond2;
     } else {
-        return fmt::format("{0} && {1}", cond1, cond2);
+        return fmt::format("({0}) && ({1})", cond1, cond2);
     }
 }
 
-- 
2.43.0


From 8233cb95763b32fccdacef00d06c73d363385d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 020/104] fix: a variable defined by reference can be a delayed
 variable as well

---
 src/db.cc | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 1b9cc04..b1d58e1 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -713,6 +713,23 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
     return result;
 }
 
+void set_var_def(const rapidjson::Value &value, VarDef &var) {
+    var.name = value["name"].GetString();
+    var.value = value["value"].GetString();
+    var.rtl = value["rtl"].GetBool();
+
+    if (value.HasMember("type")) {
+        std::string t = value["type"].GetString();
+        if (t == "delay") {
+            var.type = VariableType::delay;
+
+            if (value.HasMember("depth")) {
+                var.depth = value["depth"].GetUint();
+            }
+        }
+    }
+}
+
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info) {
     std::shared_ptr<VarDef> var;
     if (value.IsString()) {
@@ -724,20 +741,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
         }
     } else {
         var = std::make_shared<VarDef>();
-        var->name = value["name"].GetString();
-        var->value = value["value"].GetString();
-        var->rtl = value["rtl"].GetBool();
-
-        if (value.HasMember("type")) {
-            std::string t = value["type"].GetString();
-            if (t == "delay") {
-                var->type = VariableType::delay;
-
-                if (value.HasMember("depth")) {
-                    var->depth = value["depth"].GetUint();
-                }
-            }
-        }
+        set_var_def(value, *var);
     }
 
     if (!var) {
@@ -753,9 +757,7 @@ void parse_var_defs(const rapidjson::Document &document, JSONParseInfo &info) {
     auto variables = document["variables"].GetArray();
     for (auto const &var_def : variables) {
         auto var = std::make_shared<VarDef>();
-        var->name = var_def["name"].GetString();
-        var->value = var_def["value"].GetString();
-        var->rtl = var_def["rtl"].GetBool();
+        set_var_def(var_def, *var);
         std::string id = var_def["id"].GetString();
         info.var_defs.emplace(id, var);
     }
-- 
2.43.0


From 24bbbe3cb52dd071ddad21de2ed9428d8e949555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:05 +0000
Subject: [PATCH 021/104] fix: strings in a symbol table must be written as
 valid JSON strings

---
 include/json.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/json.hh b/include/json.hh
index 6eb814d..1d58d93 100644
--- a/include/json.hh
+++ b/include/json.hh
@@ -84,8 +84,12 @@ private:
     static std::string escape(std::string_view value) {
         std::stringstream ss;
         for (auto c : value) {
-            if (c == '\\') {
-                ss << '\\' << '\\';
+            if (c == '\\' || c == '"') {
+                ss << '\\' << c;
+            } else if (static_cast<unsigned char>(c) < 0x20) {
+                // control characters are not allowed in a JSON string
+                constexpr auto hex = "0123456789abcdef";
+                ss << "\\u00" << hex[c >> 4] << hex[c & 0xF];
             } else {
                 ss << c;
             }
-- 
2.43.0


From c454494e843f6b2f4f00471762733b174dd8a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:05 +0000
Subject: [PATCH 022/104] fix: a JSON symbol table with errors must be refused
 from a file as well

---
 src/db.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index b1d58e1..3b0c95f 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1101,6 +1101,11 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
         document.ParseStream(isw);
         db::json::JSONParseInfo info(module_defs_, var_defs_, attributes_);
         roots_ = db::json::parse(document, info);
+        if (!info.error_reason.empty()) {
+            log::log(log::log_level::error, info.error_reason);
+            roots_.clear();
+            return;
+        }
 
         reordering_ = reordering(document);
     }
-- 
2.43.0


From c8abf994c296d44eff1bb51c4630d20ec3b763b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:51 +0000
Subject: [PATCH 023/104] fix: integers out of range in a JSON symbol table
 must not abort the simulator

---
 src/db.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 3b0c95f..f6283e2 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -590,12 +590,15 @@ std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSON
 std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONParseInfo &info);
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info);
 
+// the schema allows any integer. use 0 for the ones that cannot be a line, column, or index
+uint32_t get_uint(const rapidjson::Value &value) { return value.IsUint() ? value.GetUint() : 0; }
+
 void set_scope_entry_value(const rapidjson::Value &value, ScopeEntry &result) {
     if (value.HasMember("line")) {
-        result.line = value["line"].GetUint();
+        result.line = get_uint(value["line"]);
     }
     if (value.HasMember("column")) {
-        result.column = value["column"].GetUint();
+        result.column = get_uint(value["column"]);
     }
     if (value.HasMember("condition")) {
         result.condition = value["condition"].GetString();
@@ -704,8 +707,8 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
             idx.var = parse_var(index["var"], info)[0];
-            idx.min = index["min"].GetUint();
-            idx.max = index["max"].GetUint();
+            idx.min = get_uint(index["min"]);
+            idx.max = get_uint(index["max"]);
             result->indices.emplace_back(idx);
         }
     }
@@ -724,7 +727,7 @@ void set_var_def(const rapidjson::Value &value, VarDef &var) {
             var.type = VariableType::delay;
 
             if (value.HasMember("depth")) {
-                var.depth = value["depth"].GetUint();
+                var.depth = get_uint(value["depth"]);
             }
         }
     }
-- 
2.43.0


From c0c275d584482ac779d07bccf56117d66ac0994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 024/104] fix: a JSON symbol table that refers to an undefined
 index variable must be refused

---
 src/db.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index f6283e2..e68254f 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -706,7 +706,10 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         auto const &indices = value["indices"];
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
-            idx.var = parse_var(index["var"], info)[0];
+            auto vars = parse_var(index["var"], info);
+            // parse_var has set the error
+            if (vars.empty()) continue;
+            idx.var = vars[0];
             idx.min = get_uint(index["min"]);
             idx.max = get_uint(index["max"]);
             result->indices.emplace_back(idx);
@@ -1883,13 +1886,13 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
         roots_ = db::json::parse(document, info);
         reordering_ = reordering(document);
 
-        parse_db();
-
         if (!info.error_reason.empty()) {
             // we have an error
             log::log(log::log_level::error, info.error_reason);
             roots_.clear();
         }
+
+        parse_db();
     }
     return !roots_.empty();
 }
-- 
2.43.0


From 4bfdf027cd3c2883346621f14a81ec2b0150558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 025/104] fix: a JSON symbol table that defines a module twice
 must be refused

---
 src/db.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index e68254f..e18df9c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -632,7 +632,9 @@ std::shared_ptr<ModuleDef> parse_module_def(const rapidjson::Value &value, JSONP
     info.current_scope = result.get();
 
     result->name = value["name"].GetString();
-    info.module_defs.emplace(result->name, result);
+    if (!info.module_defs.emplace(result->name, result).second) {
+        info.error_reason = "Module " + result->name + " is defined more than once";
+    }
     set_scope_entry_value(value, *result);
 
     // variables
-- 
2.43.0


From 88e4a2614d54ae17c7cf5c5f2a7d8e3da8db053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:47 +0000
Subject: [PATCH 026/104] fix: an attribute in a JSON symbol table needs a name
 and a value

---
 include/schema.json | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/schema.json b/include/schema.json
index 2e898c4..032aaec 100644
--- a/include/schema.json
+++ b/include/schema.json
@@ -388,7 +388,11 @@
           "description": "Attribute value",
           "type": "string"
         }
-      }
+      },
+      "required": [
+        "name",
+        "value"
+      ]
     }
   }
 }
\ No newline at end of file
-- 
2.43.0


From 2cb9cbbedd900662444a72a0836331b2469bbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:47 +0000
Subject: [PATCH 027/104] fix: braces in the name of an assigned signal are not
 a format

---
 src/db.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index e18df9c..4abb92a 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1724,8 +1724,7 @@ private:
                             // we have found it. create a condition now
                             auto cond = fmt::format("{0} == {1}", index.var->value, *idx);
                             // and rtl value
-                            auto value =
-                                fmt::format(fmt::format("{0}[{1}]", assign.vars[0]->value, *idx));
+                            auto value = fmt::format("{0}[{1}]", assign.vars[0]->value, *idx);
                             return Info{&assign, value, cond};
                         }
                     }
-- 
2.43.0


From 044e8e3253f323dc6505506272b6499f6d867bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:05 +0000
Subject: [PATCH 028/104] fix: a JSON symbol table whose modules instantiate
 themselves must be refused

---
 src/db.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 4abb92a..ff3ad00 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -903,8 +903,11 @@ public:
     }
 };
 
-// build instances tree and assign ids
-void build_instance_tree(Instance &inst, uint32_t &id) {
+// build instances tree and assign ids. return false if a module instantiates itself
+bool build_instance_tree(Instance &inst, uint32_t &id) {
+    for (auto const *p = inst.parent; p; p = p->parent) {
+        if (p->definition == inst.definition) return false;
+    }
     inst.id = id++;
 
     for (auto const &[name, def] : inst.definition->instances) {
@@ -917,8 +920,9 @@ void build_instance_tree(Instance &inst, uint32_t &id) {
     }
 
     for (auto const &[_, sub] : inst.instances) {
-        build_instance_tree(*sub, id);
+        if (!build_instance_tree(*sub, id)) return false;
     }
+    return true;
 }
 
 class BlockReorderingVisitor : public DBVisitor<false, false, false> {
@@ -1936,7 +1940,11 @@ void JSONSymbolTableProvider::parse_db() {
             return;
         }
         // build up the instance tree
-        db::json::build_instance_tree(*root, inst_id);
+        if (!db::json::build_instance_tree(*root, inst_id)) {
+            log::log(log::log_level::error, "Module instantiates itself");
+            roots_.clear();
+            return;
+        }
         // depends on whether the generator wants reordering
         if (reordering_) {
             // sort the entries. need it done before assigning IDs
-- 
2.43.0


From b8371411d1a4682eded631c5e340a6f998b0d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:01 +0000
Subject: [PATCH 029/104] fix: the condition of a breakpoint must hold together
 with the condition of its statement

---
 src/scheduler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..902dae6 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -346,10 +346,11 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                                            const std::string &target_var, bool dry_run,
                                            DebuggerNamespace *target_ns) {
     // add them to the eval vector
+    // each condition can use any operator, so they need to be in parentheses to be combined
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
     if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
+        cond = fmt::format("({0}) && ({1})", cond, bp_info.condition);
     }
 
     auto insert_bp = [bp_type, this, &db_bp, cond,
-- 
2.43.0


From 9d03d74757df8ba658d1556bfb6f6a68e6671161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 030/104] fix: continuing must visit every remaining breakpoint
 of the cycle, and none before the current one

---
 src/scheduler.cc | 39 ++++++++++++++++++++++-----------------
 src/scheduler.hh |  2 ++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 902dae6..a38eb2d 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -83,23 +83,16 @@ std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
     // we need to skip then and evaluate them at the next evaluation cycle
     // maybe revisit this logic later? doesn't seem to be correct to me where there are
     // breakpoint inserted during breakpoint hit
+    // notice that scanning can leave out some breakpoints in the middle
     uint64_t index = 0;
     // find index
-    std::optional<uint64_t> pos;
-    for (uint64_t i = 0; i < breakpoints_.size(); i++) {
-        if (breakpoints_[i]->evaluated) {
-            pos = i;
-        }
-    }
-    if (pos) {
-        // we have a last hit
-        if (*pos + 1 < breakpoints_.size()) {
-            index = *pos + 1;
-        } else {
-            // the end
-            return {};
-        }
+    while (index < breakpoints_.size() &&
+           (breakpoints_[index]->evaluated || is_before(breakpoints_[index]->id,
+                                                        current_breakpoint_id_))) {
+        index++;
     }
+    // the end
+    if (index == breakpoints_.size()) return {};
 
     std::vector<DebugBreakPoint *> result{breakpoints_[index].get()};
 
@@ -306,12 +299,24 @@ void Scheduler::start_breakpoint_evaluation() {
 }
 
 void Scheduler::set_evaluation_mode(EvaluationMode mode) {
+    std::lock_guard guard(breakpoint_lock_);
     if (evaluation_mode_ != mode) {
-        clear_breakpoints(breakpoints_);
+        // we go on from the current breakpoint, in either direction
+        bool const reverse = mode == EvaluationMode::StepBack ||
+                             mode == EvaluationMode::ReverseBreakpointOnly;
+        for (auto &bp : breakpoints_) {
+            bp->evaluated = current_breakpoint_id_ &&
+                            !(reverse ? is_before(bp->id, current_breakpoint_id_)
+                                      : is_before(*current_breakpoint_id_, bp->id));
+        }
         evaluation_mode_ = mode;
     }
 }
 
+bool Scheduler::is_before(uint32_t id, const std::optional<uint32_t> &other) const {
+    return other && bp_ordering_table_.at(id) < bp_ordering_table_.at(*other);
+}
+
 void Scheduler::clear() {
     inserted_breakpoints_.clear();
     breakpoints_.clear();
@@ -577,8 +582,8 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
             next_bp->column_num != ref_bp->column_num) {
             return false;
         }
-        // if we see a data breakpoint, don't stop, just skip it
-        if (next_bp->type == DebugBreakPoint::Type::data) {
+        // if we see a data breakpoint, don't stop, just skip it. same for the ones that are done
+        if (next_bp->type == DebugBreakPoint::Type::data || next_bp->evaluated) {
             return true;
         }
         // same enable expression but different instance id
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..10cb77f 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -113,6 +113,8 @@ private:
         const std::optional<BreakPoint> &bp_info);
     std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
+    // whether the breakpoint comes before the other one, if any, in the execution order
+    [[nodiscard]] bool is_before(uint32_t id, const std::optional<uint32_t> &other) const;
 
     // log
     static void log_error(const std::string &msg);
-- 
2.43.0


From fbbc4b01c1b9e6a6324e322990a0dccbdfe423d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:44 +0000
Subject: [PATCH 031/104] fix: reversing must visit the breakpoints one by one
 and not get stuck at the beginning of time

---
 src/scheduler.cc | 84 ++++++++++++++++++++++--------------------------
 src/scheduler.hh |  2 ++
 2 files changed, 41 insertions(+), 45 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index a38eb2d..a155c4c 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -30,6 +30,12 @@ Scheduler::Scheduler(DebuggerNamespaceManager &namespaces, SymbolTableProvider *
     }
 }
 
+void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
+    for (auto &bp : breakpoints) {
+        bp->evaluated = false;
+    }
+}
+
 std::vector<DebugBreakPoint *> Scheduler::next_breakpoints() {
     switch (evaluation_mode_) {
         case EvaluationMode::BreakPointOnly: {
@@ -75,8 +81,12 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_over_breakpoints() {
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_normal_breakpoints() {
-    // if no breakpoint inserted. return early
     std::lock_guard guard(breakpoint_lock_);
+    return next_normal();
+}
+
+std::vector<DebugBreakPoint *> Scheduler::next_normal() {
+    // if no breakpoint inserted. return early
     if (breakpoints_.empty()) return {};
     // we need to make the experience the same as debugging software
     // as a result, when user add new breakpoints to the list that has high priority,
@@ -136,8 +146,10 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
                 // we successfully reverse the time
                 next_breakpoint_id = bp_ordering_.back();
             } else {
-                // fail to reverse time, use the first one
+                // fail to reverse time, use the first one and go forward from there if it's not
+                // enabled, otherwise we'd be stuck here
                 next_breakpoint_id = bp_ordering_[0];
+                evaluation_mode_ = EvaluationMode::StepOver;
             }
         }
     }
@@ -157,53 +169,41 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
 
     std::vector<DebugBreakPoint *> result;
 
-    // if the current breakpoint is the first one already, we need to reverse the time to previous
-    // cycle
-    std::optional<uint64_t> target_index;
-    if (current_breakpoint_id_) {
-        if (breakpoints_.front()->id == *current_breakpoint_id_) {
-            // we have reached the first one of the current
-            // call reverse
-            auto handles = clock_handles_;
-            auto res = namespaces_.default_rtl()->reverse_last_posedge(handles);
-            if (!res) {
-                // can't revert the time. use the current timestamp
-                // just return the first one
-                target_index = 0;
-            } else {
-                // time reversed
-                current_breakpoint_id_ = std::nullopt;
-                target_index = breakpoints_.size() - 1;
-            }
-        } else {
-            // find the next inserted breakpoint
-            // notice that breakpoints are already ordered,
-            // so we search from the beginning
-            for (auto i = breakpoints_.size() - 1; i >= 1; i--) {
-                auto id = breakpoints_[i]->id;
-                if (id == *current_breakpoint_id_) {
-                    // find it
-                    target_index = i - 1;
-                    break;
-                }
+    // breakpoints are already ordered, so we search from the end for the ones that are not done yet
+    auto find_target = [this]() -> std::optional<uint64_t> {
+        for (auto i = breakpoints_.size(); i-- > 0;) {
+            if (!breakpoints_[i]->evaluated &&
+                !(current_breakpoint_id_ &&
+                  is_before(*current_breakpoint_id_, breakpoints_[i]->id))) {
+                return i;
             }
         }
-    } else {
-        // just return the last one
-        target_index = breakpoints_.size() - 1;
-    }
+        return std::nullopt;
+    };
 
-    if (!target_index && target_index >= breakpoints_.size()) {
+    auto target_index = find_target();
+    if (!target_index) {
+        // we have reached the first one of the current cycle. need to reverse the time to the
+        // previous cycle
+        auto const &handles = clock_handles_;
+        clear_breakpoints(breakpoints_);
         current_breakpoint_id_ = std::nullopt;
-        return {};
+        if (!namespaces_.default_rtl()->reverse_last_posedge(handles)) {
+            // can't reverse the time. use the current timestamp and go forward from the first one,
+            // otherwise we'd be stuck here
+            evaluation_mode_ = EvaluationMode::BreakPointOnly;
+            return next_normal();
+        }
+        target_index = find_target();
     }
     result.emplace_back(breakpoints_[*target_index].get());
     // if it's not single thread mode
     if (!single_thread_mode_) {
         scan_breakpoints(*target_index, false, result);
     }
-    // use the last one as the breakpoint id
-    current_breakpoint_id_ = result.back()->id;
+    // the first will be current breakpoint id since we might skip some of them
+    // in the middle
+    current_breakpoint_id_ = result.front()->id;
 
     for (auto *bp : result) {
         bp->evaluated = true;
@@ -284,12 +284,6 @@ void Scheduler::remove_assert_breakpoints() {
     }
 }
 
-void clear_breakpoints(std::vector<std::unique_ptr<DebugBreakPoint>> &breakpoints) {
-    for (auto &bp : breakpoints) {
-        bp->evaluated = false;
-    }
-}
-
 void Scheduler::start_breakpoint_evaluation() {
     // remove assertions first
     remove_assert_breakpoints();
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 10cb77f..1659725 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -109,6 +109,8 @@ private:
     // cache clock handles as well
     std::vector<vpiHandle> clock_handles_;
 
+    // assumes the breakpoints are locked
+    std::vector<DebugBreakPoint *> next_normal();
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
     std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
-- 
2.43.0


From caccd5d85596849e07172409ddfe00c46fabffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:27 +0000
Subject: [PATCH 032/104] fix: a breakpoint must be updated and removed in
 every namespace, separately from data breakpoints and assertions

---
 src/scheduler.cc | 117 +++++++++++++++--------------------------------
 src/scheduler.hh |   3 +-
 2 files changed, 38 insertions(+), 82 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index a155c4c..f258e92 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -249,42 +249,22 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
     return res;
 }
 
-std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
-                                                              DebugBreakPoint::Type type) {
+void Scheduler::remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
-            // erase the type first. if the remaining type is 0, then we completely erase the
-            // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
-            t &= ~(static_cast<uint32_t>(type));
-            if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
-            } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
-            }
-            break;
-        }
-    }
-    return nullptr;
+    // there is one in each namespace
+    std::erase_if(breakpoints_, [bp_id, type](auto const &bp) {
+        return bp->id == bp_id && bp->type == type;
+    });
 }
 
 void Scheduler::remove_assert_breakpoints() {
-    auto ids =
-        std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
-    for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
-        if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
-            remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
-        }
-    }
+    std::erase_if(breakpoints_, [](auto const &bp) {
+        return bp->type == DebugBreakPoint::Type::assert && bp->evaluated;
+    });
 }
 
 void Scheduler::start_breakpoint_evaluation() {
+    std::lock_guard guard(breakpoint_lock_);
     // remove assertions first
     remove_assert_breakpoints();
     // unset all the breakpoints
@@ -312,7 +292,7 @@ bool Scheduler::is_before(uint32_t id, const std::optional<uint32_t> &other) con
 }
 
 void Scheduler::clear() {
-    inserted_breakpoints_.clear();
+    std::lock_guard guard(breakpoint_lock_);
     breakpoints_.clear();
 }
 
@@ -385,7 +365,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return holder.get();
         } else {
             auto &ptr = breakpoints_.emplace_back(std::move(bp));
-            inserted_breakpoints_.emplace(db_bp.id);
             log_info(
                 fmt::format("Breakpoint inserted into {0}:{1}", db_bp.filename, db_bp.line_num));
             return ptr.get();
@@ -398,32 +377,28 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
     switch (bp_type) {
         case DebugBreakPoint::Type::normal: {
-            if (inserted_breakpoints_.find(db_bp.id) == inserted_breakpoints_.end()) {
-                DebugBreakPoint *p = nullptr;
+            // Only need to return one
+            DebugBreakPoint *p = nullptr;
+            // update breakpoint entry if it has been inserted. there is one in each namespace.
+            // notice that the data and assertion ones have their own conditions
+            for (auto &b : breakpoints_) {
+                if (db_bp.id == b->id && b->type == bp_type) {
+                    b->expr = std::make_unique<DebugExpression>(cond);
+                    auto *ns = namespaces_[b->ns_id];
+                    auto *rtl = ns->rtl.get();
+                    util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
+                    if (!b->expr->correct()) [[unlikely]] {
+                        log_error("Unable to validate breakpoint expression: " + cond);
+                    }
+                    p = b.get();
+                }
+            }
+            if (!p) {
                 for (auto *ns : namespaces) {
                     p = insert_bp(ns);
                 }
-                // Only need to return one
-                return p;
-            } else {
-                // update breakpoint entry
-                for (auto &b : breakpoints_) {
-                    if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
-                        auto *ns = namespaces_[b->ns_id];
-                        auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
-                            log_error("Unable to validate breakpoint expression: " + cond);
-                        }
-                        // need to update the bp type flag
-                        b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
-                                                                     static_cast<int>(bp_type));
-                        return b.get();
-                    }
-                }
-                return nullptr;
             }
+            return p;
         }
         case DebugBreakPoint::Type::data: {
             // we skip insertion if everything matches
@@ -480,27 +455,8 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
 
 void Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    // if it has both data breakpoints and normal breakpoints, clear the flag
-    // else remove this breakpoint
-    std::unordered_set<uint32_t> bps;
-    for (auto &bp : breakpoints_) {
-        if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
-    }
-    for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
-        }
-    }
+    std::erase_if(breakpoints_,
+                  [](auto const &bp) { return bp->type == DebugBreakPoint::Type::data; });
 }
 
 void Scheduler::reorder_breakpoints() {
@@ -522,12 +478,13 @@ void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type ty
 
 std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);
-    if (ptr) {
-        return ptr->watch_id;
-    } else {
-        return std::nullopt;
-    }
+    auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(), [bp_id](auto const &bp) {
+        return bp->id == bp_id && bp->type == DebugBreakPoint::Type::data;
+    });
+    if (pos == breakpoints_.end()) return std::nullopt;
+    auto watch_id = (*pos)->watch_id;
+    breakpoints_.erase(pos);
+    return watch_id;
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 1659725..c4490a7 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -90,7 +90,6 @@ private:
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
-    std::unordered_set<uint32_t> inserted_breakpoints_;
     // look up table for ordering of breakpoints
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
@@ -113,7 +112,7 @@ private:
     std::vector<DebugBreakPoint *> next_normal();
     std::vector<DebugBreakPoint *> create_next_breakpoints(
         const std::optional<BreakPoint> &bp_info);
-    std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
+    void remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
     // whether the breakpoint comes before the other one, if any, in the execution order
     [[nodiscard]] bool is_before(uint32_t id, const std::optional<uint32_t> &other) const;
-- 
2.43.0


From 5c6fbbdb7cc0aecb42c144217b8aec40da2d876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:11 +0000
Subject: [PATCH 033/104] fix: a data breakpoint belongs to one namespace, and
 a faulty one must not be inserted

---
 src/debug.cc     |  2 +-
 src/scheduler.cc | 36 +++++++++++++++++++-----------------
 src/scheduler.hh |  2 +-
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..8036025 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1023,7 +1023,7 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     // merge these two
                     bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
                 auto *bp =
-                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
+                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run, ns);
                 if (!bp) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
diff --git a/src/scheduler.cc b/src/scheduler.cc
index f258e92..5f37d41 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -401,9 +401,12 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return p;
         }
         case DebugBreakPoint::Type::data: {
+            // the variable is watched in one namespace
+            if (!target_ns) return nullptr;
             // we skip insertion if everything matches
             for (auto const &b : breakpoints_) {
-                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data)) {
+                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data) &&
+                    b->ns_id == target_ns->id) {
                     // check if it's data breakpoint as well
                     if (b->target_rtl_var_name == target_var && b->expr->expression() == cond) {
                         // no need to insert
@@ -411,21 +414,19 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                     }
                 }
             }
-            DebugBreakPoint *data_bp = nullptr;
-            for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
-                auto *rtl = ns->rtl.get();
-                auto expr = DebugExpression(target_var);
-                util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
-                auto const &handles = expr.get_resolved_symbol_handles();
-                if (!expr.correct() || handles.size() != 1) {
-                    log_error("Unable to validate variable in data breakpoint: " + target_var);
-                    return nullptr;
-                }
-                data_bp->full_rtl_handle = handles.begin()->second;
-                data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
-                data_bp->target_rtl_var_name = target_var;
+            auto *rtl = target_ns->rtl.get();
+            auto expr = DebugExpression(target_var);
+            util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
+            auto const &handles = expr.get_resolved_symbol_handles();
+            if (!expr.correct() || handles.size() != 1) {
+                log_error("Unable to validate variable in data breakpoint: " + target_var);
+                return nullptr;
             }
+            auto *data_bp = insert_bp(target_ns);
+            if (!data_bp) return nullptr;
+            data_bp->full_rtl_handle = handles.begin()->second;
+            data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
+            data_bp->target_rtl_var_name = target_var;
             return data_bp;
         }
         case DebugBreakPoint::Type::assert: {
@@ -439,12 +440,13 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
 DebugBreakPoint *Scheduler::add_data_breakpoint(const std::string &full_name,
                                                 const std::string &expression,
-                                                const BreakPoint &db_bp, bool dry_run) {
+                                                const BreakPoint &db_bp, bool dry_run,
+                                                DebuggerNamespace *ns) {
     // we use the same add breakpoint function with different flags on
     BreakPoint bp;
     bp.condition = expression;
     // we allow duplicated breakpoints to be inserted here
-    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run);
+    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run, ns);
     return data_bp;
 }
 
diff --git a/src/scheduler.hh b/src/scheduler.hh
index c4490a7..f2fb728 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -72,7 +72,7 @@ public:
     std::vector<const DebugBreakPoint *> get_current_breakpoints();
     DebugBreakPoint *add_data_breakpoint(const std::string &full_name,
                                          const std::string &expression, const BreakPoint &db_bp,
-                                         bool dry_run);
+                                         bool dry_run, DebuggerNamespace *ns);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
     void clear_data_breakpoints();
     // also return associated monitor id, if any
-- 
2.43.0


From 13683fe3eb467b203c5e6e6e4d0e807a7edc7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:11 +0000
Subject: [PATCH 034/104] fix: a data breakpoint with a condition must keep the
 condition of the assignment

---
 src/debug.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 8036025..95d4df1 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1017,11 +1017,11 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 std::string bp_condition;
                 if (req.condition().empty())
                     bp_condition = data_condition;
-                else if (bp_condition.empty())
+                else if (data_condition.empty())
                     bp_condition = req.condition();
                 else
                     // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
+                    bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
                     scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run, ns);
                 if (!bp) {
-- 
2.43.0


From d0803244c01d03f2ef83637de2bf5c3e103c5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:32 +0000
Subject: [PATCH 035/104] fix: removing data breakpoints must stop watching
 exactly the variables that are not used anymore

---
 src/debug.cc     | 30 ++++++++++++++++--------------
 src/scheduler.cc | 31 +++++++++++++++++++++----------
 src/scheduler.hh | 10 +++++++---
 3 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 95d4df1..bc9ee7c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -972,14 +972,19 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
-    if (!ns) {
+    // clear is for every namespace
+    if (!ns && req.action() != DataBreakpointRequest::Action::clear) {
         send_error(req, "Unable to determine design namespace", conn_id);
         return;
     }
 
     switch (req.action()) {
         case DataBreakpointRequest::Action::clear: {
-            scheduler_->clear_data_breakpoints();
+            auto watches = scheduler_->clear_data_breakpoints();
+            // remove from monitor as well
+            for (auto const &[ns_id, watch_id] : watches) {
+                namespaces_[ns_id]->monitor->remove_monitor_variable(watch_id);
+            }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
             log_info("data breakpoint cleared");
@@ -1041,13 +1046,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
 
                 // add it to the monitor
                 if (!dry_run) {
-                    auto watched = monitor->is_monitored(bp->full_rtl_handle,
-                                                         MonitorRequest::MonitorType::data);
-                    if (!watched) {
-                        bp->watch_id = monitor->add_monitor_variable(
-                            bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
-                        log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-                    }
+                    // the existing one will be returned if it's monitored already
+                    bp->watch_id = monitor->add_monitor_variable(
+                        bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
+                    log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
                 }
             }
 
@@ -1060,12 +1062,12 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
             break;
         }
         case DataBreakpointRequest::Action::remove: {
-            auto watch_id = scheduler_->remove_data_breakpoint(req.breakpoint_id());
+            auto watches = scheduler_->remove_data_breakpoint(req.breakpoint_id(), ns->id);
             // remove from monitor as well
-            if (watch_id) {
-                auto &monitor = ns->monitor;
-                monitor->remove_monitor_variable(*watch_id);
-                log_info(fmt::format("Remove watch variable with ID {0}", *watch_id));
+            for (auto const &[ns_id, watch_id] : watches) {
+                auto &monitor = namespaces_[ns_id]->monitor;
+                monitor->remove_monitor_variable(watch_id);
+                log_info(fmt::format("Remove watch variable with ID {0}", watch_id));
             }
             // tell client we're good
             auto success_resp = GenericResponse(status_code::success, req);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5f37d41..87fc7a2 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -455,10 +455,24 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
     return add_breakpoint(db_bp, db_bp, DebugBreakPoint::Type::assert, "", false, ns);
 }
 
-void Scheduler::clear_data_breakpoints() {
+std::set<std::pair<uint32_t, uint64_t>> Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    std::erase_if(breakpoints_,
-                  [](auto const &bp) { return bp->type == DebugBreakPoint::Type::data; });
+    return erase_data_breakpoints([](const DebugBreakPoint &) { return true; });
+}
+
+std::set<std::pair<uint32_t, uint64_t>> Scheduler::erase_data_breakpoints(
+    const std::function<bool(const DebugBreakPoint &)> &predicate) {
+    std::set<std::pair<uint32_t, uint64_t>> watches;
+    std::erase_if(breakpoints_, [&](auto const &bp) {
+        if (bp->type != DebugBreakPoint::Type::data || !predicate(*bp)) return false;
+        watches.emplace(bp->ns_id, bp->watch_id);
+        return true;
+    });
+    // some can still be used by other breakpoints
+    for (auto const &bp : breakpoints_) {
+        if (bp->type == DebugBreakPoint::Type::data) watches.erase({bp->ns_id, bp->watch_id});
+    }
+    return watches;
 }
 
 void Scheduler::reorder_breakpoints() {
@@ -478,15 +492,12 @@ void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type ty
     remove_breakpoint(bp.id, type);
 }
 
-std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
+std::set<std::pair<uint32_t, uint64_t>> Scheduler::remove_data_breakpoint(uint64_t bp_id,
+                                                                          uint32_t ns_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(), [bp_id](auto const &bp) {
-        return bp->id == bp_id && bp->type == DebugBreakPoint::Type::data;
+    return erase_data_breakpoints([bp_id, ns_id](const DebugBreakPoint &bp) {
+        return bp.id == bp_id && bp.ns_id == ns_id;
     });
-    if (pos == breakpoints_.end()) return std::nullopt;
-    auto watch_id = (*pos)->watch_id;
-    breakpoints_.erase(pos);
-    return watch_id;
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index f2fb728..ce249c0 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -1,7 +1,9 @@
 #ifndef HGDB_SCHEDULER_HH
 #define HGDB_SCHEDULER_HH
 
+#include <functional>
 #include <mutex>
+#include <set>
 
 #include "eval.hh"
 #include "rtl.hh"
@@ -74,9 +76,9 @@ public:
                                          const std::string &expression, const BreakPoint &db_bp,
                                          bool dry_run, DebuggerNamespace *ns);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
-    void clear_data_breakpoints();
-    // also return associated monitor id, if any
-    std::optional<uint64_t> remove_data_breakpoint(uint64_t bp_id);
+    // also return the namespace and monitor ids that are not used anymore
+    std::set<std::pair<uint32_t, uint64_t>> clear_data_breakpoints();
+    std::set<std::pair<uint32_t, uint64_t>> remove_data_breakpoint(uint64_t bp_id, uint32_t ns_id);
 
     // breakpoint mode
     bool breakpoint_only() const;
@@ -114,6 +116,8 @@ private:
         const std::optional<BreakPoint> &bp_info);
     void remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
+    std::set<std::pair<uint32_t, uint64_t>> erase_data_breakpoints(
+        const std::function<bool(const DebugBreakPoint &)> &predicate);
     // whether the breakpoint comes before the other one, if any, in the execution order
     [[nodiscard]] bool is_before(uint32_t id, const std::optional<uint32_t> &other) const;
 
-- 
2.43.0


From 9176d885340c56ec6529a1d4dcc63d50f6f37bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 036/104] fix: a data breakpoint that is refused must leave
 nothing behind

---
 src/debug.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index bc9ee7c..f4cf661 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1012,6 +1012,8 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 var_names.emplace(ns->rtl->get_full_name(full_name));
             }
 
+            // only insert if every one of them is valid
+            std::vector<std::tuple<BreakPoint, std::string, std::string>> data_bps;
             for (auto const &[id, var_name, data_condition] : bp_ids) {
                 auto bp_opt = db_->get_breakpoint(id);
                 if (!bp_opt) {
@@ -1028,11 +1030,18 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     // merge these two
                     bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
-                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run, ns);
+                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, true, ns);
                 if (!bp) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
                 }
+                data_bps.emplace_back(std::move(*bp_opt), var_name, bp_condition);
+            }
+
+            for (auto const &[db_bp_, var_name, bp_condition] : data_bps) {
+                if (dry_run) break;
+                auto *bp =
+                    scheduler_->add_data_breakpoint(var_name, bp_condition, db_bp_, false, ns);
 
                 // they share the same variable
                 // notice that in case some breakpoints got deleted, we need to get it from the
@@ -1045,12 +1054,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 }
 
                 // add it to the monitor
-                if (!dry_run) {
-                    // the existing one will be returned if it's monitored already
-                    bp->watch_id = monitor->add_monitor_variable(
-                        bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
-                    log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
-                }
+                // the existing one will be returned if it's monitored already
+                bp->watch_id = monitor->add_monitor_variable(
+                    bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
+                log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
             }
 
             // sort the breakpoints
-- 
2.43.0


From b31362dbd601773fbb1b69b8f6fcfb674df633b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:02 +0000
Subject: [PATCH 037/104] fix: the module of an assertion must be asked from
 the VPI provider in use

---
 src/rtl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..0ebcd2a 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -1024,7 +1024,7 @@ std::optional<RTLSimulatorClient::AssertInfo> RTLSimulatorClient::get_assert_inf
         auto type = vpi_->vpi_get(vpiType, it);
         if (type == vpiModule) {
             // this is the module
-            res.full_name = vpi_get_str(vpiFullName, it);
+            res.full_name = vpi_->vpi_get_str(vpiFullName, it);
         } else if (type == vpiConstant) {
             auto const_type = vpi_->vpi_get(vpiConstType, it);
             if (const_type == vpiStringConst) {
-- 
2.43.0


From 067ae1173c36f25fe014d0f78fc68796be70b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:17 +0000
Subject: [PATCH 038/104] fix: breakpoints set by id and assertions must be
 visited in execution order as well

---
 src/debug.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index f4cf661..b2d21f5 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -187,6 +187,7 @@ void Debugger::handle_assert() {
     bp.condition.clear();
     // need to insert it into the scheduler
     scheduler_->add_assert_breakpoint(ns, bp);
+    scheduler_->reorder_breakpoints();
 }
 
 void Debugger::set_option(const std::string &name, bool value) {
@@ -594,6 +595,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             return;
         }
         add_breakpoint(bp_info, *bp);
+        scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
-- 
2.43.0


From f8fc004ba8a7c4ed9b3da670cb2091edab89cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 039/104] fix: requests that arrive before the symbol table is
 loaded must be refused, with their token

---
 src/debug.cc | 31 ++++++++++++++++++++++---------
 src/debug.hh |  2 +-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index b2d21f5..6dd08fa 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -166,6 +166,8 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::handle_assert() {
+    // nothing to stop at without the symbol table
+    if (!db_) return;
     auto assert_info = namespaces_.default_rtl()->get_assert_info();
     if (!assert_info) {
         log_error("Incorrect usage of hgdb assertion");
@@ -540,7 +542,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -581,7 +583,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -606,7 +608,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -630,6 +632,12 @@ void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t
 }
 
 void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
+    // the simulation can always be stopped
+    if (req.command_type() != CommandRequest::CommandType::stop &&
+        !check_send_db_error(req, conn_id)) {
+        return;
+    }
+
     status_code status = status_code::success;
     std::string error;
 
@@ -642,8 +650,10 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
         }
         case CommandRequest::CommandType::stop: {
             log_info("handle_command: stop");
-            scheduler_->clear();
-            scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            if (scheduler_) {
+                scheduler_->clear();
+                scheduler_->set_evaluation_mode(Scheduler::EvaluationMode::None);
+            }
             // we will unlock the lock during the stop step to ensure proper shutdown
             // of the runtime
             namespaces_.default_rtl()->finish_sim();
@@ -695,6 +705,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -739,6 +750,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
@@ -883,6 +895,7 @@ void Debugger::handle_option_change(const OptionChangeRequest &req, uint64_t con
 }
 
 void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     if (req.status() == status_code::success) {
         // depends on whether it is an add or remove action
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
@@ -926,6 +939,7 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
 void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {  // NOLINT
     log_info(fmt::format("handle set value {0} = {1}", req.var_name(), req.value()));
 
+    if (!check_send_db_error(req, conn_id)) return;
     if (req.status() == status_code::success) {
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
@@ -972,6 +986,7 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     // clear is for every namespace
@@ -1209,12 +1224,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
     if (!db_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
-                                    "Database is not initialized or is initialized incorrectly");
-        send_message(resp.str(log_enabled_), conn_id);
+        send_error(req, "Database is not initialized or is initialized incorrectly", conn_id);
         return false;
     }
     return true;
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..07fe09a 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -150,7 +150,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
-- 
2.43.0


From db49537d313c0d9265a46a7f7f3ecc35c4df74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 040/104] fix: a monitor that could be in several namespaces
 must be refused, not crash the simulator

---
 src/debug.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 6dd08fa..97b2f9a 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -901,6 +901,10 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
 
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
             std::optional<std::string> full_name =
-- 
2.43.0


From 8a28737b0c6bf1d3dab77b5be7902c33760666b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:09 +0000
Subject: [PATCH 041/104] fix: a negative value in hexadecimal must show the
 bits of the signal

---
 src/debug.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 97b2f9a..5e4bc4e 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -425,6 +425,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
         return Debugger::error_value_str;
     }
     if (use_hex) {
+        auto const num_bits = width;
         std::string format;
         if (width == 0) {
             format = "0x{0:X}";
@@ -435,7 +436,10 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
             width = (width % 4 == 0) ? width / 4 : (width / 4 + 1);
             format = fmt::format("0x{{0:0{0}X}}", width);
         }
-        return fmt::format(format.c_str(), *value);
+        // the bits of the signal, also if it's negative
+        auto bits = static_cast<uint64_t>(*value);
+        if (num_bits > 0 && num_bits < 64) bits &= (1ull << num_bits) - 1;
+        return fmt::format(format.c_str(), bits);
 
     } else {
         return fmt::format("{0}", *value);
-- 
2.43.0


From 333c72e28f46cba19b07a0acd293372741c53309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:26 +0000
Subject: [PATCH 042/104] fix: breakpoints evaluated in several threads must
 not lose each other's results

---
 src/debug.cc | 10 +++++-----
 src/debug.hh |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 5e4bc4e..843c256 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1354,8 +1354,8 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
 }
 
 std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
-    std::fill(hits.begin(), hits.end(), false);
+    // notice that std::vector<bool> can't be written from different threads
+    std::vector<uint8_t> hits(bps.size(), 0);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
     const static auto processor_count = 2;
@@ -1385,11 +1385,11 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
         perf::PerfCount perf_bp_threads("eval bp single thread", perf_count_);
         this->eval_breakpoint(bps, hits, 0, bps.size());
     }
-    return hits;
+    return {hits.begin(), hits.end()};
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
-                               uint64_t start, uint64_t end) {
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps,
+                               std::vector<uint8_t> &result, uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
         result[index] = r;
diff --git a/src/debug.hh b/src/debug.hh
index 07fe09a..8e86380 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -155,7 +155,7 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
-- 
2.43.0


From 5c00d57428e5721e016e308b614b8f4f349e8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:43 +0000
Subject: [PATCH 043/104] fix: cached signal values must not outlive the
 timestamp or the value they were read at

---
 src/debug.cc | 15 ++++++++++++++-
 src/debug.hh |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 843c256..d6365b8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -128,6 +128,8 @@ void Debugger::eval() {
         }
 
         if (bps.empty()) break;
+        // the time can be reversed
+        check_cached_signal_values();
         auto hits = eval_breakpoints(bps);
 
         std::vector<const DebugBreakPoint *> result;
@@ -857,6 +859,7 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
             return;
         }
 
+        check_cached_signal_values();
         auto res =
             set_expr_values(ns ? ns->id : 0, &expr, req.instance_id() ? *req.instance_id() : 0);
 
@@ -966,7 +969,7 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
             // we need to remove cached value
-            if (use_signal_cache_) {
+            {
                 auto *handle = rtl->get_handle(*full_name);
                 std::lock_guard guard(cached_signal_values_lock_);
                 if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
@@ -1319,6 +1322,16 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     }
 }
 
+void Debugger::check_cached_signal_values() {
+    // cached values are only good for one timestamp
+    if (!use_signal_cache_) [[likely]]
+        return;
+    auto const time = namespaces_.default_rtl()->get_simulation_time();
+    std::lock_guard guard(cached_signal_values_lock_);
+    if (cached_signal_time_ != time) cached_signal_values_.clear();
+    cached_signal_time_ = time;
+}
+
 bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
     const auto &bp_expr = scheduler_->breakpoint_only() ? bp->expr : bp->enable_expr;
     if (!bp_expr->correct()) return false;
diff --git a/src/debug.hh b/src/debug.hh
index 8e86380..2433b6f 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -72,6 +72,7 @@ private:
 
     // reduce VPI traffic
     std::unordered_map<vpiHandle, int64_t> cached_signal_values_;
+    uint64_t cached_signal_time_ = 0;
     std::mutex cached_signal_values_lock_;
     // reduce DB traffic and remapping computation
     std::unordered_map<uint64_t, std::string> cached_instance_name_;
@@ -164,6 +165,7 @@ private:
     // cached wrapper
     std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
                                             bool use_delayed = false);
+    void check_cached_signal_values();
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
     // callbacks
-- 
2.43.0


From f14185c44963f3c39ff75af1e24c3db4ce536afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:38 +0000
Subject: [PATCH 044/104] fix: a delayed variable must be the value of its own
 namespace and depth, and none before there is one

---
 src/debug.cc   | 51 ++++++++++++++++++++++++--------------------------
 src/debug.hh   | 11 +++++++----
 src/monitor.cc |  2 +-
 3 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index d6365b8..b55256d 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -450,7 +450,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
 
 // NOLINTNEXTLINE
 std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                                    bool use_delay) {
+                                    uint32_t delay_depth) {
     std::string value_str;
     if (is_rtl) {
         auto &rtl = namespaces_[ns_id]->rtl;
@@ -462,12 +462,13 @@ std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name,
             width = width_opt ? *width_opt : 0u;
         }
 
-        if (use_delay) {
-            if (delayed_variables_.find(handle) == delayed_variables_.end()) [[unlikely]] {
+        if (delay_depth > 0) {
+            auto it = delayed_variables_.find({ns_id, handle, delay_depth});
+            if (it == delayed_variables_.end()) [[unlikely]] {
                 log_error("Internal error on handling delayed variables");
                 value_str = error_value_str;
             } else {
-                value_str = value_to_str(delayed_variables_.at(handle).value, use_hex_str_, width);
+                value_str = value_to_str(it->second.value, use_hex_str_, width);
             }
         } else {
             auto value = rtl->get_value(handle);
@@ -1182,9 +1183,10 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
-                std::string value_str =
-                    get_value_str(bp->ns_id, rtl_name, var.is_rtl,
-                                  static_cast<VariableType>(ctx_var.type) == VariableType::delay);
+                auto const delayed =
+                    static_cast<VariableType>(ctx_var.type) == VariableType::delay;
+                std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl,
+                                                      delayed ? ctx_var.depth : 0);
                 scope.add_local_value(front_name, value_str);
             }
         }
@@ -1289,8 +1291,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
     return full_name;
 }
 
-std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                                  bool use_delayed) {
+std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle) {
     // assume the name is already elaborated/mapped
     if (use_signal_cache_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
@@ -1300,10 +1301,6 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     }
     // need to actually get the value
     std::optional<int64_t> value;
-    if (use_delayed && delayed_variables_.find(handle) != delayed_variables_.end()) [[unlikely]] {
-        return delayed_variables_.at(handle).value;
-    }
-
     value = namespaces_[ns_id]->rtl->get_value(handle);
 
     if (!value)
@@ -1519,10 +1516,12 @@ void Debugger::update_delayed_values() {
     for (auto const &ns : namespaces_) {
         auto values =
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
-        for (auto &iter : delayed_variables_) {
-            auto &var_info = iter.second;
-            auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
-                return iter.first == var_info.watch_id;
+        for (auto &[key, var_info] : delayed_variables_) {
+            // the id is only unique in the namespace
+            if (std::get<0>(key) != ns->id) continue;
+            auto const watch_id = var_info.watch_id;
+            auto pos = std::find_if(values.begin(), values.end(), [watch_id](auto const &iter) {
+                return iter.first == watch_id;
             });
             if (pos != values.end()) {
                 var_info.value = pos->second;
@@ -1534,32 +1533,30 @@ void Debugger::update_delayed_values() {
 void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
     if (!db_) [[unlikely]]
         return;
-    auto *bp = scheduler_->get_breakpoint(bp_id);
-    if (!bp) return;
+    if (!scheduler_->get_breakpoint(bp_id)) return;
     auto context_vars = db_->get_context_delayed_variables(bp_id);
     auto instance_name = db_->get_instance_name_from_bp(bp_id);
     auto const &namespaces = namespaces_.get_namespaces(*instance_name);
     for (auto *ns : namespaces) {
         auto *rtl = ns->rtl.get();
         auto *monitor = ns->monitor.get();
-        auto func = [this, bp]() { return eval_breakpoint(bp); };
 
         for (auto const &[ctx, v] : context_vars) {
             auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
             for (auto const &[front_var, rtl_name] : var_names) {
                 // we really don't care about front end name
+                auto *handle = rtl->get_handle(rtl_name);
+                if (!handle) continue;
+                // other breakpoints may use the same variable
+                auto const key = std::make_tuple(ns->id, handle, ctx.depth);
+                if (delayed_variables_.find(key) != delayed_variables_.end()) continue;
                 // get current value as initialization. this allows the breakpoint next cycle
                 // has the proper value before monitor logic kicks in
                 auto value = rtl->get_value(rtl_name);
-                auto watch_id = monitor->add_monitor_variable(rtl_name, ctx.depth, value);
-                monitor->set_monitor_variable_condition(watch_id, func);
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
-                delayed_var.watch_id = watch_id;
-                auto *handle = rtl->get_handle(rtl_name);
-                if (handle) {
-                    delayed_variables_.emplace(handle, delayed_var);
-                }
+                delayed_var.watch_id = monitor->add_monitor_variable(rtl_name, ctx.depth, value);
+                delayed_variables_.emplace(key, delayed_var);
             }
         }
     }
diff --git a/src/debug.hh b/src/debug.hh
index 2433b6f..6b97473 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -1,5 +1,8 @@
 #ifndef HGDB_DEBUG_HH
 #define HGDB_DEBUG_HH
+#include <map>
+#include <tuple>
+
 #include "eval.hh"
 #include "monitor.hh"
 #include "namespace.hh"
@@ -84,7 +87,8 @@ private:
         std::optional<int64_t> value;
         uint64_t watch_id;
     };
-    std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // indexed by namespace, signal, and depth
+    std::map<std::tuple<uint32_t, vpiHandle, uint32_t>, DelayedVariable> delayed_variables_;
 
     // options
     // if in single thread mode, instances with the same fn/ln won't be evaluated as a batch
@@ -120,7 +124,7 @@ private:
     bool has_cli_flag(const std::string &flag);
     [[nodiscard]] static std::string get_monitor_topic(uint64_t watch_id);
     std::string get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                              bool use_delay = false);
+                              uint32_t delay_depth = 0);
     std::optional<std::string> resolve_var_name(uint32_t ns_id, const std::string &var_name,
                                                 const std::optional<uint64_t> &instance_id,
                                                 const std::optional<uint64_t> &breakpoint_id);
@@ -163,8 +167,7 @@ private:
     void start_breakpoint_evaluation();
 
     // cached wrapper
-    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                            bool use_delayed = false);
+    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
     void check_cached_signal_values();
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..2a38eca 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -109,7 +109,7 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
-- 
2.43.0


From a68f18f7629ad9c83619662e2585ace165602322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 045/104] fix: the values of variables monitored for changes
 must be sent

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index b55256d..534371f 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -149,6 +149,7 @@ void Debugger::eval() {
     }
 
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
+    send_monitor_values(MonitorRequest::MonitorType::changed);
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
-- 
2.43.0


From c66dfa3c8d989dee8ede30ba4fcdfd7d9fe58f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:01 +0000
Subject: [PATCH 046/104] fix: breakpoints of the same statement must keep
 their order when others are added

---
 src/scheduler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 87fc7a2..34e0733 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -481,7 +481,7 @@ void Scheduler::reorder_breakpoints() {
     // the easiest way is to sort them by their lookup table. assuming the number of
     // breakpoints is relatively small, i.e. < 100, sorting can be efficient and less
     // bug-prone
-    std::sort(breakpoints_.begin(), breakpoints_.end(),
+    std::stable_sort(breakpoints_.begin(), breakpoints_.end(),
               [this](const auto &left, const auto &right) -> bool {
                   return bp_ordering_table_.at(left->id) < bp_ordering_table_.at(right->id);
               });
-- 
2.43.0


From 3fd2dbd4faa8529d2a3abb4ffc237134ef96c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 047/104] fix: the RTL name of a variable must not be taken for
 the name of another variable

---
 src/debug.cc  | 45 ++++++++++++++++-----------------------------
 src/symbol.cc |  1 -
 src/symbol.hh |  3 +++
 3 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 534371f..920d5cf 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1114,30 +1114,17 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
     }
 }
 
-std::vector<std::pair<std::string, std::string>> resolve_generator_name(std::string rtl_name_base,
-                                                                        const std::string &var_name,
-                                                                        uint32_t instance_id,
-                                                                        RTLSimulatorClient *rtl,
-                                                                        SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_instance(rtl_name_base, instance_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
-}
-
-std::vector<std::pair<std::string, std::string>> resolve_context_name(std::string rtl_name_base,
-                                                                      const std::string &var_name,
-                                                                      uint32_t bp_id,
-                                                                      RTLSimulatorClient *rtl,
-                                                                      SymbolTableProvider *db) {
-    if (!rtl->is_absolute_path(rtl_name_base)) {
-        auto v = db->resolve_scoped_name_breakpoint(rtl_name_base, bp_id);
-        if (v) rtl_name_base = *v;
-    }
-    auto var_names = rtl->resolve_rtl_variable(var_name, rtl_name_base);
-    return var_names;
+// resolve the RTL name of a variable stored in the symbol table. this is not a name in the source
+// code and thus shall not be looked up in the scope
+std::vector<std::pair<std::string, std::string>> resolve_variable_name(
+    const Variable &var, const std::string &var_name, const std::string &instance_name,
+    RTLSimulatorClient *rtl) {
+    // constants
+    if (!var.is_rtl) return {{var_name, var.value}};
+    auto rtl_name = var.value;
+    if (!rtl->is_absolute_path(rtl_name) && !has_instance_name(rtl_name, instance_name))
+        rtl_name = fmt::format("{0}.{1}", instance_name, rtl_name);
+    return rtl->resolve_rtl_variable(var_name, rtl_name);
 }
 
 void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &bps) {
@@ -1154,9 +1141,9 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         auto context_values = db_->get_context_variables(bp_id);
         auto bp_ptr = db_->get_breakpoint(bp_id);
         auto instance_name = db_->get_instance_name_from_bp(bp_id);
-        auto instance_name_str = instance_name ? *instance_name : "";
+        auto const db_instance_name = instance_name ? *instance_name : "";
         // we use full name to distinguish among IP instantiations
-        instance_name_str = rtl->get_full_name(instance_name_str);
+        auto const instance_name_str = rtl->get_full_name(db_instance_name);
 
         BreakPointResponse::Scope scope(bp->instance_id, instance_name_str, bp_id, bp->ns_id);
         switch (bp->type) {
@@ -1173,7 +1160,7 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         for (auto const &[gen_var, var] : generator_values) {
             // maybe need to resolve the name based on the variable
             auto var_names =
-                resolve_generator_name(var.value, gen_var.name, bp->instance_id, rtl, db_.get());
+                resolve_variable_name(var, gen_var.name, db_instance_name, rtl);
             for (auto const &[front_name, rtl_name] : var_names) {
                 std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl);
                 scope.add_generator_value(front_name, value_str);
@@ -1181,7 +1168,7 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
         }
 
         for (auto const &[ctx_var, var] : context_values) {
-            auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
+            auto var_names = resolve_variable_name(var, ctx_var.name, db_instance_name, rtl);
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
                 auto const delayed =
@@ -1543,7 +1530,7 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
         auto *monitor = ns->monitor.get();
 
         for (auto const &[ctx, v] : context_vars) {
-            auto var_names = resolve_context_name(v.value, ctx.name, bp_id, rtl, db_.get());
+            auto var_names = resolve_variable_name(v, ctx.name, *instance_name, rtl);
             for (auto const &[front_var, rtl_name] : var_names) {
                 // we really don't care about front end name
                 auto *handle = rtl->get_handle(rtl_name);
diff --git a/src/symbol.cc b/src/symbol.cc
index 1093e37..a31ebd6 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -59,7 +59,6 @@ bool rtl_equivalent(const std::string &a, const std::string &b) {
     return true;
 }
 
-// whether the RTL name is already the full name of something in the instance
 bool has_instance_name(const std::string &name, const std::string &instance_name) {
     return name.starts_with(instance_name) &&
            (name.size() == instance_name.size() || name[instance_name.size()] == '.');
diff --git a/src/symbol.hh b/src/symbol.hh
index 9c36fd4..b77d721 100644
--- a/src/symbol.hh
+++ b/src/symbol.hh
@@ -75,6 +75,9 @@ private:
     uint32_t id_allocator_ = std::numeric_limits<uint32_t>::max();
 };
 
+// whether the RTL name is already the full name of something in the instance
+bool has_instance_name(const std::string &name, const std::string &instance_name);
+
 // based on the schema we make different symbol table
 std::unique_ptr<SymbolTableProvider> create_symbol_table(const std::string &filename);
 
-- 
2.43.0


From d4b3cc7ada6e66be3100f1c56990a1b0ee762f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 048/104] fix: pass the diagnostic level to vpi_control instead
 of a va_list

---
 src/rtl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 0ebcd2a..747e214 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -82,7 +82,8 @@ PLI_INT32 VPIProvider::vpi_control(PLI_INT32 operation, ...) {
     std::lock_guard guard(vpi_lock_);
     std::va_list args;
     va_start(args, operation);
-    auto result = ::vpi_control(operation, args);
+    // vpiStop and vpiFinish take one integer; a va_list cannot be passed on to a variadic function
+    auto result = ::vpi_control(operation, va_arg(args, int));
     va_end(args);
     return result;
 }
-- 
2.43.0


From be3408e803576558806f49feddd7d78ffd77e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 049/104] fix: copy the name of a struct member before asking
 for the next one

---
 src/rtl.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 747e214..0192d7e 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -593,10 +593,11 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
                             int property, std::vector<std::pair<std::string, std::string>> &res) {
         if (auto *it = vpi_->vpi_iterate(property, handle)) {
             while (auto *h = vpi_->vpi_scan(it)) {
-                auto *rtl = vpi_->vpi_get_str(vpiFullName, h);
-                auto *n = vpi_->vpi_get_str(vpiName, h);
+                // the simulator may use one buffer for all strings, so copy them right away
+                std::string rtl = vpi_->vpi_get_str(vpiFullName, h);
+                auto name = front_name + "." + vpi_->vpi_get_str(vpiName, h);
                 // make it recursive to account for
-                auto new_res = resolve_rtl_variable(front_name + "." + n, rtl);
+                auto new_res = resolve_rtl_variable(name, rtl);
                 res.insert(res.end(), new_res.begin(), new_res.end());
             }
         }
-- 
2.43.0


From 2115cce1d18876f4d8e987ae5cc915e2311c121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 050/104] fix: remember array elements and slices under their
 full name

---
 src/rtl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 0192d7e..2e5fe8f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -170,7 +170,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
-- 
2.43.0


From 07deb1dcfe35d9c0271a2b78fa6ce7fd70ee503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 051/104] fix: a name that does not exist is not the module it
 would be in

---
 src/rtl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 2e5fe8f..fe44d03 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -193,6 +193,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
             auto handle_name = util::join(
                 tokens.begin(), tokens.begin() + static_cast<uint32_t>(tokens.size()) - 1, ".");
             ptr = get_handle_raw(handle_name);
+            // there are no slices of modules
+            if (ptr && get_vpi_type(ptr) == vpiModule) return nullptr;
         }
 
         if (!ptr) [[likely]] {
@@ -213,6 +215,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
                         ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
                         break;
                     }
+                    // a module is not what we are looking for
+                    ptr = nullptr;
                 }
             }
         }
-- 
2.43.0


From 9337fe49cc384346652bbebe42ec3a39b6840291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:33 +0000
Subject: [PATCH 052/104] fix: refuse array indices and slices that are out of
 range or not numbers

---
 src/rtl.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index fe44d03..a25864d 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -248,8 +248,9 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stoul(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle = vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
@@ -1058,8 +1059,9 @@ std::optional<std::pair<uint32_t, uint32_t>> extract_slice(const std::string &to
 
     uint32_t hi = 0, lo = std::numeric_limits<uint32_t>::max();
     for (auto const &num : nums) {
+        if (!std::all_of(num.begin(), num.end(), ::isdigit)) return {};
         auto n = util::stoul(num);
-        if (!n) return {};
+        if (!n || *n > std::numeric_limits<uint32_t>::max()) return {};
         if (*n < lo) lo = *n;
         if (*n > hi) hi = *n;
     }
-- 
2.43.0


From 3b6c396ff8bdd78df61aa5bd446b39d97c0279b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:51 +0000
Subject: [PATCH 053/104] fix: slices read the bits they name

---
 src/rtl.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index a25864d..d143036 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -261,8 +261,11 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
+    if (lo >= 64) return 0;
+    if (hi < 63) {
+        auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
+        v = v & hi_mask;
+    }
     v = v >> lo;
     return static_cast<int64_t>(v);
 }
@@ -331,12 +334,12 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    auto pos = hi < value.size() ? value.size() - hi - 1 : 0;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
@@ -346,6 +349,11 @@ std::string get_slice(const std::string &value,
     std::string s;
     for (auto i = 0u; i < result.size(); i += 4) {
         auto str = result.substr(i, 4);
+        if (str.find_first_not_of("01") != std::string::npos) {
+            // some bits are unknown
+            s.append("X");
+            continue;
+        }
         auto v = std::stoul(str, nullptr, 2);
         s.append(fmt::format("{0:X}", v));
     }
-- 
2.43.0


From b7cf6bd0cd328849d502e13b7dfff39c9c706d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:51 +0000
Subject: [PATCH 054/104] fix: do not hand slices to the simulator, which does
 not know them

---
 src/rtl.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index d143036..245d62e 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -284,9 +284,7 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
         if (is_verilator()) {
             auto width = get_vpi_size(handle);
             if (width > 64) [[unlikely]] {
-                auto *name = vpi_->vpi_get_str(vpiName, handle);
-                log::log(log::log_level::info,
-                         fmt::format("{0} is too large to display as an integer", name));
+                log::log(log::log_level::info, "Signal is too large to display as an integer");
                 return {};
             }
         }
@@ -397,6 +395,8 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
+    // slices are read only since the simulator does not know about them
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
@@ -990,6 +990,9 @@ void RTLSimulatorClient::set_vpi_allocator(const std::function<vpiHandle()> &fun
 
 PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (!handle) return vpiError;
+    // the simulator does not know about our slices
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) [[unlikely]]
+        return vpiPartSelect;
     std::lock_guard guard(cached_vpi_types_lock_);
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
         return cached_vpi_types_.at(handle);
@@ -1002,6 +1005,11 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
+    // the simulator does not know about our slices
+    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) [[unlikely]] {
+        auto const &[parent, hi, lo] = it->second;
+        return hi - lo + 1;
+    }
     std::lock_guard guard(cached_vpi_size_lock_);
     if (cached_vpi_size_.find(handle) != cached_vpi_size_.end()) [[likely]] {
         return cached_vpi_size_.at(handle);
-- 
2.43.0


From 6fcc5f597efc9efb74b5d2f721bee406a980394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:30 +0000
Subject: [PATCH 055/104] fix: signals of more than 32 bits are read and
 written with all their bits

---
 src/rtl.cc | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 245d62e..a30602e 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -297,9 +297,24 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     }
 
     s_vpi_value v;
-    v.format = vpiIntVal;
-    vpi_->vpi_get_value(handle, &v);
-    int64_t result = v.value.integer;
+    int64_t result;
+    if (is_signal && get_vpi_size(handle) > 32) [[unlikely]] {
+        // vpiIntVal only has 32 bits
+        // the string belongs to the simulator and is valid until the next call
+        static std::mutex lock;
+        std::lock_guard guard(lock);
+        v.format = vpiBinStrVal;
+        vpi_->vpi_get_value(handle, &v);
+        uint64_t bits = 0;
+        for (auto const *c = v.value.str; c && *c; c++) {
+            bits = bits << 1u | (*c == '1' ? 1u : 0u);
+        }
+        result = static_cast<int64_t>(bits);
+    } else {
+        v.format = vpiIntVal;
+        vpi_->vpi_get_value(handle, &v);
+        result = v.value.integer;
+    }
 
     if (is_slice_handle) [[unlikely]] {
         result = get_slice(result, mock_slice_handles_.at(target_handle));
@@ -398,8 +413,19 @@ bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     // slices are read only since the simulator does not know about them
     if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
     s_vpi_value vpi_value;
-    vpi_value.value.integer = static_cast<int>(value);
-    vpi_value.format = vpiIntVal;
+    std::string bits;
+    if (auto width = get_vpi_size(handle); width > 32) [[unlikely]] {
+        // vpiIntVal only has 32 bits
+        bits.reserve(64);
+        for (auto i = 0u; i < 64u && i < width; i++) {
+            bits.insert(bits.begin(), (static_cast<uint64_t>(value) >> i) & 1u ? '1' : '0');
+        }
+        vpi_value.value.str = bits.data();
+        vpi_value.format = vpiBinStrVal;
+    } else {
+        vpi_value.value.integer = static_cast<int>(value);
+        vpi_value.format = vpiIntVal;
+    }
 
     // If the flag argument also has the bit mask vpiReturnEvent,
     // vpi_put_value() shall return a handle of type vpiSchedEvent to the newly scheduled event,
-- 
2.43.0


From 888d099d679abbff5d3e518593340f20f9f24196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:30 +0000
Subject: [PATCH 056/104] fix: a refused request to monitor signals keeps the
 signals monitored before

---
 src/rtl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index a30602e..e4ed3e6 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -970,9 +970,10 @@ bool RTLSimulatorClient::monitor_signals(const std::vector<std::string> &signals
         if (handle) {
             // only add valid callback to avoid simulator errors
             auto callback_name = "Monitor " + full_name;
+            auto const is_new = !callback_names().contains(callback_name);
             auto const *r = add_call_back(callback_name, cbValueChange, cb_func, handle, user_data);
             if (r) {
-                added_handles.emplace_back(callback_name);
+                if (is_new) added_handles.emplace_back(callback_name);
                 error = false;
             }
         }
-- 
2.43.0


From 539a0c6e03cbbae6088d7e20e6a456cd74f0a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:55 +0000
Subject: [PATCH 057/104] fix: arrays of single bits and of structs unfold into
 their elements

---
 src/rtl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e4ed3e6..6827f1e 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -669,10 +669,14 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
         // we have to use brute force
         auto first_element = fmt::format("{0}[0]", rtl_name);
         if (auto *first_handle = get_handle(first_element)) {
-            auto is_array = vpi_->vpi_get(vpiVector, first_handle);
+            // elements of an unpacked array can be anything, e.g. single bits or structs. otherwise
+            // we need to make sure that we are not looking at the bits of a vector
+            auto const is_unpacked =
+                type == vpiRegArray || type == vpiNetArray || type == vpiMemory;
+            auto is_array = is_unpacked ? 1 : vpi_->vpi_get(vpiVector, first_handle);
             if (is_array != vpiError && is_array != vpiUndefined && is_array != 0) {
                 auto size = vpi_->vpi_get(vpiSize, handle);
-                if (type != vpiRegArray && type != vpiNetArray) {
+                if (!is_unpacked) {
                     auto element_size = vpi_->vpi_get(vpiSize, first_handle);
                     size = size / element_size;
                 }
-- 
2.43.0


From 2db8b9dc860bfff7878f3a55ad1de1042cfcbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:46 +0000
Subject: [PATCH 058/104] fix: without definition names the top is what
 contains the instance found

---
 src/rtl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 6827f1e..376fc1f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -786,9 +786,9 @@ std::pair<bool, std::string> match(const std::string &full_name,
     static const std::pair<bool, std::string> false_ = {false, ""};
     if (tokens.empty()) return false_;
     auto full_tokens = util::get_tokens(full_name, ".");
-    // the test bench should contain the top, as a result, the full token should be
+    // something has to contain the instance, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    if (full_tokens.size() < tokens.size() + 1) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -796,8 +796,8 @@ std::pair<bool, std::string> match(const std::string &full_name,
         if (t_value != ref_value) return false_;
     }
 
-    // compute the prefix
-    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size()) + 1;
+    // compute the prefix, i.e. where the top is
+    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size());
     auto prefix =
         fmt::format("{0}.", fmt::join(full_tokens.begin(), full_tokens.begin() + size_diff, "."));
 
-- 
2.43.0


From 32b78bdca35d0128dce9981dff9b519554fb1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:58 +0000
Subject: [PATCH 059/104] fix: the server's tables of clients and topics are
 shared between threads

---
 src/server.cc | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 1f5865f..ec0c1d4 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -26,17 +26,22 @@ DebugServer::DebugServer(bool enable_logging) {
     };
     // on disconnection
     auto on_disconnect = [this](websocketpp::connection_hdl hdl) {
-        std::lock_guard<std::mutex> guard{connections_lock_};
-        auto conn = server_.get_con_from_hdl(std::move(hdl));
-        // not efficient, but we assume client won't disconnect often
-        for (auto const &[id, c] : connections_) {
-            if (conn == c) {
-                connections_.erase(id);
-                connection_id_map_.erase(conn.get());
-                break;
+        bool empty;
+        {
+            std::lock_guard<std::mutex> guard{connections_lock_};
+            auto conn = server_.get_con_from_hdl(std::move(hdl));
+            // not efficient, but we assume client won't disconnect often
+            for (auto const &[id, c] : connections_) {
+                if (conn == c) {
+                    connections_.erase(id);
+                    connection_id_map_.erase(conn.get());
+                    break;
+                }
             }
+            empty = connections_.empty();
         }
-        if (connections_.empty() && on_all_client_disconnect_) {
+        // the callback is free to use the server
+        if (empty && on_all_client_disconnect_) {
             (*on_all_client_disconnect_)();
         }
     };
@@ -75,12 +80,15 @@ void DebugServer::stop() {
 }
 
 void DebugServer::send(const std::string &payload) {
+    // clients come and go in the server's thread
+    std::lock_guard guard(connections_lock_);
     for (const auto &[id, conn] : connections_) {
         conn->send(payload);
     }
 }
 
 void DebugServer::send(const std::string &payload, const std::string &topic) {
+    std::lock_guard guard(connections_lock_);
     if (topics_.find(topic) != topics_.end()) [[likely]] {
         auto const &ids = topics_.at(topic);
         // to ensure high performance during runtime, we don't do clean up
@@ -94,6 +102,7 @@ void DebugServer::send(const std::string &payload, const std::string &topic) {
 }
 
 void DebugServer::send(const std::string &payload, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (connections_.find(conn_id) != connections_.end()) [[likely]] {
         connections_.at(conn_id)->send(payload);
     }
@@ -105,7 +114,14 @@ void DebugServer::set_on_message(
                                        const raw_message &msg) {
         auto str = msg->get_payload();
         auto conn = server_.get_con_from_hdl(hdl);
-        auto id = connection_id_map_.at(conn.get());
+        uint64_t id;
+        {
+            std::lock_guard guard(connections_lock_);
+            auto it = connection_id_map_.find(conn.get());
+            // the server has been stopped
+            if (it == connection_id_map_.end()) return;
+            id = it->second;
+        }
         callback(str, id);
     };
     server_.set_message_handler(on_message);
@@ -116,10 +132,12 @@ void DebugServer::set_on_call_client_disconnect(const std::function<void()> &fun
 }
 
 void DebugServer::add_to_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     topics_[topic].emplace(conn_id);
 }
 
 void DebugServer::remove_from_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard guard(connections_lock_);
     if (topics_[topic].find(conn_id) != topics_[topic].end()) {
         topics_[topic].erase(conn_id);
     }
-- 
2.43.0


From 5c13b78b392767dcfc65593d6792461d3b66109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:24 +0000
Subject: [PATCH 060/104] fix: stopping the server while a client leaves ended
 the simulation

---
 src/server.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.cc b/src/server.cc
index ec0c1d4..32f6572 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -71,7 +71,10 @@ void DebugServer::stop() {
     {
         std::lock_guard guard(connections_lock_);
         for (auto const &[id, conn] : connections_) {
-            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request");
+            // a client that is leaving at this moment cannot be closed any more
+            websocketpp::lib::error_code ec;
+            conn->close(websocketpp::close::status::going_away, "Server stopped upon user request",
+                        ec);
         }
         connections_.clear();
         connection_id_map_.clear();
-- 
2.43.0


From 40ffcee8d0f01829397f4cb370ddc72d0f653887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:12 +0000
Subject: [PATCH 061/104] fix: requests that arrive during an evaluation no
 longer pull breakpoints from under it

---
 src/debug.cc | 15 +++++++++++++--
 src/debug.hh |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 920d5cf..a8624df 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -106,10 +106,12 @@ void Debugger::stop() {
 }
 
 void Debugger::eval() {
+    // requests are only handled between the evaluations and when the simulation is held
+    std::unique_lock guard(state_lock_);
     perf::PerfCount perf("eval loop", perf_count_);
     // if we set to pause at posedge, need to do that at the very beginning!
     if (pause_at_posedge) [[unlikely]] {
-        lock_.wait();
+        hold(guard);
     }
     // the function that actually triggers breakpoints!
     // notice that there is a hidden race condition
@@ -144,7 +146,7 @@ void Debugger::eval() {
             // also send any breakpoint values
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
-            lock_.wait();
+            hold(guard);
         }
     }
 
@@ -152,6 +154,12 @@ void Debugger::eval() {
     send_monitor_values(MonitorRequest::MonitorType::changed);
 }
 
+void Debugger::hold(std::unique_lock<std::recursive_mutex> &guard) {
+    guard.unlock();
+    lock_.wait();
+    guard.lock();
+}
+
 [[maybe_unused]] bool Debugger::is_verilator() {
     if (!namespaces_.empty()) {
         return namespaces_.default_rtl()->is_verilator();
@@ -169,6 +177,7 @@ std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
 }
 
 void Debugger::handle_assert() {
+    std::lock_guard guard(state_lock_);
     // nothing to stop at without the symbol table
     if (!db_) return;
     auto assert_info = namespaces_.default_rtl()->get_assert_info();
@@ -210,6 +219,7 @@ Debugger::~Debugger() {
 }
 
 void Debugger::detach() {
+    std::lock_guard guard(state_lock_);
     // remove all the clock related callback
     // depends on whether it's verilator or not
     // always use the first one
@@ -252,6 +262,7 @@ void Debugger::detach() {
 void Debugger::on_message(const std::string &message, uint64_t conn_id) {
     // server can only receive request
     auto req = Request::parse_request(message);
+    std::lock_guard guard(state_lock_);
     if (req->status() != status_code::success) {
         // send back error message
         auto resp = GenericResponse(status_code::error, *req, req->error_reason());
diff --git a/src/debug.hh b/src/debug.hh
index 6b97473..72ef733 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -69,6 +69,8 @@ private:
     // runtime lock
     RuntimeLock lock_;
     std::atomic<bool> is_running_ = false;
+    // the simulation and the server share the state below from different threads
+    std::recursive_mutex state_lock_;
 
     // used for scheduler
     std::unique_ptr<Scheduler> scheduler_;
@@ -106,6 +108,9 @@ private:
 
     void detach();
 
+    // let the client take control
+    void hold(std::unique_lock<std::recursive_mutex> &guard);
+
     // message handler
     void on_message(const std::string &message, uint64_t conn_id);
     void send_message(const std::string &message);
-- 
2.43.0


From eb076eda86f6e4c44855bb450c337e1d826ac8b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:08 +0000
Subject: [PATCH 062/104] fix: a remote symbol table that cannot be reached or
 goes away is no longer waited for

Connecting to a websocket that is not there, or to an invalid address, never
returned or ended the process; a query after the server had closed the
connection never returned; the answers to queries of two threads could be
swapped; and the lookup of an instance without a name returned the instance of
breakpoint 0.
---
 src/symbol.cc | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index a31ebd6..01f04e6 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -1,5 +1,6 @@
 #include "symbol.hh"
 
+#include <atomic>
 #include <filesystem>
 #include <mutex>
 
@@ -282,15 +283,28 @@ public:
 
         client_->set_message_handler(on_message);
 
-        RuntimeLock l;
-
-        auto on_open = [this, &l](const websocketpp::connection_hdl &handle) {
+        auto on_open = [this](const websocketpp::connection_hdl &handle) {
             connection_handle_ = handle;
-            l.ready();
+            is_open_.ready();
         };
 
         client_->set_open_handler(on_open);
 
+        auto on_fail = [this](const websocketpp::connection_hdl &) {
+            has_error = true;
+            is_open_.ready();
+        };
+
+        client_->set_fail_handler(on_fail);
+
+        // nothing will arrive anymore. don't keep whoever is waiting
+        auto on_close = [this](const websocketpp::connection_hdl &) {
+            closed_ = true;
+            has_message_.ready();
+        };
+
+        client_->set_close_handler(on_close);
+
         websocketpp::lib::error_code ec;
         Client::connection_ptr con = client_->get_connection(uri, ec);
         if (ec) {
@@ -303,8 +317,8 @@ public:
         // run the client in the background
         bg_client_thread_ = std::thread([this]() { client_->run(); });
 
-        // block until it's properly connected
-        l.wait();
+        // block until it's properly connected, or failed to do so
+        is_open_.wait();
     }
 
     void send(const std::string &msg) override {
@@ -317,13 +331,14 @@ public:
 
     std::string receive() override {
         std::lock_guard guard(lock);
-        has_message_.wait();
-        return payload_;
+        if (!closed_) has_message_.wait();
+        return std::exchange(payload_, {});
     }
 
     ~WSNetworkProvider() override {
         client_->stop();
-        bg_client_thread_.join();
+        // not started if the URI is invalid
+        if (bg_client_thread_.joinable()) bg_client_thread_.join();
     }
 
 private:
@@ -333,8 +348,10 @@ private:
 
     // synchronization using a spin lock
     std::mutex lock;
+    RuntimeLock is_open_;
     RuntimeLock has_message_;
     std::string payload_;
+    std::atomic<bool> closed_ = false;
 
     std::thread bg_client_thread_;
     websocketpp::connection_hdl connection_handle_;
@@ -387,6 +404,8 @@ public:
     }
 
     std::optional<uint64_t> get_instance_id(const std::string &instance_name) override {
+        // without a name the request would ask for the instance of a breakpoint
+        if (instance_name.empty()) return std::nullopt;
         SymbolRequest req(SymbolRequest::request_type::get_instance_id);
         req.instance_name = instance_name;
 
@@ -471,10 +490,13 @@ public:
 
 private:
     std::unique_ptr<NetworkProvider> network_;
+    // a response belongs to the request just sent
+    std::mutex network_lock_;
 
     hgdb::SymbolResponse get_resp(const hgdb::SymbolRequest &req) {
         SymbolResponse resp(req.req_type());
         if (network_) {
+            std::lock_guard guard(network_lock_);
             network_->send(req.str());
             auto str = network_->receive();
             resp.parse(str);
-- 
2.43.0


From 476f9ffcf2db0bd0c02fc067fc254833b7919a07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:37 +0000
Subject: [PATCH 063/104] fix: path mapping applies to JSON and remote symbol
 tables too

Only the SQLite provider translated between the paths of the client and the
paths in the symbol table, so with a path mapping no breakpoint could be set
by location when the table is a JSON file or a remote one.
---
 src/db.cc     | 19 +++++++------------
 src/symbol.cc | 14 ++++++++------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index ff3ad00..dc5b38c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1273,11 +1273,13 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
                                                                  uint32_t line_num,
                                                                  uint32_t col_num) {
     std::vector<BreakPoint> result;
+    auto resolved_filename = resolve_filename_to_db(filename);
     for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, line_num, col_num);
+        BreakPointVisitor v(resolved_filename, line_num, col_num);
         v.visit(*root);
         result.reserve(result.size() + v.results.size());
         for (auto &bp : v.results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
             result.emplace_back(std::move(bp));
         }
     }
@@ -1285,16 +1287,7 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
 }
 
 std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::string &filename) {
-    std::vector<BreakPoint> result;
-    for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, 0, 0);
-        v.visit(*root);
-        result.reserve(result.size() + v.results.size());
-        for (auto &bp : v.results) {
-            result.emplace_back(std::move(bp));
-        }
-    }
-    return result;
+    return get_breakpoints(filename, 0, 0);
 }
 
 std::optional<BreakPoint> JSONSymbolTableProvider::get_breakpoint(uint32_t breakpoint_id) {
@@ -1303,7 +1296,9 @@ std::optional<BreakPoint> JSONSymbolTableProvider::get_breakpoint(uint32_t break
         BreakPointVisitor v(breakpoint_id);
         v.visit(*root);
         if (!v.results.empty()) [[likely]] {
-            return std::move(v.results[0]);
+            auto &bp = v.results[0];
+            bp.filename = resolve_filename_to_client(bp.filename);
+            return std::move(bp);
         }
     }
     return std::nullopt;
diff --git a/src/symbol.cc b/src/symbol.cc
index 01f04e6..3b05417 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -370,21 +370,20 @@ public:
     std::vector<BreakPoint> get_breakpoints(const std::string &filename, uint32_t line_num,
                                             uint32_t col_num) override {
         SymbolRequest req(SymbolRequest::request_type::get_breakpoints);
-        req.filename = filename;
+        req.filename = resolve_filename_to_db(filename);
         req.line_num = line_num;
         req.column_num = col_num;
 
         auto resp = get_resp(req);
+        for (auto &bp : resp.bp_results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
+        }
 
         return std::move(resp.bp_results);
     }
 
     std::vector<BreakPoint> get_breakpoints(const std::string &filename) override {
-        SymbolRequest req(SymbolRequest::request_type::get_breakpoints);
-        req.filename = filename;
-
-        auto resp = get_resp(req);
-        return std::move(resp.bp_results);
+        return get_breakpoints(filename, 0, 0);
     }
 
     std::optional<BreakPoint> get_breakpoint(uint32_t breakpoint_id) override {
@@ -392,6 +391,9 @@ public:
         req.breakpoint_id = breakpoint_id;
 
         auto resp = get_resp(req);
+        if (resp.bp_result) {
+            resp.bp_result->filename = resolve_filename_to_client(resp.bp_result->filename);
+        }
         return std::move(resp.bp_result);
     }
 
-- 
2.43.0


From 4b3d2321398e54037f6428597c5fc18d4007cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 064/104] fix: names and values of a dump's signals that share
 an identifier or a module name

---
 tools/hgdb-replay/vcd_db.cc | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tools/hgdb-replay/vcd_db.cc b/tools/hgdb-replay/vcd_db.cc
index 63b5661..9796455 100644
--- a/tools/hgdb-replay/vcd_db.cc
+++ b/tools/hgdb-replay/vcd_db.cc
@@ -1,5 +1,6 @@
 #include "vcd_db.hh"
 
+#include <algorithm>
 #include <filesystem>
 #include <iostream>
 #include <stack>
@@ -36,10 +37,15 @@ std::optional<uint64_t> VCDDatabase::get_instance_id(const std::string &full_nam
     using namespace sqlite_orm;
     // notice that SQLite doesn't support recursive query
     auto tokens = util::get_tokens(full_name, ".");
-    // find the top level first
+    if (tokens.empty()) return std::nullopt;
+    // find the top level first. it is the one that is not inside any other instance
     auto tops = vcd_table_->select(&VCDDBModule::id, where(c(&VCDDBModule::name) == tokens[0]));
-    if (tops.empty()) return std::nullopt;
-    auto parent_id = tops[0];
+    auto top = std::find_if(tops.begin(), tops.end(), [this](uint64_t id) {
+        return vcd_table_->count<VCDDBModuleHierarchy>(
+                   where(c(&VCDDBModuleHierarchy::child_id) == id)) == 0;
+    });
+    if (top == tops.end()) return std::nullopt;
+    auto parent_id = *top;
     for (uint64_t i = 1; i < tokens.size(); i++) {
         auto child_name = tokens[i];
         auto ins = vcd_table_->select(
@@ -130,12 +136,9 @@ std::optional<std::string> VCDDatabase::get_signal_value(uint64_t id, uint64_t t
 
 std::string VCDDatabase::get_full_signal_name(uint64_t signal_id) {
     using namespace sqlite_orm;
-    auto ptr = get_signal(signal_id);
-    if (!ptr) return "";
-    std::string name = ptr->name;
-    uint64_t instance_id = ptr->id;
-    name = fmt::format("{0}.{1}", get_full_instance_name(instance_id), name);
-    return name;
+    auto ptr = vcd_table_->get_pointer<VCDDBSignal>(signal_id);
+    if (!ptr || !ptr->instance_id) return "";
+    return fmt::format("{0}.{1}", get_full_instance_name(*ptr->instance_id), ptr->name);
 }
 
 std::string VCDDatabase::get_full_instance_name(uint64_t instance_id) {
@@ -252,7 +255,8 @@ std::pair<std::string, std::string> VCDDatabase::compute_instance_mapping(
 void VCDDatabase::parse_vcd(const std::string &filename) {
     std::stack<uint64_t> scope;
     std::unordered_map<uint64_t, std::string> scope_name;
-    std::unordered_map<std::string, uint64_t> var_mapping;
+    // the same identifier can be used by multiple signals, e.g. a net connected via ports
+    std::unordered_map<std::string, std::vector<uint64_t>> var_mapping;
     uint64_t module_id_count = 0;
     uint64_t var_id_count = 0;
 
@@ -281,14 +285,15 @@ void VCDDatabase::parse_vcd(const std::string &filename) {
 
     parser.set_on_var_def([&, this](const VCDVarDef &var) {
         auto module_id = scope.top();
-        var_mapping.emplace(var.identifier, var_id_count);
+        var_mapping[var.identifier].emplace_back(var_id_count);
         store_signal(var.name, var_id_count, module_id, var.width);
         var_id_count++;
     });
 
     parser.set_value_change([this, &var_mapping](const VCDValue &value) {
-        auto var_id = var_mapping.at(value.identifier);
-        store_value(var_id, value.time, value.value);
+        for (auto const var_id : var_mapping.at(value.identifier)) {
+            store_value(var_id, value.time, value.value);
+        }
     });
 
     if (!parser.parse()) {
-- 
2.43.0


From c126a984f5e3e718465078eafc2d98c1228d2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 065/104] fix: replay skipped value changes in consecutive time
 units and reported signals that did not change

---
 tools/hgdb-replay/engine.cc | 33 +++++++++++++++++++++------------
 tools/hgdb-replay/engine.hh |  4 +++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 1ebeb9c..a0039fd 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -43,14 +43,15 @@ void EmulationEngine::finish() {
 void EmulationEngine::on_cb_added(p_cb_data cb_data) {
     auto* handle = cb_data->obj;
     if (vpi_->is_valid_handle(handle)) {
-        watched_values_.emplace(std::make_pair(handle, std::nullopt));
+        watched_values_[handle]++;
     }
 }
 
 void EmulationEngine::on_cb_removed(const s_cb_data& cb_data) {
-    auto* handle = cb_data.obj;
-    if (watched_values_.find(handle) != watched_values_.end()) {
-        watched_values_.erase(handle);
+    auto it = watched_values_.find(cb_data.obj);
+    // other callbacks may still be interested in the same signal
+    if (it != watched_values_.end() && --it->second == 0) {
+        watched_values_.erase(it);
     }
 }
 
@@ -62,7 +63,8 @@ bool EmulationEngine::on_rewound(hgdb::AVPIProvider::rewind_data* rewind_data) {
         auto signal = vpi_->get_signal_id(handle);
         if (signal) {
             auto time = vpi_->db().get_prev_value_change_time(*signal, max_time, "1");
-            if (time) {
+            // the value at time 0 is the initial value, not an edge
+            if (time && *time > 0) {
                 times.emplace_back(*time);
             }
         }
@@ -88,15 +90,14 @@ void EmulationEngine::emulation_loop() {
         change_time(time);
         // retrieve all the watched values and compare their value change
         std::unordered_map<vpiHandle, int64_t> changed_values;
-        for (auto const& [handle, pre_value] : watched_values_) {
+        for (auto const& iter : watched_values_) {
+            auto* handle = iter.first;
+            if (!has_changed(handle, time)) continue;
             s_vpi_value value_p;
             value_p.format = vpiIntVal;
             vpi_->vpi_get_value(handle, &value_p);
-            auto current_value = value_p.value.integer;
-            if (!pre_value || (pre_value && (*pre_value != current_value))) {
-                // this is a value change
-                changed_values.emplace(handle, current_value);
-            }
+            // this is a value change
+            changed_values.emplace(handle, value_p.value.integer);
         }
         // notice that since we are doing emulation, at the callback only that particular
         // value is changed properly, the rest is still "lagging" behind, then we actually
@@ -129,7 +130,8 @@ void EmulationEngine::emulation_loop() {
         // requests when the simulator is running. only when the simulator is paused is
         // the request well-defined. in this case, inside the trigger_cb call
         if (timestamp_.load() == (time - 1)) {
-            change_time(time + 1);
+            // everything up to time, including, has been reported
+            change_time(time);
         } else {
             // advance the timestamp a little to align the proper clock period
             timestamp_.fetch_add(1);
@@ -142,6 +144,13 @@ void EmulationEngine::change_time(uint64_t time) {
     vpi_->set_timestamp(time);
 }
 
+bool EmulationEngine::has_changed(vpiHandle handle, uint64_t time) {
+    auto signal_id = vpi_->get_signal_id(handle);
+    if (!signal_id) return false;
+    auto& db = vpi_->db();
+    return db.get_signal_value(*signal_id, time) != db.get_signal_value(*signal_id, time - 1);
+}
+
 std::vector<uint64_t> EmulationEngine::get_next_changed_times() {
     std::vector<uint64_t> times;
     times.reserve(watched_values_.size());
diff --git a/tools/hgdb-replay/engine.hh b/tools/hgdb-replay/engine.hh
index ce5a270..67bf060 100644
--- a/tools/hgdb-replay/engine.hh
+++ b/tools/hgdb-replay/engine.hh
@@ -19,7 +19,8 @@ public:
 private:
     ReplayVPIProvider* vpi_;
     std::atomic<uint64_t> timestamp_ = 0;
-    std::map<vpiHandle, std::optional<int64_t>> watched_values_;
+    // number of callbacks for each watched signal
+    std::map<vpiHandle, uint64_t> watched_values_;
 
     // use for non-blocking conditions
     // normally it's for testing
@@ -35,6 +36,7 @@ private:
     void change_time(uint64_t time);
 
     // helper functions
+    bool has_changed(vpiHandle handle, uint64_t time);
     std::vector<uint64_t> get_next_changed_times();
 
     // when to sop running
-- 
2.43.0


From 03cdcdca4455f1c333a6ae372565d95bc4bfe2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 066/104] fix: replay values of array elements and wide
 signals, and signals nobody asked for yet

---
 tools/hgdb-replay/vpi.cc | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index a32d13e..cf48108 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -20,7 +20,7 @@ int64_t convert_value(const std::string &raw_value) {
         auto bit = bits - i - 1;
         char v = raw_value[i];
         if (v == '1') {
-            result |= 1 << bit;
+            if (bit < 64) result |= static_cast<int64_t>(1ull << bit);
         } else if (v == 'z' || v == 'x') {
             // invalid value we display 0, which is consistent with Verilator
             return 0;
@@ -29,6 +29,14 @@ int64_t convert_value(const std::string &raw_value) {
     return result;
 }
 
+// vcd values can be shorter than the signal, in which case they are extended to the left
+std::string extend_value(std::string raw_value, uint64_t width) {
+    if (raw_value.empty() || raw_value.size() >= width) return raw_value;
+    auto c = raw_value[0] == '1' ? '0' : raw_value[0];
+    raw_value.insert(0, width - raw_value.size(), c);
+    return raw_value;
+}
+
 std::string convert_str_value(const std::string &raw_value) {
     uint64_t bits = raw_value.size();
     std::string result;
@@ -118,11 +126,12 @@ void ReplayVPIProvider::vpi_get_value(vpiHandle expr, p_vpi_value value_p) {
             set_value(value_p, 0, str_buffer_);
         }
     } else if (array_info_.find(expr) != array_info_.end()) {
-        // if there is any error, we return
-        value_p->value.integer = 0;
-        value_p->value.str = nullptr;
         auto info = get_array_info(expr);
-        if (!info) return;
+        if (!info) {
+            // if unable to get value, 0 should be returned
+            set_value(value_p, 0, str_buffer_);
+            return;
+        }
         auto hi = info->hi;
         auto lo = info->lo;
         auto width = hi - lo;
@@ -257,9 +266,13 @@ vpiHandle ReplayVPIProvider::vpi_iterate(PLI_INT32 type, vpiHandle refHandle) {
             // for each signal return a scan handle
             for (auto const &signal : signals) {
                 auto *handle = get_signal_handle(signal.id);
-                if (handle) {
-                    handles.emplace_back(handle);
+                if (!handle) {
+                    // may not be created yet
+                    handle = get_new_handle();
+                    signal_id_map_.emplace(handle, signal.id);
+                    handle_mapping_.emplace(db_->get_full_signal_name(signal.id), handle);
                 }
+                handles.emplace_back(handle);
             }
         }
     } else if (type == vpiModule) {
@@ -611,12 +624,13 @@ std::optional<ReplayVPIProvider::PackedArrayInfo> ReplayVPIProvider::get_array_i
             hi = lo + slice_size;
         }
         // need to slice out the raw value
-        if (lo >= raw_value->size()) {
+        auto value = extend_value(*raw_value, signal->width);
+        if (lo >= value.size()) {
             return std::nullopt;
         }
         // need to slice out the raw_value
-        hi = std::min<uint64_t>(hi, raw_value->size());
-        return ReplayVPIProvider::PackedArrayInfo{.lo = lo, .hi = hi, .raw_value = *raw_value};
+        hi = std::min<uint64_t>(hi, value.size());
+        return ReplayVPIProvider::PackedArrayInfo{.lo = lo, .hi = hi, .raw_value = value};
     }
     return std::nullopt;
 }
-- 
2.43.0


From 82391901101930c69d60857e092dfb3892f8a123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 067/104] fix: replay callbacks that register callbacks, and
 arguments that move

---
 tools/hgdb-replay/vpi.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index cf48108..fb9e31a 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -425,7 +425,11 @@ void ReplayVPIProvider::set_argv(int argc, char **argv) {
 
 void ReplayVPIProvider::add_argv(const std::string &arg) {
     argv_str_.emplace_back(arg);
-    argv_.emplace_back(const_cast<char *>(argv_str_.back().c_str()));
+    // the strings may have been moved
+    argv_.clear();
+    for (auto const &a : argv_str_) {
+        argv_.emplace_back(const_cast<char *>(a.c_str()));
+    }
 }
 
 void ReplayVPIProvider::set_on_cb_added(const std::function<void(p_cb_data)> &on_cb_added) {
@@ -450,8 +454,12 @@ bool ReplayVPIProvider::is_valid_handle(const vpiHandle handle) const {
 }
 
 void ReplayVPIProvider::trigger_cb(uint32_t reason, vpiHandle handle, int64_t value) {  // NOLINT
-    for (auto const &iter : callbacks_) {
-        auto cb_data = iter.second;
+    // callbacks can be added and removed from inside a callback
+    std::vector<vpiHandle> handles;
+    handles.reserve(callbacks_.size());
+    for (auto const &iter : callbacks_) handles.emplace_back(iter.first);
+    for (auto *cb_handle : handles) {
+        auto cb_data = callbacks_.at(cb_handle);
         if (cb_data.deleted) continue;
         s_vpi_value vpi_value;
         if (cb_data.data.reason == reason) {
-- 
2.43.0


From 0d9869e30efbb5b22b06c3bf5b5fe8edf3138704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 068/104] fix: triggers of a breakpoint looked up by id in an
 SQLite symbol table

---
 src/db.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index dc5b38c..4976576 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -94,7 +94,8 @@ std::optional<BreakPoint> DBSymbolTableProvider::get_breakpoint(uint32_t breakpo
                           .filename = ptr->filename,
                           .line_num = ptr->line_num,
                           .column_num = ptr->column_num,
-                          .condition = ptr->condition};
+                          .condition = ptr->condition,
+                          .trigger = ptr->trigger};
 
     } else {
         return std::nullopt;
-- 
2.43.0


From 17571a6fcda821a315f1c959b40c216c415819e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 069/104] fix: the path mapping was applied twice when all
 breakpoints of a file are asked for

---
 src/db.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 4976576..73e7794 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -72,13 +72,9 @@ std::vector<BreakPoint> DBSymbolTableProvider::get_breakpoints(const std::string
 }
 
 std::vector<BreakPoint> DBSymbolTableProvider::get_breakpoints(const std::string &filename) {
-    auto resolved_filename = resolve_filename_to_db(filename);
-    if (use_base_name_) {  // NOLINT
-        std::filesystem::path p = resolved_filename;
-        resolved_filename = p.filename();
-    }
+    // the filename will be resolved there
     // NOLINTNEXTLINE
-    return get_breakpoints(resolved_filename, 0, 0);
+    return get_breakpoints(filename, 0, 0);
 }
 
 std::optional<BreakPoint> DBSymbolTableProvider::get_breakpoint(uint32_t breakpoint_id) {
-- 
2.43.0


From f2fea1382f1177b38dc15bc0c1eda8690a7c46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 070/104] fix: a signal whose name contains the instance name
 was taken for a full name

---
 src/db.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 73e7794..0bf3c73 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -137,7 +137,7 @@ std::optional<uint64_t> DBSymbolTableProvider::get_instance_id(uint64_t breakpoi
 
 std::string get_var_value(bool is_rtl, const std::string &value, const std::string &instance_name) {
     std::string fullname;
-    if (is_rtl && value.find(instance_name) == std::string::npos) {
+    if (is_rtl && !value.starts_with(instance_name + ".")) {
         fullname = fmt::format("{0}.{1}", instance_name, value);
     } else {
         fullname = value;
-- 
2.43.0


From 8665249bcc2445ecaa3c2a10960c48f1de88fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 071/104] fix: assignments of other scopes were found in SQLite
 symbol tables

---
 src/db.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db.cc b/src/db.cc
index 0bf3c73..35e1fe3 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -304,6 +304,7 @@ DBSymbolTableProvider::get_assigned_breakpoints(const std::string &var_name,  //
             ref_assign = std::move(ref_assignment);
         } else if (ref_assignment.name == var_name) {
             found = true;
+            ref_assign = std::move(ref_assignment);
         }
     }
 
-- 
2.43.0


From 2a01d77c165a12d2fddfd5ed877c127aabb0de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 072/104] fix: the evaluation crashed without a symbol table

A client that connects to a symbol table that cannot be read leaves the
debugger without one, but with the scheduler of the old one; and Verilator
evaluates before any client has connected.
---
 src/debug.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index a8624df..7db00a9 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -45,7 +45,8 @@ bool Debugger::initialize_db(const std::string &filename) {
 }
 
 void Debugger::initialize_db(std::unique_ptr<SymbolTableProvider> db) {
-    // reset db_ for every new connection
+    // reset db_ for every new connection. the scheduler refers to it
+    scheduler_ = nullptr;
     db_ = nullptr;
     if (!db) return;
     db_ = std::move(db);
@@ -108,10 +109,13 @@ void Debugger::stop() {
 void Debugger::eval() {
     // requests are only handled between the evaluations and when the simulation is held
     std::unique_lock guard(state_lock_);
+    // nothing to evaluate without the symbol table
+    if (!scheduler_) return;
     perf::PerfCount perf("eval loop", perf_count_);
     // if we set to pause at posedge, need to do that at the very beginning!
     if (pause_at_posedge) [[unlikely]] {
         hold(guard);
+        if (!scheduler_) return;
     }
     // the function that actually triggers breakpoints!
     // notice that there is a hidden race condition
@@ -122,7 +126,8 @@ void Debugger::eval() {
     start_breakpoint_evaluation();  // clean the state and fetch values
 
     // main loop to fetch breakpoints
-    while (true) {
+    // a client can connect again while the simulation is held, perhaps without a symbol table
+    while (scheduler_) {
         std::vector<DebugBreakPoint *> bps;
         {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
-- 
2.43.0


From 9d3866bac86507d77cfa7a94cd331a06d2d98620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 073/104] fix: namespaces were added again for every connection

Breakpoints were reported twice after a client had connected again, and the
numbers of the namespaces changed.
---
 src/namespace.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..d1e93c1 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -1,5 +1,7 @@
 #include "namespace.hh"
 
+#include <algorithm>
+
 #include "symbol.hh"
 #include "util.hh"
 
@@ -33,9 +35,13 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
-    for (auto i = 1u; i < mapping.size(); i++) {
+    // the mapping is computed again for every symbol table. the default namespace always stays
+    while (namespaces_.size() < mapping.size()) {
         add_namespace(default_rtl()->vpi());
     }
+    if (namespaces_.size() > mapping.size()) {
+        namespaces_.resize(std::max<size_t>(mapping.size(), 1));
+    }
 
     for (auto i = 0u; i < mapping.size(); i++) {
         namespaces_[i]->rtl->set_mapping(mapping[i].first, mapping[i].second);
@@ -45,6 +51,7 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
 }
 
 void DebuggerNamespaceManager::compute_mapping() {
+    mapped_namespaces_.clear();
     for (auto &ns : namespaces_) {
         mapped_namespaces_[ns->def_name].emplace_back(ns.get());
     }
-- 
2.43.0


From 7f9ecd59bc9659fb29e0ee27badb4dcb0fee94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:38 +0000
Subject: [PATCH 074/104] fix: +DEBUG_LOG=1 had no effect, and
 +define+DEBUG_PORT=n was taken for +DEBUG_PORT

The arguments are documented with a value.
---
 src/debug.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 7db00a9..619bf97 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -388,7 +388,7 @@ std::optional<std::string> Debugger::get_value_plus_arg(const std::string &arg_n
     auto const &args = namespaces_.default_rtl()->get_argv();
     auto const plus_arg = fmt::format("+{0}=", arg_name);
     for (auto const &arg : args) {
-        if (arg.find(plus_arg) != std::string::npos) {
+        if (arg.starts_with(plus_arg)) {
             auto value = arg.substr(plus_arg.size());
             return value;
         }
@@ -401,9 +401,11 @@ bool Debugger::get_test_plus_arg(const std::string &arg_name, bool check_env) {
     if (namespaces_.empty()) return false;
     auto const &args = namespaces_.default_rtl()->get_argv();
     // we check env the last since we allow plus args to override env values
+    // the argument can come with a value, e.g. +DEBUG_LOG=1
     auto plus_arg = "+" + arg_name;
-    auto r = std::any_of(args.begin(), args.end(),
-                         [&plus_arg](const auto &arg) { return arg == plus_arg; });
+    auto r = std::any_of(args.begin(), args.end(), [&plus_arg](const auto &arg) {
+        return arg == plus_arg || arg.starts_with(plus_arg + "=");
+    });
 
     // check env as well if allowed
     if (!r && check_env) {
-- 
2.43.0


From 289ab1413a19159373c41f8cf932454b240e7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 075/104] fix: a breakpoint of the environment without column
 was set in an arbitrary column

---
 include/schema.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/schema.hh b/include/schema.hh
index cf49e4b..0af8f3a 100644
--- a/include/schema.hh
+++ b/include/schema.hh
@@ -14,7 +14,7 @@ struct BreakPoint {
     /**
      * Unique ID for breakpoint
      */
-    uint32_t id;
+    uint32_t id = 0;
     /**
      * Instances the breakpoint belongs to.
      */
@@ -28,11 +28,11 @@ struct BreakPoint {
      * Line number for the breakpoint. Notice that we use 1 as starting
      * line, which is consistent with most IDE and text editors
      */
-    uint32_t line_num;
+    uint32_t line_num = 0;
     /**
      * Column number. Starting from 1. Setting to 0 (default) implies "don't care"
      */
-    uint32_t column_num;
+    uint32_t column_num = 0;
     /**
      * Under which condition the breakpoint should be enabled.
      * Notice that unlike software debuggers where there is no default
-- 
2.43.0


From d5dab4ec09a6541d8d00eda07c53d11a26b1b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 076/104] fix: after the clients had left, the next client
 could not hold the first stop

Detaching releases the simulation. When it was not held, the release was kept
until the next stop, which was then reported but not held.
---
 src/debug.cc | 13 ++++++++++---
 src/debug.hh |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 619bf97..e4e6880 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -78,6 +78,10 @@ void Debugger::run() {
     // this is only used for benchmark!
     preload_db_from_env();
 
+    // rocket chip doesn't like plus args. Need to
+    bool disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
+    is_held_ = !disable_blocking;
+
     auto on_ = [this](const std::string &msg, uint64_t conn_id) { on_message(msg, conn_id); };
     server_thread_ = std::thread([on_, this]() {
         server_->set_on_message(on_);
@@ -91,10 +95,9 @@ void Debugger::run() {
     //
     // by default we block the execution. but if user desires, e.g. during a benchmark
     // we can skip the blocking
-    // rocket chip doesn't like plus args. Need to
-    bool disable_blocking = get_test_plus_arg(DISABLE_BLOCKING_ENV, true);
     if (!disable_blocking) [[likely]] {
         lock_.wait();
+        is_held_ = false;
     }
 }
 
@@ -160,9 +163,11 @@ void Debugger::eval() {
 }
 
 void Debugger::hold(std::unique_lock<std::recursive_mutex> &guard) {
+    is_held_ = true;
     guard.unlock();
     lock_.wait();
     guard.lock();
+    is_held_ = false;
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
@@ -258,7 +263,9 @@ void Debugger::detach() {
 
     if (is_running_.load()) {
         is_running_ = false;
-        lock_.ready();
+        // only if there is something to let go. otherwise the next client would not get hold of
+        // the simulation at its first stop
+        if (is_held_.load()) lock_.ready();
     }
 
     log_info("Debugger runtime detached since all clients have disconnected");
diff --git a/src/debug.hh b/src/debug.hh
index 72ef733..516994d 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -69,6 +69,8 @@ private:
     // runtime lock
     RuntimeLock lock_;
     std::atomic<bool> is_running_ = false;
+    // the simulation waits for the client, or is about to
+    std::atomic<bool> is_held_ = false;
     // the simulation and the server share the state below from different threads
     std::recursive_mutex state_lock_;
 
-- 
2.43.0


From bed1fecfcfd736301c96f566be5199c1ea3508b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 077/104] fix: nothing was evaluated for a client that
 connected to Verilator after the others had left

---
 src/debug.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index e4e6880..b1b5a9f 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -541,6 +541,12 @@ PLI_INT32 eval_hgdb_on_clk(p_cb_data cb_data) {
     return 0;
 }
 
+PLI_INT32 eval_hgdb_on_next_time(p_cb_data cb_data) {
+    auto *debugger = reinterpret_cast<hgdb::Debugger *>(cb_data->user_data);
+    debugger->eval();
+    return 0;
+}
+
 void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id) {
     // if we have a debug cli flag, don't load the db
     bool success = true;
@@ -1434,8 +1440,14 @@ void Debugger::add_cb_clocks() {
     // TODO:
     //     for now we assume all the designs share the same clock
     //     this may not be the case
-    if (!namespaces_.empty() && namespaces_.default_rtl() &&
-        !namespaces_.default_rtl()->is_verilator()) {
+    if (namespaces_.empty() || !namespaces_.default_rtl()) return;
+    if (namespaces_.default_rtl()->is_verilator()) {
+        // registered at the start of the simulation, but removed when the clients left
+        auto *rtl = namespaces_.default_rtl();
+        if (!rtl->callback_names().contains("eval_hgdb")) {
+            rtl->add_call_back("eval_hgdb", cbNextSimTime, eval_hgdb_on_next_time, nullptr, this);
+        }
+    } else {
         // only trigger eval at the posedge clk
         auto *rtl = namespaces_.default_rtl();
         auto clock_signals = util::get_clock_signals(rtl, db_.get());
-- 
2.43.0


From 5313217955224495e18c40ccb4ed72dc84b2a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 078/104] fix: the timestamps of a rewritten waveform were
 ignored

hgdb-rewrite-vcd does not write the $end of a dump section, so that reading its output with hgdb's own
parser took everything up to the end of the file as one section at time 0.
---
 tools/vcd/vcd.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index 4445bad..3f97a8a 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -276,6 +276,16 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
                 // an empty token is the end of a truncated file
                 if (token.empty() || token == "$end") {
                     break;
+                } else if (token[0] == '#') {
+                    // some writers, hgdb-rewrite-vcd included, leave out the $end
+                    auto time = parse_number<uint64_t>(std::string_view(token).substr(1));
+                    if (!time) {
+                        error_message_ = "Illegal timestamp: " + token;
+                        return false;
+                    }
+                    timestamp = *time;
+                    if (on_time_change_) (*on_time_change_)(timestamp);
+                    break;
                 } else if (std::string("01xzXZ").find(token[0]) != std::string::npos) {
                     auto value = std::string(1, token[0]);
                     auto ident = std::string(token.substr(1));
-- 
2.43.0


From a6c35bec35f5c2235fb147b82bbe12dc9dd4d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 079/104] fix: rewriting a waveform that has several top level
 scopes, or one without children, crashed

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index 868b5f3..e11c45f 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -69,7 +69,7 @@ public:
         parser_.set_on_definition_finished([this]() {
             compute_design_root();
             remap_definition();
-            serialize(root_);
+            for (auto const *root : roots_) serialize(root);
 
             // the end of definition
             stream_ << "$enddefinitions " << end_ << std::endl;
@@ -109,7 +109,7 @@ private:
     std::vector<std::unique_ptr<hgdb::vcd::VCDVarDef>> vars_;
     std::unordered_set<std::string> identifiers_;
     std::stack<Scope *> scopes_stack_;
-    Scope *root_ = nullptr;
+    std::vector<Scope *> roots_;
     Scope *design_root_ = nullptr;
     bool has_error = false;
 
@@ -119,8 +119,9 @@ private:
     void on_scope_def(const hgdb::vcd::VCDScopeDef &def) {
         auto scope = std::make_unique<Scope>();
         scope->def = def;
-        if (!root_) {
-            root_ = scope.get();
+        if (scopes_stack_.empty()) {
+            // there can be several top level scopes
+            roots_.emplace_back(scope.get());
         } else {
             auto *parent = scopes_stack_.top();
             parent->add_child(scope.get());
@@ -145,10 +146,15 @@ private:
         // special case where the design is flat
         if (tokens.size() == 1) {
             // choose whatever one that has the highest
-            auto *target_scope = root_->scopes[0];
-            for (auto *scope : root_->scopes) {
-                if (scope->vars.size() > target_scope->vars.size()) target_scope = scope;
+            Scope *target_scope = nullptr;
+            for (auto *root : roots_) {
+                for (auto *scope : root->scopes) {
+                    if (!target_scope || scope->vars.size() > target_scope->vars.size())
+                        target_scope = scope;
+                }
             }
+            // without a test bench the design itself is at the top
+            if (!target_scope && !roots_.empty()) target_scope = roots_[0];
             design_root_ = target_scope;
         } else {
             std::vector<Scope *> candidates{};
-- 
2.43.0


From c045f20705a29e590423138c81bf1219e633cbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 080/104] fix: rewriting a waveform with a symbol table that
 has no instance crashed

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index e11c45f..af92385 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -142,6 +142,8 @@ private:
         // first we need to figure out the actual mapping between TB and the design top
         auto target_instance = find_longer_generator_instance();
         auto tokens = get_tokens(target_instance, ".");
+        // nothing to map if the symbol table has no instance
+        if (tokens.empty()) return;
         // we only interest in the ones after that
         // special case where the design is flat
         if (tokens.size() == 1) {
@@ -336,7 +338,7 @@ private:
         using namespace sqlite_orm;
         auto result = db_->select(&hgdb::Instance::name,
                                   order_by(length(&hgdb::Instance::name)).desc(), limit(1));
-        return result[0];
+        return result.empty() ? "" : result[0];
     }
 
     static std::vector<std::string> get_tokens(const std::string &line,
-- 
2.43.0


From 25a99df8e9aca12b2362fbc0a5f379a5205e0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 081/104] fix: hgdb-rewrite-vcd reported success after it
 failed to map the design

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index af92385..9366e65 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -81,10 +81,12 @@ public:
 
     bool convert() {
         if (parser_.has_error()) return false;
-        return parser_.parse();
+        return parser_.parse() && !has_error;
     }
 
-    [[nodiscard]] const std::string &error_msg() const { return parser_.error_message(); }
+    [[nodiscard]] const std::string &error_msg() const {
+        return has_error ? error_message_ : parser_.error_message();
+    }
 
 private:
     hgdb::vcd::VCDParser parser_;
@@ -112,6 +114,7 @@ private:
     std::vector<Scope *> roots_;
     Scope *design_root_ = nullptr;
     bool has_error = false;
+    std::string error_message_;
 
     constexpr static auto indent_ = "  ";
     constexpr static auto end_ = "$end";
@@ -173,7 +176,7 @@ private:
                 candidates = temp;
             }
             if (candidates.size() != 1) {
-                std::cerr << "Unable to map design hierarchy to test bench." << std::endl;
+                error_message_ = "Unable to map design hierarchy to test bench.";
                 has_error = true;
                 return;
             }
-- 
2.43.0


From afa6285012d0f75cb35333e038cbb34b8fc0c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 082/104] fix: hgdb-rewrite-vcd took a variable in a child
 scope for the one of the same name in the instance

get_scope ignores the first token, so that looking up a single token never left the instance and only the
last token of the RTL name was compared.
---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 30 ++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index 9366e65..f9aa3d6 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -203,8 +203,8 @@ private:
             auto const [parent_scope, var_index] = get_var(scope, rtl_name);
             if (!parent_scope) continue;
             auto *var = parent_scope->vars[var_index];
-            // insert the var into a new scope
-            insert_new_var(parent_scope, var, var_name);
+            // insert the var into a new scope. the name is relative to the instance
+            insert_new_var(scope, var, var_name);
             // delete the var
             parent_scope->vars[var_index] = nullptr;
         }
@@ -219,28 +219,26 @@ private:
         if (!scope) return nullptr;
         auto tokens = get_tokens(design_name, ".");
         for (auto i = 1u; i < tokens.size(); i++) {
-            auto const &name = tokens[i];
-            bool found = false;
-            for (auto *child_scope : scope->scopes) {
-                if (!child_scope) continue;
-                if (child_scope->def.name == name) {
-                    scope = child_scope;
-                    found = true;
-                    break;
-                }
-            }
-            if (!found) return nullptr;
+            scope = get_child(scope, tokens[i]);
+            if (!scope) return nullptr;
         }
         return scope;
     }
 
+    static Scope *get_child(Scope *scope, const std::string &name) {
+        for (auto *child_scope : scope->scopes) {
+            if (child_scope->def.name == name) return child_scope;
+        }
+        return nullptr;
+    }
+
     static std::pair<Scope *, uint64_t> get_var(Scope *parent, const std::string &var_name) {
         // continue to select until we can't any, this would be the parent scope
         auto tokens = get_tokens(var_name, ".");
         Scope *parent_scope = parent;
         uint64_t index;
-        for (index = 0; index < tokens.size(); index++) {
-            auto *scope = get_scope(parent_scope, tokens[index]);
+        for (index = 0; index + 1 < tokens.size(); index++) {
+            auto *scope = get_child(parent_scope, tokens[index]);
             if (!scope)
                 break;
             else
@@ -248,7 +246,7 @@ private:
         }
         // we found the parent scope, now need to locate the var
         // compute the rest of var name
-        auto name = fmt::format("{}", fmt::join(tokens.begin() + index - 1, tokens.end(), "."));
+        auto name = fmt::format("{}", fmt::join(tokens.begin() + index, tokens.end(), "."));
         for (uint64_t i = 0; i < parent_scope->vars.size(); i++) {
             if (parent_scope->vars[i] && parent_scope->vars[i]->name == name) {
                 return {parent_scope, i};
-- 
2.43.0


From 278c5a5c6ace530a62e5954a30012a7e34e528b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 083/104] fix: hgdb-rewrite-vcd renamed a variable again when
 its new name is that of another RTL variable

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index f9aa3d6..a023914 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -196,13 +196,26 @@ private:
             where(c(&hgdb::Variable::is_rtl) == true &&
                   c(&hgdb::GeneratorVariable::variable_id) == &hgdb::Variable::id &&
                   c(&hgdb::GeneratorVariable::instance_id) == &hgdb::Instance::id));
+        // look up every variable before any of them is renamed
+        struct Remap {
+            Scope *scope;
+            Scope *parent_scope;
+            uint64_t var_index;
+            std::string var_name;
+        };
+        std::vector<Remap> remaps;
         for (auto const &[instance_name, rtl_name, var_name] : vars) {
             auto *scope = get_scope(instance_name);
             if (!scope) continue;
             // we need to rearrange the vars depends on the var name
             auto const [parent_scope, var_index] = get_var(scope, rtl_name);
             if (!parent_scope) continue;
+            remaps.emplace_back(Remap{scope, parent_scope, var_index, var_name});
+        }
+        for (auto const &[scope, parent_scope, var_index, var_name] : remaps) {
             auto *var = parent_scope->vars[var_index];
+            // a variable that has several names is renamed to the first one
+            if (!var) continue;
             // insert the var into a new scope. the name is relative to the instance
             insert_new_var(scope, var, var_name);
             // delete the var
-- 
2.43.0


From efde05c03a0213eb4639486848f4a1e8b6c5001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:02 +0000
Subject: [PATCH 084/104] fix: hgdb-rewrite-vcd crashed on a waveform whose
 scopes are not balanced

---
 tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
index a023914..4333e6c 100644
--- a/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
+++ b/tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc
@@ -60,7 +60,13 @@ public:
 
         parser_.set_on_var_def([this](const hgdb::vcd::VCDVarDef &def) { on_var_def(def); });
 
-        parser_.set_exit_scope([this]() { scopes_stack_.pop(); });
+        parser_.set_exit_scope([this]() {
+            if (scopes_stack_.empty()) {
+                set_error("Illegal VCD file: $upscope without $scope");
+            } else {
+                scopes_stack_.pop();
+            }
+        });
 
         parser_.set_value_change([this](const hgdb::vcd::VCDValue &value) { serialize(value); });
 
@@ -119,6 +125,11 @@ private:
     constexpr static auto indent_ = "  ";
     constexpr static auto end_ = "$end";
 
+    void set_error(const std::string &message) {
+        if (!has_error) error_message_ = message;
+        has_error = true;
+    }
+
     void on_scope_def(const hgdb::vcd::VCDScopeDef &def) {
         auto scope = std::make_unique<Scope>();
         scope->def = def;
@@ -134,6 +145,10 @@ private:
     }
 
     void on_var_def(const hgdb::vcd::VCDVarDef &def) {
+        if (scopes_stack_.empty()) {
+            set_error("Illegal VCD file: variable " + def.name + " is not in any scope");
+            return;
+        }
         auto var = std::make_unique<hgdb::vcd::VCDVarDef>(def);
         identifiers_.emplace(var->identifier);
         // put it to the parent
@@ -176,8 +191,7 @@ private:
                 candidates = temp;
             }
             if (candidates.size() != 1) {
-                error_message_ = "Unable to map design hierarchy to test bench.";
-                has_error = true;
+                set_error("Unable to map design hierarchy to test bench.");
                 return;
             }
             design_root_ = candidates[0];
-- 
2.43.0


From a21fa510819c7f802d20bb8d12125d493bcf43ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 085/104] fix: the Python symbol table wrote columns under a
 name that hgdb does not read

---
 bindings/python/hgdb/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/hgdb/db.py b/bindings/python/hgdb/db.py
index 48dcaa5..337d49a 100644
--- a/bindings/python/hgdb/db.py
+++ b/bindings/python/hgdb/db.py
@@ -101,7 +101,7 @@ class Scope:
     def to_dict(self):
         res = {"type": self.type(), "line": self.line}
         if self.col > 0:
-            res["col"] = self.col
+            res["column"] = self.col
         scopes = []
         for scope in self.__children:
             assert scope.type() != "module"
-- 
2.43.0


From be22e19c62b2f9848aeec083bc149ccc3cda5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 086/104] fix: the Python symbol table wrote the indices of an
 assignment where hgdb does not read them

---
 bindings/python/hgdb/db.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/hgdb/db.py b/bindings/python/hgdb/db.py
index 337d49a..7bd3783 100644
--- a/bindings/python/hgdb/db.py
+++ b/bindings/python/hgdb/db.py
@@ -145,9 +145,6 @@ class Variable:
 
     def to_dict(self):
         res = {"name": self.name, "value": self.value, "rtl": self.rtl}
-        if self.indices:
-            indices = [v.to_dict() for v in self.indices]
-            res["indices"] = indices
         if self.type != VariableType.normal:
             res["type"] = self.type.value
         return res
@@ -164,6 +161,8 @@ class VarAssign(Scope):
     def to_dict(self):
         res = super(VarAssign, self).to_dict()
         res["variable"] = self.var.to_dict()
+        if self.var.indices:
+            res["indices"] = [v.to_dict() for v in self.var.indices]
         return res
 
 
-- 
2.43.0


From fc9d337f0610bdffecd1772366ae98e7acafe978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 087/104] fix: the Python symbol table server did not answer
 the query for the order of breakpoints

---
 bindings/python/hgdb/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/hgdb/symbol.py b/bindings/python/hgdb/symbol.py
index 95dd6e8..b0f1e71 100644
--- a/bindings/python/hgdb/symbol.py
+++ b/bindings/python/hgdb/symbol.py
@@ -71,7 +71,7 @@ class SymbolTableProvider:
                 resp = self.get_annotation_values(payload["name"])
             elif req_type == "get_all_array_names":
                 resp = self.get_all_array_names()
-            elif req_type == "execution_bp_orders":
+            elif req_type == "get_execution_bp_orders":
                 resp = self.execution_bp_orders()
 
             await self.__send_resp(websocket, resp)
-- 
2.43.0


From fce0660243d8d9deea7bfb1a92e26eaefef0261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 088/104] fix: the Python client refused to monitor a variable
 of a breakpoint

---
 bindings/python/hgdb/client.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bindings/python/hgdb/client.py b/bindings/python/hgdb/client.py
index f672028..3f352e5 100644
--- a/bindings/python/hgdb/client.py
+++ b/bindings/python/hgdb/client.py
@@ -213,7 +213,6 @@ class HGDBClient:
         return await self.__send_check(payload, check_error=check_error)
 
     async def add_monitor(self, name, instance_id=None, breakpoint_id=None, monitor_type="breakpoint"):
-        assert (instance_id is not None) or (breakpoint_id is None)
         assert monitor_type in {"breakpoint", "clock_edge"}
         payload = {"request": True, "type": "monitor",
                    "payload": {"action_type": "add", "monitor_type": monitor_type, "var_name": name}}
-- 
2.43.0


From c277ce7aa1360898a8f73da59d262827a8c47a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 089/104] fix: the Python client took a stop or a monitored
 value for the answer to a request

---
 bindings/python/hgdb/client.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bindings/python/hgdb/client.py b/bindings/python/hgdb/client.py
index 3f352e5..9ddf122 100644
--- a/bindings/python/hgdb/client.py
+++ b/bindings/python/hgdb/client.py
@@ -25,9 +25,16 @@ class HGDBClient:
         self.src_mapping = src_mapping
         self.token_count = 0
         self._bps = []
+        # broadcasts that came before the answer to a request
+        self._pending = []
         self.debug = debug
 
     async def recv(self, timeout=0):
+        if self._pending:
+            return self._pending.pop(0)
+        return await self.__recv(timeout)
+
+    async def __recv(self, timeout=0):
         try:
             if timeout == 0:
                 res = json.loads(await self.ws.recv())
@@ -47,6 +54,7 @@ class HGDBClient:
                 return None
         bp = self._bps[0]
         self._bps = self._bps[1:]
+        self._pending = [res for res in self._pending if res is not bp]
         return bp
 
     async def send(self, payload):
@@ -80,9 +88,17 @@ class HGDBClient:
         }}
         await self.__send_check(payload, True)
 
+    async def __recv_answer(self, timeout=0):
+        # the debugger can send breakpoints and monitored values at any time
+        res = await self.__recv(timeout)
+        while res is not None and res["type"] in {"breakpoint", "monitor"}:
+            self._pending.append(res)
+            res = await self.__recv(timeout)
+        return res
+
     async def __send_check(self, payload, check_error=False):
         await self.send(payload)
-        res = await self.recv()
+        res = await self.__recv_answer()
         if check_error:
             self.__check_status(res)
         return res
@@ -165,7 +181,7 @@ class HGDBClient:
         payload["payload"].update(**kwargs)
         await self.send(payload)
         # in case the downstream is interested about the response
-        return await self.recv(timeout=timeout)
+        return await self.__recv_answer(timeout=timeout)
 
     async def get_info(self, status_command="breakpoints", check_error=True):
         payload = {"request": True, "type": "debugger-info", "payload": {"command": status_command}}
-- 
2.43.0


From 81633156c30484a03e81e164fe9636716a0def01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 090/104] fix: the replay database misplaced designs with one
 level or nested names

---
 tools/hgdb-replay/vcd_db.cc | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/tools/hgdb-replay/vcd_db.cc b/tools/hgdb-replay/vcd_db.cc
index 9796455..bbdadff 100644
--- a/tools/hgdb-replay/vcd_db.cc
+++ b/tools/hgdb-replay/vcd_db.cc
@@ -239,6 +239,8 @@ std::pair<std::string, std::string> VCDDatabase::compute_instance_mapping(
     // find out at which point the become different
     uint64_t pos;
     auto full_name_tokens = util::get_tokens(full_name, ".");
+    // the top has to be somewhere as well
+    if (full_name_tokens.size() < tokens.size()) return {};
     for (pos = 1; pos < tokens.size(); pos++) {
         if (tokens[tokens.size() - pos] == full_name_tokens[full_name_tokens.size() - pos])
             continue;
@@ -347,33 +349,30 @@ std::optional<uint64_t> VCDDatabase::match_hierarchy(
     if (instance_tokens.size() < 2) return std::nullopt;
     using namespace sqlite_orm;
 
-    std::unordered_map<uint64_t, uint64_t> parent_mapping;
+    // only one name below the top
+    if (instance_tokens.size() == 2 && targets.size() == 1) return targets[0];
+
+    // ancestors and the instance each one was reached from. instances of the same name can be
+    // nested
+    std::vector<std::pair<uint64_t, uint64_t>> candidates;
+    candidates.reserve(targets.size());
+    for (auto const &id : targets) candidates.emplace_back(id, id);
 
     // walking backwards
     for (uint64_t i = instance_tokens.size() - 2; i > 0; i--) {
-        std::vector<uint64_t> result;
-        for (auto const &id : targets) {
+        std::vector<std::pair<uint64_t, uint64_t>> result;
+        for (auto const &[id, target] : candidates) {
             auto instance_ids = vcd_table_->select(
                 &VCDDBModule::id, where(c(&VCDDBModule::id) == &VCDDBModuleHierarchy::parent_id &&
                                         c(&VCDDBModuleHierarchy::child_id) == id &&
                                         c(&VCDDBModule::name) == instance_tokens[i]));
             for (auto const instance_id : instance_ids) {
-                parent_mapping.emplace(instance_id, id);
-            }
-            result.insert(result.end(), instance_ids.begin(), instance_ids.end());
-        }
-        if (result.size() == 1) {
-            // we have found it
-            // matched id will be in the root
-            auto id = result[0];
-            while (parent_mapping.find(id) != parent_mapping.end()) {
-                id = parent_mapping.at(id);
+                result.emplace_back(instance_id, target);
             }
-            return id;
-            break;
-        } else {
-            targets = result;
         }
+        // we have found it
+        if (result.size() == 1) return result[0].second;
+        candidates = std::move(result);
     }
     return std::nullopt;
 }
-- 
2.43.0


From 576827f1bde3021c15121e108cbfdd8ac3c90f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 091/104] fix: slices of signals in different namespaces had
 the same handle

---
 src/rtl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rtl.hh b/src/rtl.hh
index d829b69..573205e 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -1,6 +1,7 @@
 #ifndef HGDB_RTL_HH
 #define HGDB_RTL_HH
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -191,7 +192,8 @@ private:
     // simulator vendors that deal with slices. As a result, we need to fake vpiHandles to deal
     // with slices
     std::unordered_map<vpiHandle, std::tuple<vpiHandle, uint32_t, uint32_t>> mock_slice_handles_;
-    vpiHandle mock_slice_handle_counter_ = nullptr;
+    // shared by the clients of all namespaces, whose handles have to be different
+    static inline std::atomic<vpiHandle> mock_slice_handle_counter_ = nullptr;
     std::optional<std::function<vpiHandle()>> vpi_allocator_;
 
     // simulator info
-- 
2.43.0


From d277767e637d5ea9f2b740abceb1692ec166fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:07 +0000
Subject: [PATCH 092/104] fix: the simulator was asked for the name of a slice
 it does not know

---
 src/rtl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index 376fc1f..09721db 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -492,6 +492,11 @@ std::string RTLSimulatorClient::get_full_name(const std::string &name) const {
 }
 
 std::string RTLSimulatorClient::get_full_name(vpiHandle handle) {
+    // the simulator does not know about our slices
+    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) [[unlikely]] {
+        auto const &[parent, hi, lo] = it->second;
+        return fmt::format("{0}[{1}:{2}]", get_full_name(parent), hi, lo);
+    }
     auto const *res = vpi_->vpi_get_str(vpiFullName, handle);
     if (res) {
         return {res};
-- 
2.43.0


From 2bf3af89e20ee13a73cac23da180e1d40557031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 093/104] fix: a slice kept its cached value when its signal
 was set

---
 src/debug.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index b1b5a9f..c43b479 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1001,13 +1001,10 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         // need to set the value
         auto res = rtl->set_value(*full_name, req.value());
         if (res) {
-            // we need to remove cached value
+            // we need to remove cached values. this includes the slices of the signal
             {
-                auto *handle = rtl->get_handle(*full_name);
                 std::lock_guard guard(cached_signal_values_lock_);
-                if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-                    cached_signal_values_.erase(handle);
-                }
+                cached_signal_values_.clear();
             }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
-- 
2.43.0


From 4d5bf6cb8629178e632a3a46e674e23681445853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 094/104] fix: the table of slices was changed by one thread
 while others read it

---
 src/rtl.cc | 47 +++++++++++++++++++++++++++++------------------
 src/rtl.hh |  6 +++++-
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 09721db..c5012a1 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -275,8 +275,7 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
         return std::nullopt;
     }
 
-    bool is_slice_handle = false;
-    auto *target_handle = handle;
+    std::optional<SliceInfo> slice;
 
     if (is_signal) {
         // get value size. Verilator will freak out if the width is larger than 64
@@ -291,9 +290,9 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
 
         // if we have mock vpi handle, use it
         // optimize for unlikely
-        is_slice_handle = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        if (is_slice_handle) [[unlikely]]
-            handle = std::get<0>(mock_slice_handles_.at(handle));
+        slice = get_slice_info(handle);
+        if (slice) [[unlikely]]
+            handle = std::get<0>(*slice);
     }
 
     s_vpi_value v;
@@ -316,8 +315,8 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
         result = v.value.integer;
     }
 
-    if (is_slice_handle) [[unlikely]] {
-        result = get_slice(result, mock_slice_handles_.at(target_handle));
+    if (slice) [[unlikely]] {
+        result = get_slice(result, *slice);
     }
 
     return result;
@@ -386,15 +385,16 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
     if (is_signal) {
         vpiHandle request_handle = handle;
 
-        bool is_slice = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        handle = is_slice ? std::get<0>(mock_slice_handles_.at(handle)) : handle;
+        auto const slice = get_slice_info(handle);
+        if (slice) [[unlikely]]
+            handle = std::get<0>(*slice);
 
         s_vpi_value v;
-        v.format = is_slice ? vpiBinStrVal : vpiHexStrVal;
+        v.format = slice ? vpiBinStrVal : vpiHexStrVal;
         vpi_->vpi_get_value(handle, &v);
         std::string result = v.value.str;
-        if (is_slice) [[unlikely]] {
-            result = get_slice(result, mock_slice_handles_.at(request_handle));
+        if (slice) [[unlikely]] {
+            result = get_slice(result, *slice);
         }
         // we only add 0x to any signal that has more than 1bit
         auto width = get_vpi_size(request_handle);
@@ -411,7 +411,7 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
 bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     if (!handle) return false;
     // slices are read only since the simulator does not know about them
-    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) return false;
+    if (get_slice_info(handle)) return false;
     s_vpi_value vpi_value;
     std::string bits;
     if (auto width = get_vpi_size(handle); width > 32) [[unlikely]] {
@@ -493,8 +493,8 @@ std::string RTLSimulatorClient::get_full_name(const std::string &name) const {
 
 std::string RTLSimulatorClient::get_full_name(vpiHandle handle) {
     // the simulator does not know about our slices
-    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) [[unlikely]] {
-        auto const &[parent, hi, lo] = it->second;
+    if (auto const slice = get_slice_info(handle)) [[unlikely]] {
+        auto const &[parent, hi, lo] = *slice;
         return fmt::format("{0}[{1}:{2}]", get_full_name(parent), hi, lo);
     }
     auto const *res = vpi_->vpi_get_str(vpiFullName, handle);
@@ -1027,7 +1027,7 @@ void RTLSimulatorClient::set_vpi_allocator(const std::function<vpiHandle()> &fun
 PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (!handle) return vpiError;
     // the simulator does not know about our slices
-    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) [[unlikely]]
+    if (get_slice_info(handle)) [[unlikely]]
         return vpiPartSelect;
     std::lock_guard guard(cached_vpi_types_lock_);
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
@@ -1042,8 +1042,8 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
     // the simulator does not know about our slices
-    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) [[unlikely]] {
-        auto const &[parent, hi, lo] = it->second;
+    if (auto const slice = get_slice_info(handle)) [[unlikely]] {
+        auto const &[parent, hi, lo] = *slice;
         return hi - lo + 1;
     }
     std::lock_guard guard(cached_vpi_size_lock_);
@@ -1125,10 +1125,21 @@ vpiHandle RTLSimulatorClient::add_mock_slice_vpi(vpiHandle parent, const std::st
     if (!slice_num) return nullptr;
     auto [hi, lo] = *slice_num;
     auto *new_handle = vpi_allocator_ ? (*vpi_allocator_)() : ++mock_slice_handle_counter_;
+    std::lock_guard guard(mock_slice_handles_lock_);
     mock_slice_handles_.emplace(new_handle, std::make_tuple(parent, hi, lo));
     return new_handle;
 }
 
+std::optional<RTLSimulatorClient::SliceInfo> RTLSimulatorClient::get_slice_info(
+    vpiHandle handle) const {
+    // slices are added by any thread that looks up a name
+    std::lock_guard guard(mock_slice_handles_lock_);
+    auto it = mock_slice_handles_.find(handle);
+    if (it == mock_slice_handles_.end()) [[likely]]
+        return std::nullopt;
+    return it->second;
+}
+
 vpiHandle RTLSimulatorClient::get_handle_raw(const std::string &handle_name) {
     vpiHandle ptr = nullptr;
     if (handle_map_.find(handle_name) != handle_map_.end()) {
diff --git a/src/rtl.hh b/src/rtl.hh
index 573205e..41227b6 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -191,7 +191,10 @@ private:
     // notice that to my best knowledge, there is no command VPI routine that shared by all
     // simulator vendors that deal with slices. As a result, we need to fake vpiHandles to deal
     // with slices
-    std::unordered_map<vpiHandle, std::tuple<vpiHandle, uint32_t, uint32_t>> mock_slice_handles_;
+    // parent, hi, and lo
+    using SliceInfo = std::tuple<vpiHandle, uint32_t, uint32_t>;
+    std::unordered_map<vpiHandle, SliceInfo> mock_slice_handles_;
+    mutable std::mutex mock_slice_handles_lock_;
     // shared by the clients of all namespaces, whose handles have to be different
     static inline std::atomic<vpiHandle> mock_slice_handle_counter_ = nullptr;
     std::optional<std::function<vpiHandle()>> vpi_allocator_;
@@ -231,6 +234,7 @@ private:
         const std::unordered_set<std::string> &)>>
         custom_hierarchy_func_;
     vpiHandle add_mock_slice_vpi(vpiHandle parent, const std::string &slice);
+    [[nodiscard]] std::optional<SliceInfo> get_slice_info(vpiHandle handle) const;
     vpiHandle get_handle_raw(const std::string &handle_name);
 };
 }  // namespace hgdb
-- 
2.43.0


From bd4989155d6cd4657897646208d5d59d265ff710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 095/104] fix: leaving several scopes in a row with $parent
 ended in the wrong one

---
 src/rtl.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index c5012a1..dfbd809 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -609,17 +609,17 @@ std::string resolve_rtl_path(const std::string &path) {
         return path;
     }
 
-    auto tokens = util::get_tokens(path, ".");
-    for (auto i = 1u; i < tokens.size(); i++) {
-        if (tokens[i] == "$parent") {
-            tokens[i] = "";
-            tokens[i - 1] = "";
+    auto const path_tokens = util::get_tokens(path, ".");
+    std::vector<std::string> tokens;
+    tokens.reserve(path_tokens.size());
+    for (auto const &token : path_tokens) {
+        // each one leaves the scope we are in
+        if (token == "$parent" && !tokens.empty()) {
+            tokens.pop_back();
+        } else {
+            tokens.emplace_back(token);
         }
     }
-    // filter empty ones
-    tokens.erase(
-        std::remove_if(tokens.begin(), tokens.end(), [](auto const &s) { return s.empty(); }),
-        tokens.end());
     auto res = fmt::format("{0}", fmt::join(tokens.begin(), tokens.end(), "."));
     return res;
 }
-- 
2.43.0


From 17cc2b2c1e67c985ebcbc2d3f650eaa39b206095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 096/104] fix: expressions did not find variables given by
 their full RTL names in another instance

---
 src/symbol.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 3b05417..7ec2ccc 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -65,6 +65,12 @@ bool has_instance_name(const std::string &name, const std::string &instance_name
            (name.size() == instance_name.size() || name[instance_name.size()] == '.');
 }
 
+// a name that starts at the top of the instance, which may belong to another instance
+bool is_full_rtl_name(const std::string &name, const std::string &instance_name) {
+    return has_instance_name(name, instance_name) ||
+           name.starts_with(instance_name.substr(0, instance_name.find('.')) + ".");
+}
+
 std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
     const std::string &scoped_name, uint64_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
@@ -79,7 +85,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
         auto const &[ctx, var] = *it;
         if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (has_instance_name(var.value, *inst_name)) {
+                if (is_full_rtl_name(var.value, *inst_name)) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
@@ -100,7 +106,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     for (auto const &[gen, var] : vars) {
         if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (has_instance_name(var.value, *inst_name)) {
+                if (is_full_rtl_name(var.value, *inst_name)) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
-- 
2.43.0


From 496fc6ea919dbff759cc46b3d138f96c6e3d649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 097/104] fix: hgdb-db queries without a symbol table
 dereferenced a null table

---
 tools/hgdb-db/hgdb-db.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/hgdb-db/hgdb-db.cc b/tools/hgdb-db/hgdb-db.cc
index 465e2bd..60ffb5a 100644
--- a/tools/hgdb-db/hgdb-db.cc
+++ b/tools/hgdb-db/hgdb-db.cc
@@ -159,6 +159,7 @@ auto get_breakpoint(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider>
                      "Search breakpoint by ID", {"id"});
     sub_menu->Insert("where",
                      [&db](std::ostream &os, const std::string &filename) {
+                         if (!check_db(db, os)) return;
                          std::vector<hgdb::BreakPoint> bps;
                          uint32_t line = 0, col = 0;
                          auto tokens = hgdb::util::get_tokens(filename, ":");
@@ -199,6 +200,7 @@ auto get_context_variable(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProv
     auto sub_menu = std::make_unique<cli::Menu>("context", "Context variable query");
     sub_menu->Insert("id",
                      [&db](std::ostream &os, uint32_t id) {
+                         if (!check_db(db, os)) return;
                          auto res = db->get_context_variables(id);
                          render<decltype(res), hgdb::SymbolTableProvider::ContextVariableInfo>(
                              std::move(res), os);
@@ -212,6 +214,7 @@ auto get_generator_variable(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTablePr
     auto sub_menu = std::make_unique<cli::Menu>("generator", "Generator variable query");
     sub_menu->Insert("id",
                      [&db](std::ostream &os, uint32_t id) {
+                         if (!check_db(db, os)) return;
                          auto res = db->get_generator_variable(id);
                          render<decltype(res), hgdb::SymbolTableProvider::GeneratorVariableInfo>(
                              std::move(res), os);
@@ -225,6 +228,7 @@ auto get_assign_info(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider>
     auto sub_menu = std::make_unique<cli::Menu>("assign", "Assignment information query query");
     sub_menu->Insert("get",
                      [&db](std::ostream &os, const std::string &var_name, uint32_t id) {
+                         if (!check_db(db, os)) return;
                          auto res = db->get_assigned_breakpoints(var_name, id);
                          std::vector<AssignmentInfo> result;
                          result.reserve(res.size());
-- 
2.43.0


From 16dc2db888bf388ae379e09437e889ea85a16f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 098/104] fix: hgdb-db looked up file:line as if all of it were
 the filename

---
 tools/hgdb-db/hgdb-db.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-db/hgdb-db.cc b/tools/hgdb-db/hgdb-db.cc
index 60ffb5a..4cb972f 100644
--- a/tools/hgdb-db/hgdb-db.cc
+++ b/tools/hgdb-db/hgdb-db.cc
@@ -158,11 +158,12 @@ auto get_breakpoint(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider>
                      },
                      "Search breakpoint by ID", {"id"});
     sub_menu->Insert("where",
-                     [&db](std::ostream &os, const std::string &filename) {
+                     [&db](std::ostream &os, const std::string &location) {
                          if (!check_db(db, os)) return;
                          std::vector<hgdb::BreakPoint> bps;
                          uint32_t line = 0, col = 0;
-                         auto tokens = hgdb::util::get_tokens(filename, ":");
+                         auto tokens = hgdb::util::get_tokens(location, ":");
+                         auto const filename = tokens.empty() ? location : tokens[0];
                          if (tokens.size() > 1) {
                              auto const t = tokens[1];
                              if (std::all_of(t.begin(), t.end(), ::isdigit)) {
-- 
2.43.0


From 93e4e3f81b9dd30ed722c364427e77e69e334031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 099/104] fix: hgdb-db did not print the instance that was
 found

---
 tools/hgdb-db/hgdb-db.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-db/hgdb-db.cc b/tools/hgdb-db/hgdb-db.cc
index 4cb972f..8b9f085 100644
--- a/tools/hgdb-db/hgdb-db.cc
+++ b/tools/hgdb-db/hgdb-db.cc
@@ -122,7 +122,7 @@ auto get_instance(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider> &d
                          if (!check_db(db, os)) return;
                          auto instance = db->get_instance_name(id);
                          if (instance) {
-                             render(*instance, os);
+                             render(std::move(*instance), os);
                          }
                      },
                      "Search instance by ID", {"id"});
@@ -131,7 +131,7 @@ auto get_instance(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider> &d
                          if (!check_db(db, os)) return;
                          auto instance = db->get_instance_name_from_bp(id);
                          if (instance) {
-                             render(*instance, os);
+                             render(std::move(*instance), os);
                          }
                      },
                      "Search instance by breakpoint ID", {"bp-id"});
-- 
2.43.0


From c7bdd6755cc297126c370cb44c3e37a27199f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 100/104] fix: hgdb-db took line and column numbers modulo 2^32

---
 tools/hgdb-db/hgdb-db.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tools/hgdb-db/hgdb-db.cc b/tools/hgdb-db/hgdb-db.cc
index 8b9f085..4b87ca7 100644
--- a/tools/hgdb-db/hgdb-db.cc
+++ b/tools/hgdb-db/hgdb-db.cc
@@ -1,4 +1,6 @@
 #include <filesystem>
+#include <limits>
+#include <optional>
 
 #include "../src/db.hh"
 #include "../src/util.hh"
@@ -115,6 +117,14 @@ void render(T &&value, std::ostream &os, uint32_t indent = 0) {
     }
 }
 
+// decimal digits only and within the range of line and column numbers
+std::optional<uint32_t> get_number(const std::string &str) {
+    if (!std::all_of(str.begin(), str.end(), ::isdigit)) return std::nullopt;
+    auto const value = hgdb::util::stoul(str);
+    if (!value || *value > std::numeric_limits<uint32_t>::max()) return std::nullopt;
+    return static_cast<uint32_t>(*value);
+}
+
 auto get_instance(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider> &db) {
     auto sub_menu = std::make_unique<cli::Menu>("instance", "Instance data query");
     sub_menu->Insert("id",
@@ -166,8 +176,8 @@ auto get_breakpoint(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider>
                          auto const filename = tokens.empty() ? location : tokens[0];
                          if (tokens.size() > 1) {
                              auto const t = tokens[1];
-                             if (std::all_of(t.begin(), t.end(), ::isdigit)) {
-                                 line = std::stoul(t);
+                             if (auto const n = get_number(t)) {
+                                 line = *n;
                              } else {
                                  ColorScope color;
                                  os << "Invalid line number " << t << std::endl;
@@ -176,8 +186,8 @@ auto get_breakpoint(cli::Menu &menu, std::unique_ptr<hgdb::SymbolTableProvider>
                          }
                          if (tokens.size() > 2) {
                              auto const t = tokens[2];
-                             if (std::all_of(t.begin(), t.end(), ::isdigit)) {
-                                 col = std::stoul(t);
+                             if (auto const n = get_number(t)) {
+                                 col = *n;
                              } else {
                                  ColorScope color;
                                  os << "Invalid column number " << t << std::endl;
-- 
2.43.0


From 03d6327e3da191877bc1e4a397c98ea3ff7ab996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 101/104] fix: malformed symbol table requests were not marked
 as errors

---
 src/proto.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/proto.cc b/src/proto.cc
index 80f8a9e..944d822 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -1135,7 +1135,10 @@ void SymbolRequest::parse_payload(const std::string &payload) {
     if (!check_json(document, status_code_, error_reason_)) return;
 
     auto type_str = get_member<std::string>(document, "type", error_reason_);
-    if (!type_str) return;
+    if (!type_str) {
+        status_code_ = status_code::error;
+        return;
+    }
 
     // I wish reflection can land in C++ soon
     if (*type_str == "get_breakpoint") {
@@ -1163,10 +1166,13 @@ void SymbolRequest::parse_payload(const std::string &payload) {
     } else if (*type_str == "get_filenames") {
         req_type_ = request_type::get_filenames;
     } else {
+        status_code_ = status_code::error;
         error_reason_ = "Unknown request type " + *type_str;
         return;
     }
 
+    // until every required member is found
+    status_code_ = status_code::error;
     // now a gigantic case statements
     switch (req_type_) {
         case request_type::get_breakpoints: {
@@ -1226,6 +1232,7 @@ void SymbolRequest::parse_payload(const std::string &payload) {
             break;
         }
     }
+    status_code_ = status_code::success;
 }
 
 std::string SymbolRequest::str() const {
-- 
2.43.0


From 91e7d8b0f5dc2f820d0047689ccdff52f92ed644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:33 +0000
Subject: [PATCH 102/104] fix: bits of a slice beyond a 32-bit signal were
 copies of the sign bit

---
 src/rtl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index dfbd809..af514d8 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -313,6 +313,9 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
         v.format = vpiIntVal;
         vpi_->vpi_get_value(handle, &v);
         result = v.value.integer;
+        // bits that are not there are not copies of the sign bit
+        if (slice) [[unlikely]]
+            result = static_cast<uint32_t>(v.value.integer);
     }
 
     if (slice) [[unlikely]] {
-- 
2.43.0


From 8d33c20eee9fe31e73ef978c0c7865d4cc30e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 103/104] fix: hgdb-replay handed a program name that no longer
 existed to the simulator interface

---
 tools/hgdb-replay/hgdb-replay.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/hgdb-replay/hgdb-replay.cc b/tools/hgdb-replay/hgdb-replay.cc
index 3b36fb6..7cd0afd 100644
--- a/tools/hgdb-replay/hgdb-replay.cc
+++ b/tools/hgdb-replay/hgdb-replay.cc
@@ -24,8 +24,6 @@ std::unique_ptr<argparse::ArgumentParser> get_args(int argc, char **argv) {
         program_name = argv[0];
     }
     auto program = std::make_unique<argparse::ArgumentParser>(program_name, VERSION_STR);
-    // make the program name look nicer
-    argv[0] = const_cast<char *>(program_name.c_str());
 
     program->add_argument("filename").help("Waveform file in either VCD or FSDB format").required();
     // optional argument for vcd
-- 
2.43.0


From 6ab8867e10f142be2ebcea03de71e071b3279591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:14 +0000
Subject: [PATCH 104/104] fix: stopping the server raced with a client that was
 being accepted

---
 src/server.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 32f6572..31461a9 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -58,15 +58,12 @@ void DebugServer::run(uint16_t port) {
     server_.listen(port);
     server_.start_accept();
     server_.run();
+    // clients are accepted in this thread, which is thus the one to stop it
+    websocketpp::lib::error_code ec;
+    server_.stop_listening(ec);
 }
 
 void DebugServer::stop() {
-    try {
-        server_.stop_listening();
-    } catch (websocketpp::exception &) {
-        // don't care about the error of the websocket. just shutting it down
-    }
-
     // close all the ongoing connections
     {
         std::lock_guard guard(connections_lock_);
-- 
2.43.0

