From 71c648c306e909365a6afe12c994d7b12251bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 01/42] fix: UTF-8 code points led by 0xDF or 0xEF are 2 and 3
 bytes long

---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index c1dfffd..3144160 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -162,12 +162,12 @@ private:
 
     // Can't think of a way to do this without branches
     constexpr auto max_2_byte_header = std::uint8_t{0b1101'1111};
-    if (first_byte < max_2_byte_header) {
+    if (first_byte <= max_2_byte_header) {
         return 2;
     }
 
     constexpr auto max_3_byte_header = std::uint8_t{0b1110'1111};
-    if (first_byte < max_3_byte_header) {
+    if (first_byte <= max_3_byte_header) {
         return 3;
     }
 
-- 
2.43.0


From 7854d45d4f06964724526d02f7efc79ad0291d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 02/42] fix: do not read past the end of a string ending in a
 truncated UTF-8 code point

---
 include/arg_router/utility/utf8.hpp            | 6 +++---
 include/arg_router/utility/utf8/code_point.hpp | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a313b75..a156882 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -235,7 +235,7 @@ private:
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-            current_ += code_point::size(*it);
+            current_ += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
@@ -499,7 +499,7 @@ private:
                 if (!is_whitespace(cp)) {
                     break;
                 }
-                bytes += code_point::size(cp);
+                bytes += cp.size();
             }
             str_.remove_prefix(bytes);
 
@@ -528,7 +528,7 @@ private:
                 return;
             }
 
-            bytes += code_point::size(*it);
+            bytes += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index 3144160..f720780 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -325,8 +325,9 @@ public:
      */
     constexpr iterator& operator++() noexcept
     {
+        // A truncated code point can claim more bytes than there are left
         const auto num_bytes = code_point::size(str_);
-        str_.remove_prefix(num_bytes);
+        str_.remove_prefix(num_bytes < str_.size() ? num_bytes : str_.size());
         return *this;
     }
 
-- 
2.43.0


From 171d6294d7910928db3b5a48a41bbb107fb2bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 03/42] fix: line_iterator never progresses when a code point
 is wider than the column limit

---
 include/arg_router/utility/utf8.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a156882..2e5dfaa 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -520,8 +520,9 @@ private:
             if (column > max_columns_) {
                 if (line_break_column == 0) {
                     // Oh dear, the line has no whitespace in it to break on, so force break on the
-                    // last code point
-                    line_break_byte_ = bytes;
+                    // last code point.  If not even the first code point fits then it has to overflow,
+                    // otherwise the iterator would never progress
+                    line_break_byte_ = bytes == 0 ? (*it).size() : bytes;
                 } else {
                     line_break_byte_ = line_break_byte;
                 }
-- 
2.43.0


From b0d163cca809302c2aab198e6fa29eeb5b32e128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 04/42] fix: a lone short prefix token throws std::length_error
 out of parse

---
 include/arg_router/policy/short_form_expander.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/short_form_expander.hpp b/include/arg_router/policy/short_form_expander.hpp
index d3ffa80..021a1c7 100644
--- a/include/arg_router/policy/short_form_expander.hpp
+++ b/include/arg_router/policy/short_form_expander.hpp
@@ -87,8 +87,10 @@ public:
             return parsing::pre_parse_action::valid_node;
         }
 
-        // Exit early if there's no expansion to be done
-        if (first_token.name.size() == owner_type::short_name().size()) {
+        // Exit early if there's no expansion to be done, the name is empty if the token is just the
+        // short prefix
+        if (first_token.name.empty() ||
+            (first_token.name.size() == owner_type::short_name().size())) {
             return parsing::pre_parse_action::valid_node;
         }
 
-- 
2.43.0


From 956f38adb0f1b97669dec5353d96394d23c3e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 05/42] fix: a multi-byte value separator matches on any one of
 its bytes

---
 include/arg_router/policy/value_separator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index 91675b1..d10e955 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -94,7 +94,7 @@ public:
         const auto first_token = *first;
 
         // Find the separator
-        const auto separator_index = first_token.name.find_first_of(value_separator());
+        const auto separator_index = first_token.name.find(value_separator());
         if (separator_index == std::string_view::npos) {
             // If we can't find the separator but the token matches the parent node name, then we
             // need to throw as the user has just forgotten the separator and needs to be told
-- 
2.43.0


From 4016edadb6082344918635188c20dcb3d9bfb1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 06/42] fix: a leading token end marker does not end an unnamed
 list

---
 include/arg_router/policy/min_max_count.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/min_max_count.hpp b/include/arg_router/policy/min_max_count.hpp
index 1e8a5d7..61e0bb0 100644
--- a/include/arg_router/policy/min_max_count.hpp
+++ b/include/arg_router/policy/min_max_count.hpp
@@ -109,8 +109,11 @@ public:
                                         parsing::node_token_type<owner_type>()};
         }
 
-        // Transfer any remaining up to the maximum count
-        tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
+        // Transfer any remaining up to the maximum count.  There may be nothing to transfer if the
+        // token end marker was the first token
+        if (num_tokens > 0) {
+            tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
+        }
 
         return parsing::pre_parse_action::valid_node;
     }
-- 
2.43.0


From f18db3fde7395105841e4ee29c4c190e42ff911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 07/42] fix: requesting help for a runtime disabled node reads
 the front of an empty vector

---
 include/arg_router/help.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index ec53378..df847cf 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -237,12 +237,6 @@ private:
                                  const Node& node,
                                  const TargetFn& fn)
     {
-        if constexpr (traits::has_runtime_enabled_method_v<Node>) {
-            if (!node.runtime_enabled()) {
-                throw multi_lang_exception{error_code::unknown_argument, tokens.front()};
-            }
-        }
-
         if (tokens.empty()) {
             fn(node);
             return;
@@ -257,6 +251,13 @@ private:
                     return;
                 }
 
+                // A runtime disabled node acts as if it isn't in the tree
+                if constexpr (traits::has_runtime_enabled_method_v<child_type>) {
+                    if (!child.runtime_enabled()) {
+                        return;
+                    }
+                }
+
                 // Help tokens aren't pre-parsed by the target nodes (as they would fail if missing
                 // any required value tokens), so we have just use the prefix to generate a
                 // token_type from them, as they all of a prefix_type of none
-- 
2.43.0


From 33a88af89ffd7af25a0608ad95914aad0c934d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 08/42] fix: colour help formatter indents a zero depth label
 by one column

---
 .../arg_router/policy/colour_help_formatter.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 1be3dbe..3eb2010 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -86,14 +86,17 @@ public:
     {
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
-            stream << red_colour << std::setw(indent) << ' ' << help_data.label;
+            stream << red_colour;
+            set_gap(stream, indent);
+            stream << help_data.label;
 
             if (!help_data.description.empty()) {
                 const auto gap =
                     desc_start - indent - utility::utf8::terminal_width(help_data.label);
 
                 // Spacing between the end of the args label and start of description
-                stream << green_colour << std::setw(gap) << ' ';
+                stream << green_colour;
+                set_gap(stream, gap);
 
                 // Print the description, breaking if a word will exceed the terminal width
                 for (auto it =
@@ -103,7 +106,8 @@ public:
 
                     // If there's more data to follow, then add the offset
                     if (++it != utility::utf8::line_iterator{}) {
-                        stream << '\n' << std::setw(desc_start) << ' ';
+                        stream << '\n';
+                        set_gap(stream, desc_start);
                     }
                 }
             }
@@ -118,6 +122,13 @@ private:
     {
         return Depth * Indent;
     }
+
+    static void set_gap(std::ostream& stream, std::size_t num_chars)
+    {
+        if (num_chars > 0) {
+            stream << std::setw(num_chars) << ' ';
+        }
+    }
 };
 }  // namespace help_formatter_component
 
-- 
2.43.0


From 1750fae9e143ede35f446c0e4255f4e7f0c8256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 09/42] fix: root parse reads out of bounds when argc is zero

---
 include/arg_router/root.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index d91510a..92980d7 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -227,8 +227,8 @@ public:
      */
     void parse(int argc, char** argv) const
     {
-        // Skip the program name
-        parse(&argv[1], &argv[argc]);
+        // Skip the program name, if there is one
+        parse(argv + (argc > 0 ? 1 : 0), argv + argc);
     }
 
     /** Generates a root-level help string and writes it into @a stream.
-- 
2.43.0


From be3f2c61f6fe598ce5490a99489409a6d849b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 10/42] fix: one_of remembers the selected child from a
 previous parse

---
 include/arg_router/dependency/one_of.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/dependency/one_of.hpp b/include/arg_router/dependency/one_of.hpp
index 0a7e3c5..c919d38 100644
--- a/include/arg_router/dependency/one_of.hpp
+++ b/include/arg_router/dependency/one_of.hpp
@@ -91,7 +91,16 @@ public:
             using child_type = std::decay_t<decltype(child)>;
 
             auto type_hash = utility::type_hash<child_type>();
-            if (last_typeid_) {
+            if constexpr (HasTarget) {
+                // The parent knows which children have already been selected in this parse, so
+                // don't carry any state over from a previous (or concurrent) one
+                for (const auto& sub_target : pre_parse_data.target().sub_targets()) {
+                    if ((sub_target.node_type() != type_hash) && is_child(sub_target.node_type())) {
+                        throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
+                                                   parsing::node_token_type<one_of_t>()};
+                    }
+                }
+            } else if (last_typeid_) {
                 if (type_hash != *last_typeid_) {
                     throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
                                                parsing::node_token_type<one_of_t>()};
@@ -129,6 +138,17 @@ public:
     }
 
 private:
+    [[nodiscard]] static bool is_child(std::size_t node_type) noexcept
+    {
+        auto result = false;
+        utility::tuple_type_iterator<children_type>([&](auto i) {
+            result |= node_type == utility::type_hash<std::tuple_element_t<i, children_type>>();
+        });
+
+        return result;
+    }
+
+    // Only used if the parent does not provide a parse_target
     mutable std::optional<std::size_t> last_typeid_;
 };
 
-- 
2.43.0


From 1950b2ea417998fe4655930a1984e4abc42772d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 11/42] fix: the unmatched remainder of a short-form group is
 given to a positional argument

When a short-form group such as -ax has a known leading flag but an unknown
remainder, the remainder was consumed by an unnamed node with its prefix
stripped, i.e. the positional argument received the token 'x' which never
appeared on the command line.  Report it as an unknown argument instead.
---
 include/arg_router/tree_node.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/tree_node.hpp b/include/arg_router/tree_node.hpp
index c50d0e2..7cbc6f7 100644
--- a/include/arg_router/tree_node.hpp
+++ b/include/arg_router/tree_node.hpp
@@ -612,6 +612,14 @@ private:
             }
         }
 
+        // An unnamed node takes its tokens verbatim, so it cannot accept the unmatched remainder of an
+        // expanded short-form group as the prefix has been stripped from it
+        if constexpr (!is_named) {
+            if (!result.empty() && (result.front().prefix != parsing::prefix_type::none)) {
+                return {};
+            }
+        }
+
         // Exit early if the caller doesn't want this node
         if (!pre_parse_data.validator()(node, parents...)) {
             return {};
-- 
2.43.0


From 5a73baa1c2702664a215c6bfb0da69fcc09ecd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 12/42] fix: a comment or empty line after the last translated
 error code generates a trailing comma

The comma was omitted only if the entry was on the very last line of the TOML
file, so anything following it resulted in a header that does not compile.
---
 .../translation_generator_script.cmake            | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 4470fba..590119f 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -29,6 +29,7 @@ public:
     # Write the header
     set(output_data "${${ARGS_OUTPUT_VAR}}${header}")
     set(error_code_section FALSE)
+    set(error_code_separator "")
 
     cmake_policy(PUSH)
     cmake_policy(SET CMP0007 NEW)
@@ -68,13 +69,10 @@ public:
 
         # Process the entry data
         if (error_code_section)
-            set(output_line "        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
-            # Don't append a comma if this is the last tuple entry, won't compile in C++
-            if (line_index EQUAL num_lines)
-                string(APPEND output_line "\n")
-            else()
-                string(APPEND output_line ",\n")
-            endif()
+            # The comma is prepended to all but the first tuple entry, as a trailing one won't compile
+            # in C++
+            set(output_line "${error_code_separator}        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
+            set(error_code_separator ",\n")
             string(APPEND output_data "${output_line}")
         else()
             set(output_line "    using ${key} = ${value_str};\n")
@@ -86,6 +84,9 @@ public:
 
     # Write the footer and finish
     if (error_code_section)
+        if (NOT error_code_separator STREQUAL "")
+            string(APPEND output_data "\n")
+        endif()
         string(APPEND output_data "${error_code_footer}")
     endif()
     string(APPEND output_data "${footer}")
-- 
2.43.0


From 295c07eaffc98e81e7ac5975b3541a7f618175f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 13/42] fix: an unbalanced square bracket in a translation
 merges it with the following lines

CMake does not split list elements within square brackets, so a TOML value with
an opening bracket that is not closed swallowed all the following entries.
---
 .../translation_generator_script.cmake               | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 590119f..a65bedd 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -34,14 +34,24 @@ public:
     cmake_policy(PUSH)
     cmake_policy(SET CMP0007 NEW)
 
+    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8)
+
+    # An unbalanced square bracket prevents CMake from splitting the list at the following elements,
+    # so swap them for control characters until the line has been extracted
+    string(ASCII 1 open_bracket)
+    string(ASCII 2 close_bracket)
+    string(REPLACE "[" "${open_bracket}" lines "${lines}")
+    string(REPLACE "]" "${close_bracket}" lines "${lines}")
+
     # CMake ranges are inclusive for some reason, so we need to decrement the array length before
     # using in the for-loop
-    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8)
     list(LENGTH lines num_lines_over)
     math(EXPR num_lines "${num_lines_over}-1")
 
     foreach(line_index RANGE ${num_lines})
         list(GET lines ${line_index} line)
+        string(REPLACE "${open_bracket}" "[" line "${line}")
+        string(REPLACE "${close_bracket}" "]" line "${line}")
 
         # Skip comment lines
         string(SUBSTRING "${line}" 0 1 first_char)
-- 
2.43.0


From 5d5c007a34a69ae1dc1651fa9a1bdc25c7e147e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 14/42] fix: a negative number is accepted and wrapped by an
 unsigned argument

The lexical conversion gives 4294967295 for -1 when the target is an unsigned
int, so a value that is out of the type's range was accepted.
---
 include/arg_router/parsing/global_parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 75bcea4..1e4c6aa 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -40,7 +40,12 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace std::string_view_literals;
 
         auto result = T{};
-        if (!boost::conversion::try_lexical_convert(token, result)) {
+        auto valid = boost::conversion::try_lexical_convert(token, result);
+        if constexpr (std::is_unsigned_v<T>) {
+            // A negative number is wrapped by the conversion instead of being rejected
+            valid = valid && ((token.front() != '-') || (result == T{}));
+        }
+        if (!valid) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
-- 
2.43.0


From e7224d2134712f1129309a3c659e28bf5bdd4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 15/42] fix: 8-bit integers are parsed as a single character

The lexical conversion treats signed and unsigned char as characters, so an
std::uint8_t argument yielded 53 for the token '5' and rejected '12'.
---
 include/arg_router/parsing/global_parser.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 1e4c6aa..a324921 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -10,6 +10,8 @@
 
 #include <boost/lexical_cast/try_lexical_convert.hpp>
 
+#include <limits>
+
 namespace arg_router
 {
 /** Global parsing struct.
@@ -39,9 +41,16 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace utility::string_view_ops;
         using namespace std::string_view_literals;
 
-        auto result = T{};
+        // The 8-bit integer types are numbers, but would be converted as a single character
+        constexpr auto is_byte = std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>;
+        using lexical_type = std::conditional_t<is_byte, int, T>;
+
+        auto result = lexical_type{};
         auto valid = boost::conversion::try_lexical_convert(token, result);
-        if constexpr (std::is_unsigned_v<T>) {
+        if constexpr (is_byte) {
+            valid = valid && (result >= std::numeric_limits<T>::min()) &&
+                    (result <= std::numeric_limits<T>::max());
+        } else if constexpr (std::is_unsigned_v<T> && !std::is_same_v<T, char>) {
             // A negative number is wrapped by the conversion instead of being rejected
             valid = valid && ((token.front() != '-') || (result == T{}));
         }
@@ -50,7 +59,7 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
 
-        return result;
+        return static_cast<T>(result);
     }
 };
 
-- 
2.43.0


From db544ef68600f10363e16abdcd01ec1b4df493ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 16/42] fix: a one_of with more than one child of the same
 value type does not compile

---
 include/arg_router/mode.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 495f6ca..fb3cdf6 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -480,7 +480,21 @@ private:
 
                 using result_type = decltype(std::declval<ChildType>().parse(
                     std::declval<parsing::parse_target>()));
-                result = std::move(parse_result.get<result_type>());
+                if constexpr (std::is_assignable_v<optional_result_type&, result_type>) {
+                    result = std::move(parse_result.get<result_type>());
+                } else {
+                    // The owner is a one_of whose value_type is a variant with result_type in it
+                    // more than once, so use the position of the child to select the alternative
+                    using owner_type = std::tuple_element_t<I, children_type>;
+                    using value_children =
+                        boost::mp11::mp_remove_if<typename owner_type::children_type,
+                                                  policy::has_no_result_value>;
+
+                    constexpr auto index =
+                        boost::mp11::mp_find<value_children, ChildType>::value;
+                    result.emplace(std::in_place_index<index>,
+                                   std::move(parse_result.get<result_type>()));
+                }
             }
         }
     }
-- 
2.43.0


From 6bb01fd57e4a2f14bccce841cdadc367db8eb7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 17/42] fix: a nested mode's argument shadows an identical
 argument of its parent mode

---
 include/arg_router/mode.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index fb3cdf6..e19bc54 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -358,15 +358,19 @@ private:
                 // and the sub node type for the match
                 auto found = false;
                 utility::tuple_iterator(
-                    [&](auto i, const auto& child) {
-                        if (found) {
-                            return;
-                        }
+                    [&]([[maybe_unused]] auto i, [[maybe_unused]] const auto& child) {
+                        // Nested modes never hold this mode's results, so don't search them as they
+                        // may have a node of the same type as one of ours
+                        if constexpr (!is_skip_tag_v<std::tuple_element_t<i, results_type>>) {
+                            if (found) {
+                                return;
+                            }
 
-                        match_child(child, node_hash, [&](const auto& sub_child) {
-                            found = true;
-                            process_result<i>(results, result, sub_child);
-                        });
+                            match_child(child, node_hash, [&](const auto& sub_child) {
+                                found = true;
+                                process_result<i>(results, result, sub_child);
+                            });
+                        }
                     },
                     this->children());
             }
-- 
2.43.0


From 71e93bf213c1e134c25ccfbe63cf7caae4686619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 18/42] fix: zeros inside a compile-time number's text are
 dropped

A bound of 100 was shown as 10 and 1005 as 15 in the help labels, because the digit count was
recalculated from each remainder.
---
 .../utility/compile_time_string.hpp           | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index 4302b3a..e42a4c3 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -242,18 +242,18 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    // The digit count is passed down, as it can't be calculated from a remainder with leading zeros
+    template <typename Str, auto NewValue, auto NumDigits = math::num_digits(NewValue)>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
+        constexpr auto power10 = math::pow<10>(NumDigits - 1);
         constexpr auto digit = NewValue / power10;
 
         using digit_str = str<'0' + digit>;
 
-        if constexpr (num_digits != 1) {
+        if constexpr (NumDigits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<typename Str::template append_t<digit_str>, next_value>();
+            return build<typename Str::template append_t<digit_str>, next_value, NumDigits - 1>();
         } else {
             return typename Str::template append_t<digit_str>{};
         }
@@ -452,18 +452,18 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    // The digit count is passed down, as it can't be calculated from a remainder with leading zeros
+    template <typename Str, auto NewValue, auto NumDigits = math::num_digits(NewValue)>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
+        constexpr auto power10 = math::pow<10>(NumDigits - 1);
         constexpr auto digit = NewValue / power10;
 
         using digit_str = typename Str::template append_t<compile_time_string<'0' + digit>>;
 
-        if constexpr (num_digits != 1) {
+        if constexpr (NumDigits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<digit_str, next_value>();
+            return build<digit_str, next_value, NumDigits - 1>();
         } else {
             return digit_str{};
         }
-- 
2.43.0


From 0bc2c9063f99c92708d4991a86ff51e7caabb0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 19/42] fix: the lowest value of a signed type has no
 compile-time text

Its absolute value overflows, so a bound of INT64_MIN didn't compile and one of INT8_MIN produced
garbage.
---
 .../utility/compile_time_string.hpp           | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index e42a4c3..02958cc 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -259,7 +259,21 @@ private:
         }
     }
 
-    using digit_str = decltype(build<str<>, math::abs(Value)>());
+    // Unsigned, as the lowest value of a signed type has no positive counterpart
+    [[nodiscard]] constexpr static auto magnitude() noexcept
+    {
+        using value_type = std::decay_t<decltype(Value)>;
+        if constexpr (std::is_signed_v<value_type>) {
+            using unsigned_type = std::make_unsigned_t<value_type>;
+            return static_cast<unsigned_type>(
+                Value < 0 ? unsigned_type{0} - static_cast<unsigned_type>(Value) :
+                            static_cast<unsigned_type>(Value));
+        } else {
+            return Value;
+        }
+    }
+
+    using digit_str = decltype(build<str<>, magnitude()>());
 
 public:
     using type = std::conditional_t<(Value < 0), str<'-'>::template append_t<digit_str>, digit_str>;
@@ -469,7 +483,21 @@ private:
         }
     }
 
-    using digit_str = decltype(build<compile_time_string<>, math::abs(Value)>());
+    // Unsigned, as the lowest value of a signed type has no positive counterpart
+    [[nodiscard]] constexpr static auto magnitude() noexcept
+    {
+        using value_type = std::decay_t<decltype(Value)>;
+        if constexpr (std::is_signed_v<value_type>) {
+            using unsigned_type = std::make_unsigned_t<value_type>;
+            return static_cast<unsigned_type>(
+                Value < 0 ? unsigned_type{0} - static_cast<unsigned_type>(Value) :
+                            static_cast<unsigned_type>(Value));
+        } else {
+            return Value;
+        }
+    }
+
+    using digit_str = decltype(build<compile_time_string<>, magnitude()>());
 
 public:
     using type = std::conditional_t<(Value < 0),
-- 
2.43.0


From e8fb8fa17024f4423f7bfff29e15e8e6714f18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 20/42] fix: a help formatter with a custom addendum formatter
 isn't recognised as a policy

---
 include/arg_router/policy/default_help_formatter.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/policy/default_help_formatter.hpp b/include/arg_router/policy/default_help_formatter.hpp
index 6e91d37..251caf7 100644
--- a/include/arg_router/policy/default_help_formatter.hpp
+++ b/include/arg_router/policy/default_help_formatter.hpp
@@ -374,9 +374,12 @@ constexpr auto default_help_formatter = default_help_formatter_t<>{};
 template <typename Indent,
           typename DescColumnOffset,
           typename LineFormatter,
-          typename PreambleFormatter>
-struct is_policy<
-    default_help_formatter_t<Indent, DescColumnOffset, LineFormatter, PreambleFormatter>> :
-    std::true_type {
+          typename PreambleFormatter,
+          typename AddendumFormatter>
+struct is_policy<default_help_formatter_t<Indent,
+                                          DescColumnOffset,
+                                          LineFormatter,
+                                          PreambleFormatter,
+                                          AddendumFormatter>> : std::true_type {
 };
 }  // namespace arg_router::policy
-- 
2.43.0


From f04e2918ed6c416446d935e1d08732b8e4db47da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 21/42] fix: line_iterator break rules saw code points of the
 next line twice

---
 include/arg_router/utility/utf8.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 2e5dfaa..e8e1d51 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -514,6 +514,7 @@ private:
         auto bytes = std::size_t{0};
         auto line_break_column = std::size_t{0};
         auto line_break_byte = std::size_t{0};
+        auto line_break_window = trailing_window_;
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
             // Have we exceeded the terminal width?
             column += terminal_width(*it);
@@ -524,7 +525,9 @@ private:
                     // otherwise the iterator would never progress
                     line_break_byte_ = bytes == 0 ? (*it).size() : bytes;
                 } else {
+                    // The code points after the break will be visited again for the next line
                     line_break_byte_ = line_break_byte;
+                    trailing_window_ = line_break_window;
                 }
                 return;
             }
@@ -556,6 +559,7 @@ private:
             if (should_break(next_break_class)) {
                 line_break_column = column;
                 line_break_byte = bytes;
+                line_break_window = trailing_window_;
             }
         }
 
-- 
2.43.0


From 21098c35f9af52312c54879a8326e036261b84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 22/42] fix: line_iterator splits combining and emoji sequences

---
 include/arg_router/utility/utf8.hpp | 40 +++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index e8e1d51..6f5d0da 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -450,8 +450,43 @@ private:
         return result;
     }
 
+    [[nodiscard]] constexpr static bool is_combining(line_break_class c) noexcept
+    {
+        return (c == line_break_class::CM) || (c == line_break_class::ZWJ);
+    }
+
+    // True if a combining code point following @a c attaches to it
+    [[nodiscard]] constexpr static bool is_base(line_break_class c) noexcept
+    {
+        return (c != line_break_class::any) && (c != line_break_class::BK) &&
+               (c != line_break_class::CR) && (c != line_break_class::LF) &&
+               (c != line_break_class::NL) && (c != line_break_class::SP) &&
+               (c != line_break_class::ZW);
+    }
+
+    constexpr void push_class(line_break_class c) noexcept
+    {
+        // LB9 and LB10, a combining sequence behaves like its base, or like a letter if there isn't
+        // one
+        after_zwj_ = (c == line_break_class::ZWJ);
+        if (is_combining(c)) {
+            if (is_base(trailing_window_.front())) {
+                return;
+            }
+            c = line_break_class::AL;
+        }
+
+        rotate_trailing_window();
+        trailing_window_.front() = c;
+    }
+
     [[nodiscard]] constexpr bool should_break(line_break_class next_class) noexcept
     {
+        // LB8a and LB9, never break inside a combining sequence
+        if (after_zwj_ || (is_combining(next_class) && is_base(trailing_window_.front()))) {
+            return false;
+        }
+
         for (auto rule : no_break_rules::line_break<trailing_window_size>) {
             if (rule(trailing_window_, next_class)) {
                 return false;
@@ -528,6 +563,7 @@ private:
                     // The code points after the break will be visited again for the next line
                     line_break_byte_ = line_break_byte;
                     trailing_window_ = line_break_window;
+                    after_zwj_ = false;
                 }
                 return;
             }
@@ -540,8 +576,7 @@ private:
                 continue;
             }
 
-            rotate_trailing_window();
-            trailing_window_.front() = extract_class(*this_cp);
+            push_class(extract_class(*this_cp));
 
             // If there is a following code point, use it to update the next_break_class
             auto next_break_class = line_break_class::any;
@@ -571,5 +606,6 @@ private:
     std::size_t max_columns_;
     std::size_t line_break_byte_;
     std::array<line_break_class, trailing_window_size> trailing_window_;
+    bool after_zwj_ = false;
 };
 }  // namespace arg_router::utility::utf8
-- 
2.43.0


From 99abbfc8ceec4f3cd3d8887c0f29e4092ca818be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 23/42] fix: line_iterator does not break after the space
 before a quote or hyphen

---
 .../arg_router/utility/utf8/line_break.hpp    | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index f9c3c97..09e7bca 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -314,6 +314,12 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
+
+    // LB18, a break is allowed after spaces
+    if (trailing_window[0] == line_break_class::SP) {
+        return false;
+    }
+
     return (next_class == line_break_class::QU) ||  //
            (trailing_window[0] == line_break_class::QU);
 }
@@ -333,6 +339,12 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
+
+    // LB18, a break is allowed after spaces
+    if (trailing_window[0] == line_break_class::SP) {
+        return false;
+    }
+
     return (next_class == line_break_class::BA) ||  //
            (next_class == line_break_class::HY) ||  //
            (next_class == line_break_class::NS) ||  //
@@ -386,10 +398,16 @@ template <std::size_t N>
  * @return True if you should not break between these break classes
  */
 template <std::size_t N>
-[[nodiscard]] constexpr bool LB22(
-    [[maybe_unused]] const std::array<line_break_class, N>& trailing_window,
-    line_break_class next_class) noexcept
+[[nodiscard]] constexpr bool LB22(const std::array<line_break_class, N>& trailing_window,
+                                  line_break_class next_class) noexcept
 {
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+
+    // LB18, a break is allowed after spaces
+    if (trailing_window[0] == line_break_class::SP) {
+        return false;
+    }
+
     return next_class == line_break_class::IN_;
 }
 
-- 
2.43.0


From 765ffab7554cf6d053e0367f507a7158ba41f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 24/42] fix: a zero width joiner joins an emoji to a preceding
 character that isn't one

Rule GB11 only holds when the joiner follows an extended pictographic.
---
 .../utility/utf8/grapheme_cluster_break.hpp     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
index e5e74f5..e7d9502 100644
--- a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
+++ b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
@@ -185,8 +185,21 @@ template <std::size_t N>
     grapheme_cluster_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (trailing_window[0] == grapheme_cluster_break_class::ZWJ) &&
-           (next_class == grapheme_cluster_break_class::extended_pictographic);
+    if ((trailing_window[0] != grapheme_cluster_break_class::ZWJ) ||
+        (next_class != grapheme_cluster_break_class::extended_pictographic)) {
+        return false;
+    }
+
+    // The ZWJ only joins emoji, i.e. it must follow an extended pictographic (with any number of
+    // extending characters in between)
+    for (auto i = std::size_t{1}; i < trailing_window.size(); ++i) {
+        if (trailing_window[i] != grapheme_cluster_break_class::extend) {
+            return trailing_window[i] == grapheme_cluster_break_class::extended_pictographic;
+        }
+    }
+
+    // The window is too short to know
+    return true;
 };
 
 /** Rule GB12 and GB13, do not break within emoji flag sequences.
-- 
2.43.0


From 20abe5bb9b445ab8b80290ab4dc344720cd45c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 25/42] fix: combining characters are joined to a preceding
 control character

Rules GB4 and GB5 (always break around controls) precede GB9.
---
 .../utility/utf8/grapheme_cluster_break.hpp   | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
index e7d9502..3a8c295 100644
--- a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
+++ b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
@@ -57,6 +57,21 @@ template <std::size_t N>
            (next_class == grapheme_cluster_break_class::LF);
 }
 
+/** Rules GB4 and GB5, always break before and after controls.
+ *
+ * These take precedence over the 'do not break' rules that follow them, so those that accept any
+ * class for one side must check it with this.
+ *
+ * From https://www.unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules.
+ * @param cls Break class
+ * @return True if @a cls is always broken before and after
+ */
+[[nodiscard]] constexpr bool is_control(grapheme_cluster_break_class cls) noexcept
+{
+    return (cls == grapheme_cluster_break_class::CR) || (cls == grapheme_cluster_break_class::LF) ||
+           (cls == grapheme_cluster_break_class::control);
+}
+
 /** Rule GB6, do not break Hangul syllable sequences.
  *
  * From https://www.unicode.org/reports/tr29/#Grapheme_Cluster_Boundary_Rules.
@@ -128,11 +143,13 @@ template <std::size_t N>
  */
 template <std::size_t N>
 [[nodiscard]] constexpr bool GB9(
-    [[maybe_unused]] const std::array<grapheme_cluster_break_class, N>& trailing_window,
+    const std::array<grapheme_cluster_break_class, N>& trailing_window,
     grapheme_cluster_break_class next_class) noexcept
 {
-    return (next_class == grapheme_cluster_break_class::extend) ||
-           (next_class == grapheme_cluster_break_class::ZWJ);
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return !is_control(trailing_window[0]) &&
+           ((next_class == grapheme_cluster_break_class::extend) ||
+            (next_class == grapheme_cluster_break_class::ZWJ));
 };
 
 /** Rule GB9a, do not break before SpacingMarks, or after Prepend characters.
@@ -146,10 +163,12 @@ template <std::size_t N>
  */
 template <std::size_t N>
 [[nodiscard]] constexpr bool GB9a(
-    [[maybe_unused]] const std::array<grapheme_cluster_break_class, N>& trailing_window,
+    const std::array<grapheme_cluster_break_class, N>& trailing_window,
     grapheme_cluster_break_class next_class) noexcept
 {
-    return next_class == grapheme_cluster_break_class::spacing_mark;
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return !is_control(trailing_window[0]) &&
+           (next_class == grapheme_cluster_break_class::spacing_mark);
 };
 
 /** Rule GB9b, do not break before SpacingMarks, or after Prepend characters.
@@ -164,10 +183,11 @@ template <std::size_t N>
 template <std::size_t N>
 [[nodiscard]] constexpr bool GB9b(
     const std::array<grapheme_cluster_break_class, N>& trailing_window,
-    [[maybe_unused]] grapheme_cluster_break_class next_class) noexcept
+    grapheme_cluster_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return trailing_window[0] == grapheme_cluster_break_class::prepend;
+    return (trailing_window[0] == grapheme_cluster_break_class::prepend) &&
+           !is_control(next_class);
 };
 
 /** Rule GB11, do not break within emoji modifier sequences or emoji zwj sequences.
-- 
2.43.0


From 22b31c397d1a25102194f2c24b72f4cbbba4a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 26/42] fix: multi_lang root's string returning help() discards
 the help text

---
 include/arg_router/multi_lang/root.hpp         | 2 +-
 include/arg_router/multi_lang/root_wrapper.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index e76aaaa..c2c1d4a 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -194,7 +194,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index 8a32fdd..db95f25 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -131,7 +131,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
-- 
2.43.0


From 507127043b45ee89a296b89abecbd8a127a6825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 27/42] fix: multi_lang root does not compile when two
 languages share a root type

---
 include/arg_router/multi_lang/root.hpp         | 4 ++--
 include/arg_router/multi_lang/root_wrapper.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index c2c1d4a..c578380 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -119,12 +119,12 @@ public:
                 return;
             }
 
-            root_.emplace(root_variant_t{f(translation<id>{})});
+            root_.emplace(std::in_place_index<I>, f(translation<id>{}));
         });
 
         // No match, so fall back to the default (the first language)
         if (!root_) {
-            root_.emplace(root_variant_t{f(translation<DefaultLanguageID>{})});
+            root_.emplace(std::in_place_index<0>, f(translation<DefaultLanguageID>{}));
         }
     }
 
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index db95f25..c06f9c0 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -97,12 +97,13 @@ public:
                 return;
             }
 
-            root_.emplace(root_variant_t{f(I)});
+            root_.emplace(std::in_place_index<I>, f(I));
         });
 
         // No match, so fall back to the default (the first language)
         if (!root_) {
-            root_.emplace(root_variant_t{f(traits::integral_constant<std::size_t{0}>{})});
+            root_.emplace(std::in_place_index<0>,
+                          f(traits::integral_constant<std::size_t{0}>{}));
         }
     }
 
-- 
2.43.0


From f6493d32fc2dc9dc87737e7cc5a5486bb908193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 28/42] fix: token adapter insert at end() returns the first
 token's position

---
 include/arg_router/parsing/dynamic_token_adapter.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/parsing/dynamic_token_adapter.hpp b/include/arg_router/parsing/dynamic_token_adapter.hpp
index 064b011..5501d60 100644
--- a/include/arg_router/parsing/dynamic_token_adapter.hpp
+++ b/include/arg_router/parsing/dynamic_token_adapter.hpp
@@ -384,6 +384,10 @@ public:
      */
     iterator insert(iterator it, value_type value)
     {
+        if (it.is_end()) {
+            it = {this, static_cast<iterator::difference_type>(size())};
+        }
+
         // Only transfer up to the element before the target position, otherwise we transfer that
         // and then insert the new value, which isn't expected
         transfer(it - 1);
@@ -404,6 +408,10 @@ public:
     template <typename Iter>
     iterator insert(iterator it, Iter first, Iter last)
     {
+        if (it.is_end()) {
+            it = {this, static_cast<iterator::difference_type>(size())};
+        }
+
         // Only transfer up to the element before the target position, otherwise we transfer that
         // and then insert the new value, which isn't expected
         transfer(it - 1);
-- 
2.43.0


From 197a09d706ee8eda133f7eb78b250e93b052d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 29/42] fix: copying an empty unsafe_any throws
 std::bad_function_call

---
 include/arg_router/utility/unsafe_any.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 4443ee6..5d9d0f4 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -107,8 +107,10 @@ public:
      */
     unsafe_any_t(const unsafe_any_t& other)
     {
-        auto new_any = other.copier_(other.storage_);
-        swap(*this, new_any);
+        if (other.copier_) {
+            auto new_any = other.copier_(other.storage_);
+            swap(*this, new_any);
+        }
     }
 
     /** Assignment operator.
-- 
2.43.0


From cfc1a68f34ac1b38deb38645a67f43d66f5575f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 30/42] fix: parsed values that aren't trivially copyable are
 relocated bytewise

---
 include/arg_router/utility/unsafe_any.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 5d9d0f4..9cf5a67 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -24,7 +24,10 @@ class unsafe_any_t
     using aligned_storage_type = std::aligned_storage_t<SmallObjectOptimisationSize>;
 
     template <typename T>
-    constexpr static bool use_internal_storage = (sizeof(T) <= sizeof(aligned_storage_type));
+    constexpr static bool use_internal_storage =
+        (sizeof(std::decay_t<T>) <= sizeof(aligned_storage_type)) &&
+        // The internal storage is moved and swapped bytewise
+        std::is_trivially_copyable_v<std::decay_t<T>>;
 
 public:
     /** Default constructor.
-- 
2.43.0


From a5b7d055f7cbdd1320d72a071bf899fb1e8725a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 31/42] fix: a failed allocation while building a tree from
 copied policies calls std::terminate

tuple_filter_and_construct() is documented to move its input and is marked noexcept, but copied the elements.
---
 include/arg_router/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/algorithm.hpp b/include/arg_router/algorithm.hpp
index ca20ade..316b726 100644
--- a/include/arg_router/algorithm.hpp
+++ b/include/arg_router/algorithm.hpp
@@ -206,7 +206,8 @@ template <template <typename...> typename Fn, typename U>
     using filtered = boost::mp11::mp_filter_q<wrapped_fn, zipped>;
 
     // Fold construct the return value using the zip indices as accessors to input
-    return detail::tuple_filter_and_construct_impl(input, typename unzip<filtered>::first_type{});
+    return detail::tuple_filter_and_construct_impl(std::forward<U>(input),
+                                                   typename unzip<filtered>::first_type{});
 }
 
 namespace detail
-- 
2.43.0


From 8208d9f09010b541bc6a20da2eae772e25a93147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 32/42] fix: a failed allocation while generating runtime help
 calls std::terminate

---
 include/arg_router/help.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index df847cf..4c6a50a 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -133,8 +133,7 @@ public:
      * @return Runtime help data
      */
     template <bool Flatten, typename Node>
-    [[nodiscard]] runtime_help_data generate_runtime_help_data(
-        const Node& start_node) const noexcept
+    [[nodiscard]] runtime_help_data generate_runtime_help_data(const Node& start_node) const
     {
         using node_hdt = typename Node::template help_data_type<Flatten>;
 
-- 
2.43.0


From 67421df74782f3b38b6a1d066c52ef06e4803330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 33/42] fix: unsafe_any leaks its storage if the value's
 constructor throws

---
 include/arg_router/utility/unsafe_any.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 9cf5a67..c1f8301 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -82,8 +82,14 @@ public:
         using value_type = std::decay_t<T>;
 
         // Build using memory from allocator
-        storage_.ptr = alloc.allocate(1);
-        new (storage_.ptr) value_type(std::forward<T>(value));
+        auto* ptr = alloc.allocate(1);
+        try {
+            new (ptr) value_type(std::forward<T>(value));
+        } catch (...) {
+            alloc.deallocate(ptr, 1);
+            throw;
+        }
+        storage_.ptr = ptr;
 
         copier_ = [](const storage_type& storage) -> unsafe_any_t {
             return *reinterpret_cast<const value_type*>(storage.ptr);
-- 
2.43.0


From df51ef211cc1574ba29ff5f7ff49e2e3388393a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 34/42] fix: a translation comment ending in a backslash
 swallows the following line

Also an empty translation file failed to generate.
---
 .../translation_generator_script.cmake         | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index a65bedd..d4c2574 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -34,7 +34,9 @@ public:
     cmake_policy(PUSH)
     cmake_policy(SET CMP0007 NEW)
 
-    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8)
+    # Drop the comment lines here, as one ending in a backslash would escape the list separator following
+    # it and so swallow the next line
+    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8 REGEX "^[^#]")
 
     # An unbalanced square bracket prevents CMake from splitting the list at the following elements,
     # so swap them for control characters until the line has been extracted
@@ -43,22 +45,10 @@ public:
     string(REPLACE "[" "${open_bracket}" lines "${lines}")
     string(REPLACE "]" "${close_bracket}" lines "${lines}")
 
-    # CMake ranges are inclusive for some reason, so we need to decrement the array length before
-    # using in the for-loop
-    list(LENGTH lines num_lines_over)
-    math(EXPR num_lines "${num_lines_over}-1")
-
-    foreach(line_index RANGE ${num_lines})
-        list(GET lines ${line_index} line)
+    foreach(line IN LISTS lines)
         string(REPLACE "${open_bracket}" "[" line "${line}")
         string(REPLACE "${close_bracket}" "]" line "${line}")
 
-        # Skip comment lines
-        string(SUBSTRING "${line}" 0 1 first_char)
-        if ((line STREQUAL "") OR (first_char STREQUAL "#"))
-            continue()
-        endif()
-
         if (line STREQUAL "[error_code]")
             set(error_code_section TRUE)
             string(APPEND output_data "${error_code_header}")
-- 
2.43.0


From f6fd805cb611e1772fc93f920ca3e0c044183c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 35/42] fix: short names are not recognised when the prefixes
 are the same

The generic classification always took such a token for a long name.
---
 include/arg_router/parsing/token_type.hpp     | 9 +++++++++
 include/arg_router/policy/value_separator.hpp | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/token_type.hpp b/include/arg_router/parsing/token_type.hpp
index 47da7b7..3daf69f 100644
--- a/include/arg_router/parsing/token_type.hpp
+++ b/include/arg_router/parsing/token_type.hpp
@@ -129,6 +129,15 @@ template <typename Node>
 {
     using namespace config;
 
+    // If the prefixes are the same then they can't be used to tell the forms apart, so use the name
+    if constexpr (traits::has_short_name_method_v<Node> && (short_prefix == long_prefix)) {
+        if ((token.substr(0, short_prefix.size()) == short_prefix) &&
+            (token.substr(short_prefix.size()) == Node::short_name())) {
+            token.remove_prefix(short_prefix.size());
+            return {prefix_type::short_, token};
+        }
+    }
+
     if constexpr (traits::has_long_name_method_v<Node>) {
         if (token.substr(0, long_prefix.size()) == long_prefix) {
             token.remove_prefix(long_prefix.size());
diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index d10e955..2b1a266 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -100,7 +100,9 @@ public:
             // need to throw as the user has just forgotten the separator and needs to be told
             auto processed_token = first_token;
             if (first_token.prefix == parsing::prefix_type::none) {
-                processed_token = parsing::get_token_type(first_token.name);
+                processed_token = parsing::get_token_type(
+                    std::get<0>(std::tuple{std::cref(parents)...}).get(),
+                    first_token.name);
             }
             if (parsing::match<owner_type>(processed_token)) {
                 return multi_lang_exception{error_code::missing_value_separator,
-- 
2.43.0


From ce012392297c7e657e433309254020a946abc14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 36/42] fix: a runtime disabled anonymous mode still receives
 the arguments

---
 include/arg_router/mode.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index e19bc54..eda35e0 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -273,6 +273,13 @@ private:
             }
         }
 
+        // Anonymous modes have no label, so their policies have not been consulted above
+        if constexpr (is_anonymous && traits::has_runtime_enabled_method_v<DerivedMode>) {
+            if (!this_mode.runtime_enabled()) {
+                return {};
+            }
+        }
+
         if (!pre_parse_data.validator()(this_mode, parents...)) {
             return {};
         }
-- 
2.43.0


From 4328e4e54a8ec08acb63ab93015c10acb43dd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 37/42] fix: an empty first argument is reported as no
 arguments having been passed

---
 include/arg_router/root.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index 92980d7..fc786e4 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -148,7 +148,8 @@ public:
     {
         try {
             // Take a copy of the front token for the error messages
-            const auto front_token = args.empty() ?  //
+            const auto no_args = args.empty();
+            const auto front_token = no_args ?  //
                                          parsing::token_type{parsing::prefix_type::none, ""} :
                                          args.front();
 
@@ -166,7 +167,7 @@ public:
                 },
                 this->children());
             if (!match) {
-                if (front_token.name.empty()) {
+                if (no_args) {
                     throw multi_lang_exception{error_code::no_arguments_passed};
                 }
                 parsing::unknown_argument_exception(*this, front_token);
-- 
2.43.0


From ce0f91e5d3d79e924149c6cd47b6d79e38f1f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 38/42] fix: an alias gives values to runtime disabled targets

---
 include/arg_router/policy/alias.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 134dce0..21b2efe 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -125,6 +125,13 @@ public:
                 boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
 
             if constexpr ((std::tuple_size_v<intersection>) > 0) {
+                // A disabled target keeps its default
+                if constexpr (traits::has_runtime_enabled_method_v<std::decay_t<decltype(current)>>) {
+                    if (!current.runtime_enabled()) {
+                        return;
+                    }
+                }
+
                 auto target_tokens = vector<parsing::token_type>{};
                 target_tokens.reserve(count);
 
-- 
2.43.0


From 50a2804ab5d2b6000fe6df304fb66005c5a7e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 39/42] fix: validation policies are not called in priority
 order

---
 include/arg_router/mode.hpp           | 7 ++++---
 include/arg_router/multi_arg_base.hpp | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index eda35e0..87d7a80 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -537,8 +537,9 @@ private:
         }
 
         // Irritatingly, we have to run the validation phase on the new value
-        utility::tuple_type_iterator<typename ChildType::policies_type>([&](auto i) {
-            using policy_type = std::tuple_element_t<i, typename ChildType::policies_type>;
+        using ordered_policies = typename ChildType::priority_ordered_policies_type;
+        utility::tuple_type_iterator<ordered_policies>([&](auto i) {
+            using policy_type = std::tuple_element_t<i, ordered_policies>;
             if constexpr (policy::has_validation_phase_method_v<policy_type, ValueType>) {
                 child.policy_type::template validation_phase(*result, child, parents...);
             }
@@ -553,7 +554,7 @@ private:
         utility::tuple_iterator(
             [&](auto i, const auto& child) {
                 using child_type = std::decay_t<decltype(child)>;
-                using child_policies_type = typename child_type::policies_type;
+                using child_policies_type = typename child_type::priority_ordered_policies_type;
                 using optional_result_type = std::tuple_element_t<i, ResultsType>;
 
                 constexpr auto msv = policy::has_multi_stage_value_v<child_type> ||
diff --git a/include/arg_router/multi_arg_base.hpp b/include/arg_router/multi_arg_base.hpp
index ee47e20..3e5ff88 100644
--- a/include/arg_router/multi_arg_base.hpp
+++ b/include/arg_router/multi_arg_base.hpp
@@ -114,8 +114,9 @@ protected:
         // Validation
         std::apply(
             [&](auto&&... ancestors) {
-                utility::tuple_type_iterator<policies_type>([&](auto i) {
-                    using policy_type = std::tuple_element_t<i, policies_type>;
+                using ordered_policies = typename parent_type::priority_ordered_policies_type;
+                utility::tuple_type_iterator<ordered_policies>([&](auto i) {
+                    using policy_type = std::tuple_element_t<i, ordered_policies>;
                     if constexpr (policy::has_validation_phase_method_v<policy_type, value_type>) {
                         this->policy_type::validation_phase(result, ancestors.get()...);
                     }
-- 
2.43.0


From cdb203de95983e2a22c54fbb088b5826ec15cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 40/42] fix: an unpaired bracket in a translated message
 corrupts its placeholders

---
 include/arg_router/utility/exception_formatter.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/exception_formatter.hpp b/include/arg_router/utility/exception_formatter.hpp
index 4b2212a..5943b95 100644
--- a/include/arg_router/utility/exception_formatter.hpp
+++ b/include/arg_router/utility/exception_formatter.hpp
@@ -61,10 +61,12 @@ class exception_formatter
     template <typename Str, typename PHs, std::size_t Current>
     [[nodiscard]] static constexpr auto placeholders_impl() noexcept
     {
-        constexpr auto start = Str::get().find('{', Current);
-        constexpr auto end = Str::get().find('}', Current + 1);
+        // Unpaired brackets are plain text
+        constexpr auto first = Str::get().find('{', Current);
+        constexpr auto end = Str::get().find('}', first);
 
-        if constexpr ((start != std::string_view::npos) && (end != std::string_view::npos)) {
+        if constexpr (end != std::string_view::npos) {
+            constexpr auto start = Str::get().rfind('{', end);
             return placeholders_impl<
                 Str,
                 boost::mp11::mp_push_back<
-- 
2.43.0


From 1fe0b498171f92fcf5e937660662ca54474d7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 41/42] fix: the stream's fill character is used to lay out
 help text

---
 include/arg_router/policy/colour_help_formatter.hpp  | 5 ++---
 include/arg_router/policy/default_help_formatter.hpp | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 3eb2010..2e63772 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -125,9 +125,8 @@ private:
 
     static void set_gap(std::ostream& stream, std::size_t num_chars)
     {
-        if (num_chars > 0) {
-            stream << std::setw(num_chars) << ' ';
-        }
+        // Not padding with std::setw(..), as the fill character belongs to the stream's user
+        stream << string(num_chars, ' ');
     }
 };
 }  // namespace help_formatter_component
diff --git a/include/arg_router/policy/default_help_formatter.hpp b/include/arg_router/policy/default_help_formatter.hpp
index 251caf7..bbab749 100644
--- a/include/arg_router/policy/default_help_formatter.hpp
+++ b/include/arg_router/policy/default_help_formatter.hpp
@@ -14,7 +14,6 @@
 #include "arg_router/utility/terminal.hpp"
 #include "arg_router/utility/tuple_iterator.hpp"
 
-#include <iomanip>
 #include <limits>
 
 namespace arg_router::policy
@@ -135,9 +134,8 @@ private:
 
     static void set_gap(std::ostream& stream, std::size_t num_chars)
     {
-        if (num_chars > 0) {
-            stream << std::setw(num_chars) << ' ';
-        }
+        // Not padding with std::setw(..), as the fill character belongs to the stream's user
+        stream << string(num_chars, ' ');
     }
 };
 
-- 
2.43.0


From 0c0990fb758ef8f2fc057ca73c93a8bdf0b7ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 42/42] fix: a break is allowed before and after an object
 replacement character

LB20 comes before LB21, LB21a and LB22, so a contingent break (class CB) takes precedence over them.
---
 include/arg_router/utility/utf8/line_break.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index 09e7bca..66bbf73 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -340,8 +340,10 @@ template <std::size_t N>
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
 
-    // LB18, a break is allowed after spaces
-    if (trailing_window[0] == line_break_class::SP) {
+    // LB18, a break is allowed after spaces. LB20, a break is allowed before and after an unresolved
+    // contingent break
+    if ((trailing_window[0] == line_break_class::SP) ||
+        (trailing_window[0] == line_break_class::CB) || (next_class == line_break_class::CB)) {
         return false;
     }
 
@@ -362,10 +364,12 @@ template <std::size_t N>
  */
 template <std::size_t N>
 [[nodiscard]] constexpr bool LB21a(const std::array<line_break_class, N>& trailing_window,
-                                   [[maybe_unused]] line_break_class next_class) noexcept
+                                   line_break_class next_class) noexcept
 {
     static_assert(N > 1, "Trailing window must be at least 2 elements");
-    return (trailing_window[1] == line_break_class::HL) &&
+    // LB20, a break is allowed before an unresolved contingent break
+    return (next_class != line_break_class::CB) &&
+           (trailing_window[1] == line_break_class::HL) &&
            ((trailing_window[0] == line_break_class::HY) ||
             (trailing_window[0] == line_break_class::BA));
 }
@@ -403,8 +407,10 @@ template <std::size_t N>
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
 
-    // LB18, a break is allowed after spaces
-    if (trailing_window[0] == line_break_class::SP) {
+    // LB18, a break is allowed after spaces. LB20, a break is allowed after an unresolved contingent
+    // break
+    if ((trailing_window[0] == line_break_class::SP) ||
+        (trailing_window[0] == line_break_class::CB)) {
         return false;
     }
 
-- 
2.43.0

