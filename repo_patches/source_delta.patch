From a5d851beeab2a0126a7d32e23beb4d49656163bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 01/27] fix: decode replacement sequences in texts of 2 GiB and
 more

The number of available code units was narrowed to int.
---
 include/ulight/impl/unicode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/unicode.hpp b/include/ulight/impl/unicode.hpp
index 9e14002..8010075 100644
--- a/include/ulight/impl/unicode.hpp
+++ b/include/ulight/impl/unicode.hpp
@@ -502,9 +502,9 @@ constexpr Code_Point_And_Length decode_and_length_or_replacement(const std::u8st
     }
     // Check each expected continuation byte.
     // Stop early if a byte is absent or invalid, returning the maximal subpart.
-    const int available = static_cast<int>(str.size());
+    const std::size_t available = str.size();
     for (int i = 1; i < expected; ++i) {
-        if (i >= available) [[unlikely]] {
+        if (std::size_t(i) >= available) [[unlikely]] {
             // Truncated at end of input: bytes [0, i) are a valid prefix.
             return { U'\N{REPLACEMENT CHARACTER}', i };
         }
-- 
2.43.0


From 59c05edd399dc8fed4ebdd51b7ca42dec3f4f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 02/27] fix: make ulight_lang_from_path_u8 look at the
 extension

It looked up the whole path as a language name.
---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From 12d49b087e87cdd126b4ace33a2e178f8660d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 03/27] fix: reject negative values in ulight_lang_display_name

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..ca40183 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (lang == ULIGHT_LANG_NONE || unsigned(lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
-- 
2.43.0


From 9a933fe605b9ada3c151400e25fbd3fc7a525a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 04/27] fix: reject every invalid language in
 ulight_source_to_tokens

ULIGHT_LANG_COUNT itself failed an assertion, negative values were used as an index.
---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index ca40183..6861fc5 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -411,7 +411,7 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE || unsigned(state->lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From 9ef9e96fb4ff8af414b3f0267f6d6849736dd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 05/27] fix: give shell command delimiters a short string of
 their own

They shared "name_cmd" with shell commands.
---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..db911db 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
-- 
2.43.0


From 0a8088e3d660c4bf3deeb53ff8cfc2ce8f4bf9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 06/27] fix: leave limbs past the end of the range empty in
 Charset::range_before

The upper bound wrapped around for limbs that begin after the range.
---
 include/ulight/impl/charset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/charset.hpp b/include/ulight/impl/charset.hpp
index 59e3a5a..aece907 100644
--- a/include/ulight/impl/charset.hpp
+++ b/include/ulight/impl/charset.hpp
@@ -28,7 +28,7 @@ struct Charset {
             const std::size_t begin = limb * limb_width;
             const std::size_t lo = i > begin ? i - begin : 0;
             const std::size_t hi = j < begin + limb_width ? j - begin : limb_width;
-            if (lo < hi) {
+            if (j > begin && lo < hi) {
                 const limb_type lo_mask = all_bits << lo;
                 const limb_type hi_mask = hi == limb_width ? all_bits : (limb_type { 1 } << hi) - 1;
                 result.limbs[limb] = lo_mask & hi_mask;
-- 
2.43.0


From 1e91bc650145840faa3d4a78d4f4fbe7601f67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 07/27] fix: compare the element types of source and
 destination in ulight::copy

---
 include/ulight/impl/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/algorithm/copy.hpp b/include/ulight/impl/algorithm/copy.hpp
index e7badbe..5d27e1b 100644
--- a/include/ulight/impl/algorithm/copy.hpp
+++ b/include/ulight/impl/algorithm/copy.hpp
@@ -23,7 +23,7 @@ template <typename Iter, typename Out>
 constexpr void copy(Iter begin, Iter end, Out dest)
 {
     using Iter_Element = std::iter_value_t<Iter>;
-    using Out_Element = std::iter_value_t<Iter>;
+    using Out_Element = std::iter_value_t<Out>;
 
     constexpr bool can_memmove //
         = std::contiguous_iterator<Iter> //
-- 
2.43.0


From b8183652f3d6ac7995770b7e18c1dd9a01c81fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 08/27] fix: do not skip a character behind a reference in an
 unquoted HTML attribute value

---
 src/main/cpp/lang/html.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..d8b3bf2 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -464,7 +464,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
-- 
2.43.0


From a1b46080f9373ddbcc53d09b863c033604bdbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 09/27] fix: advance by the decoded length over ill-formed
 UTF-8 in CSS

---
 src/main/cpp/lang/css.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..7ba277b 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -98,7 +98,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::size_t(utf8::decode_and_length_or_replacement(str).length);
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +398,7 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(std::size_t(utf8::decode_and_length_or_replacement(remainder).length));
                 }
                 break;
             }
-- 
2.43.0


From 4aac7d3d963eca29f94bc0b13edd6a91292ec042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 10/27] fix: do not run past the end of the source in C and C++
 literals

---
 src/main/cpp/lang/cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..e8fce26 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -811,7 +811,8 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
+            const auto code_units
+                = std::size_t(utf8::decode_and_length_or_replacement(remainder()).length);
             chars_length += code_units;
             advance(code_units);
         }
-- 
2.43.0


From f26ca6691a739481d969fb7e71d890472de1d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 11/27] fix: remove incorrect assertions on the character
 behind a Rust lifetime

---
 src/main/cpp/lang/rust.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..403fcfc 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -584,9 +584,6 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
@@ -594,7 +591,6 @@ private:
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From ef86be46961424aecdd328f47cc7e0f5eaa49ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 12/27] fix: emit no empty token for an unterminated HTML
 comment in Markdown

---
 src/main/cpp/lang/markdown.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..84e315b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,11 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(
+                comment.length - html_comment_prefix.length(), Highlight_Type::comment
+            );
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From 971b225ae00ccf0318acf61869598e1397d2485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 13/27] fix: confine braced JSX code to the matched braces

---
 src/main/cpp/lang/js.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..a4f9b6c 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,18 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // The braced code is highlighted in isolation
+        // so that nothing in it can extend past the closing brace that was matched.
+        const std::u8string_view after = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                // Closing brace which is not one according to match_jsx_braced.
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+            }
         }
+        remainder = after;
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
-- 
2.43.0


From 80226cc439da4ffeed17d8b55ed52eeac6e8f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 14/27] fix: emit no empty tokens in Lua

---
 src/main/cpp/lang/lua.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..8839780 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,9 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        if (length == 0) {
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
-- 
2.43.0


From 557beac8e398ccde9ff17de34627895f6ab2a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 15/27] fix: confine escapes to the matched string literal in
 JavaScript

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index a4f9b6c..bedad94 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1293,7 +1293,8 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                if (const Escape_Result esc
+                    = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From f20e7b58e275de255ccb4a087e5c2d6e3e97ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 16/27] fix: keep the character after a reference in a quoted
 HTML attribute value

---
 src/main/cpp/lang/html.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index d8b3bf2..e334cb6 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -485,7 +485,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -496,7 +496,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
-- 
2.43.0


From fa25269700766421cb8ef91e7ecb7a0f600a56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 17/27] fix: HTML raw text with a mismatched closing tag name
 at the end of input

---
 src/main/cpp/lang/html.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index e334cb6..9b902b1 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
-- 
2.43.0


From bb84fe6221fb525dd103e59a94dd51cd51356034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 18/27] fix: length of HTML escapable raw text after a
 mismatched closing tag name

---
 src/main/cpp/lang/html.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 9b902b1..ad060f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -152,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From dbe308403e0aa905834a7349d2f91390447cd76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:36 +0000
Subject: [PATCH 19/27] fix: blank line sequence at the end of the text ends
 with its last line feed

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..8208635 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -66,7 +66,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
 
     static_assert(!Blank_Line {}, "A value-initialized Blank_Line should be falsy");
     if (state == State::blank) {
-        return { .begin = blank_begin, .length = str.size() - blank_begin };
+        return { .begin = blank_begin, .length = blank_end - blank_begin };
     }
     return {};
 }
-- 
2.43.0


From bb232d1c5df6c4e6d907e800ab303317534efceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 20/27] fix: empty braces of a nonempty braced escape are
 erroneous

---
 include/ulight/impl/escapes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..0d6ca05 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -175,7 +175,7 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
         if (index == std::u8string_view::npos) {
             return { .length = str.length(), .erroneous = true };
         }
-        return { .length = index + 1 };
+        return { .length = index + 1, .erroneous = index == 1 };
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 3468445501d4d6992a6e37ac523d6e7020acb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 21/27] fix: suffix numbers without separator extend over
 alphanumeric characters only

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 8208635..1aed6d1 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -279,7 +279,7 @@ Suffix_Number_Result match_suffix_number(
     ULIGHT_ASSERT(determine_suffix);
 
     const std::size_t length = ascii::length_if(str, [s = digit_separator](char8_t c) {
-        return s == 0 || c == s || is_ascii_alphanumeric(c);
+        return (s != 0 && c == s) || is_ascii_alphanumeric(c);
     });
 
     if (length <= 1) {
-- 
2.43.0


From 2ef1e63f46597618d24df1df9122510703c15879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 22/27] fix: single digit separators in suffix numbers are not
 erroneous

---
 src/main/cpp/parse_utils.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 1aed6d1..d8291d3 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -296,18 +296,21 @@ Suffix_Number_Result match_suffix_number(
         for (std::size_t i = 0; i + suffix.length < length; ++i) {
             const char8_t c = number[i];
 
+            if (digit_separator != 0 && c == digit_separator) {
+                const bool leading = i == 0;
+                const bool trailing = i + 1 + suffix.length == length;
+                if (leading || trailing || number[i - 1] == digit_separator) {
+                    return true;
+                }
+                continue;
+            }
+
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
                                                              : c - u8'0';
             if (digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
-                && number[i - 1] == digit_separator;
-            if (repeated_separator) {
-                return true;
-            }
         }
         return false;
     }();
-- 
2.43.0


From 4c8e7e850a5e5bbd3e94515ac6432f452cf4c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 23/27] fix: parse_json accepted anything behind the value

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..fa952e4 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -441,7 +441,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From c8a684d56270539fb1452d2c72f35305542c6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 24/27] fix: parse_json reported the text behind a block
 comment instead of the comment

---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index fa952e4..fd30c4a 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -532,8 +532,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From 3afac0cc07c30798837c9a5d374c69c83c815b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 25/27] fix: parse_json read numbers past the end of the source

---
 src/main/cpp/lang/json.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index fd30c4a..2b11145 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,7 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -699,10 +700,11 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
+            // The source is not null-terminated, and may continue with more digits.
+            const std::string terminated { as_string_view(number_string) };
             char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
+            const double value = std::strtod(terminated.c_str(), &str_end);
+            if (str_end == terminated.c_str()) {
                 error(JSON_Error::illegal_number);
                 return false;
             }
-- 
2.43.0


From 1876fb4b95627de7dcbcd49f535d1a9534c4e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 26/27] fix: parse_json failed an assertion if the name of a
 member is not a string

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 2b11145..fc0ef1a 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -763,6 +763,10 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (!remainder.starts_with(u8'"')) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
-- 
2.43.0


From d8a4e733a8a3e88c9cdb625a449219bf115b6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:54 +0000
Subject: [PATCH 27/27] fix: form feed is not JSON white space

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0

