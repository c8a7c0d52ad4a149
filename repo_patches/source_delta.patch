From 053fdd176f5f860f369d590d40b789e5a6b77d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 01/66] fix: report lexer numbers and positions that overflow
 instead of wrapping

---
 fly/types/string/lexer.hpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index f99464d..a4bafcc 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/string/literals.hpp"
 
 #include <cstdint>
+#include <limits>
 #include <optional>
 
 namespace fly {
@@ -107,6 +108,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a decimal digit. Convert the retrieved characters to an unsigned number.
      *
+     * If the number is too large to be represented, the current position is not advanced.
+     *
      * @return If consumed, the parsed decimal number. Otherwise, an uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_number();
@@ -116,6 +119,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number.
      *
+     * If the number is too large to be represented, the current position is not advanced.
+     *
      * @return If consumed, the parsed hexadecimal number. Otherwise, an uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_hex_number();
@@ -189,7 +194,7 @@ constexpr void BasicLexer<CharType>::set_position(std::size_t position)
 template <StandardCharacter CharType>
 constexpr std::optional<CharType> BasicLexer<CharType>::peek(std::size_t offset)
 {
-    if ((m_index + offset) >= m_size)
+    if ((m_index >= m_size) || (offset >= (m_size - m_index)))
     {
         return std::nullopt;
     }
@@ -226,15 +231,25 @@ constexpr bool BasicLexer<CharType>::consume_if(CharType ch)
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 {
+    constexpr auto const s_max = std::numeric_limits<std::uintmax_t>::max();
+
+    std::size_t const start = m_index;
     bool parsed_number = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_digit))
     {
+        auto const digit = static_cast<std::uintmax_t>(ch.value() - s_zero);
         parsed_number = true;
 
+        if (number > ((s_max - digit) / 10))
+        {
+            m_index = start;
+            return std::nullopt;
+        }
+
         number *= 10;
-        number += static_cast<std::uintmax_t>(ch.value() - s_zero);
+        number += digit;
     }
 
     return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
@@ -244,12 +259,22 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number()
 {
+    constexpr auto const s_max = std::numeric_limits<std::uintmax_t>::max();
+
+    std::size_t const start = m_index;
     bool parsed_number = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_x_digit))
     {
         parsed_number = true;
+
+        if (number > (s_max / 16))
+        {
+            m_index = start;
+            return std::nullopt;
+        }
+
         number *= 16;
 
         if ((ch.value() >= s_upper_a) && (ch.value() <= s_upper_f))
-- 
2.43.0


From c2e94dbb1c8cd0689564ba45047e8d6e5cf48928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 02/66] fix: reject IPv6 strings with stray colons, oversized
 segments or a redundant short form

---
 fly/net/ipv6_address.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/fly/net/ipv6_address.hpp b/fly/net/ipv6_address.hpp
index 62d97c6..d8ded2d 100644
--- a/fly/net/ipv6_address.hpp
+++ b/fly/net/ipv6_address.hpp
@@ -155,6 +155,7 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
 {
     constexpr auto const s_max16 =
         static_cast<std::uint64_t>(std::numeric_limits<std::uint16_t>::max());
+    constexpr std::size_t const s_max_segment_size = 4;
     constexpr auto const s_colon = ':';
 
     fly::Lexer lexer(std::move(address));
@@ -163,8 +164,13 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
     std::optional<std::size_t> index_after_short_form;
     std::size_t index = 0;
 
+    bool after_segment = false;
+    bool after_separator = false;
+
     do
     {
+        std::size_t const start = lexer.position();
+
         if (lexer.consume_if(s_colon))
         {
             if (lexer.consume_if(s_colon))
@@ -176,9 +182,24 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
 
                 index_after_short_form = index;
             }
+            else if (after_segment)
+            {
+                after_separator = true;
+            }
+            else
+            {
+                return std::nullopt;
+            }
+
+            after_segment = false;
         }
-        else if (auto const segment = lexer.consume_hex_number(); segment && (*segment <= s_max16))
+        else if (auto const segment = lexer.consume_hex_number();
+                 segment && (*segment <= s_max16) &&
+                 ((lexer.position() - start) <= s_max_segment_size))
         {
+            after_segment = true;
+            after_separator = false;
+
             parts[index++] = static_cast<address_type::value_type>((*segment >> 8) & 0xff);
             parts[index++] = static_cast<address_type::value_type>(*segment & 0xff);
         }
@@ -188,7 +209,8 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
         }
     } while (lexer.peek() && (index < s_address_size));
 
-    if (lexer.peek() || ((index != s_address_size) && !index_after_short_form))
+    if (lexer.peek() || after_separator ||
+        ((index == s_address_size) == index_after_short_form.has_value()))
     {
         return std::nullopt;
     }
-- 
2.43.0


From 49d75e722ce533aaa507492dd01d05b62e2812d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 03/66] fix: do not classify negative character values as
 digits

---
 fly/types/string/detail/classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/detail/classifier.hpp b/fly/types/string/detail/classifier.hpp
index 0f444fc..84adce0 100644
--- a/fly/types/string/detail/classifier.hpp
+++ b/fly/types/string/detail/classifier.hpp
@@ -169,6 +169,7 @@ private:
 
     static constexpr auto const s_null_terminator = FLY_CHR(CharType, '\0');
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
+    static constexpr auto const s_nine = FLY_CHR(CharType, '9');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_z = FLY_CHR(CharType, 'Z');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -260,7 +261,7 @@ constexpr CharType BasicClassifier<CharType>::to_lower(CharType ch)
 template <fly::StandardCharacter CharType>
 constexpr bool BasicClassifier<CharType>::is_digit(CharType ch)
 {
-    return (ch ^ s_zero) < 10;
+    return (ch >= s_zero) && (ch <= s_nine);
 }
 
 //==================================================================================================
-- 
2.43.0


From 2b491b004f8920c2c7a1286e9bab29e5719eb638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 04/66] fix: terminate replace_all when the replacement
 contains the search string

---
 fly/types/string/string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 2da7973..374ff63 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -573,7 +573,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, c
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), 1, replace);
-        index = target.find(search);
+        index = target.find(search, index + 1);
     }
 }
 
@@ -586,7 +586,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, v
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), replace);
-        index = target.find(search);
+        index = target.find(search, index + replace.size());
     }
 }
 
@@ -594,7 +594,13 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, v
 template <StandardCharacter CharType>
 void BasicString<CharType>::remove_all(string_type &target, view_type search)
 {
-    replace_all(target, search, view_type {});
+    size_type index = target.find(search);
+
+    while (!search.empty() && (index != string_type::npos))
+    {
+        target.erase(index, search.size());
+        index = target.find(search);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From 266089d176219358a036f5bee426f396a6d83b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 05/66] fix: anchor wildcard segments and do not let them
 overlap

---
 fly/types/string/string.hpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 374ff63..7abda8b 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -608,30 +608,35 @@ template <StandardCharacter CharType>
 bool BasicString<CharType>::wildcard_match(view_type source, view_type search)
 {
     static constexpr char_type s_wildcard = '*';
-    bool result = !search.empty();
+
+    if (search.find(s_wildcard) == view_type::npos)
+    {
+        return !search.empty() && (source == search);
+    }
 
     std::vector<string_type> const segments = split(search, s_wildcard);
-    size_type index = 0;
+    bool result = true;
 
-    if (!segments.empty())
+    for (auto it = segments.begin(); result && (it != segments.end()); ++it)
     {
-        if (result && (search.front() != s_wildcard))
+        if ((it == segments.begin()) && (search.front() != s_wildcard))
         {
-            result = source.starts_with(segments.front());
+            // The first segment must be at the beginning of the source string.
+            result = source.starts_with(*it);
+            source.remove_prefix(result ? it->size() : 0);
         }
-        if (result && (search.back() != s_wildcard))
+        else if (((it + 1) == segments.end()) && (search.back() != s_wildcard))
         {
-            result = source.ends_with(segments.back());
+            // The last segment must be at the end of what remains of the source string.
+            result = source.ends_with(*it);
         }
-
-        for (auto it = segments.begin(); result && (it != segments.end()); ++it)
+        else if (auto const index = source.find(*it); index != view_type::npos)
         {
-            index = source.find(*it, index);
-
-            if (index == string_type::npos)
-            {
-                result = false;
-            }
+            source.remove_prefix(index + it->size());
+        }
+        else
+        {
+            result = false;
         }
     }
 
-- 
2.43.0


From feeb3a79249d6e42458e03d01b66fa425270ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 06/66] fix: treat a lone quote as an imbalanced INI value

---
 fly/parser/ini_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index a7b4c5a..65ffc96 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -165,7 +165,7 @@ IniParser::TrimResult IniParser::trim_value(std::string &str, char start, char e
     bool starts_with_char = str.starts_with(start);
     bool ends_with_char = str.ends_with(end);
 
-    if (starts_with_char && ends_with_char)
+    if (starts_with_char && ends_with_char && (str.size() > 1))
     {
         str = str.substr(1, str.size() - 2);
         return TrimResult::Trimmed;
-- 
2.43.0


From 20e1e8ce54088eb44378d73d136013608bbe0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 07/66] fix: keep every assignment operator after the first in
 an INI value

---
 fly/parser/ini_parser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index 65ffc96..d4ae4ad 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -3,7 +3,7 @@
 #include "fly/logger/logger.hpp"
 #include "fly/types/string/string.hpp"
 
-#include <vector>
+#include <cstddef>
 
 namespace fly::parser {
 
@@ -120,17 +120,20 @@ std::optional<std::string> IniParser::on_section(std::string &section)
 std::optional<std::pair<std::string, std::string>>
 IniParser::on_name_value_pair(std::string const &name_value)
 {
-    static constexpr std::uint32_t s_size = 2;
+    std::size_t const separator = name_value.find('=');
+    std::string name, value;
 
-    std::vector<std::string> pair = fly::String::split(name_value, '=', s_size);
-
-    if (pair.size() == s_size)
+    if (separator != std::string::npos)
     {
-        std::string name(std::move(pair[0])), value(std::move(pair[1]));
+        name = name_value.substr(0, separator);
+        value = name_value.substr(separator + 1);
 
         fly::String::trim(name);
         fly::String::trim(value);
+    }
 
+    if (!name.empty() && !value.empty())
+    {
         if ((trim_value(name, '\'') != TrimResult::Untrimmed) ||
             (trim_value(name, '\"') != TrimResult::Untrimmed))
         {
-- 
2.43.0


From 2460af6f7e8fbd76ea1dfbc6d0a10e97cc080970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 08/66] fix: do not accept vertical tabs as JSON whitespace

---
 fly/parser/json_parser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index eb645d1..8f6224f 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -468,7 +468,6 @@ bool JsonParser::is_whitespace(Token token) const
     {
         case Token::Tab:
         case Token::NewLine:
-        case Token::VerticalTab:
         case Token::CarriageReturn:
         case Token::Space:
             return true;
-- 
2.43.0


From 3f8c6e16e9bb5943686d75d1da0a14e63755ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 09/66] fix: reject malformed comments after a JSON comma

---
 fly/parser/json_parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 8f6224f..a839773 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -287,18 +287,16 @@ JsonParser::ParseState JsonParser::consume_comma(Token end_token)
     {
         return ParseState::Invalid;
     }
-    else if (state_for_object_or_array(end_token) == ParseState::StopParsing)
-    {
-        if (m_allow_trailing_comma)
-        {
-            return ParseState::StopParsing;
-        }
 
+    ParseState const state = state_for_object_or_array(end_token);
+
+    if ((state == ParseState::StopParsing) && !m_allow_trailing_comma)
+    {
         JLOG("Found trailing comma, but Features::AllowTrailingComma is not enabled");
         return ParseState::Invalid;
     }
 
-    return ParseState::KeepParsing;
+    return state;
 }
 
 //==================================================================================================
-- 
2.43.0


From 388c6de1868a4f59078188659ec752d5c2be110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 10/66] fix: allow comments between a JSON key and its colon

---
 fly/parser/json_parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index a839773..9a44229 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -269,9 +269,11 @@ std::optional<fly::Json> JsonParser::parse_value()
 //==================================================================================================
 JsonParser::ParseState JsonParser::consume_token(Token token)
 {
-    consume_whitespace();
-
-    if (Token const parsed = get<Token>(); parsed != token)
+    if (consume_whitespace_and_comments() == ParseState::Invalid)
+    {
+        return ParseState::Invalid;
+    }
+    else if (Token const parsed = get<Token>(); parsed != token)
     {
         JLOG("Unexpected character {}, was expecting {}", parsed, token);
         return ParseState::Invalid;
-- 
2.43.0


From a20913a9fa7289bd30c5e2dadda5ee1be525a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 11/66] fix: limit the nesting depth of parsed JSON

---
 fly/parser/json_parser.cpp | 20 +++++++++++++++++---
 fly/parser/json_parser.hpp |  2 ++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 9a44229..33df75b 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -10,6 +10,9 @@ namespace fly::parser {
 
 namespace {
 
+    // Objects and arrays are parsed recursively, so limit how deeply they may be nested.
+    constexpr std::uint32_t const s_max_depth = 512;
+
     inline bool
     is_feature_enabled(JsonParser::Features enabled_features, JsonParser::Features feature)
     {
@@ -31,6 +34,7 @@ JsonParser::JsonParser(Features features) noexcept :
 std::optional<fly::Json> JsonParser::parse_internal()
 {
     std::optional<fly::Json> json;
+    m_depth = 0;
 
     try
     {
@@ -74,10 +78,20 @@ std::optional<fly::Json> JsonParser::parse_json()
     switch (peek<Token>())
     {
         case Token::StartBrace:
-            return parse_object();
-
         case Token::StartBracket:
-            return parse_array();
+        {
+            if (m_depth == s_max_depth)
+            {
+                JLOG("Exceeded the maximum JSON nesting depth of {}", s_max_depth);
+                return std::nullopt;
+            }
+
+            ++m_depth;
+            auto value = (peek<Token>() == Token::StartBrace) ? parse_object() : parse_array();
+            --m_depth;
+
+            return value;
+        }
 
         case Token::Quote:
             if (auto value = parse_quoted_string(); value)
diff --git a/fly/parser/json_parser.hpp b/fly/parser/json_parser.hpp
index 5bb80a2..22819a7 100644
--- a/fly/parser/json_parser.hpp
+++ b/fly/parser/json_parser.hpp
@@ -226,6 +226,8 @@ private:
     bool const m_allow_comments {false};
     bool const m_allow_trailing_comma {false};
     bool const m_allow_any_type {false};
+
+    std::uint32_t m_depth {0};
 };
 
 /**
-- 
2.43.0


From c715758a668467c0fffdf8c660c3cbde73572151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 12/66] fix: size the floating point conversion buffer to the
 converted value

---
 fly/types/string/formatters.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 882fa6d..fa7d2c3 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -18,6 +18,7 @@
 #include <string>
 #include <system_error>
 #include <type_traits>
+#include <vector>
 
 #if !defined(FLY_COMPILER_SUPPORTS_FP_CHARCONV)
 #    include <iomanip>
@@ -772,10 +773,7 @@ private:
      */
     FloatConversionResult convert_value(T value, int precision)
     {
-        static thread_local std::array<char, std::numeric_limits<T>::digits> s_buffer;
-
-        char *begin = s_buffer.data();
-        char *end = begin + s_buffer.size();
+        static thread_local std::vector<char> s_buffer(128);
 
         std::chars_format fmt = std::chars_format::general;
         char exponent = '\0';
@@ -798,7 +796,20 @@ private:
                 break;
         }
 
-        auto const to_chars_result = std::to_chars(begin, end, value, fmt, precision);
+        auto convert_into_buffer = [&value, &fmt, &precision]() {
+            char *data = s_buffer.data();
+            return std::to_chars(data, data + s_buffer.size(), value, fmt, precision);
+        };
+
+        auto to_chars_result = convert_into_buffer();
+
+        while (to_chars_result.ec == std::errc::value_too_large)
+        {
+            s_buffer.resize(s_buffer.size() * 2);
+            to_chars_result = convert_into_buffer();
+        }
+
+        char *begin = s_buffer.data();
 
         FloatConversionResult conversion_result;
         conversion_result.m_digits =
-- 
2.43.0


From 0e462894501fd6101eecbfecaf604f995f477dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 13/66] fix: append zeros to alternate general floats by
 significant digits

---
 fly/types/string/formatters.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index fa7d2c3..e96c422 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -836,8 +836,16 @@ private:
 
             if (m_type == FormatSpecifier::Type::General)
             {
-                auto const digits = conversion_result.m_digits.size() -
-                    static_cast<std::size_t>(!conversion_result.m_append_decimal);
+                std::size_t digits = 0;
+
+                // Leading zeros are not significant, unless the value itself is zero.
+                for (auto ch : conversion_result.m_digits)
+                {
+                    if ((ch != '.') && ((ch != '0') || (digits != 0) || (value == 0)))
+                    {
+                        ++digits;
+                    }
+                }
 
                 if (static_cast<std::size_t>(precision) > digits)
                 {
-- 
2.43.0


From 49206b1b25d6f5e18006694ee09facf21376de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 14/66] fix: do not apply zero padding or the alternate form to
 non-finite floats

---
 fly/types/string/formatters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index e96c422..45544c1 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -636,7 +636,7 @@ struct Formatter<T, CharType> : public detail::BasicFormatSpecifier<CharType>
             }
 
             case FormatSpecifier::Alignment::Default:
-                if (m_zero_padding)
+                if (m_zero_padding && std::isfinite(value))
                 {
                     append_prefix();
                     append_padding(padding_size, s_zero);
@@ -815,7 +815,7 @@ private:
         conversion_result.m_digits =
             std::string_view(begin, static_cast<std::size_t>(to_chars_result.ptr - begin));
 
-        if (m_alternate_form)
+        if (m_alternate_form && std::isfinite(value))
         {
             conversion_result.m_append_decimal = true;
 
-- 
2.43.0


From 955f16116362f45a35c09040a3eb038b08fd3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 15/66] fix: infer the presentation type of formatters which
 extend a standard formatter

---
 fly/types/string/detail/format_parameters.hpp |  7 +++++--
 fly/types/string/detail/format_specifier.hpp  | 19 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/fly/types/string/detail/format_parameters.hpp b/fly/types/string/detail/format_parameters.hpp
index ecb5d17..98f8f3f 100644
--- a/fly/types/string/detail/format_parameters.hpp
+++ b/fly/types/string/detail/format_parameters.hpp
@@ -317,8 +317,11 @@ inline void format_user_defined_value(
 
         if constexpr (fly::DerivedFrom<Formatter, decltype(specifier)>)
         {
-            formatter_requires_parsing = !specifier.m_was_parsed_as_standard_formatter;
-            specifier.copy_formatting_options_into(formatter);
+            if (specifier.m_was_parsed_as_standard_formatter)
+            {
+                specifier.copy_formatting_options_into(formatter);
+                formatter_requires_parsing = false;
+            }
         }
 
         if (formatter_requires_parsing)
diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index 2b29472..79477ba 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -283,6 +283,14 @@ struct BasicFormatSpecifier
 
     bool m_was_parsed_as_standard_formatter {false};
 
+protected:
+    /**
+     * Infer a presentation type for a replacement field based on a format parameter's type.
+     *
+     * @param parameter_type The type of format parameter corresponding to the replacement field.
+     */
+    constexpr void infer_type(ParameterType parameter_type);
+
 private:
     /**
      * Parse the optional fill and alignment arguments of the replacement field.
@@ -491,6 +499,7 @@ private:
     Formatter()                                                                                    \
     {                                                                                              \
         m_parameter_type = parameter_type;                                                         \
+        FormatSpecifier::infer_type(parameter_type);                                               \
     }                                                                                              \
                                                                                                    \
     explicit Formatter(FormatSpecifier specifier) noexcept :                                       \
@@ -690,8 +699,16 @@ constexpr void BasicFormatSpecifier<CharType>::parse_type(FormatParseContext &co
 template <fly::StandardCharacter CharType>
 constexpr void BasicFormatSpecifier<CharType>::infer_type(FormatParseContext &context)
 {
-    auto parameter_type = resolve_parameter_type(context);
+    if (auto parameter_type = resolve_parameter_type(context); parameter_type)
+    {
+        infer_type(*parameter_type);
+    }
+}
 
+//==================================================================================================
+template <fly::StandardCharacter CharType>
+constexpr void BasicFormatSpecifier<CharType>::infer_type(ParameterType parameter_type)
+{
     if (parameter_type == ParameterType::Character)
     {
         m_type = Type::Character;
-- 
2.43.0


From e15a766b420b382ee8535f1f70f0543c8ca8414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 16/66] fix: keep the position of replacement fields for
 user-defined types with formatting options

---
 fly/types/string/detail/format_specifier.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index 79477ba..822fba5 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -223,8 +223,6 @@ struct BasicFormatSpecifier
     constexpr void copy_formatting_options_into(FormatterType &formatter) const
     {
         // Note: This is defined inline due to: https://bugs.llvm.org/show_bug.cgi?id=48020
-        formatter.m_position = m_position;
-
         formatter.m_fill = m_fill;
         formatter.m_alignment = m_alignment;
 
-- 
2.43.0


From b8164e0951ced0a7e348ceb4c17881d718230eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 17/66] fix: do not parse text after replacement fields without
 formatting options

---
 fly/types/string/detail/format_parameters.hpp | 4 ++++
 fly/types/string/detail/format_specifier.hpp  | 1 +
 fly/types/string/detail/format_string.hpp     | 1 +
 3 files changed, 6 insertions(+)

diff --git a/fly/types/string/detail/format_parameters.hpp b/fly/types/string/detail/format_parameters.hpp
index 98f8f3f..539a399 100644
--- a/fly/types/string/detail/format_parameters.hpp
+++ b/fly/types/string/detail/format_parameters.hpp
@@ -322,6 +322,10 @@ inline void format_user_defined_value(
                 specifier.copy_formatting_options_into(formatter);
                 formatter_requires_parsing = false;
             }
+            else
+            {
+                formatter_requires_parsing = specifier.m_has_formatting_options;
+            }
         }
 
         if (formatter_requires_parsing)
diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index 822fba5..1dfb75c 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -279,6 +279,7 @@ struct BasicFormatSpecifier
     std::size_t m_parse_index {0};
     std::size_t m_size {0};
 
+    bool m_has_formatting_options {false};
     bool m_was_parsed_as_standard_formatter {false};
 
 protected:
diff --git a/fly/types/string/detail/format_string.hpp b/fly/types/string/detail/format_string.hpp
index 61ddbb5..eb4973f 100644
--- a/fly/types/string/detail/format_string.hpp
+++ b/fly/types/string/detail/format_string.hpp
@@ -166,6 +166,7 @@ constexpr auto BasicFormatString<CharType, ParameterTypes...>::parse_specifier()
     if (m_context.lexer().consume_if(s_colon))
     {
         specifier.m_parse_index = m_context.lexer().position();
+        specifier.m_has_formatting_options = true;
 
         if (m_context.parameter_type(specifier.m_position) == ParameterType::UserDefined)
         {
-- 
2.43.0


From dd5a303036ed769646c0078068c2be014ef48334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 18/66] fix: leave a null JSON value as it is when merging a
 value that is not an object

---
 fly/types/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 103bf46..59b0cb6 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -713,8 +713,8 @@ void Json::swap(reference json)
 //==================================================================================================
 void Json::merge(fly::Json &other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(other_storage);
 }
@@ -722,8 +722,8 @@ void Json::merge(fly::Json &other)
 //==================================================================================================
 void Json::merge(fly::Json &&other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(std::move(other_storage));
 }
-- 
2.43.0


From 2d650e11f5e91844d8af76ad08f1fb320a6b5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 19/66] fix: leave a null JSON value as it is when accessing a
 key that is not a valid string

---
 fly/types/json/json.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 82e63de..a35bd6f 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1810,8 +1810,10 @@ Json::const_reference Json::at(T key) const
 template <JsonStringLike T>
 Json::reference Json::operator[](T key)
 {
+    auto converted = convert_to_string(std::move(key));
+
     auto &storage = get_or_promote<json_object_type>("JSON type invalid for operator[key]");
-    return storage[convert_to_string(std::move(key))];
+    return storage[std::move(converted)];
 }
 
 //==================================================================================================
@@ -1854,8 +1856,10 @@ std::pair<Json::iterator, bool> Json::insert_or_assign(Key key, Json &&value)
 template <JsonStringLike Key, typename Value>
 std::pair<Json::iterator, bool> Json::emplace(Key key, Value &&value)
 {
+    auto converted = convert_to_string(std::move(key));
+
     auto &storage = get_or_promote<json_object_type>("JSON type invalid for object emplacement");
-    auto result = storage.emplace(convert_to_string(std::move(key)), std::forward<Value>(value));
+    auto result = storage.emplace(std::move(converted), std::forward<Value>(value));
 
     auto it = end();
     it.m_iterator = result.first;
-- 
2.43.0


From 742f5acab7794db7c132501fd7559d03bda7d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 20/66] fix: keep the other value when swapping it with a JSON
 value fails

---
 fly/types/json/json.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index a35bd6f..cd48853 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1894,7 +1894,9 @@ void Json::swap(T &other)
 
     T string = static_cast<T>(*this);
 
-    *this = std::move(other);
+    Json json(other);
+
+    *this = std::move(json);
     other = std::move(string);
 }
 
@@ -1909,7 +1911,9 @@ void Json::swap(T &other)
 
     T object = static_cast<T>(*this);
 
-    *this = std::move(other);
+    Json json(other);
+
+    *this = std::move(json);
     other = std::move(object);
 }
 
@@ -1924,7 +1928,9 @@ void Json::swap(T &other)
 
     T array = static_cast<T>(*this);
 
-    *this = std::move(other);
+    Json json(other);
+
+    *this = std::move(json);
     other = std::move(array);
 }
 
-- 
2.43.0


From 710f1ad97ca9a766dba484c66fd075b3115fbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 21/66] fix: do not truncate a JSON string within a codepoint

---
 fly/types/json/json.cpp | 11 ++++++++++-
 fly/types/json/json.hpp |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 59b0cb6..308dea1 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -440,7 +440,16 @@ void Json::resize(size_type size)
     auto visitor = [this, &size](auto &storage) {
         using S = decltype(storage);
 
-        if constexpr (fly::SameAsAny<S, json_string_type, json_array_type>)
+        if constexpr (fly::SameAs<S, json_string_type>)
+        {
+            if ((size < storage.size()) && !JsonStringType::validate(storage.substr(0, size)))
+            {
+                throw JsonException(*this, "JSON string may not be resized within a codepoint");
+            }
+
+            storage.resize(size);
+        }
+        else if constexpr (fly::SameAs<S, json_array_type>)
         {
             storage.resize(size);
         }
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index cd48853..bfed365 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -854,7 +854,8 @@ public:
      *
      * @param size The new size of the Json instance.
      *
-     * @throws JsonException If the Json instance is not a string or array.
+     * @throws JsonException If the Json instance is not a string or array, or if it is a string and
+     *         the provided size would cut a codepoint apart.
      */
     void resize(size_type size);
 
-- 
2.43.0


From 0618f25492b8be35609ff21403d254abff0e2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 22/66] fix: compare JSON numbers by value whatever their types

---
 fly/types/json/json.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 308dea1..32c7173 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -747,16 +747,14 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
         if constexpr (
             (JsonFloatingPoint<S1> && JsonNumber<S2>) || (JsonFloatingPoint<S2> && JsonNumber<S1>))
         {
-            constexpr auto epsilon = std::numeric_limits<json_floating_point_type>::epsilon();
-
             auto const fvalue1 = static_cast<json_floating_point_type>(value1);
             auto const fvalue2 = static_cast<json_floating_point_type>(value2);
 
-            return std::abs(fvalue1 - fvalue2) <= epsilon;
+            return (fvalue1 <= fvalue2) && (fvalue1 >= fvalue2);
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 == static_cast<S1>(value2);
+            return std::cmp_equal(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -798,7 +796,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 < static_cast<S1>(value2);
+            return std::cmp_less(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
-- 
2.43.0


From 3f5497dd60b313b1b4f66943c0c0705d7ddb0933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 23/66] fix: hash equal JSON numbers equally whatever their
 types

---
 fly/types/json/json.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index bfed365..10edf0b 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -2206,6 +2206,12 @@ struct std::hash<fly::Json>
 
                 return result;
             }
+            else if constexpr (fly::JsonNumber<S>)
+            {
+                // Numbers of different types may be equal, and equal values must hash equally.
+                std::hash<fly::json_floating_point_type> hasher {};
+                return hash_combine(0, hasher(static_cast<fly::json_floating_point_type>(storage)));
+            }
             else
             {
                 std::hash<std::remove_cvref_t<S>> hasher {};
-- 
2.43.0


From 912a47c32cef9b28deb49784be17c9ad2d43a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 24/66] fix: serialize JSON numbers which JSON cannot represent
 as null

---
 fly/types/json/json.cpp | 10 ++++++++++
 fly/types/json/json.hpp |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 32c7173..a53429f 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -132,6 +132,16 @@ json_string_type Json::serialize() const
         }
         else
         {
+            if constexpr (JsonFloatingPoint<S>)
+            {
+                // JSON does not have a representation for infinity or NaN.
+                if (!std::isfinite(storage))
+                {
+                    serialized += FLY_JSON_STR("null");
+                    return;
+                }
+            }
+
             serialized += fly::string::format(FLY_JSON_ARR("{}"), storage);
         }
     };
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 10edf0b..5a94af3 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -315,7 +315,8 @@ public:
     reference operator=(Json json) noexcept;
 
     /**
-     * Serialize the Json instance to a string.
+     * Serialize the Json instance to a string. Infinity and NaN, which JSON cannot represent, are
+     * serialized as null.
      *
      * @return The serialized Json instance.
      */
-- 
2.43.0


From 8cf1d90b7c9cbf1525068c22ae6f2b1b0c0cd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 25/66] fix: zero only the rest of the last chunk when encoding
 Base64

---
 fly/coders/base64/base64_coder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..f3e8725 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -147,7 +147,7 @@ bool Base64Coder::encode_internal(std::istream &decoded, std::ostream &encoded)
         if (auto const remainder = bytes % s_decoded_chunk_size; remainder > 0)
         {
             auto const end = static_cast<std::size_t>(decoding - m_decoded.data()) + remainder;
-            ::memset(m_decoded.data() + end, '\0', end);
+            ::memset(m_decoded.data() + end, '\0', s_decoded_chunk_size - remainder);
 
             encode_chunk(decoding, m_encoded.data());
 
-- 
2.43.0


From a4b2b24559d8cdf3703d7b38e57bfeb0edb0330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 26/66] fix: do not read outside the Base64 table when decoding
 non-ASCII bytes

---
 fly/coders/base64/base64_coder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index f3e8725..ec92a09 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<std::uint8_t>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<std::uint8_t>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<std::uint8_t>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<std::uint8_t>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
-- 
2.43.0


From 18aa50ebb74dd267e2194fd480a728dbe58b2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 27/66] fix: decode padded Base64 which ends exactly at the end
 of the buffer

---
 fly/coders/base64/base64_coder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index ec92a09..f788ac3 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -177,6 +177,12 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
             break;
         }
 
+        // If the stream ends at the end of the buffer, that is only detected by reading further.
+        if (encoded)
+        {
+            encoded.peek();
+        }
+
         std::ios::char_type const *encoding = m_encoded.data();
         std::ios::char_type *decoding = m_decoded.data();
 
-- 
2.43.0


From 75975dbf52c920bfd9e9fb9d96a36c40d510c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 28/66] fix: write only the requested bits to a bit stream, for
 every size

---
 fly/types/bit_stream/bit_stream_writer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..b7f7e3a 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -100,6 +100,14 @@ private:
 template <detail::BitStreamInteger DataType>
 void BitStreamWriter::write_bits(DataType bits, byte_type size)
 {
+    if (size == 0)
+    {
+        return;
+    }
+
+    // Only the least-significant bits are to be written.
+    bits &= bit_mask<DataType>(size);
+
     // If there are more bits to write than are available in the byte buffer, break the bits into
     // two chunks.
     if (size > m_position)
@@ -107,8 +115,9 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         byte_type const rshift = size - m_position;
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
-        // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        // onto the stream. Because rshift is at least 1 here, the right-shift can be broken into
+        // two operations in order to avoid bit-shifting by the size of the value being shifted.
+        m_buffer |= (static_cast<buffer_type>(bits) >> (rshift - 1)) >> 1;
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-- 
2.43.0


From 177a43e6459634aae94f5b96ffa9013028249b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 29/66] fix: do not shift by the size of the buffer when
 peeking no bits

---
 fly/types/bit_stream/bit_stream_reader.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..40a88eb 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -195,6 +195,11 @@ byte_type BitStreamReader::peek_bits(DataType &bits, byte_type size)
     byte_type peeked = 0, lshift = 0;
     bits = 0;
 
+    if (size == 0)
+    {
+        return 0;
+    }
+
     // If there are more bits to peek than are available in the byte buffer, break the peek into two
     // peeks.
     if (size > m_position)
-- 
2.43.0


From 9ff0701a5265af2db34855585aae52ba52ad036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 30/66] fix: report bytes which could not be written to a bit
 stream

---
 fly/types/bit_stream/bit_stream_writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index b7f7e3a..2a02f76 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -139,9 +139,14 @@ void BitStreamWriter::flush(DataType const &buffer, byte_type bytes)
     {
         DataType const data = endian_swap_if_non_native<std::endian::big>(buffer);
 
-        m_stream_buffer->sputn(
+        auto const bytes_written = m_stream_buffer->sputn(
             reinterpret_cast<std::ios::char_type const *>(&data),
             static_cast<std::streamsize>(bytes));
+
+        if (bytes_written != static_cast<std::streamsize>(bytes))
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 }
 
-- 
2.43.0


From 5501542658a08647447c9bf42d9b9cb47fe403bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 31/66] fix: report coded files which could not be written

---
 fly/coders/coder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index feb8304..49c78bb 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -85,7 +85,7 @@ bool Encoder::encode_file(
 
         if (input && output)
         {
-            successful = encode_internal(input, output);
+            successful = encode_internal(input, output) && output.flush();
         }
     }
 
@@ -143,7 +143,7 @@ bool Decoder::decode_file(
 
         if (input && output)
         {
-            successful = decode_internal(input, output);
+            successful = decode_internal(input, output) && output.flush();
         }
     }
 
-- 
2.43.0


From 8e96b9947e777b648b60694508fa954077c7bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 32/66] fix: report input which could not be read for Huffman
 encoding

---
 fly/coders/huffman/huffman_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 7b78b07..c7a0a09 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -51,7 +51,7 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         encode_symbols(chunk_size, encoded);
     }
 
-    return encoded.finish();
+    return encoded.finish() && decoded.eof();
 }
 
 //==================================================================================================
-- 
2.43.0


From 2abd31e2c9d79087dfdbc093343ce913e3154af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 33/66] fix: fail to encode Huffman codes which cannot be
 decoded

---
 fly/coders/huffman/huffman_encoder.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index c7a0a09..02df5f3 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -36,6 +36,14 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         LOGW("Maximum Huffman code length {} is too large for code_type", m_max_code_length);
         return false;
     }
+    else if ((m_max_code_length == 0) || (m_chunk_size == 0))
+    {
+        LOGW(
+            "Cannot encode with maximum Huffman code length {} and chunk size {}",
+            m_max_code_length,
+            m_chunk_size);
+        return false;
+    }
 
     encode_header(encoded);
 
@@ -47,6 +55,15 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         create_tree(chunk_size);
         create_codes();
 
+        if (m_huffman_codes_size > (1_u16 << m_max_code_length))
+        {
+            LOGW(
+                "Maximum Huffman code length {} is too small for {} symbols",
+                m_max_code_length,
+                m_huffman_codes_size);
+            return false;
+        }
+
         encode_codes(encoded);
         encode_symbols(chunk_size, encoded);
     }
-- 
2.43.0


From 96c3cbe1c340203216c29937ebcc6660244f9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 34/66] fix: reject more Huffman codes than fit their lengths

---
 fly/coders/huffman/huffman_decoder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 998d32c..0c43bd6 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -198,6 +198,11 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
                 LOGW("Exceeded maximum number of codes: {}", m_huffman_codes_size);
                 return false;
             }
+            else if (code >= (1_u16 << length))
+            {
+                LOGW("Decoded too many symbols of length {} bits", length);
+                return false;
+            }
 
             m_huffman_codes[m_huffman_codes_size++] =
                 HuffmanCode(static_cast<symbol_type>(symbol), code, length);
-- 
2.43.0


From 8962612c42861d9d882d192cd60f1f2a169b3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 35/66] fix: reject bits which are not one of the decoded
 Huffman codes

---
 fly/coders/huffman/huffman_decoder.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 0c43bd6..c41a7e3 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -216,6 +216,12 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
 //==================================================================================================
 void HuffmanDecoder::convert_to_prefix_table(length_type max_code_length)
 {
+    // The codes might not fill the table, and it might still hold the codes of a previous chunk.
+    for (code_type i = 0; i < (1_u16 << max_code_length); ++i)
+    {
+        m_prefix_table[i] = HuffmanCode();
+    }
+
     for (std::uint16_t i = 0; i < m_huffman_codes_size; ++i)
     {
         HuffmanCode const code = std::move(m_huffman_codes[i]);
@@ -238,12 +244,19 @@ bool HuffmanDecoder::decode_symbols(
     std::ostream &decoded) const
 {
     std::uint32_t bytes = 0;
+    byte_type peeked;
     code_type prefix;
 
-    while ((bytes < chunk_size) && (encoded.peek_bits(prefix, max_code_length) != 0))
+    while ((bytes < chunk_size) && ((peeked = encoded.peek_bits(prefix, max_code_length)) != 0))
     {
         HuffmanCode const &code = m_prefix_table[prefix];
 
+        if ((code.m_length == 0) || (code.m_length > peeked))
+        {
+            LOGW("Decoded bits which are not a Huffman code");
+            return false;
+        }
+
         m_chunk_buffer[bytes++] = code.m_symbol;
         encoded.discard_bits(code.m_length);
     }
-- 
2.43.0


From d9c24efdd94dc45b38b5d0506f0c5c500359dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 36/66] fix: report bit streams which cannot be read instead of
 terminating

---
 fly/types/bit_stream/bit_stream_reader.cpp | 20 +++++++++++++++--
 fly/types/bit_stream/bit_stream_reader.hpp | 25 ++++++++++++++++------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_reader.cpp b/fly/types/bit_stream/bit_stream_reader.cpp
index f0cc7db..9b1ec32 100644
--- a/fly/types/bit_stream/bit_stream_reader.cpp
+++ b/fly/types/bit_stream/bit_stream_reader.cpp
@@ -44,7 +44,7 @@ bool BitStreamReader::fully_consumed() const
 {
     if (m_position == 0)
     {
-        return m_stream_buffer->sgetc() == EOF;
+        return end_of_file();
     }
 
     return false;
@@ -56,6 +56,22 @@ byte_type BitStreamReader::header() const
     return m_header;
 }
 
+//==================================================================================================
+bool BitStreamReader::end_of_file() const
+{
+    try
+    {
+        return m_stream_buffer->sgetc() == EOF;
+    }
+    catch (...)
+    {
+        // Stream buffers may throw if reading fails.
+        m_stream.setstate(std::ios::badbit);
+    }
+
+    return false;
+}
+
 //==================================================================================================
 void BitStreamReader::refill_buffer()
 {
@@ -77,7 +93,7 @@ void BitStreamReader::refill_buffer()
 
         m_buffer |= buffer >> (detail::s_most_significant_bit_position - bits_read);
 
-        if (m_stream_buffer->sgetc() == EOF)
+        if (end_of_file())
         {
             // At end-of-file, discard any encoded zero-filled bits.
             m_position -= m_remainder;
diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 40a88eb..5f162c4 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -119,6 +119,11 @@ public:
     byte_type header() const;
 
 private:
+    /**
+     * @return True if the stream has reached end-of-file.
+     */
+    bool end_of_file() const;
+
     /**
      * Read from the stream to fill the byte buffer.
      */
@@ -243,12 +248,20 @@ byte_type BitStreamReader::fill(DataType &buffer, byte_type bytes)
 {
     if (m_stream)
     {
-        std::streamsize const bytes_read = m_stream_buffer->sgetn(
-            reinterpret_cast<std::ios::char_type *>(&buffer),
-            static_cast<std::streamsize>(bytes));
-
-        buffer = endian_swap_if_non_native<std::endian::big>(buffer);
-        return static_cast<byte_type>(bytes_read);
+        try
+        {
+            std::streamsize const bytes_read = m_stream_buffer->sgetn(
+                reinterpret_cast<std::ios::char_type *>(&buffer),
+                static_cast<std::streamsize>(bytes));
+
+            buffer = endian_swap_if_non_native<std::endian::big>(buffer);
+            return static_cast<byte_type>(bytes_read);
+        }
+        catch (...)
+        {
+            // Stream buffers may throw if reading fails.
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 
     return 0;
-- 
2.43.0


From 1b293cd396d9e672f8f302d1d933469bbce77229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 37/66] fix: reject files which cannot be read instead of
 throwing from parsers

---
 fly/parser/parser.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fly/parser/parser.cpp b/fly/parser/parser.cpp
index 52579ba..e4491d7 100644
--- a/fly/parser/parser.cpp
+++ b/fly/parser/parser.cpp
@@ -94,7 +94,18 @@ std::optional<fly::Json> Parser::parse_stream(std::istream &&stream)
     m_column = 0;
 
     m_stream_buffer = stream.rdbuf();
-    auto result = parse_internal();
+    std::optional<fly::Json> result;
+
+    try
+    {
+        result = parse_internal();
+    }
+    catch (std::ios_base::failure const &)
+    {
+        // Stream buffers may throw if reading fails, e.g. if the path of a directory was provided.
+        result = std::nullopt;
+    }
+
     m_stream_buffer = nullptr;
 
     return result;
-- 
2.43.0


From a04c4d04b2659e1a24bb80fcd7172c1eb6723c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 38/66] fix: reject UTF-16 and UTF-32 files which end within a
 character

---
 fly/parser/parser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fly/parser/parser.hpp b/fly/parser/parser.hpp
index 0df8bd5..fbcdd9f 100644
--- a/fly/parser/parser.hpp
+++ b/fly/parser/parser.hpp
@@ -209,11 +209,15 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
     while (stream)
     {
         char_type character = 0;
+        bool complete = true;
 
         for (std::uint8_t i = 0; stream && (i < s_char_size); ++i)
         {
             std::uint8_t const shift = 8 * (s_char_size - i - 1);
             character |= static_cast<char_type>(stream.get() & 0xff) << shift;
+
+            // The stream may only end between characters.
+            complete = stream || (i == 0);
         }
 
         if (stream)
@@ -225,6 +229,10 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
 
             contents.push_back(character);
         }
+        else if (stream.bad() || !complete)
+        {
+            return std::nullopt;
+        }
     }
 
     return fly::BasicString<char_type>::template convert<std::string>(contents);
-- 
2.43.0


From 946529881cc051d6644e5fb00eace000b3703c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 39/66] fix: do not shift by the size of the value when peeking
 at the end of a bit stream

---
 fly/types/bit_stream/bit_stream_reader.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 5f162c4..090c5e4 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -225,6 +225,11 @@ byte_type BitStreamReader::peek_bits(DataType &bits, byte_type size)
         // Then update the input to only peek any remaining bits next.
         size = std::min(lshift, static_cast<byte_type>(m_position - peeked));
         lshift -= size;
+
+        if (size == 0)
+        {
+            return peeked;
+        }
     }
 
     byte_type const rshift = m_position - peeked - size;
-- 
2.43.0


From 1a9d617e9fe73faa2e1b87563c76720590db06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 40/66] fix: reject unsigned integer literals which exceed 64
 bits

---
 fly/types/numeric/detail/literal_parser.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/numeric/detail/literal_parser.hpp b/fly/types/numeric/detail/literal_parser.hpp
index a349ea1..7f95fc6 100644
--- a/fly/types/numeric/detail/literal_parser.hpp
+++ b/fly/types/numeric/detail/literal_parser.hpp
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace fly::detail {
@@ -50,8 +51,15 @@ struct Aggregator<T, Base, Digit, Literals...>
 {
     static constexpr T aggregate(T aggregated)
     {
-        return Aggregator<T, Base, Literals...>::aggregate(
-            aggregated * Base + parse_and_validate_literal());
+        constexpr T digit = parse_and_validate_literal();
+
+        if (aggregated > ((std::numeric_limits<T>::max() - digit) / Base))
+        {
+            // Not a constant expression, thus a compile error, in the manner of signed overflow.
+            throw std::out_of_range("Integer literal exceeds the limits of its type");
+        }
+
+        return Aggregator<T, Base, Literals...>::aggregate(aggregated * Base + digit);
     }
 
 private:
-- 
2.43.0


From 362dfc22d5c89f8c8886964ab73ceb15adc44557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 41/66] fix: do not drop tasks which are dequeued while
 stopping the task manager

---
 fly/task/task_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index ce5925c..6915bee 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -120,7 +120,7 @@ void TaskManager::worker_thread()
 
     while (m_keep_running.load())
     {
-        if (m_tasks.pop(task_holder, s_delay) && m_keep_running.load())
+        if (m_tasks.pop(task_holder, s_delay))
         {
             if (auto task_runner = task_holder.m_weak_task_runner.lock(); task_runner)
             {
-- 
2.43.0


From bdea2358c244de4a277c59e8f655ae7b18ddebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 42/66] fix: store tasks which are posted as lvalues by value

---
 fly/task/task_runner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 7cb7c17..2524783 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -346,12 +346,13 @@ protected:
 
 private:
     /**
-     * Container to wrap around a generic callable type to allow perfect forwarding into lambdas.
+     * Container to wrap around a generic callable type to allow perfect forwarding into lambdas. The
+     * callable is always stored by value, because it outlives the call which posts it.
      */
     template <typename TaskType>
     struct TaskHolder
     {
-        TaskType m_task;
+        std::decay_t<TaskType> m_task;
     };
 
     /**
-- 
2.43.0


From bec27ad331fff5d034dbabba138de05e70f19d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 43/66] fix: do not unregister a logger when another logger of
 its name is rejected

---
 fly/logger/detail/registry.cpp | 1 +
 fly/logger/logger.cpp          | 5 ++++-
 fly/logger/logger.hpp          | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 85ceb7f..c5375b4 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -70,6 +70,7 @@ bool Registry::register_logger(std::shared_ptr<fly::logger::Logger> logger)
         return false;
     }
 
+    logger->m_registered = true;
     m_registry[logger->name()] = std::move(logger);
     return true;
 }
diff --git a/fly/logger/logger.cpp b/fly/logger/logger.cpp
index b22eab6..305b693 100644
--- a/fly/logger/logger.cpp
+++ b/fly/logger/logger.cpp
@@ -85,7 +85,10 @@ Logger::Logger(
 //==================================================================================================
 Logger::~Logger()
 {
-    detail::Registry::instance().unregister_logger(m_name);
+    if (m_registered)
+    {
+        detail::Registry::instance().unregister_logger(m_name);
+    }
 }
 
 //==================================================================================================
diff --git a/fly/logger/logger.hpp b/fly/logger/logger.hpp
index 49d28d3..c3cdbca 100644
--- a/fly/logger/logger.hpp
+++ b/fly/logger/logger.hpp
@@ -422,6 +422,7 @@ private:
         std::chrono::steady_clock::time_point time);
 
     std::string const m_name;
+    bool m_registered {false};
 
     std::shared_ptr<LoggerConfig> m_config;
     std::unique_ptr<Sink> m_sink;
-- 
2.43.0


From 45d54db1872ff1efdde2915d06ded9c29fefd453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 44/66] fix: let the name of the initial default logger be used
 again

---
 fly/logger/detail/registry.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index c5375b4..064c827 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -78,11 +78,6 @@ bool Registry::register_logger(std::shared_ptr<fly::logger::Logger> logger)
 //==================================================================================================
 void Registry::unregister_logger(std::string const &name)
 {
-    if (name == s_default_logger_name)
-    {
-        return;
-    }
-
     std::lock_guard<std::mutex> lock(m_registry_mutex);
     m_registry.erase(name);
 }
-- 
2.43.0


From 86ed30a08bef6c612c7a0821fca1a2efd8c18b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 45/66] fix: stop logging to a file once a record could not be
 written

---
 fly/logger/detail/file_sink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index b518296..a289025 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -36,6 +36,12 @@ bool FileSink::stream(fly::logger::Log &&log)
     if (m_log_stream.good())
     {
         m_log_stream << log << std::flush;
+
+        if (!m_log_stream.good())
+        {
+            return false;
+        }
+
         std::error_code error;
 
         if (std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
-- 
2.43.0


From 99ca5937c60744650208a2f271ceb1714cace490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 46/66] fix: count the log points of loggers which are shared
 by threads atomically

---
 fly/logger/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/logger/logger.hpp b/fly/logger/logger.hpp
index c3cdbca..73831d2 100644
--- a/fly/logger/logger.hpp
+++ b/fly/logger/logger.hpp
@@ -431,7 +431,7 @@ private:
     std::atomic_bool m_last_task_failed {true};
 
     std::chrono::steady_clock::time_point const m_start_time;
-    std::uintmax_t m_index {0};
+    std::atomic_uintmax_t m_index {0};
 };
 
 //==================================================================================================
-- 
2.43.0


From b6d8d8ee7efd2e41353fb4e021fa9130c7c877b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 47/66] fix: stop monitoring a path in the same step as its
 last file

---
 fly/path/path_monitor.cpp | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 94dd82c..c3a7dba 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -131,33 +131,34 @@ bool PathMonitor::add_file(std::filesystem::path const &file, PathEventCallback
 //==================================================================================================
 bool PathMonitor::remove_file(std::filesystem::path const &file)
 {
-    bool prune_path = false;
-    {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        auto path_it = m_path_info.find(file.parent_path());
+    std::lock_guard<std::mutex> lock(m_mutex);
+    auto path_it = m_path_info.find(file.parent_path());
 
-        if (path_it == m_path_info.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (path_it == m_path_info.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        PathInfo *info = path_it->second.get();
-        auto file_it = info->m_file_handlers.find(file.filename());
+    PathInfo *info = path_it->second.get();
+    auto file_it = info->m_file_handlers.find(file.filename());
 
-        if (file_it == info->m_file_handlers.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (file_it == info->m_file_handlers.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        LOGD("Stopped monitoring {}", file);
-        info->m_file_handlers.erase(file_it);
+    LOGD("Stopped monitoring {}", file);
+    info->m_file_handlers.erase(file_it);
 
-        prune_path = info->m_file_handlers.empty() && !(info->m_path_handler);
+    if (info->m_file_handlers.empty() && !(info->m_path_handler))
+    {
+        LOGI("Removed monitor for {}", file.parent_path());
+        m_path_info.erase(path_it);
     }
 
-    return prune_path ? remove_path(file.parent_path()) : true;
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From 1b71ce54ebe9682f71ea4648800f33f9aca9b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 48/66] fix: remove the watches of a path monitor before
 closing its descriptor

---
 fly/path/nix/path_monitor_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 571bf93..c0123aa 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -36,6 +36,9 @@ PathMonitorImpl::PathMonitorImpl(
 //==================================================================================================
 PathMonitorImpl::~PathMonitorImpl()
 {
+    // Remove all watches while the descriptor they belong to is still open.
+    remove_all_paths();
+
     if (m_monitor_descriptor != -1)
     {
         ::close(m_monitor_descriptor);
-- 
2.43.0


From d85db7ae1e8b57f349ceb61423ebd60e68d5c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 49/66] fix: do not destroy a config manager in its own path
 monitor's callback

---
 fly/config/config_manager.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index da40c90..5b86874 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -81,15 +81,15 @@ bool ConfigManager::start()
 
     std::weak_ptr<ConfigManager> weak_self = shared_from_this();
 
-    auto callback = [weak_self](std::filesystem::path, fly::path::PathEvent) {
-        if (auto self = weak_self.lock(); self)
-        {
-            auto task = [](std::shared_ptr<ConfigManager> nested_self) {
-                nested_self->update_config();
-            };
-
-            self->m_task_runner->post_task(FROM_HERE, std::move(weak_self), std::move(task));
-        }
+    // The path monitor is locked while it invokes this callback, and the destructor removes the
+    // file from the path monitor. So the callback must never hold the last reference to this.
+    auto callback = [weak_self,
+                     task_runner = m_task_runner](std::filesystem::path, fly::path::PathEvent) {
+        auto task = [](std::shared_ptr<ConfigManager> self) {
+            self->update_config();
+        };
+
+        task_runner->post_task(FROM_HERE, weak_self, std::move(task));
     };
 
     return m_monitor->add_file(m_path, callback);
-- 
2.43.0


From 7d1207bf37cc18bf2c05eb10284e4ec4269295e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 50/66] fix: read a configuration file which exists when its
 manager is created

---
 fly/config/config_manager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index 5b86874..d15077f 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -92,7 +92,14 @@ bool ConfigManager::start()
         task_runner->post_task(FROM_HERE, weak_self, std::move(task));
     };
 
-    return m_monitor->add_file(m_path, callback);
+    if (!m_monitor->add_file(m_path, std::move(callback)))
+    {
+        return false;
+    }
+
+    // Only changes made from now on are monitored, so load the values the file already has.
+    update_config();
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From 376b1dac4c1cc2dc24c5f6905fce8b09f66eaf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 51/66] fix: fall back to defaults when a configuration file is
 not an object

---
 fly/config/config_manager.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index d15077f..d9eae65 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -139,28 +139,26 @@ void ConfigManager::update_config()
         m_values = nullptr;
     }
 
-    if (m_values.is_object() || m_values.is_null())
-    {
-        for (auto it = m_configs.begin(); it != m_configs.end();)
-        {
-            std::shared_ptr<Config> config = it->second.lock();
-
-            if (config)
-            {
-                config->update(m_values[it->first]);
-                ++it;
-            }
-            else
-            {
-                it = m_configs.erase(it);
-            }
-        }
-    }
-    else
+    if (!m_values.is_object() && !m_values.is_null())
     {
         LOGW("Parsed non key-value pairs file, ignoring update");
         m_values = nullptr;
     }
+
+    for (auto it = m_configs.begin(); it != m_configs.end();)
+    {
+        std::shared_ptr<Config> config = it->second.lock();
+
+        if (config)
+        {
+            config->update(m_values[it->first]);
+            ++it;
+        }
+        else
+        {
+            it = m_configs.erase(it);
+        }
+    }
 }
 
 } // namespace fly::config
-- 
2.43.0


From 62eba91386de91cbcd7abe032a1f5e275fa4e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 52/66] fix: do not report closed sockets as connected or
 listening

---
 fly/net/socket/listen_socket.cpp | 2 +-
 fly/net/socket/tcp_socket.cpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 4351752..9d73584 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -87,7 +87,7 @@ bool ListenSocket<EndpointType>::listen()
 template <IPEndpoint EndpointType>
 bool ListenSocket<EndpointType>::is_listening() const
 {
-    return m_is_listening;
+    return BaseSocket::is_open() && m_is_listening;
 }
 
 //==================================================================================================
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 386bcaf..e697520 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -224,14 +224,14 @@ ConnectedState TcpSocket<EndpointType>::finish_connect()
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::is_connecting() const
 {
-    return m_connected_state.load() == ConnectedState::Connecting;
+    return is_open() && (m_connected_state.load() == ConnectedState::Connecting);
 }
 
 //==================================================================================================
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::is_connected() const
 {
-    return m_connected_state.load() == ConnectedState::Connected;
+    return is_open() && (m_connected_state.load() == ConnectedState::Connected);
 }
 
 //==================================================================================================
-- 
2.43.0


From d287d800b0a85deea036cc54152e09ca5ccef48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 53/66] fix: do not close sockets when sending an empty message

---
 fly/net/socket/tcp_socket.cpp | 4 ++--
 fly/net/socket/udp_socket.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index e697520..95ee1eb 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -239,9 +239,9 @@ template <IPEndpoint EndpointType>
 std::size_t TcpSocket<EndpointType>::send(std::string_view message)
 {
     bool would_block = false;
-    std::size_t bytes_sent = detail::send(handle(), std::move(message), would_block);
+    std::size_t bytes_sent = detail::send(handle(), message, would_block);
 
-    if (bytes_sent == 0)
+    if ((bytes_sent == 0) && !message.empty())
     {
         SLOGW(handle(), "Error sending, closing");
         close();
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index f5b1acb..9677101 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -74,9 +74,9 @@ size_t UdpSocket<EndpointType>::send(EndpointType const &endpoint, std::string_v
     bool would_block = false;
 
     std::size_t bytes_sent =
-        detail::send_to(handle(), endpoint, std::move(message), packet_size(), would_block);
+        detail::send_to(handle(), endpoint, message, packet_size(), would_block);
 
-    if (bytes_sent == 0)
+    if ((bytes_sent == 0) && !message.empty())
     {
         SLOGW(handle(), "Error sending to {}, closing", endpoint);
         close();
-- 
2.43.0


From 6cb1313dde275cfae6da1fa8498000e68bab062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 54/66] fix: finish sending a message before the next one is
 sent

---
 fly/net/socket/socket_service.cpp |  4 +++-
 fly/net/socket/socket_service.hpp | 27 +++++++++++++++++++++++++++
 fly/net/socket/tcp_socket.cpp     |  2 +-
 fly/net/socket/udp_socket.cpp     |  2 +-
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index a23f8f7..bd8c59b 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -119,8 +119,10 @@ void SocketService::poll()
                     return handle == request.m_handle;
                 });
 
-            std::invoke(std::move(it->m_callback));
+            Notification callback = std::move(it->m_callback);
             pending.erase(it);
+
+            std::invoke(std::move(callback));
         }
     };
 
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index edb7c49..0e66a62 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -80,6 +80,21 @@ public:
     template <Socket SocketType, SocketNotification<SocketType> Callback>
     void notify_when_writable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
 
+    /**
+     * Monitor a socket handle for readiness to be written to, ahead of all callbacks which are
+     * already waiting for it. Meant for a callback which could not write all of its data, so that
+     * data of the following callbacks is not written in between. Must only be invoked from within
+     * a callback that was provided to notify_when_writable.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     * @tparam Callback Type of the callback to invoke when the socket is ready for writing.
+     *
+     * @param socket The socket to monitor.
+     * @param callback The callback to invoke when the socket is ready for writing.
+     */
+    template <Socket SocketType, SocketNotification<SocketType> Callback>
+    void resume_when_writable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
+
     /**
      * Monitor a socket handle for readiness to be read from.
      *
@@ -191,6 +206,18 @@ void SocketService::notify_when_writable(
     notify_when_writable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
+//==================================================================================================
+template <Socket SocketType, SocketNotification<SocketType> Callback>
+void SocketService::resume_when_writable(
+    std::shared_ptr<SocketType> const &socket,
+    Callback &&callback)
+{
+    m_write_requests.emplace(
+        m_write_requests.begin(),
+        socket->handle(),
+        wrap_callback(socket, std::forward<Callback>(callback)));
+}
+
 //==================================================================================================
 template <Socket SocketType, SocketNotification<SocketType> Callback>
 void SocketService::notify_when_readable(
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 95ee1eb..9af91f3 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -333,7 +333,7 @@ void TcpSocket<EndpointType>::ready_to_send(
         SLOGI(handle(), "Send would block - sent {} of {} bytes", bytes_sent, total_bytes);
         message = message.substr(current_sent);
 
-        socket_service()->notify_when_writable(
+        socket_service()->resume_when_writable(
             this->shared_from_this(),
             [message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<TcpSocket> self) mutable {
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index 9677101..457aaf2 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -209,7 +209,7 @@ void UdpSocket<EndpointType>::ready_to_send(
         SLOGI(handle(), "Send would block - sent {} of {} bytes", bytes_sent, total_bytes);
         message = message.substr(current_sent);
 
-        socket_service()->notify_when_writable(
+        socket_service()->resume_when_writable(
             this->shared_from_this(),
             [endpoint, message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<UdpSocket> self) mutable {
-- 
2.43.0


From 30d62f601dbe63e2ab9abf51b78a90971cd17929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 55/66] fix: continue socket operations which are interrupted
 by signals

---
 .../socket/detail/nix/socket_operations.cpp   | 42 +++++++++++++++----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 37c8ad2..8eda1cf 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -97,6 +97,26 @@ namespace {
         return reinterpret_cast<sockaddr const *>(&address);
     }
 
+    /**
+     * Invoke a system call until it is not interrupted by a signal.
+     *
+     * @param operation The system call to invoke.
+     *
+     * @return The value returned from the system call.
+     */
+    template <typename Operation>
+    auto without_interruption(Operation &&operation)
+    {
+        auto status = operation();
+
+        while ((status == -1) && (fly::system::get_error_code() == EINTR))
+        {
+            status = operation();
+        }
+
+        return status;
+    }
+
 } // namespace
 
 //==================================================================================================
@@ -308,7 +328,9 @@ accept(fly::net::socket_type handle, EndpointType &endpoint, bool &would_block)
     socket_address_type<EndpointType> address;
     socklen_t address_size = sizeof(address);
 
-    fly::net::socket_type const client = ::accept(handle, base(address), &address_size);
+    fly::net::socket_type const client = without_interruption([&]() {
+        return ::accept(handle, base(address), &address_size);
+    });
     would_block = false;
 
     if (client == invalid_socket())
@@ -367,7 +389,9 @@ std::size_t send(fly::net::socket_type handle, std::string_view message, bool &w
 
     while (keep_sending)
     {
-        ssize_t const status = ::send(handle, message.data(), message.size(), MSG_NOSIGNAL);
+        ssize_t const status = without_interruption([&]() {
+            return ::send(handle, message.data(), message.size(), MSG_NOSIGNAL);
+        });
 
         if (status > 0)
         {
@@ -411,8 +435,9 @@ std::size_t send_to(
     {
         auto const size = std::min(packet_size, message.size());
 
-        ssize_t const status =
-            ::sendto(handle, message.data(), size, 0, base(address), sizeof(address));
+        ssize_t const status = without_interruption([&]() {
+            return ::sendto(handle, message.data(), size, 0, base(address), sizeof(address));
+        });
 
         if (status > 0)
         {
@@ -457,7 +482,9 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
     std::string result(packet_size, 0);
     would_block = false;
 
-    ssize_t const status = ::recv(handle, result.data(), result.size(), 0);
+    ssize_t const status = without_interruption([&]() {
+        return ::recv(handle, result.data(), result.size(), 0);
+    });
 
     if (status > 0)
     {
@@ -491,8 +518,9 @@ std::string recv_from(
     socket_address_type<EndpointType> address;
     socklen_t address_size = sizeof(address);
 
-    ssize_t const status =
-        ::recvfrom(handle, result.data(), result.size(), 0, base(address), &address_size);
+    ssize_t const status = without_interruption([&]() {
+        return ::recvfrom(handle, result.data(), result.size(), 0, base(address), &address_size);
+    });
 
     if (status > 0)
     {
-- 
2.43.0


From 053e2a64467ed3c0e38445db335badfe95c99e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 56/66] fix: close the handle of a socket once when threads
 share the socket

---
 fly/net/socket/detail/base_socket.cpp | 17 ++++++++---------
 fly/net/socket/detail/base_socket.hpp |  3 ++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 2ee43f4..ce89ed7 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -47,11 +47,10 @@ template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType>::BaseSocket(BaseSocket &&socket) noexcept :
     m_weak_socket_service(std::move(socket.m_weak_socket_service)),
     m_config(std::move(socket.m_config)),
-    m_socket_handle(socket.m_socket_handle),
+    m_socket_handle(socket.m_socket_handle.exchange(fly::net::detail::invalid_socket())),
     m_socket_id(socket.m_socket_id),
     m_mode(socket.m_mode)
 {
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
 }
 
 //==================================================================================================
@@ -67,12 +66,10 @@ BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socke
 {
     m_weak_socket_service = std::move(socket.m_weak_socket_service);
     m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle;
+    m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
     m_socket_id = socket.m_socket_id;
     m_mode = socket.m_mode;
 
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
-
     return *this;
 }
 
@@ -145,15 +142,17 @@ std::optional<EndpointType> BaseSocket<EndpointType>::local_endpoint() const
 template <fly::net::IPEndpoint EndpointType>
 void BaseSocket<EndpointType>::close()
 {
-    if (is_open())
+    // A socket service may close this socket while another thread uses or closes it.
+    socket_type const handle = m_socket_handle.exchange(fly::net::detail::invalid_socket());
+
+    if (handle != fly::net::detail::invalid_socket())
     {
         if (auto service = socket_service(); service)
         {
-            service->remove_socket(m_socket_handle);
+            service->remove_socket(handle);
         }
 
-        fly::net::detail::close(m_socket_handle);
-        m_socket_handle = fly::net::detail::invalid_socket();
+        fly::net::detail::close(handle);
     }
 }
 
diff --git a/fly/net/socket/detail/base_socket.hpp b/fly/net/socket/detail/base_socket.hpp
index a266482..e8b73db 100644
--- a/fly/net/socket/detail/base_socket.hpp
+++ b/fly/net/socket/detail/base_socket.hpp
@@ -3,6 +3,7 @@
 #include "fly/net/socket/concepts.hpp"
 #include "fly/net/socket/types.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <memory>
 #include <optional>
@@ -182,7 +183,7 @@ private:
 
     std::shared_ptr<fly::net::NetworkConfig> m_config;
 
-    socket_type m_socket_handle;
+    std::atomic<socket_type> m_socket_handle;
     std::uint64_t m_socket_id;
     fly::net::IOMode m_mode;
 };
-- 
2.43.0


From 8c3e1be0a99f8d05ee339aafd194f48d0176c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 57/66] fix: complete asynchronous operations on sockets which
 are closed

---
 fly/net/socket/socket_service.cpp | 32 ++++++++++++--
 fly/net/socket/socket_service.hpp | 71 +++++++++++++++++++++++++++----
 2 files changed, 91 insertions(+), 12 deletions(-)

diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index bd8c59b..ac59b08 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -61,9 +61,21 @@ void SocketService::remove_socket(socket_type handle)
 }
 
 //==================================================================================================
-void SocketService::notify_when_writable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_writable(
+    socket_type handle,
+    HandleCheck &&is_monitorable,
+    Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+    auto task = [handle,
+                 is_monitorable = std::move(is_monitorable),
+                 callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+        if (!is_monitorable())
+        {
+            // The socket was closed in the meantime. Let the callback find that out.
+            std::invoke(callback);
+            return;
+        }
+
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
         self->m_write_requests.emplace_back(handle, std::move(callback));
 
@@ -78,9 +90,21 @@ void SocketService::notify_when_writable(socket_type handle, Notification &&call
 }
 
 //==================================================================================================
-void SocketService::notify_when_readable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_readable(
+    socket_type handle,
+    HandleCheck &&is_monitorable,
+    Notification &&callback)
 {
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+    auto task = [handle,
+                 is_monitorable = std::move(is_monitorable),
+                 callback = std::move(callback)](std::shared_ptr<SocketService> self) {
+        if (!is_monitorable())
+        {
+            // The socket was closed in the meantime. Let the callback find that out.
+            std::invoke(callback);
+            return;
+        }
+
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
         self->m_read_requests.emplace_back(handle, std::move(callback));
 
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index 0e66a62..25c2816 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -118,6 +118,7 @@ public:
 
 private:
     using Notification = std::function<void()>;
+    using HandleCheck = std::function<bool()>;
 
     struct Request
     {
@@ -144,9 +145,13 @@ private:
      * sockets. Thus, the callback should not perform any blocking operations.
      *
      * @param handle The socket handle to monitor.
+     * @param is_monitorable Callback to check if the socket still has that handle.
      * @param callback The callback to invoke when the socket is ready for writing.
      */
-    void notify_when_writable(socket_type handle, Notification &&callback);
+    void notify_when_writable(
+        socket_type handle,
+        HandleCheck &&is_monitorable,
+        Notification &&callback);
 
     /**
      * Monitor a socket handle for readiness to be read from. Once queued, if the polling task is
@@ -156,9 +161,27 @@ private:
      * sockets. Thus, the callback should not perform any blocking operations.
      *
      * @param handle The socket handle to monitor.
+     * @param is_monitorable Callback to check if the socket still has that handle.
      * @param callback The callback to invoke when the socket is ready for reading.
      */
-    void notify_when_readable(socket_type handle, Notification &&callback);
+    void notify_when_readable(
+        socket_type handle,
+        HandleCheck &&is_monitorable,
+        Notification &&callback);
+
+    /**
+     * Create a callback to check if a socket is still open with the provided handle. Closed handles
+     * must not be monitored: they may be reused by other sockets, and polling them fails.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     *
+     * @param socket The socket to monitor.
+     * @param handle The handle of the socket when it was requested to be monitored.
+     *
+     * @return The created callback.
+     */
+    template <Socket SocketType>
+    HandleCheck wrap_handle(std::shared_ptr<SocketType> const &socket, socket_type handle);
 
     /**
      * Wrap a callback in a lambda to be protected by the provied strong socket pointer. The strong
@@ -203,7 +226,12 @@ void SocketService::notify_when_writable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    notify_when_writable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    socket_type const handle = socket->handle();
+
+    notify_when_writable(
+        handle,
+        wrap_handle(socket, handle),
+        wrap_callback(socket, std::forward<Callback>(callback)));
 }
 
 //==================================================================================================
@@ -212,10 +240,19 @@ void SocketService::resume_when_writable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    m_write_requests.emplace(
-        m_write_requests.begin(),
-        socket->handle(),
-        wrap_callback(socket, std::forward<Callback>(callback)));
+    socket_type const handle = socket->handle();
+
+    if (wrap_handle(socket, handle)())
+    {
+        m_write_requests.emplace(
+            m_write_requests.begin(),
+            handle,
+            wrap_callback(socket, std::forward<Callback>(callback)));
+    }
+    else
+    {
+        notify_when_writable(socket, std::forward<Callback>(callback));
+    }
 }
 
 //==================================================================================================
@@ -224,7 +261,25 @@ void SocketService::notify_when_readable(
     std::shared_ptr<SocketType> const &socket,
     Callback &&callback)
 {
-    notify_when_readable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    socket_type const handle = socket->handle();
+
+    notify_when_readable(
+        handle,
+        wrap_handle(socket, handle),
+        wrap_callback(socket, std::forward<Callback>(callback)));
+}
+
+//==================================================================================================
+template <Socket SocketType>
+auto SocketService::wrap_handle(std::shared_ptr<SocketType> const &socket, socket_type handle)
+    -> HandleCheck
+{
+    std::weak_ptr<SocketType> weak_socket = socket;
+
+    return [weak_socket = std::move(weak_socket), handle]() {
+        std::shared_ptr<SocketType> strong_socket = weak_socket.lock();
+        return strong_socket && strong_socket->is_open() && (strong_socket->handle() == handle);
+    };
 }
 
 //==================================================================================================
-- 
2.43.0


From a36b8c09cf33ff61966103db5f825f532bc2667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 58/66] fix: close the socket which is replaced by a move
 assignment

---
 fly/net/socket/detail/base_socket.cpp | 15 ++++++++++-----
 fly/net/socket/listen_socket.cpp      |  5 +++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index ce89ed7..3c05a9b 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -64,11 +64,16 @@ BaseSocket<EndpointType>::~BaseSocket() noexcept
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socket) noexcept
 {
-    m_weak_socket_service = std::move(socket.m_weak_socket_service);
-    m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
-    m_socket_id = socket.m_socket_id;
-    m_mode = socket.m_mode;
+    if (this != &socket)
+    {
+        close();
+
+        m_weak_socket_service = std::move(socket.m_weak_socket_service);
+        m_config = std::move(socket.m_config);
+        m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
+        m_socket_id = socket.m_socket_id;
+        m_mode = socket.m_mode;
+    }
 
     return *this;
 }
diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 9d73584..2e1eaa2 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -8,6 +8,8 @@
 #include "fly/net/socket/socket_service.hpp"
 #include "fly/net/socket/tcp_socket.hpp"
 
+#include <utility>
+
 namespace fly::net {
 
 //==================================================================================================
@@ -69,8 +71,7 @@ auto ListenSocket<EndpointType>::create_socket(
 template <IPEndpoint EndpointType>
 ListenSocket<EndpointType> &ListenSocket<EndpointType>::operator=(ListenSocket &&socket) noexcept
 {
-    m_is_listening = socket.m_is_listening;
-    socket.m_is_listening = false;
+    m_is_listening = std::exchange(socket.m_is_listening, false);
 
     return static_cast<ListenSocket &>(BaseSocket::operator=(std::move(socket)));
 }
-- 
2.43.0


From d5eeedccaf0624389dee7d5e1951f8c5e10d4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 59/66] fix: keep the network configuration of sockets which
 were moved from

---
 fly/net/socket/detail/base_socket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 3c05a9b..d323f73 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -46,7 +46,7 @@ BaseSocket<EndpointType>::BaseSocket(
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType>::BaseSocket(BaseSocket &&socket) noexcept :
     m_weak_socket_service(std::move(socket.m_weak_socket_service)),
-    m_config(std::move(socket.m_config)),
+    m_config(socket.m_config),
     m_socket_handle(socket.m_socket_handle.exchange(fly::net::detail::invalid_socket())),
     m_socket_id(socket.m_socket_id),
     m_mode(socket.m_mode)
@@ -69,7 +69,7 @@ BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socke
         close();
 
         m_weak_socket_service = std::move(socket.m_weak_socket_service);
-        m_config = std::move(socket.m_config);
+        m_config = socket.m_config;
         m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
         m_socket_id = socket.m_socket_id;
         m_mode = socket.m_mode;
-- 
2.43.0


From fa83ec1714282608bbfb5cc549ddeeb762930d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 60/66] fix: do not close UDP sockets which receive an empty
 datagram

---
 .../socket/detail/nix/socket_operations.cpp   | 25 ++++++++-----------
 fly/net/socket/detail/socket_operations.hpp   |  5 ++--
 .../socket/detail/win/socket_operations.cpp   | 25 ++++++++-----------
 fly/net/socket/udp_socket.cpp                 | 20 +++++++--------
 4 files changed, 33 insertions(+), 42 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 8eda1cf..a397add 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -506,7 +506,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -522,32 +522,27 @@ std::string recv_from(
         return ::recvfrom(handle, result.data(), result.size(), 0, base(address), &address_size);
     });
 
-    if (status > 0)
-    {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
+    if (status == -1)
     {
-        if (status == -1)
-        {
-            would_block = fly::system::get_error_code() == EWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == EWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/socket_operations.hpp b/fly/net/socket/detail/socket_operations.hpp
index a3814d5..48f1e24 100644
--- a/fly/net/socket/detail/socket_operations.hpp
+++ b/fly/net/socket/detail/socket_operations.hpp
@@ -190,10 +190,11 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
  * @param packet_size The maxiumum message size to receive.
  * @param would_block Location to store if the operation would have blocked.
  *
- * @return The message received.
+ * @return If successful, the message received (which may be empty). Otherwise, an uninitialized
+ *         value.
  */
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/win/socket_operations.cpp b/fly/net/socket/detail/win/socket_operations.cpp
index 199b239..4d771f3 100644
--- a/fly/net/socket/detail/win/socket_operations.cpp
+++ b/fly/net/socket/detail/win/socket_operations.cpp
@@ -497,7 +497,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -512,32 +512,27 @@ std::string recv_from(
     int const size = static_cast<int>(packet_size);
     int const status = ::recvfrom(handle, result.data(), size, 0, base(address), &address_size);
 
-    if (status > 0)
+    if (status == SOCKET_ERROR)
     {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
-    {
-        if (status == SOCKET_ERROR)
-        {
-            would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index 457aaf2..61c2146 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -151,19 +151,18 @@ std::string UdpSocket<EndpointType>::receive()
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
+    auto received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
 
-    if (received.size() == 0)
+    if (!received)
     {
         SLOGW(handle(), "Error receiving, closing");
         close();
-    }
-    else
-    {
-        SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
+
+        return std::string();
     }
 
-    return received;
+    SLOGD(handle(), "Received {} bytes from {}", received->size(), endpoint);
+    return *std::move(received);
 }
 
 //==================================================================================================
@@ -237,12 +236,13 @@ void UdpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const current_received =
+    auto const current_received =
         detail::recv_from(handle(), endpoint, packet_size(), would_block);
-    received += current_received;
 
-    if (!current_received.empty())
+    if (current_received)
     {
+        received += *current_received;
+
         SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
         std::invoke(std::move(callback), std::move(received));
     }
-- 
2.43.0


From a5e135adf7a3526429601cb3909ad9b5df324326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 61/66] fix: monitor sockets whose handles are not smaller than
 FD_SETSIZE

---
 .../socket/detail/nix/socket_operations.cpp   | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index a397add..acd35a6 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -13,7 +13,9 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <functional>
 #include <type_traits>
+#include <vector>
 
 namespace fly::net {
 
@@ -554,36 +556,52 @@ void select(
     std::set<fly::net::socket_type> &writing_handles,
     std::set<fly::net::socket_type> &reading_handles)
 {
-    fd_set write_set, read_set;
-    FD_ZERO(&write_set);
-    FD_ZERO(&read_set);
+    socket_type const max_handle = std::max(
+        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
+        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
+
+    // A single fd_set only has room for handles smaller than FD_SETSIZE. An array of fd_set objects
+    // forms a bitmap with room for all handles.
+    std::size_t const size = (static_cast<std::size_t>(max_handle + 1) / FD_SETSIZE) + 1;
+
+    std::vector<fd_set> write_set(size);
+    std::vector<fd_set> read_set(size);
+
+    for (std::size_t i = 0; i < size; ++i)
+    {
+        FD_ZERO(&write_set[i]);
+        FD_ZERO(&read_set[i]);
+    }
 
     for (fly::net::socket_type handle : writing_handles)
     {
-        FD_SET(handle, &write_set);
+        FD_SET(handle % FD_SETSIZE, &write_set[static_cast<std::size_t>(handle) / FD_SETSIZE]);
     }
     for (fly::net::socket_type handle : reading_handles)
     {
-        FD_SET(handle, &read_set);
+        FD_SET(handle % FD_SETSIZE, &read_set[static_cast<std::size_t>(handle) / FD_SETSIZE]);
     }
 
-    socket_type const max_handle = std::max(
-        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
-        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
-
     suseconds_t const usec = static_cast<suseconds_t>(timeout.count());
     timeval tv {0, usec};
 
-    int const status = ::select(max_handle + 1, &read_set, &write_set, nullptr, &tv);
+    int const status =
+        ::select(max_handle + 1, read_set.data(), write_set.data(), nullptr, &tv);
 
     if (status > 0)
     {
-        auto is_not_set = [](fd_set *set, socket_type handle) {
-            return !FD_ISSET(handle, set);
+        auto is_not_set = [](std::vector<fd_set> const &set, socket_type handle) {
+            return !FD_ISSET(
+                handle % FD_SETSIZE,
+                &set[static_cast<std::size_t>(handle) / FD_SETSIZE]);
         };
 
-        std::erase_if(writing_handles, std::bind(is_not_set, &write_set, std::placeholders::_1));
-        std::erase_if(reading_handles, std::bind(is_not_set, &read_set, std::placeholders::_1));
+        std::erase_if(
+            writing_handles,
+            std::bind(is_not_set, std::cref(write_set), std::placeholders::_1));
+        std::erase_if(
+            reading_handles,
+            std::bind(is_not_set, std::cref(read_set), std::placeholders::_1));
     }
     else
     {
-- 
2.43.0


From 9725478610921efdfe26357cbe2dc2e7ad2bfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 62/66] fix: do not resume logging to a sink which rejected
 another thread's log

---
 fly/logger/logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fly/logger/logger.cpp b/fly/logger/logger.cpp
index 305b693..0a92005 100644
--- a/fly/logger/logger.cpp
+++ b/fly/logger/logger.cpp
@@ -218,8 +218,11 @@ void Logger::log_to_sink(
     log.m_level = level;
     log.m_time = elapsed.count();
 
-    bool const accepted = m_sink->stream(std::move(log));
-    m_last_task_failed.store(!accepted);
+    // Only set the flag, as another thread's log may have been rejected in the meantime.
+    if (!m_sink->stream(std::move(log)))
+    {
+        m_last_task_failed.store(true);
+    }
 }
 
 } // namespace fly::logger
-- 
2.43.0


From ec1d2880a1d31fae7fe302edd93d882ef9e1bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 63/66] fix: do not report a NaN CPU usage when the system's
 counters did not advance between polls

---
 fly/system/nix/system_monitor_impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index a9ccbe8..ec790e2 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -93,7 +93,11 @@ void SystemMonitorImpl::update_system_cpu_usage()
             (system - m_prev_system_system_time);
         auto const total = active + (idle - m_prev_system_idle_time);
 
-        m_system_cpu_usage.store(100.0 * active / total);
+        // The counters do not advance between polls in quick succession.
+        if (total > 0)
+        {
+            m_system_cpu_usage.store(100.0 * active / total);
+        }
     }
 
     m_prev_system_user_time = user;
-- 
2.43.0


From c4eabf633176578fb1d0fdac3a2fddd018e00545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 64/66] fix: do not print the null terminator of an assertion's
 message

---
 fly/assert/detail/assert_enabled.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/assert/detail/assert_enabled.hpp b/fly/assert/detail/assert_enabled.hpp
index d1e838d..7583f7b 100644
--- a/fly/assert/detail/assert_enabled.hpp
+++ b/fly/assert/detail/assert_enabled.hpp
@@ -199,7 +199,8 @@ void Assertion::assertion_failed(char const (&message)[N], CaptureTypes &&...cap
         Capture {std::forward<CaptureTypes>(captures)}...};
 
     m_capture_names = m_capture_names.subspan(1);
-    log_assertion({message, N}, parameters);
+    // The size of a string literal includes its null terminator.
+    log_assertion({message, N - 1}, parameters);
 }
 
 } // namespace fly::detail
-- 
2.43.0


From bbd4cefa9e7b6232d1e120842846627ba6765666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 65/66] fix: escape sequences of stylers no longer depend on
 the format of the stream

Numbers in the sequences were written in the base, width and sign format of
the stream, e.g. after std::hex, and consumed its width.
---
 fly/logger/detail/nix/styler_proxy_impl.cpp | 58 +++++++++++++--------
 fly/logger/detail/nix/styler_proxy_impl.hpp |  7 +++
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/fly/logger/detail/nix/styler_proxy_impl.cpp b/fly/logger/detail/nix/styler_proxy_impl.cpp
index 9da8f3d..e5fa43b 100644
--- a/fly/logger/detail/nix/styler_proxy_impl.cpp
+++ b/fly/logger/detail/nix/styler_proxy_impl.cpp
@@ -22,6 +22,8 @@ StylerProxyImpl::StylerProxyImpl(
         {
             apply_cursors(std::move(cursors));
         }
+
+        flush_sequence();
     }
 }
 
@@ -30,10 +32,22 @@ StylerProxyImpl::~StylerProxyImpl()
 {
     if (m_did_apply_style_or_color)
     {
-        m_stream << "\x1b[0m";
+        m_sequence << "\x1b[0m";
+        flush_sequence();
     }
 }
 
+//==================================================================================================
+void StylerProxyImpl::flush_sequence()
+{
+    // Use unformatted output so that the format of the stream neither affects the escape sequence
+    // (e.g. std::hex) nor is affected by it (e.g. std::setw).
+    auto const sequence = m_sequence.str();
+    m_stream.write(sequence.data(), static_cast<std::streamsize>(sequence.size()));
+
+    m_sequence.str({});
+}
+
 //==================================================================================================
 template <>
 void StylerProxyImpl::stream_value<fly::logger::Style>(fly::logger::Style const &modifier)
@@ -42,25 +56,25 @@ void StylerProxyImpl::stream_value<fly::logger::Style>(fly::logger::Style const
     switch (modifier)
     {
         case fly::logger::Style::Default:
-            m_stream << 0;
+            m_sequence << 0;
             break;
         case fly::logger::Style::Bold:
-            m_stream << 1;
+            m_sequence << 1;
             break;
         case fly::logger::Style::Dim:
-            m_stream << 2;
+            m_sequence << 2;
             break;
         case fly::logger::Style::Italic:
-            m_stream << 3;
+            m_sequence << 3;
             break;
         case fly::logger::Style::Underline:
-            m_stream << 4;
+            m_sequence << 4;
             break;
         case fly::logger::Style::Blink:
-            m_stream << 5;
+            m_sequence << 5;
             break;
         case fly::logger::Style::Strike:
-            m_stream << 9;
+            m_sequence << 9;
             break;
     }
 }
@@ -74,11 +88,11 @@ void StylerProxyImpl::stream_value<fly::logger::Color>(fly::logger::Color const
         // https://en.wikipedia.org/wiki/ANSI_escape_code#3/4_bit
         if (modifier.m_plane == fly::logger::Color::Foreground)
         {
-            m_stream << "3";
+            m_sequence << "3";
         }
         else
         {
-            m_stream << "4";
+            m_sequence << "4";
         }
     }
     else
@@ -86,15 +100,15 @@ void StylerProxyImpl::stream_value<fly::logger::Color>(fly::logger::Color const
         // https://en.wikipedia.org/wiki/ANSI_escape_code#8-bit
         if (modifier.m_plane == fly::logger::Color::Foreground)
         {
-            m_stream << "38;5;";
+            m_sequence << "38;5;";
         }
         else
         {
-            m_stream << "48;5;";
+            m_sequence << "48;5;";
         }
     }
 
-    m_stream << static_cast<std::uint32_t>(modifier.m_color);
+    m_sequence << static_cast<std::uint32_t>(modifier.m_color);
 }
 
 //==================================================================================================
@@ -102,21 +116,21 @@ template <>
 void StylerProxyImpl::stream_value<fly::logger::Cursor>(fly::logger::Cursor const &modifier)
 {
     // https://en.wikipedia.org/wiki/ANSI_escape_code#Terminal_output_sequences
-    m_stream << "\x1b[" << static_cast<std::uint32_t>(modifier.m_distance);
+    m_sequence << "\x1b[" << static_cast<std::uint32_t>(modifier.m_distance);
 
     switch (modifier.m_direction)
     {
         case fly::logger::Cursor::Up:
-            m_stream << 'A';
+            m_sequence << 'A';
             break;
         case fly::logger::Cursor::Down:
-            m_stream << 'B';
+            m_sequence << 'B';
             break;
         case fly::logger::Cursor::Forward:
-            m_stream << 'C';
+            m_sequence << 'C';
             break;
         case fly::logger::Cursor::Backward:
-            m_stream << 'D';
+            m_sequence << 'D';
             break;
     }
 }
@@ -126,7 +140,7 @@ void StylerProxyImpl::apply_styles_and_colors(
     std::stack<fly::logger::Style> &&styles,
     std::stack<fly::logger::Color> &&colors)
 {
-    m_stream << "\x1b[";
+    m_sequence << "\x1b[";
 
     bool first_modifier = true;
 
@@ -134,7 +148,7 @@ void StylerProxyImpl::apply_styles_and_colors(
     {
         if (!first_modifier)
         {
-            m_stream << ';';
+            m_sequence << ';';
         }
 
         stream_value(styles.top());
@@ -144,13 +158,13 @@ void StylerProxyImpl::apply_styles_and_colors(
     {
         if (!first_modifier)
         {
-            m_stream << ';';
+            m_sequence << ';';
         }
 
         stream_value(colors.top());
     }
 
-    m_stream << 'm';
+    m_sequence << 'm';
 }
 
 //==================================================================================================
diff --git a/fly/logger/detail/nix/styler_proxy_impl.hpp b/fly/logger/detail/nix/styler_proxy_impl.hpp
index 4efca1d..7eb667f 100644
--- a/fly/logger/detail/nix/styler_proxy_impl.hpp
+++ b/fly/logger/detail/nix/styler_proxy_impl.hpp
@@ -4,6 +4,7 @@
 #include "fly/logger/styler.hpp"
 
 #include <ostream>
+#include <sstream>
 #include <stack>
 
 namespace fly::logger::detail {
@@ -66,6 +67,12 @@ private:
      */
     void apply_cursors(std::stack<fly::logger::Cursor> &&cursors);
 
+    /**
+     * Write the escape sequences that have been formed to the stream.
+     */
+    void flush_sequence();
+
+    std::ostringstream m_sequence;
     bool m_did_apply_style_or_color {false};
 };
 
-- 
2.43.0


From 5cecc961775c67e431b9b0316f75dc1664a62988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 66/66] fix: keep the signal handler until signals have their
 default disposition again

---
 fly/system/system.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fly/system/system.cpp b/fly/system/system.cpp
index ba24550..0dd0f37 100644
--- a/fly/system/system.cpp
+++ b/fly/system/system.cpp
@@ -44,12 +44,22 @@ void set_signal_handler(SignalHandler handler)
 #endif
 
     auto handler_or_default = handler ? handle_signal : SIG_DFL;
-    s_signal_handler = std::move(handler);
+
+    if (handler)
+    {
+        s_signal_handler = std::move(handler);
+    }
 
     for (int signal : s_signals)
     {
         std::signal(signal, handler_or_default);
     }
+
+    // Signals may arrive until the last of them has its default disposition again.
+    if (handler_or_default == SIG_DFL)
+    {
+        s_signal_handler = nullptr;
+    }
 }
 
 } // namespace fly::system
-- 
2.43.0

