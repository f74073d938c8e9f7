From d79629ad81c7bc825b3e0f2cf47ea19618a91d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 01/15] fix: count Regional_Indicator parity across grapheme
 cluster boundaries (GB12/GB13)

---
 src/libunicode/grapheme_segmenter.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..ebda47f 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -41,15 +41,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousCodepoint = b;
     state.previousProperties = Pb;
 
-    {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
-        //
-        // We move the state.ri_counter out to help GCC optimize
-        // this code to be branchless.
-        // Sadly only GCC succeeds in doing this and Clang fails.
-        auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
-    }
+    // Track the parity of the run of Regional_Indicator codepoints ending at B. The run continues
+    // across cluster boundaries, so it has to be counted for every codepoint, not only for joined ones.
+    auto const prev_ri_counter = state.ri_counter;
+    state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>(prev_ri_counter ^ 1) : uint8_t { 0 };
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
     if (A == Grapheme_Cluster_Break::CR && B == Grapheme_Cluster_Break::LF)
@@ -143,11 +138,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && prev_ri_counter == 1)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 476ccdd6d76ab49d1f40e463d5ccd972bb8dfc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 02/15] fix: GB11 requires the ZWJ to directly precede the
 pictograph and to end the Extend chain

---
 src/libunicode/grapheme_segmenter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index ebda47f..373e1b4 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -82,8 +82,9 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ)
+                 && A != Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            ; // keep state - Extend* ZWJ extends the ExtPic chain for GB11 (nothing may follow the ZWJ)
         else
             state.extpic_state = 0;
     }
-- 
2.43.0


From 7d6f64889901147be430b5b0be8debf14bbcffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 03/15] fix: code points not listed in EastAsianWidth.txt are
 Neutral, not Narrow

---
 src/libunicode/codepoint_properties.h            | 2 +-
 src/libunicode/tablegen/multistage_generator.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/codepoint_properties.h b/src/libunicode/codepoint_properties.h
index 64ff591..f47820e 100644
--- a/src/libunicode/codepoint_properties.h
+++ b/src/libunicode/codepoint_properties.h
@@ -30,7 +30,7 @@ struct LIBUNICODE_PACKED codepoint_properties
     uint8_t flags2 = 0;
     Script script = Script::Unknown;
     Grapheme_Cluster_Break grapheme_cluster_break = Grapheme_Cluster_Break::Other;
-    East_Asian_Width east_asian_width = East_Asian_Width::Narrow;
+    East_Asian_Width east_asian_width = East_Asian_Width::Neutral;
     General_Category general_category = General_Category::Unassigned;
     EmojiSegmentationCategory emoji_segmentation_category = EmojiSegmentationCategory::Invalid;
     Age age = Age::Unassigned;
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..0b0aa99 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -392,7 +392,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
     {
         auto scriptUnknown = scriptIndex.count("Unknown") ? scriptIndex.at("Unknown") : uint8_t(1);
         auto gcbOther = gcbIndex.count("Other") ? gcbIndex.at("Other") : uint8_t(0);
-        auto eawNarrow = eawIndex.count("Narrow") ? eawIndex.at("Narrow") : uint8_t(0);
+        auto eawNeutral = eawIndex.count("Neutral") ? eawIndex.at("Neutral") : uint8_t(0);
         // General_Category::Unassigned is a member name in the GC enum
         auto gcUnassigned = gcIndex.count("Unassigned") ? gcIndex.at("Unassigned") : uint8_t(0);
         auto incbNone = incbIndex.count("None") ? incbIndex.at("None") : uint8_t(3);
@@ -401,7 +401,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
         {
             rec.script = scriptUnknown;
             rec.grapheme_cluster_break = gcbOther;
-            rec.east_asian_width = eawNarrow;
+            rec.east_asian_width = eawNeutral;
             rec.general_category = gcUnassigned;
             rec.indic_conjunct_break = incbNone;
             rec.word_break = wbOther;
-- 
2.43.0


From b5c579ff5c96cf440ab165bcce977e29fb3befe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 04/15] fix: do not compose an LV syllable with U+11A7, which
 is not a trailing jamo

---
 src/libunicode/normalization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..940857c 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,8 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                // TBase itself is not a trailing jamo; it stands for "no trailing consonant"
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
-- 
2.43.0


From 2233925f4f10c0b2aa77599a3c46b34405de5c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 05/15] fix: is_full_composition_exclusion covers singleton and
 non-starter decompositions

---
 src/libunicode/normalization.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 940857c..a6010e4 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -298,7 +298,15 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    if (is_composition_exclusion(codepoint))
+        return true;
+
+    // Singleton and non-starter decompositions are excluded, too (UAX #15, D114 and section 5)
+    auto const decomposition = find_decomposition(detail::canonical_decomposition_table, codepoint);
+    if (decomposition.empty())
+        return false;
+    return decomposition.size() == 1 || canonical_combining_class(codepoint) != 0
+           || canonical_combining_class(decomposition.front()) != 0;
 }
 
 // ============================================================================
-- 
2.43.0


From 5e13377a4742fcd5497dbd55aa421e611ada8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 06/15] fix: composition keeps uncomposed combining marks after
 their starter

---
 src/libunicode/normalization.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a6010e4..f0061f9 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -203,7 +203,9 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The current starter is already part of the result; a composition replaces it in place.
+        size_t starterIndex = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -215,19 +217,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starterIndex], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
+                result[starterIndex] = composed;
             }
             else if (ccc == 0)
             {
                 // New starter
-                result.push_back(starter);
-                starter = cp;
+                starterIndex = result.size();
+                result.push_back(cp);
                 last_ccc = 0;
             }
             else
@@ -240,7 +242,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From a5cb268a682fd115ba84adc97f6318a8125f15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 07/15] fix: decoder<char> does not take lead or ASCII bytes
 for continuation bytes

---
 src/libunicode/convert.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..33fbe83 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -69,6 +69,10 @@ struct decoder<char> // {{{
 
     constexpr std::optional<char32_t> operator()(uint8_t byte)
     {
+        // A byte that is no continuation byte ends an unfinished sequence and starts afresh.
+        if ((byte & 0b1100'0000) != 0b1000'0000)
+            expectedLength = 0;
+
         if (!expectedLength)
         {
             if ((byte & 0b1000'0000) == 0)
-- 
2.43.0


From b8af5065c2edde8ab3457e64a3d6ccad5af6427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 08/15] fix: from_utf8 does not take ASCII or F8..FF bytes for
 continuation bytes

---
 src/libunicode/utf8.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libunicode/utf8.cpp b/src/libunicode/utf8.cpp
index 082e607..9ce55ac 100644
--- a/src/libunicode/utf8.cpp
+++ b/src/libunicode/utf8.cpp
@@ -18,6 +18,10 @@ namespace unicode
 
 ConvertResult from_utf8(utf8_decoder_state& state, uint8_t value) noexcept
 {
+    // An ASCII byte or a byte that never occurs in UTF-8 cannot continue a sequence; it starts afresh.
+    if ((value & 0b1000'0000) == 0 || (value & 0b1111'1000) == 0b1111'1000)
+        state.expectedLength = 0;
+
     if (!state.expectedLength)
     {
         if ((value & 0b1000'0000) == 0)
-- 
2.43.0


From 4a6710b157a66dc874154bdc5d747273dbb8ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 09/15] fix: capi.h declares C linkage for C++ only, so that C
 can include it

---
 src/libunicode/capi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 8948ba6..7834dd0 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -17,7 +17,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 extern "C"
 {
 #endif
@@ -215,7 +215,7 @@ extern "C"
      */
     int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t dlen);
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 }
 #endif
 
-- 
2.43.0


From cc928aa4f33b53938033f1767bfdb7764170dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 10/15] fix: u32_gc_width of an empty text reads no code point

---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..3446e01 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From 6da37af28f04341ea755ec4369a122950ef5874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 11/15] fix: u32u8_convert accepts a destination that fits
 exactly

---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index 3446e01..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -113,7 +113,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From 9b5090978393a7e5771bf68638db6e140fec9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 12/15] fix: convert_to does not read past the end of a text
 that ends inside a character

---
 src/libunicode/convert.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 33fbe83..d7d2d82 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -313,6 +313,21 @@ struct decoder<wchar_t> // {{{
 
 namespace detail // {{{
 {
+    /// Number of code units the decoder may read for a character that starts with the given code unit.
+    template <typename S>
+    constexpr size_t sequence_length(S lead) noexcept
+    {
+        if constexpr (sizeof(S) == 1)
+        {
+            auto const ch = static_cast<uint8_t>(lead);
+            return ch < 0xC0 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : ch < 0xF8 ? 4 : ch < 0xFC ? 5 : ch < 0xFE ? 6 : 1;
+        }
+        else if constexpr (sizeof(S) == 2)
+            return lead >= 0xD800 && lead < 0xDC00 ? 2 : 1;
+        else
+            return 1;
+    }
+
     template <typename SourceRange, typename OutputIterator>
     OutputIterator convert_identity(SourceRange&& s, OutputIterator t)
     {
@@ -346,6 +361,12 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         encoder<T> write {};
         while (i != e)
         {
+            // A character that is cut off by the end of the input cannot be decoded.
+            if (static_cast<size_t>(e - i) < detail::sequence_length(*i))
+            {
+                ++i;
+                continue;
+            }
             auto const outChar = read(i);
             if (outChar.has_value())
                 output = write(outChar.value(), output);
-- 
2.43.0


From 6a5d35c40817f803d49ef665da128a758e38ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 13/15] fix: utf8_grapheme_segmenter replaces a sequence cut
 off by the end of the text

---
 src/libunicode/utf8_grapheme_segmenter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..eecbba3 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -132,7 +132,8 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
         }
     }
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    // The text may end inside of a sequence.
+    _nextCodepoint = _nextCodepointStart != _end ? ReplacementChar : 0;
     return result;
 }
 
-- 
2.43.0


From 0b12b4d5f42aea6ef0ee18d2c930a68cf9237167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:11 +0000
Subject: [PATCH 14/15] fix: the streaming normaliser cut before starters whose
 decomposition begins with a combining mark

---
 src/libunicode/normalization.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index f0061f9..c7eb4f9 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -157,6 +157,20 @@ namespace
             decompose_recursive(c, output, compatibility);
     }
 
+    // First code point of the full decomposition
+    [[nodiscard]] char32_t leading_codepoint(char32_t cp, bool compatibility) noexcept
+    {
+        while (true)
+        {
+            auto decomp = find_decomposition(detail::canonical_decomposition_table, cp);
+            if (decomp.empty() && compatibility)
+                decomp = find_decomposition(detail::compatibility_decomposition_table, cp);
+            if (decomp.empty())
+                return cp;
+            cp = decomp.front();
+        }
+    }
+
     // Canonical ordering of combining marks
     void canonical_order(std::u32string& text)
     {
@@ -557,9 +571,10 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless its decomposition begins
+    // with a non-starter (such as U+0F73), which may be reordered into the preceding segment
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+        return canonical_combining_class(leading_codepoint(codepoint, _form == Normalization_Form::NFKD)) == 0;
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From 97849bfe4713ee83ba68559b8c1b5755b2dc160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:32 +0000
Subject: [PATCH 15/15] fix: names of characters beyond the Basic Multilingual
 Plane

The names table has more distinct blocks than an 8-bit stage 1 can index, so the generator truncated the indexes. Use 16-bit stage 1 elements, and have the generator refuse instead of truncating.
---
 src/libunicode/codepoint_properties.h            | 2 +-
 src/libunicode/codepoint_properties_loader.h     | 2 +-
 src/libunicode/multistage_table_generator.h      | 7 +++++--
 src/libunicode/tablegen/multistage_generator.cpp | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libunicode/codepoint_properties.h b/src/libunicode/codepoint_properties.h
index f47820e..aab377d 100644
--- a/src/libunicode/codepoint_properties.h
+++ b/src/libunicode/codepoint_properties.h
@@ -87,7 +87,7 @@ struct LIBUNICODE_PACKED codepoint_properties
 
     using names_view = support::multistage_table_view<std::string_view,
                                                       uint32_t,     // source type
-                                                      uint8_t,      // stage 1
+                                                      uint16_t,     // stage 1
                                                       uint16_t,     // stage 2
                                                       256,          // block size
                                                       0x110'000 - 1 // max value
diff --git a/src/libunicode/codepoint_properties_loader.h b/src/libunicode/codepoint_properties_loader.h
index 56fbb5a..8697d1c 100644
--- a/src/libunicode/codepoint_properties_loader.h
+++ b/src/libunicode/codepoint_properties_loader.h
@@ -31,7 +31,7 @@ using codepoint_properties_table = support::multistage_table<codepoint_propertie
 
 using codepoint_names_table = support::multistage_table<std::string,
                                                         uint32_t,     // source type
-                                                        uint8_t,      // stage 1
+                                                        uint16_t,     // stage 1
                                                         uint16_t,     // stage 2
                                                         256,          // block size
                                                         0x110'000 - 1 // max value
diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 1ca8870..efa85ed 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -112,7 +112,8 @@ class multistage_table_generator
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index < std::numeric_limits<Stage2ElementType>::max());
+        if (stage2Index > std::numeric_limits<Stage1ElementType>::max())
+            throw std::length_error("Too many distinct blocks for the stage 1 element type.");
 
         for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
@@ -163,9 +164,11 @@ class multistage_table_generator
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
             return it->second;
 
+        if (_output.stage3.size() > std::numeric_limits<Stage2ElementType>::max())
+            throw std::length_error("Too many distinct values for the stage 2 element type.");
+
         auto const stage3Index = static_cast<Stage2ElementType>(_output.stage3.size());
         _output.stage3.emplace_back(value);
-        assert(stage3Index < std::numeric_limits<Stage2ElementType>::max());
         _stage3Map[value] = stage3Index;
         return stage3Index;
     }
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 0b0aa99..952d3ff 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -642,7 +642,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
 
     std::cout << "[tablegen]   Generating multistage tables (names)...\n";
 
-    using NamesTable = support::multistage_table<std::string, uint32_t, uint8_t, uint16_t, BLOCK_SIZE, CODEPOINT_COUNT - 1>;
+    using NamesTable = support::multistage_table<std::string, uint32_t, uint16_t, uint16_t, BLOCK_SIZE, CODEPOINT_COUNT - 1>;
     NamesTable namesTable {};
     support::generate(names.data(), names.size(), namesTable, std::hash<std::string> {});
 
-- 
2.43.0

