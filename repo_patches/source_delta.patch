From 23b24a5f62b7be03cc0ca152c2b4fe21a45bc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/28] fix: keep non-composing marks behind their starter when
 composing

compose() appended marks that do not compose with the pending starter before the
starter itself was written, so to_nfc(U+0078 U+0301) returned U+0301 U+0078.
---
 src/libunicode/normalization.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index a617c64..5d62844 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -202,7 +202,9 @@ namespace
         if (i >= decomposed.size())
             return result;
 
-        char32_t starter = decomposed[i++];
+        // The starter is kept in place, so that the marks which do not compose with it stay behind it.
+        size_t starter = result.size();
+        result.push_back(decomposed[i++]);
         uint8_t last_ccc = 0;
 
         while (i < decomposed.size())
@@ -214,19 +216,19 @@ namespace
             char32_t composed = 0;
             if (last_ccc < ccc || last_ccc == 0)
             {
-                composed = try_compose(starter, cp);
+                composed = try_compose(result[starter], cp);
             }
 
             if (composed != 0 && !is_composition_exclusion(composed))
             {
                 // Composition succeeded
-                starter = composed;
+                result[starter] = composed;
             }
             else if (ccc == 0)
             {
                 // New starter
-                result.push_back(starter);
-                starter = cp;
+                starter = result.size();
+                result.push_back(cp);
                 last_ccc = 0;
             }
             else
@@ -239,7 +241,6 @@ namespace
             ++i;
         }
 
-        result.push_back(starter);
         return result;
     }
 
-- 
2.43.0


From a2892878969328cc31ff40bdcfa9c4e2d19a5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 02/28] fix: do not compose a Hangul LV syllable with U+11A7

U+11A7 (TBase) is not a trailing jamo; composing LV + U+11A7 swallowed it.
---
 src/libunicode/normalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 5d62844..8eee180 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -104,7 +104,7 @@ namespace
         {
             if ((first - hangul::SBase) % hangul::TCount == 0)
             {
-                if (second >= hangul::TBase && second < hangul::TBase + hangul::TCount)
+                if (second > hangul::TBase && second < hangul::TBase + hangul::TCount)
                 {
                     // LV + T -> LVT
                     return first + (second - hangul::TBase);
-- 
2.43.0


From b26763ffbe738f86c89ea46d6ad0f551f4bf199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 03/28] fix: let u32u8_convert fill its destination exactly

A conversion whose output has exactly the size of the destination was reported as not fitting.
---
 src/libunicode/capi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index cb2b105..dafa4dd 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -110,7 +110,7 @@ int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t
         u8_char_t buf[4];
         auto const bufEnd = conv(source[i], buf);
         auto const bufLength = static_cast<size_t>(std::distance(buf, bufEnd));
-        if (!(bufLength < dlen))
+        if (bufLength > dlen)
             return -1;
 
         for (size_t k = 0; k < bufLength; ++k)
-- 
2.43.0


From c14e12d76edfd963f579381eae4f1dbf85c2218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/28] fix: return width 0 for empty text in u32_gc_width and
 u8_gc_width

With GC_WIDTH_MODE_NON_MODIFIABLE the first code point of an empty cluster was read.
---
 src/libunicode/capi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libunicode/capi.cpp b/src/libunicode/capi.cpp
index dafa4dd..c4d9213 100644
--- a/src/libunicode/capi.cpp
+++ b/src/libunicode/capi.cpp
@@ -43,6 +43,9 @@ int u8_gc_count(u8_char_t const* codepoints, size_t size)
 
 int u32_gc_width(u32_char_t const* codepoints, size_t size, int mode)
 {
+    if (!size)
+        return 0;
+
     auto const text = std::u32string_view(reinterpret_cast<char32_t const*>(codepoints), size);
     auto totalWidth = 0;
     auto segmenter = unicode::grapheme_segmenter(text);
-- 
2.43.0


From 95d3df41f80bbd79ffad3283060f27d4b001e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/28] fix: do not read past the end when converting truncated
 input

The generic conversion loop read (and continued) behind the end of the input if it
ended inside a UTF-8 sequence or after a high surrogate.
---
 src/libunicode/convert.h | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/convert.h b/src/libunicode/convert.h
index 5b57e0b..7daf989 100644
--- a/src/libunicode/convert.h
+++ b/src/libunicode/convert.h
@@ -317,6 +317,29 @@ namespace detail // {{{
         return t;
     }
 
+    /// Input iterator that yields NUL at the end of the input instead of advancing past it,
+    /// so that decoding a truncated sequence never reads beyond the input.
+    template <typename Iterator>
+    struct bounded_input_iterator
+    {
+        Iterator current;
+        Iterator end;
+
+        constexpr auto operator*() const
+        {
+            using value_type = typename std::iterator_traits<Iterator>::value_type;
+            return current != end ? *current : value_type {};
+        }
+
+        constexpr bounded_input_iterator operator++(int)
+        {
+            auto const old = *this;
+            if (current != end)
+                ++current;
+            return old;
+        }
+    };
+
     // SIMD-accelerated UTF-8 conversion dispatchers (defined in convert.cpp)
     size_t convert_utf8_to_utf32(char const* input, size_t inputSize, char32_t* output) noexcept;
     size_t convert_utf8_to_utf16(char const* input, size_t inputSize, char16_t* output) noexcept;
@@ -336,11 +359,11 @@ OutputIterator convert_to(std::basic_string_view<S> input, OutputIterator output
         return detail::convert_identity(input, output);
     else
     {
-        auto i = begin(input);
-        auto e = end(input);
+        using iterator = typename std::basic_string_view<S>::const_iterator;
+        auto i = detail::bounded_input_iterator<iterator> { begin(input), end(input) };
         decoder<S> read {};
         encoder<T> write {};
-        while (i != e)
+        while (i.current != i.end)
         {
             auto const outChar = read(i);
             if (outChar.has_value())
-- 
2.43.0


From f987eed306f2b1ef551d9c455c4e039c30b60a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/28] fix: end an incomplete UTF-8 sequence when flushing the
 UTF-8 normalizer

The truncated sequence was dropped, and its bytes leaked into the text fed after the flush.
---
 src/libunicode/normalization.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 8eee180..5706105 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -630,6 +630,15 @@ std::string_view utf8_normalizer::flush()
 {
     _utf8Output.clear();
 
+    if (_utf8State.expectedLength != 0)
+    {
+        // The text ends inside a UTF-8 sequence: replace it with U+FFFD, like any other invalid sequence
+        _utf8State = {};
+        auto segment = _inner.feed(char32_t { 0xFFFD });
+        if (!segment.empty())
+            convert_to<char>(segment, std::back_inserter(_utf8Output));
+    }
+
     auto segment = _inner.flush();
     if (!segment.empty())
         convert_to<char>(segment, std::back_inserter(_utf8Output));
-- 
2.43.0


From 4791007bda64f92246d65f85c2e374d77d0ea617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 07/28] fix: do not split before starters that decompose into
 non-starters

The streaming normalizer flushed before U+0F73, U+0F75, U+0F81 (and U+FF9E, U+FF9F in
NFKD), so that the marks were not reordered with the preceding ones.
---
 src/libunicode/normalization.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 5706105..5df4693 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -548,9 +548,14 @@ bool normalizer::is_boundary(char32_t codepoint) const noexcept
     if (canonical_combining_class(codepoint) != 0)
         return false;
 
-    // For decomposition forms, every starter is a safe boundary
+    // For decomposition forms, a starter is a safe boundary unless it decomposes
+    // into a sequence beginning with a non-starter (e.g. U+0F73 or U+FF9E)
     if (_form == Normalization_Form::NFD || _form == Normalization_Form::NFKD)
-        return true;
+    {
+        std::u32string decomposed;
+        decompose_recursive(codepoint, decomposed, _form == Normalization_Form::NFKD);
+        return canonical_combining_class(decomposed.front()) == 0;
+    }
 
     // For composition forms, a starter is safe only if its quick-check value
     // is Yes (it cannot compose with the preceding segment)
-- 
2.43.0


From 4056b735e9a84b4844ab411d53e91efb629610b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 08/28] fix: start afresh after a cluster was put back or a
 control was hit in scan_text

A cluster that did not fit was scanned again on top of its own segmentation state, so that
e.g. a regional indicator or a Hangul jamo joined itself. Likewise, a scan starting at a
control left the preceding cluster open for the text behind the control.
---
 src/libunicode/scan.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 70b8aa0..2b4ff13 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -110,6 +110,14 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         clusterStart = clusterEnd;
     };
 
+    // Forgets the open cluster, so that whatever is scanned next opens a new one.
+    auto const resetCluster = [&]() noexcept {
+        state.lastCodepointHint = 0;
+        state.graphemeState = {};
+        state.clusterWidth.reset();
+        state.reportedClusterWidth = 0;
+    };
+
     while (input != end && count <= maxColumnCount)
     {
         // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
@@ -168,8 +176,11 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
 
                 if (count + nextWidth > maxColumnCount)
                 {
-                    // Currently scanned grapheme cluster won't fit. Break at its start.
+                    // Currently scanned grapheme cluster won't fit. Break at its start,
+                    // where the next scan starts afresh.
                     input = codepointStart;
+                    flushOpenCluster(input);
+                    resetCluster();
                     break;
                 }
 
@@ -201,8 +212,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
                         count -= clusterWidthCountedHere;
                         input = clusterStart;
                         resultEnd = clusterStart;
-                        state.clusterWidth.reset();
-                        state.reportedClusterWidth = 0;
+                        resetCluster();
                         break;
                     }
                     count += added;
@@ -291,7 +301,14 @@ scan_result scan_text(scan_state& state,
             case NextState::Trivial: {
                 auto const count = detail::scan_for_text_ascii(text, maxColumnCount - result.count);
                 if (!count)
+                {
+                    // A control ends whatever cluster was open.
+                    state.lastCodepointHint = 0;
+                    state.graphemeState = {};
+                    state.clusterWidth.reset();
+                    state.reportedClusterWidth = 0;
                     return result;
+                }
                 receiver.receiveAsciiSequence(text.substr(0, count));
 
                 // A cluster does not have to respect the boundary between the two scanners: the last
-- 
2.43.0


From 41b285888d654385de2d08de521fbcee10141196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 09/28] fix: keep the bytes of a split character together in
 scan_text

Bytes seen by an earlier call were not accounted for: putting back a character pointed into
its middle, an incomplete trailing character was delivered to the receiver as a cluster, and
its remaining bytes as another one.
---
 src/libunicode/scan.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 2b4ff13..928cb29 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -88,17 +88,18 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
     char const* start = text.data();
     char const* end = start + text.size();
     char const* input = start;
-    char const* clusterStart = start;
 
-    unsigned byteCount = 0; // bytes consumed for the current codepoint
+    // Bytes consumed for the current codepoint, including those an earlier call has already seen.
+    unsigned byteCount = state.utf8.expectedLength ? state.utf8.currentLength : 0;
 
     // How much of the open cluster's width THIS call has contributed. The cluster may have been
     // opened by an earlier call, whose columns are already spent and cannot be taken back here, so
     // this -- not state.reportedClusterWidth -- bounds what a rewind may subtract from count.
     size_t clusterWidthCountedHere = 0;
 
-    char const* resultStart = state.utf8.expectedLength ? start - state.utf8.currentLength : start;
+    char const* resultStart = start - byteCount;
     char const* resultEnd = resultStart;
+    char const* clusterStart = resultStart;
 
     // Hands over the cluster spanning [clusterStart, clusterEnd). Called at every cluster boundary
     // and once more when the scan ends, so the last cluster is not dropped. A cluster put back
@@ -127,7 +128,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         if (is_control(*input) || !is_complex(*input) || (state.utf8.expectedLength == 0 && is_c1_control(*input)))
         {
             // A control ends whatever cluster was open, so hand it over before dropping the state.
-            flushOpenCluster(input);
+            flushOpenCluster(input - byteCount);
+            byteCount = 0;
 
             // Incomplete UTF-8 sequence hit. That's invalid as well.
             if (state.utf8.expectedLength)
@@ -244,8 +246,8 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         }
     }
 
-    // Hand over whatever cluster the scan ended inside of.
-    flushOpenCluster(input);
+    // Hand over whatever cluster the scan ended inside of, without the bytes of an incomplete codepoint.
+    flushOpenCluster(input - byteCount);
 
     assert(resultStart <= resultEnd);
 
-- 
2.43.0


From eb2501ed64244db07d350ca56848bf8b1004ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 10/28] fix: report invalid sequences in scan_text completely
 and within the column limit

The bytes of an invalid sequence were missing from the reported range when no text followed,
were delivered to the receiver as an empty-width cluster besides the invalid notice, could
exceed the column limit, and a lead byte interrupting a sequence was dropped with it.
---
 src/libunicode/scan.cpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/libunicode/scan.cpp b/src/libunicode/scan.cpp
index 928cb29..572deb5 100644
--- a/src/libunicode/scan.cpp
+++ b/src/libunicode/scan.cpp
@@ -119,7 +119,7 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         state.reportedClusterWidth = 0;
     };
 
-    while (input != end && count <= maxColumnCount)
+    while (input != end)
     {
         // Stop at a C1 control (0x80..0x9F) sitting at a character boundary: it is a control, not
         // text, so -- like a C0 control -- it is left for the caller. The expectedLength guard keeps
@@ -129,19 +129,22 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         {
             // A control ends whatever cluster was open, so hand it over before dropping the state.
             flushOpenCluster(input - byteCount);
-            byteCount = 0;
 
             // Incomplete UTF-8 sequence hit. That's invalid as well.
             if (state.utf8.expectedLength)
             {
-                ++count;
-                receiver.receiveInvalidGraphemeCluster();
                 state.utf8 = {};
+                if (count < maxColumnCount)
+                {
+                    ++count;
+                    receiver.receiveInvalidGraphemeCluster();
+                    clusterStart = input;
+                }
+                else
+                    input -= byteCount;
             }
-            state.lastCodepointHint = 0;
-            state.graphemeState = {};
-            state.clusterWidth.reset();
-            state.reportedClusterWidth = 0;
+            byteCount = 0;
+            resetCluster();
             resultEnd = input;
             break;
         }
@@ -234,15 +237,22 @@ scan_result detail::scan_for_text_nonascii(scan_state& state,
         {
             assert(holds_alternative<Invalid>(result));
             flushOpenCluster(input - byteCount);
+            clusterWidthCountedHere = 0;
+            resetCluster();
+            if (count >= maxColumnCount)
+            {
+                // No room left for the replacement of the invalid sequence. Break at its start.
+                input -= byteCount;
+                byteCount = 0;
+                state.utf8 = {};
+                break;
+            }
             count++;
             receiver.receiveInvalidGraphemeCluster();
-            clusterWidthCountedHere = 0;
-            state.clusterWidth.reset();
-            state.reportedClusterWidth = 0;
-            state.lastCodepointHint = 0;
-            state.graphemeState = {};
-            state.utf8.expectedLength = 0;
-            byteCount = 0;
+            // The byte that made the sequence invalid may have started the next one already.
+            byteCount = state.utf8.expectedLength ? state.utf8.currentLength : 0;
+            clusterStart = input - byteCount;
+            resultEnd = clusterStart;
         }
     }
 
-- 
2.43.0


From 5e0099827ea817bfc956fd8f2a6e49ab927e41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 11/28] fix: count regional indicators across breaks in the
 grapheme segmenter

The parity was only initialized by grapheme_process_init(), so flags behind a break (when the
incremental interface is used) or behind a Prepend character were split into their halves.
---
 src/libunicode/grapheme_segmenter.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index c71e5fa..3a4cbb3 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -42,13 +42,15 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     state.previousProperties = Pb;
 
     {
-        // Set state.ri_counter to zero if the next codepoint is not of category Regional_Indicator.
+        // Count the regional indicators up to and including the next codepoint (modulo 2). This must
+        // be done no matter whether or not there is a break before it, and starts again with every
+        // codepoint that is not of category Regional_Indicator.
         //
         // We move the state.ri_counter out to help GCC optimize
         // this code to be branchless.
         // Sadly only GCC succeeds in doing this and Clang fails.
-        auto const ri_counter = state.ri_counter;
-        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? ri_counter : 0;
+        auto const ri_counter = (A == Grapheme_Cluster_Break::Regional_Indicator) ? state.ri_counter : 0;
+        state.ri_counter = (B == Grapheme_Cluster_Break::Regional_Indicator) ? static_cast<uint8_t>(ri_counter ^ 1) : 0;
     }
 
     // GB3: Do not break between a CR and LF. Otherwise, break before and after controls.
@@ -143,11 +145,8 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     // GB12/GB13: Do not break within emoji flag sequences.
     // That is, do not break between regional indicator (RI) symbols
     // if there is an odd number of RI characters before the break point.
-    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 1)
-    {
-        state.ri_counter = static_cast<uint8_t>((state.ri_counter + 1) % 2);
+    if (A == Grapheme_Cluster_Break::Regional_Indicator && A == B && state.ri_counter == 0)
         return false;
-    }
 
     // GB999: Otherwise, break everywhere.
     return true;
-- 
2.43.0


From 8e9b2208ed4c1df344b31566df68f4e1e85f35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 12/28] fix: allow a single ZWJ only between the pictographs of
 GB11

UAX #29 requires ExtPict Extend* ZWJ before the joined pictograph; a sequence with several
ZWJ or with extending characters behind the ZWJ was joined as well.
---
 src/libunicode/grapheme_segmenter.cpp | 8 +++++---
 src/libunicode/grapheme_segmenter.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libunicode/grapheme_segmenter.cpp b/src/libunicode/grapheme_segmenter.cpp
index 3a4cbb3..ad82276 100644
--- a/src/libunicode/grapheme_segmenter.cpp
+++ b/src/libunicode/grapheme_segmenter.cpp
@@ -89,8 +89,10 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
     {
         if (Pb.is_extended_pictographic())
             state.extpic_state = 1;
-        else if ((B == Grapheme_Cluster_Break::Extend || B == Grapheme_Cluster_Break::ZWJ) && prev_extpic_state == 1)
-            ; // keep state - Extend/ZWJ extend the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::Extend && prev_extpic_state == 1)
+            ; // keep state - Extend extends the ExtPic chain for GB11
+        else if (B == Grapheme_Cluster_Break::ZWJ && prev_extpic_state == 1)
+            state.extpic_state = 2; // the one ZWJ that completes the ExtPic chain
         else
             state.extpic_state = 0;
     }
@@ -139,7 +141,7 @@ bool grapheme_process_breakable(char32_t nextCodepoint, grapheme_segmenter_state
 
     // GB11: Do not break within emoji modifier sequences or emoji zwj sequences.
     // Full rule: \p{Extended_Pictographic} Extend* ZWJ × \p{Extended_Pictographic}
-    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 1)
+    if (A == Grapheme_Cluster_Break::ZWJ && Pb.is_extended_pictographic() && prev_extpic_state == 2)
         return false;
 
     // GB12/GB13: Do not break within emoji flag sequences.
diff --git a/src/libunicode/grapheme_segmenter.h b/src/libunicode/grapheme_segmenter.h
index faa0c2d..7e7eec3 100644
--- a/src/libunicode/grapheme_segmenter.h
+++ b/src/libunicode/grapheme_segmenter.h
@@ -41,7 +41,8 @@ struct grapheme_segmenter_state
 
     /// GB11 Extended Pictographic tracking state:
     /// 0 = no ExtPic context
-    /// 1 = saw ExtPic (or ExtPic followed by Extend*/ZWJ chain)
+    /// 1 = saw ExtPic Extend*
+    /// 2 = saw ExtPic Extend* ZWJ (ready for GB11)
     uint8_t extpic_state = 0;
 };
 
-- 
2.43.0


From 04381f0eb1976aec2c822622fadc89ad886522fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 13/28] fix: replace an incomplete sequence at the end of UTF-8
 text when iterating graphemes

A truncated trailing sequence was returned as a cluster holding U+0000.
---
 src/libunicode/utf8_grapheme_segmenter.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/utf8_grapheme_segmenter.h b/src/libunicode/utf8_grapheme_segmenter.h
index 37dc094..5e90a8f 100644
--- a/src/libunicode/utf8_grapheme_segmenter.h
+++ b/src/libunicode/utf8_grapheme_segmenter.h
@@ -114,7 +114,8 @@ inline utf8_grapheme_segmenter::iterator::value_type const& utf8_grapheme_segmen
 inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
 {
     auto constexpr ReplacementChar = char32_t { 0xFFFD };
-    _nextCodepointStart = _nextUtf8;
+    // An invalid sequence may have been ended by the byte that starts the next one.
+    _nextCodepointStart = _nextUtf8 - (_utf8_decoder_state.expectedLength ? _utf8_decoder_state.currentLength : 0);
     while (_nextUtf8 != _end)
     {
         _result = from_utf8(_utf8_decoder_state, uint8_t(*_nextUtf8++));
@@ -131,8 +132,10 @@ inline char32_t utf8_grapheme_segmenter::iterator::consumeCodepoint() noexcept
             return result;
         }
     }
+    // A sequence that is incomplete at the end of the text is malformed, too.
     auto const result = _nextCodepoint;
-    _nextCodepoint = 0;
+    _nextCodepoint = _utf8_decoder_state.expectedLength ? ReplacementChar : char32_t {};
+    _utf8_decoder_state = {};
     return result;
 }
 
-- 
2.43.0


From ef904410d3b3b948d2b97baa77d30b8c1d20de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 14/28] fix: word_process_init forgets that the previous text
 ended in ignored characters

---
 src/libunicode/word_segmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libunicode/word_segmenter.cpp b/src/libunicode/word_segmenter.cpp
index c3a50d0..b1d840f 100644
--- a/src/libunicode/word_segmenter.cpp
+++ b/src/libunicode/word_segmenter.cpp
@@ -88,6 +88,7 @@ void word_process_init(char32_t firstCodepoint, word_segmenter_state& state) noe
 
     state.raw_prev_wb = wb;
     state.prev_prev_wb = Word_Break::Other;
+    state.saw_transparent = false;
 
     if (is_transparent(wb))
     {
-- 
2.43.0


From 225e817016cd0d0c192576cb0a29837c31d31f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 15/28] fix: names of code points beyond U+FFFF were those of
 the code point 0x10000 below

The name table has more than 256 blocks, so their numbers do not fit the 8 bits of stage 1.
---
 src/libunicode/codepoint_properties.h            | 2 +-
 src/libunicode/tablegen/multistage_generator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/codepoint_properties.h b/src/libunicode/codepoint_properties.h
index 64ff591..fb9c58b 100644
--- a/src/libunicode/codepoint_properties.h
+++ b/src/libunicode/codepoint_properties.h
@@ -87,7 +87,7 @@ struct LIBUNICODE_PACKED codepoint_properties
 
     using names_view = support::multistage_table_view<std::string_view,
                                                       uint32_t,     // source type
-                                                      uint8_t,      // stage 1
+                                                      uint16_t,     // stage 1 (more than 256 distinct blocks)
                                                       uint16_t,     // stage 2
                                                       256,          // block size
                                                       0x110'000 - 1 // max value
diff --git a/src/libunicode/tablegen/multistage_generator.cpp b/src/libunicode/tablegen/multistage_generator.cpp
index 5c58c09..0d86c1d 100644
--- a/src/libunicode/tablegen/multistage_generator.cpp
+++ b/src/libunicode/tablegen/multistage_generator.cpp
@@ -642,7 +642,7 @@ void generateMultistageFiles(UcdParser const& parser, std::string const& outputD
 
     std::cout << "[tablegen]   Generating multistage tables (names)...\n";
 
-    using NamesTable = support::multistage_table<std::string, uint32_t, uint8_t, uint16_t, BLOCK_SIZE, CODEPOINT_COUNT - 1>;
+    using NamesTable = support::multistage_table<std::string, uint32_t, uint16_t, uint16_t, BLOCK_SIZE, CODEPOINT_COUNT - 1>;
     NamesTable namesTable {};
     support::generate(names.data(), names.size(), namesTable, std::hash<std::string> {});
 
-- 
2.43.0


From 0a795c9b7a5fdb34fb323b6e57c47594f4214bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 16/28] fix: multistage_table_generator silently truncated
 block and value indices

The asserts checked stage 1 indices against the stage 2 type and stage 3 indices after truncation (and are off in
release builds); tables that do not fit their element types were generated wrong instead of being rejected.
---
 src/libunicode/multistage_table_generator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/multistage_table_generator.h b/src/libunicode/multistage_table_generator.h
index 1ca8870..5a45e7f 100644
--- a/src/libunicode/multistage_table_generator.h
+++ b/src/libunicode/multistage_table_generator.h
@@ -112,7 +112,8 @@ class multistage_table_generator
 
         // Block has not been seen yet. Create a new block.
         auto const stage2Index = _output.stage2.size() / BlockSize;
-        assert(stage2Index < std::numeric_limits<Stage2ElementType>::max());
+        if (stage2Index > std::numeric_limits<Stage1ElementType>::max())
+            throw std::overflow_error("multistage table: number of distinct blocks exceeds the stage 1 element type");
 
         for (SourceType index = blockStart; index < blockStart + BlockSize; ++index)
             _output.stage2.emplace_back(get_or_create_stage3_index(index));
@@ -163,9 +164,10 @@ class multistage_table_generator
         if (auto it = _stage3Map.find(value); it != _stage3Map.end())
             return it->second;
 
+        if (_output.stage3.size() > std::numeric_limits<Stage2ElementType>::max())
+            throw std::overflow_error("multistage table: number of distinct values exceeds the stage 2 element type");
         auto const stage3Index = static_cast<Stage2ElementType>(_output.stage3.size());
         _output.stage3.emplace_back(value);
-        assert(stage3Index < std::numeric_limits<Stage2ElementType>::max());
         _stage3Map[value] = stage3Index;
         return stage3Index;
     }
-- 
2.43.0


From df52115b7e9cf7fdf4da440ac42414baaad23c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 17/28] fix: is_full_composition_exclusion covers singleton and
 non-starter decompositions

---
 src/libunicode/normalization.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libunicode/normalization.cpp b/src/libunicode/normalization.cpp
index 5df4693..9d2b272 100644
--- a/src/libunicode/normalization.cpp
+++ b/src/libunicode/normalization.cpp
@@ -298,7 +298,14 @@ bool is_composition_exclusion(char32_t codepoint) noexcept
 
 bool is_full_composition_exclusion(char32_t codepoint) noexcept
 {
-    return is_composition_exclusion(codepoint);
+    if (is_composition_exclusion(codepoint))
+        return true;
+
+    // Singleton decompositions and non-starter decompositions do not recompose either.
+    auto const decomposition = find_decomposition(detail::canonical_decomposition_table, codepoint);
+    return !decomposition.empty()
+           && (decomposition.size() == 1 || canonical_combining_class(codepoint) != 0
+               || canonical_combining_class(decomposition.front()) != 0);
 }
 
 // ============================================================================
-- 
2.43.0


From 1466d6a2a44f57188ab375de1d274a4685113163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 18/28] fix: script runs mixed characters whose script
 extensions share nothing but Common or Inherited

---
 src/libunicode/script_segmenter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/script_segmenter.cpp b/src/libunicode/script_segmenter.cpp
index fa98bab..67ab0c3 100644
--- a/src/libunicode/script_segmenter.cpp
+++ b/src/libunicode/script_segmenter.cpp
@@ -136,10 +136,11 @@ script_segmenter::ScriptSet script_segmenter::getScriptsFor(char32_t codepoint)
 
     // If the script of @p codepoint is also in scriptSet,
     // then move it to the front of the set,
-    // otherwise append it to the back of scriptSet.
+    // otherwise append it to the back of scriptSet,
+    // unless it is no script by itself (Common or Inherited), which would make any two such sets intersect.
     if (auto i = find(scriptSet.begin(), scriptSet.end(), sc); i != scriptSet.end())
         swap(*i, *scriptSet.begin());
-    else
+    else if (isPreferred(sc))
         scriptSet.push_back(sc);
 
     return scriptSet;
-- 
2.43.0


From 552a9f9ac43e9622efe6b1da8a4c9144f80d9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 19/28] fix: make capi.h usable from C

The guard of the extern "C" block was inverted: C compilers saw extern "C", C++ compilers gave the functions C++ linkage.
---
 src/libunicode/capi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 8948ba6..7834dd0 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -17,7 +17,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 extern "C"
 {
 #endif
@@ -215,7 +215,7 @@ extern "C"
      */
     int u32u8_convert(u32_char_t const* source, size_t slen, u8_char_t* dest, size_t dlen);
 
-#if !defined(__cplusplus)
+#if defined(__cplusplus)
 }
 #endif
 
-- 
2.43.0


From 99757faec1b1aa0b7065a74ac0cb8846d22e14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 20/28] fix: u32_is_valid_codepoint lacked a closing
 parenthesis

---
 src/libunicode/capi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/capi.h b/src/libunicode/capi.h
index 7834dd0..5cf8ade 100644
--- a/src/libunicode/capi.h
+++ b/src/libunicode/capi.h
@@ -38,7 +38,7 @@ extern "C"
  * Verifies that _p codepoint is a valid codepoint,
  */
 #define u32_is_valid_codepoint(_codepoint) \
-    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF)
+    ((_codepoint) < 0xD800 || ((_codepoint) > 0xDFFF && (_codepoint) <= 0x10FFFF))
 
 /**
  * Extracts the unused higher order bits and moves them bit-wise to the right.
-- 
2.43.0


From 29ee9736efa2d2093a3594d64eafefbe225fd56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 21/28] fix: unicode-query aborted on unassigned code points

Age::Unassigned is not written as V<major>_<minor>.
---
 src/tools/unicode-query.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 18bf2cd..a343135 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -131,6 +131,8 @@ string prettyAge(unicode::Age age)
     // clang-format off
     string str = [=]() { auto s = ostringstream(); s << age; return s.str(); }();
     // clang-format on
+    if (age == unicode::Age::Unassigned)
+        return str;
     assert(str.at(0) == 'V');
     str = str.substr(1);
     replace(str.begin(), str.end(), '_', '.');
-- 
2.43.0


From 329fc24d24a80fa086a46c01c88ffd2a804f7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 22/28] fix: unicode-query escaped all non-ASCII text

Where char is signed, every byte beyond 7F compared less than 20.
---
 src/tools/unicode-query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index a343135..3758c93 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -44,7 +44,7 @@ std::string escapeControlCodes(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (ch < 0x20)
+        if (static_cast<unsigned char>(ch) < 0x20)
             result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
@@ -57,7 +57,7 @@ std::string escaped(std::string const& text)
     auto result = stringstream {};
     for (char const ch: text)
     {
-        if (std::isprint(ch) && ch != '"')
+        if (std::isprint(static_cast<unsigned char>(ch)) && ch != '"')
             result << ch;
         else
             result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
-- 
2.43.0


From 402c6b47398d56ebf31229d4f12d928078d37230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 23/28] fix: unicode-query padded the digits of escapes with a
 blank

A newline was written as \x a.
---
 src/tools/unicode-query.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 3758c93..9a286b8 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -45,7 +45,7 @@ std::string escapeControlCodes(std::string const& text)
     for (char const ch: text)
     {
         if (static_cast<unsigned char>(ch) < 0x20)
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+            result << "\\x" << setfill('0') << setw(2) << std::hex << (unsigned(ch) & 0xFF);
         else
             result << ch;
     }
@@ -60,7 +60,7 @@ std::string escaped(std::string const& text)
         if (std::isprint(static_cast<unsigned char>(ch)) && ch != '"')
             result << ch;
         else
-            result << "\\x" << setw(2) << std::hex << (unsigned(ch) & 0xFF);
+            result << "\\x" << setfill('0') << setw(2) << std::hex << (unsigned(ch) & 0xFF);
     }
     return result.str();
 }
-- 
2.43.0


From b947ab1ddaa14413b3ad6c22cbd5e6fab382e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 24/28] fix: unicode-query took numbers that do not fit for
 U+0000

---
 src/tools/unicode-query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/unicode-query.cpp b/src/tools/unicode-query.cpp
index 9a286b8..669716b 100644
--- a/src/tools/unicode-query.cpp
+++ b/src/tools/unicode-query.cpp
@@ -102,7 +102,7 @@ optional<char32_t> parseChar(std::string_view text)
 
     auto value = uint32_t {};
     auto const result = std::from_chars(text.data(), text.data() + text.size(), value, 16);
-    if (result.ptr != text.data() + text.size())
+    if (result.ec != std::errc {} || result.ptr != text.data() + text.size())
         return nullopt;
     return { static_cast<char32_t>(value) };
 }
-- 
2.43.0


From c061a0b63e6215c7b2e739d97086368955cd8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:05 +0000
Subject: [PATCH 25/28] fix: out could not be constructed from a
 std::reference_wrapper

std::reference_wrapper has no member value().
---
 src/libunicode/support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/support.h b/src/libunicode/support.h
index aef6926..fdc2614 100644
--- a/src/libunicode/support.h
+++ b/src/libunicode/support.h
@@ -37,7 +37,7 @@ template <typename T>
 class out
 {
   public:
-    constexpr out(std::reference_wrapper<T> ref) noexcept: _ref { &ref.value() } {}
+    constexpr out(std::reference_wrapper<T> ref) noexcept: _ref { &ref.get() } {}
     constexpr explicit out(T& ref) noexcept: _ref { &ref } {}
     constexpr out(out const&) noexcept = default;
     constexpr out(out&&) noexcept = default;
-- 
2.43.0


From 44f2e2a78c1a9b5b6ffd87eae30ba627776d5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 26/28] fix: fs_array::clear destroyed elements that were
 assigned and destroyed again

The elements of the underlying array stay alive; reset them instead.
---
 src/libunicode/support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/support.h b/src/libunicode/support.h
index fdc2614..0934731 100644
--- a/src/libunicode/support.h
+++ b/src/libunicode/support.h
@@ -74,7 +74,7 @@ class fs_array
     constexpr void clear() noexcept
     {
         for (size_t i = 0; i < size_; ++i)
-            values_[i].~T();
+            values_[i] = T {};
         size_ = 0;
     }
 
-- 
2.43.0


From a5ac64afc3403ea7353d33cb48470d3b94bb0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 27/28] fix: fs_array::resize ignored its full capacity

---
 src/libunicode/support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libunicode/support.h b/src/libunicode/support.h
index 0934731..9341dd5 100644
--- a/src/libunicode/support.h
+++ b/src/libunicode/support.h
@@ -92,7 +92,7 @@ class fs_array
 
     constexpr void resize(size_t n) noexcept
     {
-        if (n < N)
+        if (n <= N)
             size_ = n;
     }
 
-- 
2.43.0


From 7d54219f6afeee97444bbe26086d70023181ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 28/28] fix: front and back of a mutable fs_array could not be
 compiled

---
 src/libunicode/support.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libunicode/support.h b/src/libunicode/support.h
index 9341dd5..06741f0 100644
--- a/src/libunicode/support.h
+++ b/src/libunicode/support.h
@@ -116,10 +116,10 @@ class fs_array
     constexpr T* data() noexcept { return values_.data(); }
     constexpr T const* data() const noexcept { return values_.data(); }
 
-    constexpr T& front() noexcept { return at(0); }
+    constexpr T& front() noexcept { return values_[0]; }
     constexpr T const& front() const noexcept { return at(0); }
 
-    constexpr T& back() noexcept { return at(size_ - 1); }
+    constexpr T& back() noexcept { return values_[size_ - 1]; }
     constexpr T const& back() const noexcept { return at(size_ - 1); }
 
   private:
-- 
2.43.0

