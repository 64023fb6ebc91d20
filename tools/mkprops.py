#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
L = "src/libunicode/"


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[L + f if "/" not in f else f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


p("C01", "UTF-8 round trip: every decoder inverts the encoder",
  "For every Unicode scalar value the encoders produce the one well-formed UTF-8 sequence, and for every string of scalar values all "
  "decoders (byte-at-a-time, bulk to UTF-32 and UTF-16, iterator based, C stream converter) return exactly that string. "
  "Between the bytes of one character a streaming decoder reports 'incomplete', and a character exactly at its last byte.",
  ["inputs", "histories"], "all 1,112,064 scalar values; all strings over them; every split of the byte stream into calls",
  "Tests decode a handful of characters; the guarantee is over every scalar value at every encoded length and every neighbouring character.",
  ["utf8.h", "utf8.cpp", "convert.h", "convert.cpp", "convert_simd_impl.h", "capi.cpp"],
  [("byte-wise decoder state machine", L + "utf8.cpp from_utf8"), ("encoder/decoder templates", L + "convert.h"),
   ("bulk conversion", L + "convert_simd_impl.h")],
  ["to_utf8", "from_utf8", "convert_to", "u8u32_stream_convert_run", "u32u8_convert"],
  [("decoder state", "bytes seen and bytes announced of the sequence in progress", L + "utf8.h utf8_decoder_state")])

p("C02", "UTF-8 streaming decoder resynchronises after malformed bytes",
  "The byte-at-a-time decoder is total on arbitrary bytes: a byte that cannot start a character (0x80..0xBF, 0xF8..0xFF) at a character boundary is reported "
  "invalid and leaves the decoder at a boundary, and a lead byte (0xC0..0xF7) arriving inside a sequence is reported invalid once and itself starts the next "
  "sequence, so that the character it introduces is still decoded. A result never depends on anything before the last lead byte, and after any byte string the decoder needs at most three more bytes to be at a boundary again.",
  ["inputs", "histories"], "all byte strings of any length, from every decoder state",
  "Tests feed four hand-written malformed strings; the claim is about every byte in every decoder state.",
  ["utf8.h", "utf8.cpp"], [("lead-byte restart", L + "utf8.cpp from_utf8")], ["from_utf8(state, byte)", "from_utf8i", "from_utf8(bytes, &size)"],
  [("decoder state", "bytes seen and bytes announced", L + "utf8.h utf8_decoder_state")])

p("C03", "Whole-buffer conversions stay in bounds and agree on every byte string",
  "For every input, well formed or not, truncated anywhere, conversion between UTF-8, UTF-16, UTF-32 and wide strings terminates and reads only the input; on well-formed input all overloads agree, "
  "and on malformed UTF-8 the whole-buffer conversions to UTF-32 and UTF-16 yield exactly what the byte-stream converter yields byte by byte. "
  "UTF-16 output never contains a surrogate that is not part of a pair: surrogate code points and values above U+10FFFF are dropped, and unpaired surrogates in UTF-16 input are skipped.",
  ["inputs"], "all byte, UTF-16 and UTF-32 strings, including truncated ones and ones ending at an unreadable page",
  "Tests check three malformed UTF-16 strings; out-of-bounds reads and differences between overloads need specific endings and neighbours.",
  ["convert.h", "convert.cpp", "convert_simd_impl.h", "utf8.h"],
  [("generic conversion loop", L + "convert.h convert_to"), ("surrogate filtering", L + "convert.h encoder<char16_t>/decoder<char16_t>")],
  ["convert_to<T>(basic_string_view<S>)", "convert_to<T>(view, iterator)", "from_utf8(string_view)"])

p("C04", "Vector width and input alignment never change a conversion or scan result",
  "Bulk UTF-8 conversion and text scanning give identical results for every supported vector width (128, 256, 512 bit, and the build without vector code), for every length, alignment and position "
  "of the first non-ASCII or control byte, and never touch memory outside the given buffers.",
  ["inputs", "configurations"], "every vector width the CPU offers x every input length and every position/kind of the first special byte x column limits",
  "Tests run on the one width the build machine selects and sample a few lengths.",
  ["scan.cpp", "scan_simd_impl.h", "scan256.cpp", "scan512.cpp", "convert.cpp", "convert_simd_impl.h", "convert256.cpp", "convert512.cpp", "intrinsics.h", "simd_detector.cpp"],
  [("width dispatch", L + "scan.cpp, " + L + "convert.cpp"), ("vector loops", L + "scan_simd_impl.h, " + L + "convert_simd_impl.h"), ("intrinsics wrappers", L + "intrinsics.h")],
  ["scan_text", "convert_to<char32_t>", "convert_to<char16_t>", "from_utf8(string_view)"])

p("C05", "Grapheme cluster boundaries follow UAX #29 for every string",
  "For every sequence of code points the grapheme segmenter breaks exactly where the extended grapheme cluster rules of UAX #29 (GB1-GB999, including Hangul syllables, Indic conjuncts, emoji ZWJ "
  "sequences and regional-indicator pairs) put a boundary, and its clusters tile the text in order without loss. "
  "The incremental interface, the range interface and the C counting functions agree on all boundaries.",
  ["inputs", "histories"], "all code point strings; every code point in every segmentation context",
  "Tests replay a list of sample strings; the rules quantify over unbounded context (regional-indicator parity, conjunct and ZWJ look-back) and all 1.1 million code points.",
  ["grapheme_segmenter.h", "grapheme_segmenter.cpp", "capi.cpp", "codepoint_properties.h"],
  [("rule cascade with carried state", L + "grapheme_segmenter.cpp grapheme_process_breakable"), ("range iterator", L + "grapheme_segmenter.h grapheme_segmenter")],
  ["grapheme_process_init/grapheme_process_breakable", "grapheme_segmenter", "u32_gc_count", "u32_grapheme_unbreakable"],
  [("segmenter state", "previous code point's properties, RI parity, conjunct and emoji look-back", L + "grapheme_segmenter.h grapheme_segmenter_state")])

p("C06", "UTF-8 grapheme iteration equals grapheme segmentation of the decoded text",
  "Iterating the grapheme clusters of a UTF-8 string yields, in order, exactly the clusters of the decoded code points, where each malformed piece reported by the decoder, including an incomplete sequence at the end, counts as U+FFFD; "
  "concatenating the clusters gives back the decoded text, and copies of an iterator advance independently.",
  ["inputs", "histories"], "all UTF-8 and malformed byte strings; any interleaving of copies and increments",
  "Tests iterate two strings.", ["utf8_grapheme_segmenter.h", "grapheme_segmenter.cpp", "utf8.cpp"],
  [("look-ahead iterator", L + "utf8_grapheme_segmenter.h")], ["utf8_grapheme_segmenter::begin/end", "iterator ++, *, =="])

p("C07", "Word boundaries follow UAX #29 for every string",
  "For every sequence of code points the word segmenter breaks exactly where the word boundary rules of UAX #29 (WB1-WB999, including ignored Extend/Format/ZWJ, look-ahead over letters and numbers, "
  "regional-indicator pairs and runs of blanks) put a boundary. The words tile the text in order, none is empty, and iteration ends exactly at the end of the text.",
  ["inputs"], "all code point strings; every code point in every word-break context",
  "Tests use sample sentences; the rules look across unbounded runs of ignored characters in both directions.",
  ["word_segmenter.h", "word_segmenter.cpp"], [("rule cascade with look-ahead", L + "word_segmenter.cpp"), ("range iterator", L + "word_segmenter.h")],
  ["word_segmenter"], [("segmenter state", "effective previous classes, RI parity, transparent characters seen", L + "word_segmenter.h")])

p("C08", "Per-code-point column width follows the documented classification",
  "For every 32-bit code point the column width is 0 for controls, combining and enclosing marks, format characters other than prepended ones and SOFT HYPHEN, line and paragraph separators, surrogates and Hangul vowel/trailing jamo, 2 for wide, fullwidth and default-emoji characters, and 1 otherwise; "
  "values beyond U+10FFFF get the width of the table's fallback entry (that of U+0000) and never read outside the tables.",
  ["inputs"], "all code points 0..10FFFF and all larger 32-bit values",
  "Tests sample some dozens of code points out of 1.1 million.",
  ["width.cpp", "codepoint_properties.h", "src/libunicode/tablegen/multistage_generator.cpp"],
  [("width derivation", L + "tablegen/multistage_generator.cpp"), ("multistage lookup", L + "codepoint_properties.h get")], ["width(char32_t)", "codepoint_properties::get().char_width"])

p("C09", "Cluster width is one incremental measure shared by every entry point",
  "The width of a grapheme cluster is determined code point by code point by the documented rules (VS15/VS16 only on emoji variation bases, ZWJ consuming its successor, regional-indicator pairs, skin tones absorbed, "
  "spacing marks and virama conjuncts two columns, otherwise sums) and never is negative; a reset starts afresh. "
  "Measuring a cluster at once, measuring it incrementally, measuring UTF-8 text cluster by cluster, and the C width functions all give the same number.",
  ["inputs", "histories"], "all code point sequences fed to the measure in any state, all UTF-8 texts",
  "Tests compare sample clusters; the measure carries eight state components whose combinations tests do not enumerate.",
  ["width.h", "width.cpp", "capi.cpp"], [("width accumulator", L + "width.cpp grapheme_cluster_width_accumulator::push")],
  ["grapheme_cluster_width_accumulator", "grapheme_cluster_width", "u8_gc_width", "u32_gc_width"],
  [("accumulator", "closed total, open segment, last measured character, pending ZWJ/virama/RI run", L + "width.h")])

p("C10", "Text scanning never exceeds the column limit and stops exactly at controls",
  "A scan consumes text up to the first C0 control, the first C1 control byte at a character boundary, the end of input, or the first cluster that would exceed the column limit; "
  "the reported column count never exceeds the limit. The reported range is exactly the consumed input except for the bytes of one incomplete trailing character, which the resume position includes.",
  ["inputs"], "all byte strings x all column limits, fresh scanner",
  "Tests try a few strings with one or two limits; put-back of clusters that grow, malformed input at the limit and controls inside sequences need combinations.",
  ["scan.h", "scan.cpp", "scan_simd_impl.h"], [("ASCII/complex alternation", L + "scan.cpp scan_text"), ("cluster put-back", L + "scan.cpp scan_for_text_nonascii")],
  ["scan_text result {count,start,end}, scan_state.next"])

p("C11", "Text scanning is independent of chunk boundaries",
  "Feeding contiguous text to the scanner in any sequence of chunks, cut anywhere even inside a character, and resuming after every column-limited stop, consumes the same text and yields the same total column count as scanning the line at once; "
  "for well-formed text without controls and DEL that total equals the cluster width of the text. (Two stated exceptions concern only the column total: columns already reported by an earlier call are not taken back when VS15 narrows a cluster, and a cluster whose ASCII base or first part has been reported cannot be put back whole.) A cluster that was put back because it did not fit is scanned on resumption exactly as if it stood at the start of the text.",
  ["inputs", "histories"], "all byte strings x all splits into chunks x all column limits per call",
  "Tests split two strings once; drift appears only for particular clusters at particular split points and limits.",
  ["scan.h", "scan.cpp"], [("carried scan state", L + "scan.h scan_state"), ("resumption of partial characters", L + "scan.cpp scan_text")],
  ["scan_text called repeatedly with one scan_state"],
  [("scan_state", "UTF-8 decoder, segmentation context, open cluster's width, columns already reported, resume position", L + "scan.h")])

p("C12", "Scan receivers see every cluster once, in order, whole",
  "During a scan the callback receiver is given ASCII runs, clusters and invalid notices in text order, covering exactly the reported text once; each malformed sequence is announced exactly once and its bytes are never delivered as a cluster, "
  "no incomplete character is delivered, and each delivered cluster of a non-ASCII run is a complete grapheme cluster with its full width. Receiving or not receiving callbacks does not change the scan result.",
  ["inputs", "histories"], "all byte strings x limits x chunkings",
  "Tests collect callbacks for one two-cluster string; the malformed-input callback test is disabled.",
  ["scan.h", "scan.cpp"], [("receiver dispatch", L + "scan.cpp flushOpenCluster")], ["grapheme_cluster_receiver callbacks"])

p("C13", "Normalization produces the UAX #15 normal form of every string",
  "For every string the four normalization functions return exactly the NFC, NFD, NFKC or NFKD form defined by UAX #15 (full decomposition, stable canonical ordering, composition with blocking and exclusions, algorithmic Hangul), "
  "in UTF-32 and UTF-8 alike. Normalizing is idempotent, and the forms of equivalent strings are identical.",
  ["inputs"], "all strings: every code point alone, every composing pair, arbitrary mark sequences",
  "Tests normalise a few sample strings; ordering, blocking and composition interact over arbitrary mark sequences.",
  ["normalization.h", "normalization.cpp", "src/libunicode/tablegen/case_norm_generator.cpp"],
  [("decompose/reorder/compose pipeline", L + "normalization.cpp normalize"), ("generated tables", L + "tablegen/case_norm_generator.cpp")],
  ["normalize", "to_nfc/to_nfd/to_nfkc/to_nfkd"])

p("C14", "Normalization checks are sound and agree with normalization",
  "The quick check answers Yes only for strings that are in the form and No only for strings that are not, follows the per-code-point quick-check properties and combining classes, and never answers Maybe for the decomposed forms; those properties, the decomposition mappings and types and the composition exclusions of every code point are those of the Unicode Character Database. "
  "The full check is true exactly when normalizing leaves the string unchanged, and equivalence tests are true exactly when the normal forms coincide.",
  ["inputs"], "all strings and pairs of strings in all four forms",
  "Tests check few strings and forms.", ["normalization.h", "normalization.cpp"],
  [("quick check scan", L + "normalization.cpp quick_check"), ("full check", L + "normalization.cpp is_normalized")],
  ["quick_check", "is_normalized", "is_canonically_equivalent", "is_compatibility_equivalent", "nf*_quick_check", "canonical_combining_class"])

p("C15", "Streaming normalization equals batch normalization",
  "For every text and every way of feeding it (code point by code point, or UTF-8 in arbitrary chunks cut inside characters), the concatenated output of the streaming normalizers up to and including the flush equals the batch normalization of the whole text, with malformed UTF-8 replaced by U+FFFD. "
  "Flush and reset leave no trace: what is fed afterwards is normalized as a new text.",
  ["inputs", "histories"], "all strings x all chunkings x sequences of feed, flush and reset",
  "Tests stream a few strings; segment boundaries are wrong only for particular characters after particular marks.",
  ["normalization.h", "normalization.cpp"], [("safe boundary detection", L + "normalization.cpp normalizer::is_boundary"), ("UTF-8 wrapper", L + "normalization.cpp utf8_normalizer")],
  ["normalizer::feed/flush/reset", "utf8_normalizer::feed/flush/reset"],
  [("pending segment", "code points buffered since the last boundary", L + "normalization.h normalizer")])

p("C16", "Case mappings of every code point match the Unicode Character Database",
  "For every code point the simple and full upper, lower, title and fold mappings and the case-related predicates equal those of the Unicode Character Database, code points without a mapping map to themselves, "
  "and values outside the code space are left alone. Cased means an upper, lower or titlecase letter; case-ignorable a mark, format, modifier letter or symbol or a mid-word punctuation; "
  "a changes-when predicate holds exactly where the simple or the full mapping is not the identity.",
  ["inputs"], "all code points, every mapping and predicate", "Tests check a few dozen characters.",
  ["case_mapping.h", "case_mapping.cpp", "src/libunicode/tablegen/case_norm_generator.cpp"],
  [("generated mapping tables", L + "tablegen/case_norm_generator.cpp"), ("lookup", L + "case_mapping.cpp")],
  ["simple_*case", "to_*case_full", "fold_case", "is_cased, is_case_ignorable, changes_when_*"])

p("C17", "String case operations are the per-code-point mappings applied in place",
  "Upper-casing, lower-casing and folding a string gives the concatenation of the full mappings of its code points; title-casing maps the first cased letter of every word with the title mapping, lower-cases the later cased letters of the word and leaves everything else alone. "
  "Caseless comparison is a total order consistent with comparing folded strings, equality is its zero set, and the UTF-8 variants agree with the UTF-32 ones.",
  ["inputs"], "all strings and pairs of strings", "Tests use a few words.",
  ["case_mapping.h", "case_mapping.cpp", "word_segmenter.cpp"], [("string mapping loops", L + "case_mapping.cpp")],
  ["to_uppercase", "to_lowercase", "to_titlecase", "casefold", "casefold_compare", "casefold_equals"])

p("C18", "Emoji presentation runs follow the UTS #51 segmentation grammar",
  "For every sequence of code points the emoji segmenter's runs tile the text in order without gaps, overlaps or empty runs and always make progress; "
  "each run has the presentation that the UTS #51 segmentation grammar with longest match assigns to every token in it, and neighbouring runs have different presentations.",
  ["inputs"], "all code point strings; every code point in every scanner context",
  "Tests use sample sequences; longest match needs look-ahead and backtracking across arbitrary runs.",
  ["emoji_segmenter.h", "emoji_segmenter.cpp", "emoji_presentation_scanner.rl", "emoji_presentation_scanner.c"],
  [("generated scanner", L + "emoji_presentation_scanner.c"), ("run merging", L + "emoji_segmenter.cpp consume_once/consume")], ["emoji_segmenter::consume"])

p("C19", "Script runs tile the text and resolve shared characters by script extensions",
  "For every sequence of code points the script segmenter's runs tile the text in order without gaps or empty runs. Each run is the longest stretch whose constraining characters (those whose script extensions are not merely Common or Inherited) have a script in common; characters that constrain nothing never split a run. "
  "The reported script is one that every constraining character of the run permits, and Common if none of them constrains.",
  ["inputs"], "all code point strings", "Tests segment a few multi-script strings.",
  ["script_segmenter.h", "script_segmenter.cpp"], [("script set intersection", L + "script_segmenter.cpp mergeSets")], ["script_segmenter::consume"])

p("C20", "Combined runs are the common refinement of the component segmentations",
  "For every text the combined run segmenter yields ranges that tile the text in order without gaps or empty ranges; a range ends exactly where at least one component segmentation ends, and carries for each component the property of the component run that contains it.",
  ["inputs"], "all code point strings", "Tests segment a few strings.",
  ["run_segmenter.h", "script_segmenter.cpp", "emoji_segmenter.cpp"], [("minimum-position merge", L + "run_segmenter.h basic_run_segmenter")], ["run_segmenter::consume"])

p("C21", "Code point property record equals the Unicode Character Database",
  "For every code point the combined property record (script, grapheme and word break class, East Asian width, general category, age, Indic conjunct class, emoji segmentation category, emoji/ZWJ/virama/variation flags) equals the value derived from the Unicode Character Database, "
  "unlisted code points get the default values of their properties (East Asian width Narrow, script Unknown, general category Unassigned, break classes Other), and every value outside the code space yields the table's fallback record, that of U+0000.",
  ["inputs"], "all 1,114,112 code points and values beyond", "Tests look up some dozens of code points; a wrong table block is invisible elsewhere.",
  ["codepoint_properties.h", "codepoint_properties.cpp", "multistage_table_view.h", "multistage_table_generator.h", "src/libunicode/tablegen/multistage_generator.cpp", "src/libunicode/tablegen/ucd_parser.cpp"],
  [("UCD parser and table generator", L + "tablegen/"), ("multistage lookup", L + "multistage_table_view.h")], ["codepoint_properties::get"])

p("C22", "UCD query functions equal the Unicode Character Database everywhere",
  "For every code point the range-based queries (plane, block, script, script extensions, general category, core properties, grapheme break, East Asian width, emoji properties, bidi mirroring) equal the Unicode Character Database, "
  "agree with the combined property record inside all ranges the database lists, and give their default (the first or Unspecified/Unknown/Unassigned enumerator, no value, or the code point itself) outside of them and beyond the code space.",
  ["inputs"], "all code points and values beyond, every property and every property value", "Tests sample some code points of some properties.",
  ["src/libunicode/tablegen/ucd_api_generator.cpp", "src/libunicode/tablegen/ucd_parser.cpp", "src/libunicode/tablegen/enum_generator.cpp", "ucd_private.h"],
  [("range binary search", L + "ucd_private.h"), ("API generator", L + "tablegen/ucd_api_generator.cpp")],
  ["plane, block, script, script_extensions, general_category::get, contains, is_emoji*, is_mirrored, bidi_mirroring_glyph, make_age"])

p("C23", "C interface: counts, widths and conversions honour their size contracts",
  "The C functions equal their C++ counterparts on every input including empty ones; UTF-32 to UTF-8 conversion writes exactly the encoding if and only if it fits the destination (an exact fit succeeds), otherwise reports failure, and never writes past the destination. "
  "Byte-stream converters are independent of each other, store an output exactly when a character completes, and otherwise leave the output untouched. "
  "The header serves C programs, and its macros tell scalar values from other values and handle each spare bit of a word without touching the others.",
  ["inputs", "histories"], "all inputs x all destination sizes x interleavings of several converters",
  "Tests call two C functions with generous buffers.", ["capi.h", "capi.cpp"], [("C wrappers", L + "capi.cpp")],
  ["u32_gc_count, u8_gc_count, u32_gc_width, u8_gc_width, u32_grapheme_unbreakable, u8u32_stream_convert_*, u32u8_convert"])

p("C24", "Hangul decomposition and composition are mutually inverse",
  "Every Hangul syllable decomposes into its leading, vowel and optional trailing jamo and composing these gives the syllable back; no other code points decompose or compose algorithmically, "
  "and normalization of any sequence of jamo and syllables agrees with this algebra.",
  ["inputs"], "all syllables, all jamo triples, all jamo/syllable strings", "Tests check a few syllables; boundary jamo are special.",
  ["normalization.h", "normalization.cpp"], [("Hangul arithmetic", L + "normalization.cpp")], ["hangul_decompose", "hangul_compose", "is_hangul_*", "to_nfc", "to_nfd"])

p("C25", "Names and textual forms of properties are faithful",
  "Every code point reports the name the Unicode Character Database gives it (or none), every enumeration value formats to its own identifier by stream and by format alike (a value without enumerator streams as its number in parentheses), ages are ordered as versions, and parsing a version string yields the age it names and nothing for any other string.",
  ["inputs"], "all code points; all enumeration values; all version strings", "Tests do not look at names at all and at two ages.",
  ["codepoint_properties.cpp", "src/libunicode/tablegen/multistage_generator.cpp", "src/libunicode/tablegen/enum_generator.cpp"],
  [("name table", L + "tablegen/multistage_generator.cpp"), ("enum printers", L + "tablegen/enum_generator.cpp")], ["codepoint_properties::name", "operator<<", "std::format", "make_age"])

p("C26", "Multistage tables reproduce the table they were built from",
  "For every source table, of any size, content and block size, that fits the element types of the stages, the generated multistage table returns for every index exactly the source's element, and the element of the given fallback index (by default the first) for indices beyond the maximum; a source that does not fit is rejected.",
  ["inputs", "programs"], "all source functions over all index ranges and block shapes", "No test exercises the generator; only its one product is sampled.",
  ["multistage_table_generator.h", "multistage_table_view.h"], [("block deduplication", L + "multistage_table_generator.h"), ("two/three stage lookup", L + "multistage_table_view.h")], ["generate / multistage_table_view::get"])

p("C27", "unicode-query prints exactly what the library computes for its arguments",
  "For every list of arguments unicode-query prints, completely and in order, the grapheme clusters, the script and presentation runs or the properties of the code points that its arguments stand for, and ends normally: "
  "text appears verbatim except that control codes (with -e everything that is not printable ASCII, and the quote) appear as \\xHH, options end at the first other argument or at --, an unknown option gives the usage and a failure status, "
  "and an argument that is no code point is reported on standard error without disturbing the others.",
  ["inputs"], "all argument lists, all byte strings without NUL as texts, every code point by number", "The tool has no tests.",
  ["src/tools/unicode-query.cpp"], [("argument parsing", "src/tools/unicode-query.cpp showGraphemeClusters, showRuns, parseChars"), ("printing", "src/tools/unicode-query.cpp showCodepointProperties")],
  ["stdout, stderr and status of unicode-query"])

p("C28", "Segmenters, iterators and incremental states are independent values",
  "A segmenter, iterator or incremental state (grapheme, word, UTF-8 cluster, emoji, script and run segmenters; decoder, width, scanning and normalization states) is a value: copied, assigned, moved, swapped or returned by "
  "post-increment, each object goes on from its own position, and what it answers is what one uninterrupted run over its text answers there, whatever other objects do in between. "
  "Equality is an equivalence: grapheme and word segmenters are equal exactly at the same segment of the same text or when neither has code points left; UTF-8 iterators exactly at the same position of the same text.",
  ["histories", "inputs"], "all histories of constructions, copies, assignments, moves, swaps and steps of several objects over all texts",
  "Tests run one object from the beginning to the end of a text; copies, comparisons and interleaved use are not exercised.",
  ["grapheme_segmenter.h", "word_segmenter.h", "utf8_grapheme_segmenter.h", "emoji_segmenter.h", "script_segmenter.h", "run_segmenter.h", "scan.h", "width.h", "normalization.h", "utf8.h"],
  [("equality and availability", L + "grapheme_segmenter.h, " + L + "word_segmenter.h operator==, codepointsAvailable"), ("iterator protocol", L + "utf8_grapheme_segmenter.h iterator")],
  ["operator++, operator*, operator==, copy and assignment, consume, feed"])

p("C29", "Concurrent threads using the library do not influence each other",
  "The library has no mutable state shared between calls: threads that use segmenters, states, conversions, normalization, case mapping, queries, scanning and the C functions on objects of their own at the same time, "
  "from the very first call on, get exactly the answers they get alone, and there is no data race.",
  ["schedules", "histories"], "all interleavings of threads using any of the functions on objects of their own, including the first use of everything",
  "Tests are single threaded; a cache or a lazily built table passes them all.",
  ["ucd.h", "codepoint_properties.h", "convert.cpp", "scan.cpp", "normalization.cpp", "case_mapping.cpp", "capi.cpp", "width.cpp", "grapheme_segmenter.cpp", "word_segmenter.cpp", "emoji_segmenter.cpp", "script_segmenter.cpp"],
  [("dispatch by vector width, found out at the first call", L + "convert.cpp, " + L + "scan.cpp"), ("constant tables", L + "codepoint_properties.h configured_tables")],
  ["all public functions"])

p("C30", "The generated tables follow whatever Unicode data files they are built from",
  "Built from a directory of Unicode data files in the published format, of the shipped version or another one, the library answers as those files say wherever it answers from generated data: "
  "record and range properties, widths, names, enumerations, case mappings, normalization data, break classes, emoji categories and scripts of every code point. "
  "Other versions may have new characters anywhere, new mappings, compositions, blocks, scripts, ages and property values, changed properties, and ranges written in other parts; "
  "the rules of the algorithms and the code points Unicode fixes by number (keycap, tag and joiner characters, selectors, skin tones, Hangul syllables) stay.",
  ["inputs", "programs"], "all consistent sets of Unicode data files", "Tests see one version of the data; what the generator does with other characters, values and ranges is never run.",
  ["tablegen/ucd_parser.cpp", "tablegen/multistage_generator.cpp", "tablegen/ucd_api_generator.cpp", "tablegen/case_norm_generator.cpp", "tablegen/enum_generator.cpp", "multistage_table_generator.h"],
  [("parsing of the data files", L + "tablegen/ucd_parser.cpp"), ("tables and enumerations", L + "tablegen/multistage_generator.cpp, ucd_api_generator.cpp, case_norm_generator.cpp, enum_generator.cpp")],
  ["unicode_tablegen and every function of the library built with it"])

p("C31", "Bounded arrays and output parameters keep what is put into them",
  "A bounded array (fs_array) of any element type is a value that holds the sequence put into it by appending, resizing, clearing, writing and copying, never more elements than its capacity: appending to a full one and resizing beyond the capacity are refused and change nothing, "
  "resizing keeps the elements that remain, and every accessor shows the same elements. An output parameter (out) writes to and reads exactly the variable it was bound to, copies of it to the same one.",
  ["histories", "inputs"], "all histories of operations on several arrays of any capacity and element type; all histories of output parameters",
  "No test uses these types by themselves; their users fill an array once and never reach its capacity.",
  ["support.h"], [("bounded array", L + "support.h fs_array"), ("output parameter", L + "support.h out")], ["fs_array::push_back, resize, clear, begin, end, front, back, operator[]", "out"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
