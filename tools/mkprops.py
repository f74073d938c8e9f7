"""writes properties.jsonl (single source for the property texts)"""
import json, os
L = 'src/libunicode/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': [L + f for f in files], 'mechanism': [{'name': n, 'where': L + w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': L + w} for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    P.append(d)


p('C01', 'UTF-8 encoding of a code point is the standard form and decodes back',
  'Encoding any Unicode scalar value as UTF-8 yields exactly the one well-formed byte sequence the Unicode Standard assigns to it (1 to 4 bytes), through every encoding entry point. Feeding those bytes to either incremental UTF-8 decoder, starting between characters, yields nothing until the last byte and then exactly that scalar value, and leaves the decoder between characters again. No encoder call writes more than four bytes, whatever 32-bit value it is given.',
  ['inputs'], 'for every Unicode scalar value (and every 32-bit value for the length bound)',
  'The tests encode and decode a few dozen hand-picked characters; the length classes and their boundaries cover 1.1 million values.',
  ['utf8.h', 'utf8.cpp', 'convert.h'],
  [('UTF-8 encoder', 'utf8.cpp'), ('incremental UTF-8 decoder', 'utf8.cpp'), ('encoder/decoder templates for char', 'convert.h')],
  [('decoder state', 'expected length, bytes seen, accumulated bits', 'utf8.h')], ['decoder result', 'encoded bytes'])

p('C02', 'Bulk UTF-8 conversion equals byte-wise decoding for every SIMD width',
  'Converting a whole buffer from UTF-8 to UTF-32 or UTF-16 produces exactly the same code units as feeding its bytes one at a time to the streaming converter, for each of the vector widths (128, 256 and 512 bits) the library ships. No byte outside the input buffer is read. At most one output unit is written per input byte and nothing beyond the reported end of the output is touched.',
  ['inputs', 'configurations'], 'for every byte buffer of every length and content, and every vector width',
  'The tests convert a few short strings; the vectorised ASCII path has width-dependent block boundaries and tails, and tests run only the width the machine selects.',
  ['convert.h', 'convert_simd_impl.h', 'convert.cpp', 'convert256.cpp', 'convert512.cpp', 'intrinsics.h'],
  [('vector ASCII fast path', 'convert_simd_impl.h'), ('width dispatch', 'convert.cpp'), ('vector primitives', 'intrinsics.h')])

p('C03', 'UTF-16 encoding round-trips and string conversion stays inside its input',
  'Encoding any scalar value as UTF-16 yields the standard one- or two-unit form, and decoding that form with the UTF-16 decoder yields the value back; an unpaired surrogate delivers nothing. Converting a whole string between UTF-8, UTF-16 and UTF-32 never reads outside the input, whatever units it contains, including truncated sequences and unpaired surrogates at the end. For well-formed input the result is the standard encoding of the same scalar values.',
  ['inputs'], 'for every scalar value, and for every string of code units including ill-formed and truncated ones',
  'The tests convert a handful of well-formed strings; truncation at the end of the input and lone surrogates are not exercised.',
  ['convert.h', 'convert.cpp'], [('UTF-16 encoder and decoder', 'convert.h'), ('convert_to string conversion', 'convert.h')])

p('C04', 'Incremental UTF-8 decoding is total and resynchronises after errors',
  'The incremental UTF-8 decoder classifies every byte in every state as exactly one of: needs more input, complete, or invalid. A completed character has consumed between one and four bytes, and at most three consecutive bytes are reported incomplete. Whatever bytes came before, a well-formed character that begins at the next byte is decoded correctly: its first byte ends any unfinished character, and its last byte delivers exactly its value. The same holds for the decoder behind the string conversions, which delivers nothing for incomplete and invalid input.',
  ['inputs', 'histories'], 'for every byte sequence and every split of it into pieces',
  'Tests feed a few fixed sequences; totality and resynchronisation quantify over all byte histories.',
  ['utf8.h', 'utf8.cpp', 'convert.h'], [('from_utf8 state machine', 'utf8.cpp'), ('decoder template for char', 'convert.h')],
  [('decoder state', 'expected length, bytes seen, accumulated bits', 'utf8.h')])

p('C05', 'Grapheme break decisions follow UAX #29 for every code point history',
  'Fed a sequence of code points one at a time, the grapheme state machine reports a boundary before a code point exactly when the UAX #29 rules GB1 to GB999 (including GB9c, GB11 and the regional-indicator rules) for Unicode 15.1 put one there, given the whole preceding text. This holds whether or not the caller restarts the machine at a reported boundary. Values above U+10FFFF are treated like U+0000.',
  ['inputs', 'histories'], 'for every sequence of code points of every length',
  'The conformance tests use fixed short sequences; the rules depend on unbounded left context and on the property record of all 1.1 million code points.',
  ['grapheme_segmenter.h', 'grapheme_segmenter.cpp', 'codepoint_properties.h'],
  [('break decision', 'grapheme_segmenter.cpp'), ('property lookup', 'codepoint_properties.h')],
  [('segmenter state', 'previous code point and record, RI parity, Indic and pictographic context', 'grapheme_segmenter.h')])

p('C06', 'Grapheme segmentation partitions the text at exactly the UAX #29 boundaries',
  'Iterating the UTF-32 grapheme segmenter over a text yields non-empty consecutive clusters that start at the beginning, are contiguous, and end at the end of the text; boundaries between them are exactly those at which the break machine reports a boundary. Nothing outside the text is read, and the iteration reports exhaustion exactly when the end has been reached.',
  ['inputs'], 'for every text of every length, including the empty one',
  'Unit tests iterate a few literal strings; the partition property quantifies over all texts and all iteration positions.',
  ['grapheme_segmenter.h', 'grapheme_segmenter.cpp'], [('segmenter increment', 'grapheme_segmenter.h')],
  [('left/right/end', 'current cluster and end of text', 'grapheme_segmenter.h')])

p('C07', 'UTF-8 grapheme iteration equals decoding first and segmenting after',
  'Iterating the UTF-8 grapheme segmenter over a byte string yields the clusters obtained by decoding the bytes to code points with the incremental decoder (every byte it rejects giving U+FFFD, and the bytes after the last delivered code point, if any, giving one U+FFFD) and segmenting those by the UAX #29 boundaries, and the iteration ends exactly when all input has been delivered. No byte outside the string is read.',
  ['inputs'], 'for every byte string, well-formed or not',
  'Tests use a few well-formed literals; ill-formed and truncated input and arbitrary lengths are unexplored.',
  ['utf8_grapheme_segmenter.h', 'utf8.cpp', 'grapheme_segmenter.cpp'], [('cluster consumption', 'utf8_grapheme_segmenter.h')],
  [('iterator', 'read position, look-ahead code point, current cluster', 'utf8_grapheme_segmenter.h')])

p('C08', 'Word segmentation partitions the text at exactly the UAX #29 word boundaries',
  'Iterating the word segmenter yields non-empty contiguous segments covering the text, and a boundary lies between two code points exactly when the UAX #29 word boundary rules WB3 to WB999 for Unicode 15.1 (with the rule that Extend, Format and ZWJ are transparent) put one there. The look-ahead never reads beyond the end of the text.',
  ['inputs', 'histories'], 'for every text of every length',
  'The tests use fixed phrases; the rules look through unbounded runs of transparent characters in both directions.',
  ['word_segmenter.h', 'word_segmenter.cpp'], [('word break decision', 'word_segmenter.cpp'), ('segmenter increment', 'word_segmenter.h')],
  [('segmenter state', 'previous significant classes, RI parity, transparency flag', 'word_segmenter.h')])

p('C09', 'Display width of a grapheme cluster follows the documented algorithm',
  'The width reported for a grapheme cluster is a function of its code points alone, computed left to right by the documented rules (base width, variation selectors, spacing marks, viramas, emoji modifiers and ZWJ sequences). The incremental measurement after each code point equals those rules applied to the code points so far, so it agrees with the one-shot measurement of the same code points. The empty cluster has width zero.',
  ['inputs', 'histories'], 'for every code point sequence of every length',
  'Tests measure a few dozen literal clusters; the algorithm is stateful over unbounded clusters.',
  ['width.h', 'width.cpp'], [('cluster width', 'width.cpp')])

p('C10', 'Column width of every code point follows its Unicode properties',
  'The width of a single code point is 0 for control, format, enclosing, non-spacing and spacing marks, line and paragraph separators, surrogates and Hangul medial vowels and final consonants (Hangul_Syllable_Type V and T); otherwise 2 when it has default emoji presentation or East Asian Width Wide or Fullwidth; otherwise 1. As documented, the soft hyphen and the prepended concatenation marks are exceptions among the format characters: their width is 1.',
  ['inputs'], 'for every code point', 'Tests sample a few dozen code points of 1.1 million.',
  ['width.h', 'width.cpp', 'codepoint_properties.h', 'tablegen/multistage_generator.cpp'], [('width lookup', 'width.cpp'), ('width column generation', 'tablegen/multistage_generator.cpp')])

p('C11', 'Normalisation of a string equals the UAX #15 algorithm',
  'For each of the four forms, normalising a string yields exactly the UAX #15 result for Unicode 15.1: full (compatibility) decomposition, canonical ordering, and for the composed forms canonical composition. This covers strings with arbitrarily long runs of combining marks and strings beginning with combining marks.',
  ['inputs'], 'for every string of Unicode scalar values and each of NFC, NFD, NFKC, NFKD',
  'Tests normalise short literals; ordering and blocking depend on unbounded runs of marks.',
  ['normalization.h', 'normalization.cpp', 'tablegen/case_norm_generator.cpp'],
  [('decomposition', 'normalization.cpp'), ('canonical ordering', 'normalization.cpp'), ('composition', 'normalization.cpp')])

p('C12', 'Single code point decomposition, composition and combining class match the UCD',
  'For every code point the decomposition queries return the UCD decomposition mapping and type (the jamo sequence for a Hangul syllable, empty when there is none), normalising it alone yields its full recursive decomposition, and the canonical combining class, composition exclusion and full composition exclusion are the UCD values. Composing a pair yields the primary composite when Unicode defines one and nothing otherwise, for every pair, and composing the decomposition of a Hangul syllable returns the syllable.',
  ['inputs'], 'for every code point and every ordered pair of code points',
  'Tests check a handful of characters and pairs out of 10^12 pairs.',
  ['normalization.h', 'normalization.cpp', 'tablegen/case_norm_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('composition lookup and Hangul arithmetic', 'normalization.cpp'), ('decomposition tables', 'tablegen/case_norm_generator.cpp')])

p('C13', 'Normalisation quick check equals the UAX #15 quick-check algorithm',
  'The quick check of a string returns, for each form, exactly what the UAX #15 quick check algorithm returns: No when a code point has the No property value or a combining mark is out of order, otherwise Maybe when some code point has the Maybe value, otherwise Yes. In particular it never answers Yes for a string that normalisation would change.',
  ['inputs'], 'for every string and every form', 'Tests query a few short strings; order violations can occur anywhere in a string of any length.',
  ['normalization.h', 'normalization.cpp'], [('quick check', 'normalization.cpp')])

p('C14', 'Streaming normalisation equals normalising the whole text at once',
  'Feeding a text to the streaming normaliser in any sequence of pieces and then flushing yields, in concatenation, exactly the batch normalisation of the whole text, for every form, for the UTF-32 variant and, on well-formed UTF-8 split at any byte, for the UTF-8 variant; a reset normaliser behaves like a new one. No output is produced from data that later input could still change.',
  ['inputs', 'histories'], 'for every text, every form and every split of the text into pieces',
  'Tests push a few literals in one or two fixed splits.',
  ['normalization.h', 'normalization.cpp'], [('streaming normaliser', 'normalization.h')],
  [('pending buffer', 'code points since the last boundary', 'normalization.h')])

p('C15', 'Case mapping of every code point equals the Unicode default case mapping',
  'Simple upper, lower and title case mapping and simple folding of every code point equal the UCD single-code-point mappings, and full mappings equal the unconditional full mappings of the UCD (falling back to the simple mapping). A full mapping reports identity exactly when the character maps to itself, has at most three code points, and the queries whether a code point changes agree with the mappings.',
  ['inputs'], 'for every 32-bit value',
  'Tests check a few dozen characters of 1.1 million.',
  ['case_mapping.h', 'case_mapping.cpp', 'tablegen/case_norm_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('table lookup with binary search', 'case_mapping.cpp'), ('table generation', 'tablegen/case_norm_generator.cpp')])

p('C16', 'String case conversion is the concatenation of the per-character mappings',
  'Upper-casing, lower-casing or folding a UTF-32 string yields the concatenation, in order, of the full mapping of each code point. Title-casing applies, within each word segment, the title mapping to the first cased character, the lower-case mapping to later cased characters, and leaves others unchanged. Case-insensitive comparison orders strings exactly as their folded forms compare.',
  ['inputs'], 'for every string of every length', 'Tests convert short literals.',
  ['case_mapping.h', 'case_mapping.cpp'], [('string conversion loops', 'case_mapping.cpp')])

p('C17', 'The code point property record equals the UCD for every code point',
  'Looking up any 32-bit value reads only inside the generated tables; values above U+10FFFF yield the record of U+0000. For every code point the script, general category, grapheme and word break classes, Indic conjunct break, age, emoji flags, grapheme-extend, virama and variation-base flags and the East Asian width equal the Unicode 15.1 data.',
  ['inputs'], 'for every 32-bit value', 'Tests look up a few dozen code points.',
  ['codepoint_properties.h', 'codepoint_properties.cpp', 'multistage_table_view.h', 'multistage_table_generator.h', 'tablegen/multistage_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('two-stage lookup', 'multistage_table_view.h'), ('table generation', 'tablegen/multistage_generator.cpp')])

p('C18', 'The range-based property queries equal the UCD for every code point',
  'The free-standing queries for general category, script, script extensions, block, plane, grapheme break class, East Asian width, emoji properties, core properties, bidi mirroring and mirroring glyph return the Unicode 15.1 value for every code point and the documented default for code points without one, and never read outside their tables.',
  ['inputs'], 'for every 32-bit value', 'Tests look up a few dozen code points.',
  ['ucd.h', 'ucd.cpp', 'ucd_private.h', 'tablegen/ucd_api_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('interval binary search', 'ucd_private.h'), ('table generation', 'tablegen/ucd_api_generator.cpp')])

p('C19', 'Emoji segmentation partitions the text and always makes progress',
  'Repeatedly consuming from the emoji segmenter yields non-empty contiguous segments that together cover exactly the input, alternating presentation styles being constant within each reported segment; every scan consumes at least one code point while input is left and never reads or steps outside the input. Each scan takes the longest sequence matching the documented emoji and text presentation grammar (a text presentation sequence taking precedence, any other code point being text by itself), so an emoji sequence the grammar allows is never torn apart.',
  ['inputs'], 'for every text of every length', 'Tests consume a few literal strings.',
  ['emoji_segmenter.h', 'emoji_segmenter.cpp', 'emoji_presentation_scanner.c'], [('scanner loop', 'emoji_segmenter.cpp'), ('generated automaton', 'emoji_presentation_scanner.c')])

p('C20', 'Script segmentation partitions the text into runs of one script',
  'Consuming script runs yields non-empty contiguous runs covering the text; all code points of a run have a script compatible with the reported script, where Common and Inherited characters adapt to their run. Nothing outside the text is read and consuming stops exactly at the end.',
  ['inputs'], 'for every text of every length', 'Tests consume a few literals.',
  ['script_segmenter.h', 'script_segmenter.cpp'], [('script run scan', 'script_segmenter.cpp')])

p('C21', 'Run segmentation is the common refinement of its component segmentations',
  'Consuming runs yields non-empty contiguous runs covering the text whose boundaries are exactly the union of the boundaries of the component segmentations, each run carrying the properties all components report for it.',
  ['inputs'], 'for every text and component segmentation', 'Tests consume a few literals.',
  ['run_segmenter.h'], [('refinement loop', 'run_segmenter.h')])

p('C22', 'The vectorised ASCII scan finds exactly the leading printable ASCII prefix',
  'The ASCII scan of a byte buffer returns the length of the longest prefix of printable US-ASCII bytes, limited by the given column count and the buffer length, identically for every vector width the library ships, and reads no byte outside the buffer.',
  ['inputs', 'configurations'], 'for every buffer content, length, limit and vector width',
  'Tests run one width on short strings; block boundaries and tails are width-dependent.',
  ['scan.h', 'scan.cpp', 'scan_simd_impl.h', 'scan256.cpp', 'scan512.cpp', 'intrinsics.h'], [('vector scan', 'scan_simd_impl.h')])

p('C23', 'Text scanning measures columns of whole clusters and stops within bounds',
  'Scanning text never reports more columns than the limit, never reads outside the input, consumes input from its start without gaps, and reports the byte range it consumed. Scanning ASCII-only text reports exactly one column per printable byte up to the limit.',
  ['inputs', 'histories'], 'for every byte buffer, limit and scan state reachable by earlier scans',
  'Tests scan a few literals with a few limits.',
  ['scan.h', 'scan.cpp'], [('non-ASCII scan', 'scan.cpp')], [('scan state', 'decoder state, grapheme state, last code point', 'scan.h')])

p('C24', 'The C interface agrees with the C++ library and respects its buffers',
  'Through the C interface, cluster counting and width measurement give the values of the C++ segmentation and width algorithms, and zero for an empty text. Converting UTF-32 to UTF-8 writes exactly the standard encoding, never more than the stated capacity, succeeds whenever the result fits, and returns -1 otherwise.',
  ['inputs'], 'for every input, length and buffer capacity', 'Tests call each function on one or two literals.',
  ['capi.h', 'capi.cpp'], [('C wrappers', 'capi.cpp')])

p('C26', 'Generated multistage tables reproduce the source mapping',
  'For any source mapping over code points, the multistage tables built from it return, for every index up to the maximum, a value equal to the source value; indices above the maximum return the value of index zero.',
  ['inputs'], 'for every source mapping and every index', 'The generator is only run on the real UCD.',
  ['multistage_table_generator.h', 'multistage_table_view.h'], [('table construction', 'multistage_table_generator.h'), ('lookup', 'multistage_table_view.h')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P))
