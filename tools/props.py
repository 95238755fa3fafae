#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run it, then commit)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None, tech=None, note=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _tech=tech, _note=note, _na=na))

# ------------------------------------------------------------------ fribidi
p("B01", "Embedding levels follow the Unicode Bidirectional Algorithm",
  "For any sequence of bidi character types (with or without bracket information) and any requested paragraph direction, the resolved embedding level of every character and the resolved paragraph direction are those the Unicode Bidirectional Algorithm (UAX #9, rules P2 to L1 parts 1-3) prescribes, explicit formatting characters aside. The reported maximum level is the highest level actually assigned plus one, the result has one level per character, and the computation terminates without failing however deep the nesting of embeddings, isolates and brackets.",
  ["inputs"], "every sequence of bidi types/bracket types of any length, every base direction (LTR, RTL, ON, weak LTR, weak RTL)",
  "The tests replay a handful of short strings (CharsetCapRTL); the BidiTest/BidiCharacterTest conformance corpora are not part of the stable tests, and nesting, isolates, bracket pairing and depth overflow interact for unboundedly many sequences.",
  ["fribidi/bidi.go", "fribidi/run.go", "fribidi/brackets.go"],
  [("explicit levels and isolates (X1-X8)", "fribidi/bidi.go GetParEmbeddingLevels"), ("weak types W1-W7", "fribidi/bidi.go"), ("bracket pairs N0", "fribidi/bidi.go"), ("run lists", "fribidi/run.go")],
  ["GetParEmbeddingLevels return values and updated base direction"],
  tech="property-based testing: random structured type/bracket sequences against an independent UAX#9 reference implementation, choice-sequence shrinking")
p("B02", "Visual reordering of lines follows rules L1-L4 and is a permutation",
  "Reordering any line (any sub-range of a paragraph) permutes exactly the characters of that line as UAX #9 rules L1 (trailing whitespace), L2 and, when requested, L3 prescribe, applies the same permutation to the characters and to the index map, and changes nothing outside the line. The one-call logical to visual conversion returns the levels, the visual string (mirrored and shaped as requested) and a visual-to-logical map which all describe one same permutation, whose inversion is its exact inverse.",
  ["inputs"], "every text, paragraph direction, option set and line range of a paragraph",
  "Tests compare a few fixed strings on whole paragraphs; line offsets, marks reordering and maps over arbitrary levels are not reached.",
  ["fribidi/bidi.go", "fribidi/fridibi.go"],
  [("ReorderLine", "fribidi/bidi.go ReorderLine"), ("LogicalToVisual", "fribidi/fridibi.go LogicalToVisual"), ("inverse map", "fribidi/fridibi.go Visual.LogicalToVisual")],
  ["ReorderLine mutated slices and result", "LogicalToVisual result"],
  tech="property-based testing: random texts/levels/line ranges against a reference reorderer and permutation invariants")
p("B03", "Arabic joining, ligatures and mirroring follow the Unicode shaping rules",
  "For any text and levels, shaping replaces each Arabic letter by the presentation form its joining context requires, forms the mandatory lam-alef ligatures leaving a filler so that the length is unchanged, mirrors exactly the characters at odd levels that have a mirrored counterpart, and does each of these only when the corresponding option is set. Characters with no presentation form, no ligature and no mirror image are left unchanged, and mirroring is its own inverse.",
  ["inputs"], "every rune sequence, level assignment and option subset",
  "TestArabicShape/TestShape check a few words; the joining context depends on unbounded neighbourhoods (transparent marks, level changes, ignored characters).",
  ["fribidi/joining.go", "fribidi/arabic.go", "fribidi/shape.go", "fribidi/mirroring.go", "fribidi/fridibi.go"],
  [("joining", "fribidi/joining.go"), ("presentation forms and ligatures", "fribidi/arabic.go"), ("mirroring", "fribidi/mirroring.go"), ("Shape", "fribidi/shape.go")],
  ["LogicalToVisual result string", "Shape mutated string"],
  tech="property-based testing: random Arabic/mixed strings against a reference joining/shaping model built from UCD decompositions (x/text norm)")
p("B04", "Removing bidi marks keeps text, levels and position maps aligned",
  "Removing the bidirectional marks from a string keeps exactly the characters that are neither explicit embedding/override/isolate controls, boundary neutrals nor LRM/RLM marks, in their original order, and keeps each kept character's level. Both position maps afterwards describe the same bijection between kept positions and the other string, and map entries for removed characters are -1; any of the lists may be omitted without changing the others.",
  ["inputs"], "every string, level list and pair of mutually inverse position maps, each list present or absent",
  "No stable test calls it with maps.",
  ["fribidi/fridibi.go"],
  [("RemoveBidiMarks", "fribidi/fridibi.go RemoveBidiMarks")],
  ["RemoveBidiMarks result and mutated slices"],
  tech="property-based testing: random strings and permutations against a list-comprehension model")
p("B05", "Character properties agree with the Unicode database",
  "For every code point the bidirectional type, the paired bracket (with its opening or closing side) and the mirrored form agree with the Unicode Character Database; brackets pair up symmetrically. Type predicates (strong, weak, number, right-to-left, isolate, Arabic, letter) agree with the named class.",
  ["inputs"], "every Unicode code point",
  "The table tests check selected entries; here every code point is checked against an independent data source.",
  ["fribidi/fridibi.go", "fribidi/brackets.go", "fribidi/brackets_table.go", "fribidi/mirroring.go"],
  [("GetBidiType", "fribidi/fridibi.go GetBidiType"), ("GetBracket", "fribidi/brackets.go GetBracket")],
  ["GetBidiType, GetBracket, predicates"],
  tech="property-based testing: generated code points (plus full sweep) differential against x/text/unicode/bidi and a committed table snapshot derived from Python unicodedata")

# --------------------------------------------------------------- fontconfig
FC = "fontconfig/"
p("F01", "Character sets behave as mathematical sets of code points",
  "After any history of additions and deletions, a character set contains exactly the code points added and not deleted since; length, membership, subset test, difference count, equality and copying agree with ordinary sets whatever order the operations came in. Copies are independent of their original.",
  ["histories"], "every sequence of add/delete/copy operations on any code points, including page boundaries and high planes",
  "The tests use one fixed set; the paged representation has corner cases only reached by operation histories.",
  [FC+"charset.go"], [("paged bitmap", FC+"charset.go")], ["Charset.AddChar/DelChar/HasChar/Len/Copy", "matching and sorting results on charset"],
  tech="stateful model-based property testing: random operation sequences on Charset vs. map[rune] model")
p("F02", "Font sets survive a save/load round trip unchanged",
  "Writing any font set to the cache format and loading it back yields an equal font set: the same number of patterns in the same order, each with the same properties, value order, bindings and values of every type. The written form depends only on the content, so writing the same set twice gives the same loaded result. The same holds through cache files, which replace what was there.",
  ["inputs"], "every font set with patterns carrying any mix of value types and sizes (empty sets, long strings, matrices, ranges, charsets in every plane, language sets)",
  "The only test round-trips the fonts of one machine and is not in the stable set; corner values (empty charset, NaN-free floats, zero-length lists, custom properties) are never reached.",
  [FC+"cache.go"], [("Serialize", FC+"cache.go Fontset.Serialize"), ("LoadFontset", FC+"cache.go LoadFontset")], ["Serialize output / LoadFontset result"],
  tech="property-based testing: round trip on random font sets")
p("F03", "Loading a corrupted cache reports an error instead of misbehaving",
  "Loading any byte sequence either returns an error or returns a font set made only of valid values; it never panics, loops forever or allocates memory out of proportion with the input. A truncated valid cache is never silently accepted as if complete.",
  ["inputs", "fault_sequences"], "every byte sequence, in particular every truncation, bit flip, splice and re-compressed corruption of a valid cache",
  "Tests only load caches just written.",
  [FC+"cache.go"], [("LoadFontset and the value decoders", FC+"cache.go")], ["LoadFontset result"],
  tech="structured fuzzing: mutations of the (re-compressed) valid encodings and raw bytes; oracle = no panic/hang, valid values, error on truncation")
p("F04", "Patterns behave as ordered multi-maps with typed, isolated values",
  "After any history of adding, prepending, deleting and reading properties, a pattern holds for each property exactly the values added, in order, with typed getters returning the right value at the right index and type; values whose type does not fit a built-in property are never stored. A duplicated pattern has the same content and later changes to either do not show in the other.",
  ["histories"], "every sequence of pattern operations on built-in and custom properties with values of every type",
  "Tests check single calls.", [FC+"pattern.go", FC+"values.go"],
  [("Pattern.Add/Del/Get*", FC+"pattern.go"), ("type check", FC+"pattern.go addWithTable")], ["Pattern getters, Duplicate, String"],
  tech="stateful model-based property testing of Pattern vs. ordered multimap model")
p("F05", "Pattern identity: equal hash exactly when equal content",
  "Two patterns compare as identical by their hash if and only if they hold the same properties with the same values in the same order, regardless of how each was built. Differences in any single value, value order, type, or the split of strings between values are always visible.",
  ["inputs"], "pairs of patterns: equal ones built in different orders and near-equal ones differing by one edit",
  "Tests compare two fixed patterns.", [FC+"pattern.go", FC+"values.go", FC+"hash_tables.go"],
  [("Hash", FC+"pattern.go Pattern.Hash")], ["Pattern.Hash", "Fontset.List deduplication"],
  tech="property-based (metamorphic) testing: equal-by-construction and single-edit pattern pairs")
p("F06", "Matching returns the font with the best priority-ordered score",
  "For any non-empty font set and any (substituted) query, the match is the font whose vector of per-property distances, compared in the documented priority order, is smallest, and on a tie the earliest font in the set; a property absent from the query or the font does not count. The result does not depend on earlier queries, and neither the set nor the query is modified.",
  ["inputs"], "every font set and query over families, weights, slants, widths, sizes, languages, charsets, spacing, formats, file names, variable ranges",
  "Tests match a few names on the machine's fonts and are not in the stable set.",
  [FC+"match.go"], [("Fontset.Match", FC+"match.go"), ("per-property comparators", FC+"match.go"), ("font prepare", FC+"match.go PrepareRender")], ["Fontset.Match result"],
  tech="property-based testing: independent re-implementation of the distance functions/priorities as oracle, plus dominance metamorphic relations")
p("F07", "The prepared match combines font and query without losing either",
  "The pattern returned for rendering carries every property of the selected font, with the query's values chosen only where the font offers several or a range, plus every property the query has and the font lacks, after applying the configuration's font rules. Neither the font nor the query is modified.",
  ["inputs"], "every pair of query and font pattern, including variable fonts and multi-language names",
  "No stable test.", [FC+"match.go", FC+"config.go"], [("PrepareRender", FC+"match.go Config.PrepareRender")], ["PrepareRender result"],
  tech="property-based testing against a reference merge model")
p("F08", "Sorting orders all fonts by closeness and trims only redundant ones",
  "Sorting returns fonts ordered by non-decreasing distance to the query in the documented priority order (ties keeping the set's order), each at most once, the language distance counting only for the first font satisfying each requested language; without trimming every font is returned, with trimming exactly those after the first that add coverage are kept. The reported coverage is the union of the charsets of all the fonts.",
  ["inputs"], "every font set and query; both trim modes",
  "No stable test.", [FC+"match.go"], [("Fontset.Sort", FC+"match.go")], ["Fontset.Sort results"],
  tech="property-based testing against reference distances and a naive trim model")
p("F09", "Listing returns each distinct matching font projection exactly once",
  "Listing with a query and a set of properties returns, for the fonts matching the query on every property the query has, their projection onto the requested properties, each distinct projection once and none missing. The result is deterministic for a given set and query.",
  ["inputs"], "every font set, query and property selection",
  "The listing tests depend on the machine and are flaky.", [FC+"list.go", FC+"hash_tables.go"], [("Fontset.List", FC+"list.go")], ["Fontset.List result"],
  tech="property-based testing against a naive filter/project/dedup model")
p("F10", "Configuration rules edit patterns exactly as written",
  "Applying a configuration to a pattern runs its match rules in order, each rule's edits being applied exactly when all its tests hold, with the documented meaning of every test qualifier (any, all, first, not_first) and comparison, edit mode, binding and expression. Rules for patterns, fonts and scans only run for their own kind, and applying a configuration never fails at run time.",
  ["programs", "inputs"], "every well-formed rule set (programs) and every pattern",
  "Tests cover a few documents; rules compose as programs over patterns.",
  [FC+"config.go", FC+"substitutions.go", FC+"expr.go", FC+"xml.go"], [("substitute", FC+"config.go Config.Substitute"), ("expressions", FC+"expr.go"), ("rule parsing", FC+"xml.go")], ["Config.Substitute effect on the pattern"],
  tech="property-based testing: generated XML rule programs run against an independent reference interpreter")
p("F11", "Default substitution completes a query without altering what it says",
  "After default substitution a query keeps every value it already had and gains the documented default for each missing property (weight, slant, width, booleans, pixel size derived from size, dpi and scale, language from the environment, and so on). Applying it twice is the same as applying it once.",
  ["inputs"], "every query pattern",
  "No stable test.", [FC+"pattern.go", FC+"substitutions.go", FC+"match.go"], [("SubstituteDefault", FC+"fontconfig.go / pattern.go")], ["Pattern.SubstituteDefault effect"],
  tech="property-based testing against a defaults table; idempotence and preservation relations")
p("F12", "Loading configuration documents is all-or-nothing and crash free",
  "Loading any document either succeeds or returns an error, never panicking or hanging; a document that fails leaves the configuration as it was, and a malformed, mistyped or unknown construct is rejected with an error. A copy of a configuration is independent of its original, and loading several documents is the same as running their rules one after the other.",
  ["inputs", "histories"], "every XML document, in particular mutations of valid rule files; sequences of loads and copies",
  "Tests load fixed valid files.", [FC+"xml.go", FC+"config.go"], [("XML parser", FC+"xml.go"), ("Config.Copy / LoadFromMemory / LoadFromDir", FC+"config.go")], ["LoadFromMemory error", "Substitute after Copy/load"],
  tech="grammar-aware fuzzing of configuration XML + metamorphic concatenation/copy relations")
p("F13", "Language sets compare and compose as documented",
  "A language set reports for each language tag an exact match when it contains it, a territory-only difference when it contains the same language with another or no territory, and otherwise a difference; set inclusion, copying and equality agree with that, and matching a language value behaves the same whether it is given as a tag or as a set. The order in which languages are added does not matter.",
  ["inputs"], "every set of known and unknown language tags and every tag compared",
  "Tests check a few tags.", [FC+"lang.go"], [("Langset", FC+"lang.go")], ["Langset methods; matching on language"],
  tech="property-based testing against a set-of-strings model")
p("F14", "Scanned fonts describe the font file faithfully",
  "Scanning a font file or directory yields, for each face, a pattern whose character set is exactly the code points mapped by the face, whose names, style values, weight, width, slant, spacing and format agree with the file's tables, and whose file and index point back to it; scanning is deterministic and independent of directory order; the partial scan of directories describes each face of the same files. A file that is not a font, is truncated or corrupted yields no font and no crash, and the configured acceptance and rejection rules and scan rules are applied.",
  ["inputs", "fault_sequences"], "every font file (valid, synthesised, truncated, bit-flipped) and every directory layout and selector set",
  "Tests scan the machine's fonts and print them.", [FC+"scan.go", FC+"partial_scan.go", FC+"fontconfig.go"], [("scan", FC+"scan.go"), ("directory walk", FC+"fontconfig.go")], ["ScanFontFile(s)/ScanFontDirectories/ScanFontRessource results"],
  tech="property-based testing: generated OpenType fonts and mutated real ones, differential vs. an independent table reader")
p("F15", "Concurrent queries on shared sets and configurations are safe",
  "Several goroutines may match, sort, list, substitute and prepare against one shared configuration and font set at the same time, each getting the same result as alone. No data race occurs.",
  ["schedules"], "every interleaving of read-only queries",
  "Tests are sequential.", [FC+"config.go", FC+"match.go", FC+"list.go", FC+"values.go"], [("shared tables", FC+"hash_tables.go / values.go")], ["results under -race"],
  tech="property-based concurrent testing: random query batches run in parallel under the race detector and compared with sequential results")
p("F16", "The embedded standard configuration equals the shipped rule files",
  "For every pattern, the embedded standard configuration has the same effect as loading the rule files it was generated from, in the same order; using it never modifies it. The family substitutions exported from it, applied in order to the families of a query in a normalized language, give the families of the substituted query.",
  ["inputs", "histories"], "every pattern, and every sequence of uses",
  "A generator test only rewrites the file.", [FC+"standardconf.go", FC+"config.go", FC+"xml.go"], [("Standard", FC+"standardconf.go"), ("LoadFromDir", FC+"config.go"), ("GenerateSubstitution", FC+"family_mapping.go")], ["Substitute result of both", "exported substitutions"],
  tech="differential property testing: random patterns through embedded vs. freshly parsed configuration")
p("F17", "Weight conversion between scales is monotone and inverse",
  "Converting weights from the OpenType scale to the library's scale and back is monotone, maps the named weights to each other exactly, interpolates linearly between them and returns the original value within rounding error. Out-of-range weights are reported as documented: negative weights (and, towards OpenType, weights above extra-black) give -1, OpenType weights up to 100 give thin and those above 1000 give extra-black.",
  ["inputs"], "every float weight",
  "Only table points are used elsewhere.", [FC+"fontconfig.go"], [("WeightFromOT/WeightToOT", FC+"fontconfig.go")], ["WeightFromOT / WeightToOT"],
  tech="property-based testing against the documented tables")

# -------------------------------------------------------------------- pango
PA = "pango/"
p("P01", "Attribute lists behave as per-character property assignments",
  "Every attribute constructor yields an unbounded attribute of its kind holding the given value. After any history of insert, change and filter operations, an attribute list is sorted by start position and gives every position and attribute kind the value that a per-character model of the documented operations gives it: insertion adds the attribute after those with the same start and leaves all others alone; changing makes the new value the only one of its kind over its range, keeps the previous values outside, merges adjoining identical attributes and leaves other kinds alone; filtering moves exactly the selected attributes, in order, to the returned list.",
  ["histories"], "every sequence of insert, change and filter operations with attributes of any kinds on any ranges, including empty, unbounded and overlapping ones",
  "Tests play fixed scripts of a few operations.", [PA+"attributes.go"], [("AttrList", PA+"attributes.go"), ("constructors", PA+"attributes.go NewAttr*")], ["AttrList contents after Insert, Change, Filter"],
  tech="stateful model-based property testing vs. per-position model")
p("P02", "Markup yields the written text with the written attributes on the right ranges",
  "Parsing well-formed markup returns the concatenated character data (entities decoded) and, over each element's text, exactly the attributes that its tag and attribute values denote, inner ones overriding outer ones, including relative sizes; the accelerator marker is removed, underlines its character and is reported. Every documented span attribute and convenience tag has its documented effect.",
  ["inputs"], "every well-formed markup document: any nesting of elements, attributes, entities, and accelerator markers",
  "A few fixture documents.", [PA+"markup.go"], [("markup parser", PA+"markup.go ParseMarkup")], ["ParseMarkup result"],
  tech="property-based testing: generated element trees rendered to markup, compared with the model text/attributes")
p("P03", "Malformed markup is rejected with an error and never crashes",
  "Parsing any string as markup either yields text and attributes whose ranges lie within the text, or an error; it never panics or hangs. Unknown elements or attributes, invalid attribute values, unbalanced or trailing elements are always errors, never silently ignored.",
  ["inputs"], "every string; in particular mutations of well-formed markup",
  "A few failing fixtures.", [PA+"markup.go"], [("markup parser", PA+"markup.go")], ["ParseMarkup error"],
  tech="grammar-aware fuzzing with validity oracle by construction")
p("P04", "Color specifications parse to the denoted color",
  "Every hexadecimal form (3, 4, 6, 8, 9, 12, 16 digits, alpha where allowed) and every CSS color name, in any case, parses to the color it denotes and anything else is rejected; printing a color gives a specification that parses back to it.",
  ["inputs"], "every string as color specification", "Fixed table.", [PA+"color.go", PA+"color_table.go"], [("color parser", PA+"color.go")], ["foreground attributes via markup; color String"],
  tech="property-based testing vs. reference parser, round trip")
p("P05", "Text after a tab is placed at the tab stops",
  "In a line, the text following a tab starts at, ends at, is centered on or has its decimal point at the first stop which is after the text before the tab (when it fits there), whatever the order in which the stops were given; the last gap is repeated after the last stop, and without stops they are every eight spaces. The copies of a tab array, and the layouts using it, are independent of the original.",
  ["inputs", "histories"], "every text, tab array and operation sequence", "No stable test.", [PA+"tabs.go", PA+"layout_line.go", PA+"layout.go"], [("TabArray", PA+"tabs.go"), ("shapeTab, insertRun", PA+"layout_line.go"), ("get_tab_pos", PA+"layout.go")], ["Layout.SetTabs, TabArray.Copy, widths of the runs"],
  tech="property-based testing: model of the tab positions; histories of copies against plain values")
p("P06", "Font descriptions survive printing and parsing",
  "Parsing the printed form of any font description gives back an equal description, and parsing a description string yields the family list, style words, variations and size it spells out in any documented order and form. Parsing never fails or panics on any string.",
  ["inputs"], "every font description and every string", "A few fixtures.", [PA+"fonts.go"], [("NewFontDescriptionFrom", PA+"fonts.go"), ("String", PA+"fonts.go")], ["NewFontDescriptionFrom / String"],
  tech="property-based testing: round trip and generated description strings")
p("P07", "Font description fields merge, compare and match as documented",
  "Setting, unsetting and merging font descriptions act field by field and keep track exactly of which fields are set: after any history a description equals the one built from scratch with only the fields still set, unset fields have their documented defaults, equality and hashing depend on exactly the set fields and their values (family names ignoring case), and a merge with a second description fills in only the fields the first leaves unset.",
  ["inputs", "histories"], "every pair/triple of descriptions and masks", "Almost untested.", [PA+"fonts.go"], [("masks", PA+"fonts.go")], ["FontDescription methods"],
  tech="stateful/model-based property testing of field operations")
p("P08", "Itemization partitions the text into uniform runs",
  "Itemizing any text with any attributes yields consecutive, non-empty items that cover exactly the requested range in logical order, each uniform in embedding level, script, font and item-affecting attributes, with levels as resolved by the bidirectional algorithm and language as requested by attributes. Every character is given a font covering it when one is available, and each item carries the extra attributes active on its range.",
  ["inputs"], "every text, sub-range, attribute list, font map, context language, font description and gravity", "Tests need a cached font file that fails to load; nothing stable.",
  [PA+"context.go", PA+"itemize.go", PA+"item.go", PA+"script.go", PA+"direction_bidi.go"], [("Itemize", PA+"context.go")], ["Itemize result"],
  tech="property-based testing on synthetic font maps; partition invariants and reference levels/scripts")
p("P09", "Script runs cover the text and resolve common characters",
  "Splitting any text by script yields consecutive non-empty runs covering it exactly, in which every character of a specific script has the run's script, while common and inherited characters join the run they belong to and a closing bracket gets the script of its opening one.",
  ["inputs"], "every text", "One fixture.", [PA+"script.go"], [("script iterator", PA+"script.go")], ["script of items"],
  tech="property-based testing vs. a straightforward reference")
p("P10", "Text boundaries follow the Unicode segmentation and line breaking rules",
  "For any text, ComputeCharacterAttributes returns one record per character plus one, and: cursor positions are the grapheme boundaries of UAX #29; word boundaries are those of UAX #29 which are not inside a grapheme, and sentence boundaries those of UAX #29 which are also word boundaries; line breaks and mandatory breaks are those of UAX #14 (LB1 to LB31, with the numbers of Example 7), outside graphemes; character breaks are the grapheme boundaries. Word starts and ends delimit the runs of letters, digits and their marks (Japanese scripts apart), sentence starts and ends the sentences without the spaces around them, and in both cases starts and ends alternate. White space, expandable spaces, hyphenation flags and the effect of backspace follow their definitions, with the documented refinements for Arabic and Indic scripts, which only concern the runs of these scripts. The result does not depend on the embedding level nor on previous calls.",
  ["inputs"], "every text", "Fixture files for a few texts; the tests on the Unicode data files compare nothing.", [PA+"break.go", PA+"break_arabic.go", PA+"break_indic.go", PA+"break_latin.go"], [("default break", PA+"break.go"), ("tailoring", PA+"break_*.go")], ["pango.ComputeCharacterAttributes"],
  tech="property-based testing vs. a reference implementation of UAX #29 and UAX #14 over the UCD, texts over all the combinations of classes")
p("P11", "Layout lines partition the text and their runs are consistent",
  "The lines of any layout cover the text in order without gap or overlap except paragraph separators, each line's runs cover exactly its characters in the visual order prescribed by their levels, paragraphs start exactly after separators, and every run's glyph clusters increase or decrease monotonically over its characters.",
  ["inputs", "configurations"], "every text, attributes, width, wrap mode, alignment, justification, spacing, indentation, tabs, single-paragraph mode", "Layout tests need fonts which fail to load.",
  [PA+"layout.go", PA+"layout_line.go"], [("line breaking", PA+"layout.go"), ("reordering", PA+"layout_line.go")], ["Layout lines and runs"],
  tech="property-based testing on synthetic fixed-metric fonts")
p("P12", "Line wrapping respects width and break opportunities",
  "With a width set, a line (apart from the white space at its end, with the hyphen its break asks for) only exceeds it when it holds no earlier allowed break for the wrap mode (word, character, or word-then-character); a line ends only at an allowed break or paragraph end; and no line could have taken in the next breakable chunk within the width. Without a width no line is wrapped.",
  ["inputs", "configurations"], "every text, width, wrap mode", "No stable test.", [PA+"layout.go", PA+"layout_line.go"], [("process_item", PA+"layout.go")], ["line boundaries and extents"],
  tech="property-based testing vs. reference greedy line breaker on fixed-metric fonts")
p("P13", "Positions reported for an index agree with the drawn glyphs",
  "The x coordinates of the leading and trailing edges of a character are those of its grapheme in the drawn clusters, in visual order from 0 to the line width: a cluster is shared evenly by its graphemes unless the font gives ligature carets, both directions are mirrored, and the end of a line is on the side its direction asks for. The on-screen rectangle of an index lies on the line and run containing it (the line's end for a paragraph delimiter or an index past the end), and the visual ranges of a part of the text are exactly the stretches its graphemes occupy in each run, extended to the layout's edges when it goes on outside the line.",
  ["inputs"], "every layout, index and range", "No stable test.", [PA+"layout_line.go", PA+"layout.go", PA+"glyphs.go"], [("IndexToX", PA+"layout_line.go, glyphs.go"), ("GetXRanges", PA+"layout_line.go"), ("IndexToPos", PA+"layout.go")], ["IndexToX, GetXRanges, IndexToPos, GetDirectionAt"],
  tech="property-based testing: reference positions computed from the line's glyphs, at every index and for generated ranges")
p("P14", "Layout iterators visit every character, cluster, run and line once",
  "Iterating a layout by character, cluster, run or line visits each exactly once in visual order, the positions and extents reported agree with those of the lines and with each other (characters tile clusters, clusters tile runs, runs tile lines, lines tile the layout).",
  ["inputs"], "every layout", "No stable test.", [PA+"layout_iter.go"], [("LayoutIter", PA+"layout_iter.go")], ["LayoutIter methods"],
  tech="property-based testing: exhaustive iteration vs. lines")
p("P15", "Cursor movement visits each cursor position and stops at the ends",
  "Starting from either end of a layout and moving the cursor visually in one direction stops at each distinct place of the cursor, in visual order within each line and line after line (the end of a wrapped line, which is also the start of the next one, counts once), and leaves the text at the other end; every position reached is a cursor position or a line end. The strong cursor is next to the neighbour which has the direction of the line, the weak cursor next to the other one, and both stand on the run and line of the index.",
  ["inputs", "histories"], "every layout and sequence of moves", "No stable test.", [PA+"layout_cursors.go"], [("MoveCursorVisually", PA+"layout_cursors.go"), ("GetCursorPos", PA+"layout_cursors.go")], ["MoveCursorVisually, GetCursorPos"],
  tech="property-based testing: move histories vs. reference cursor places")
p("P16", "Ellipsized lines fit the width and keep the right end of the text",
  "With ellipsization and a width, a line wider than the width is shortened by one ellipsis to fit (when the ellipsis itself fits), keeping text from the end the mode prescribes and dropping as few clusters as needed; a line that fits is left alone. The dropped text is reported as ellipsized and the line's characters still cover its whole range.",
  ["inputs", "configurations"], "every text, width, mode and height limit", "No stable test.", [PA+"ellipsize.go", PA+"layout.go"], [("ellipsize", PA+"ellipsize.go")], ["line runs and extents"],
  tech="property-based testing on fixed-metric fonts vs. reference ellipsizer")
p("P17", "A layout depends only on its current settings, not on their history",
  "After any history of setter calls and queries, a layout reports the same lines, extents, boundaries and positions as a fresh layout given the final settings. Setters that take copies are not affected by later changes to the caller's objects.",
  ["histories"], "every sequence of setters interleaved with queries", "No stable test.", [PA+"layout.go"], [("layoutChanged invalidation", PA+"layout.go")], ["all Layout getters"],
  tech="stateful property testing: history vs. fresh-layout differential")
p("P18", "Layout geometry adds up: extents, alignment, indent, spacing, justification",
  "Line extents sum up to the layout's extents with the configured spacing, alignment and indentation placing each line as documented; justified lines (except paragraph ends) fill the width exactly, and letter spacing, rise, baseline shift and line height attributes have their documented metric effect. Unit conversions between device pixels and layout units round as documented.",
  ["inputs", "configurations"], "every text and settings", "No stable test.", [PA+"layout.go", PA+"layout_line.go", PA+"glyph_item.go", PA+"glyphs.go", PA+"pango.go"], [("extents", PA+"layout.go getExtents"), ("justification", PA+"layout_line.go")], ["GetExtents, line extents, glyph widths"],
  tech="property-based testing: metric arithmetic model on fixed-metric fonts")
p("P19", "Shaping maps characters to glyphs with complete, monotone clusters",
  "Shaping any item gives glyph clusters that together account for every character once, in non-decreasing (left-to-right) or non-increasing (right-to-left) order, each character being shown by its glyph in the item's font (mirrored in right-to-left text, transformed, ligated and kerned as the font says), by the font's missing glyph, or by an unknown-glyph box when there is no font, and default-ignorable ones invisible. Shaping into a used glyph string gives the same result. Cluster iteration, logical widths and x positions agree with the glyphs; attributes which are not about shaping only split the runs of a layout at cluster boundaries, with the same glyphs and widths.",
  ["inputs"], "every text, level, font", "No stable test.", [PA+"shape.go", PA+"glyph_item.go", PA+"glyphs.go"], [("Shape", PA+"shape.go"), ("GlyphItem", PA+"glyph_item.go")], ["GlyphString, GlyphItem methods"],
  tech="property-based testing with synthetic and real fonts")
p("P20", "Gravity resolution and matrix scales follow their geometric definition",
  "The font scale factors of a matrix are the lengths it gives to the horizontal axis and to its perpendicular; an automatic base gravity is the nearest quarter turn of the context matrix at the time of the itemization; the gravity resolved for a character follows its script, its orientation (upright characters keep the base gravity), the attributes and the hint, as documented.",
  ["inputs"], "every matrix, script, gravity, hint", "No stable test.", [PA+"gravity.go", PA+"pango.go"], [("gravity", PA+"gravity.go"), ("Matrix", PA+"pango.go")], ["Matrix.GetFontScaleFactors, Gravity methods, Itemize"],
  tech="property-based testing vs. float64 algebra and a script table from the Unicode database; exhaustive sweep of scripts x gravities x hints")
p("P21", "The font map answers with the best fonts and faithful metrics",
  "Loading a font or font set for a description returns the fonts the configuration sorts first for it, repeated loads giving equal results whatever was loaded before; a font's description, coverage, glyph extents and metrics agree with the font file, its size and scale; each character is served by the first font of the set which covers it. The metrics of a context are those of the first font, with the largest ascent, descent and height of the fonts used by the sample text of the language and the mean width of its characters.",
  ["inputs", "histories"], "every description, language and load history", "TestCoverage only.", [PA+"fcfonts/fontmap.go", PA+"fcfonts/fonts.go", PA+"fcfonts/fonset.go", PA+"fcfonts/faces.go", PA+"coverage.go"], [("FontMap", PA+"fcfonts/fontmap.go"), ("fontset", PA+"fcfonts/fonset.go")], ["LoadFont/LoadFontset, coverage, metrics"],
  tech="property-based testing: load histories vs. fresh map, differential vs. the font file")
p("P22", "Language tags normalise and match by range",
  "A language tag read from markup or from the environment is canonical whatever its case, separators and foreign characters; the data of a language (scripts, sample text) are those of the longest known tag which is the tag itself or a prefix of it at a subtag boundary; a run of text keeps its language if that language is written with its script, and otherwise takes the first preferred language of the user (PANGO_LANGUAGE or LANGUAGE) which is, else the one representative of the script.",
  ["inputs"], "every tag, script, environment", "A few fixtures.", [PA+"language.go", PA+"script_langs.go"], [("Language", PA+"language.go")], ["SampleString, Itemize, ParseMarkup"],
  tech="property-based testing vs. a snapshot of the orthographies and a reference matching; child processes for the environment")

p("P23", "Break, word, sentence and hyphen attributes override the segmentation inside their range only",
  "The character attributes of a layout are those of its paragraphs, changed only by its attributes: a range without breaks has no break inside but mandatory ones and those after hyphens and zero width spaces; a range marked as a word or as a sentence becomes one unit, the units around it being trimmed to what remains of them, and a line may be broken before a word; a range without hyphens inserts none; all other positions and properties are unchanged.",
  ["inputs", "configurations"], "every text and set of attributes", "No stable test covers break attributes.",
  [PA+"break.go", PA+"layout.go", PA+"attributes.go"], [("pango_attr_break", PA+"break.go"), ("getItemsLogAttrs", PA+"layout.go")], ["Layout.GetCharacterAttributes"],
  tech="property-based testing vs. an interval model of units over the attributes of each paragraph")

p("P24", "Independent texts can be laid out by several goroutines at the same time",
  "Goroutines which each use their own layouts, contexts, font maps, attribute lists and descriptions may run at the same time (also over one shared configuration and font set), and each gets the results it would get alone: what the package shares between them (shaping buffer, caches of font choices, language tables, bidi lists) is protected. No data race occurs.",
  ["schedules"], "every interleaving of layouts, itemization, segmentation, shaping, font selection, markup parsing and bidi analysis on distinct objects",
  "Tests are sequential.", [PA+"shape.go", PA+"fontset.go", PA+"language.go", PA+"context.go", PA+"fcfonts/fontmap.go", "fribidi/run.go"],
  [("shared shaping buffer", PA+"shape.go cachedBuffer"), ("font caches", PA+"fontset.go fontsetCaches"), ("default languages", PA+"language.go")], ["results under -race"],
  tech="property-based concurrent testing: random programs run by several goroutines under the race detector and compared with the same operations run alone")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    done = set(open(os.path.join(HERE, "claimed.txt")).read().split())
    checks = [{"property": x["id"], "quick_cmd": f"bash /verif/check.sh {x['id']} quick", "thorough_cmd": f"bash /verif/check.sh {x['id']} thorough",
               "technique": x["_tech"], "level": "exploration",
               "level_note": x["_note"] or "generated-input search with shrinking; bounded by the case budget and generator reach recorded in the evidence file"} for x in P if x["id"] in done]
    na = [{"property": x["id"], "reason": x["_na"] or "check under construction"} for x in P if x["id"] not in done]
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
