"""The jobs (harness entry x configuration) that decide each property, with their stated bounds."""
COMMON_ASSUMPTIONS = [
    "the C++ runtime below the library (strings, streams, number formatting, exceptions, allocation) is the model in engine/rt_model.cpp over libstdc++ headers; it is validated on sampled paths against real libstdc++ in every run",
    "text produced from a symbolic number is one token that reads back as that number (exactly when printed with 17 or more significant digits, as an arbitrary nearby double otherwise)",
    "little-endian x86-64, 64-bit size_t, classic locale, an allocation above 4 MiB fails with bad_alloc",
    "Z3 4.8.12 answers correctly (a sample of queries is re-decided by z3-new and cvc5 in every run)",
]
PROPS = {}
HUGEO = ("--maxalloc", "67108864", "--steps", "4000000000")  # some ten thousand of one thing
BIGO = ("--maxalloc", "268435456", "--steps", "2000000000")  # a thousand of everything
def P(id, harness, bounds, assumptions): PROPS[id] = dict(harness=harness, bounds=bounds, assumptions=assumptions, jobs=[])
def J(id, entry, cfgs, ext=0, opts=(), tier="q", reach=("loaded",), weight=1.0, samples=2, time=240):
    for c in cfgs: PROPS[id]["jobs"].append(dict(entry=entry, cfg=c, ext=ext, opts=list(opts), tier=tier, reach=list(reach), weight=weight, samples=samples, time=time))
def expand(id, tier):
    return [j for j in PROPS[id]["jobs"] if tier == "thorough" or j["tier"] == "q"]

P("C01", "c01.cpp",
  "1-3 node blocks x 0-4 nodes x {non-parametric, parametric dim 0-3}; 1-2 element blocks x 0-2 elements, all 31 types; 9/10/13/32 blocks; two blocks of 2^5 to 2^12 nodes or elements and single blocks of 300-5000, 8192, 65536 and 70001 of them with some symbolic entries; 33000 blocks; specs with 12, 40, 130 and 300 (thorough 1000) of everything; all tags, entity tags, min/max tags and finite coordinates symbolic; ASCII and binary",
  ["node and element tags lie within the declared minimum and maximum, which are otherwise arbitrary"])
J("C01", "c01_nodes", [2, 3], weight=4)
J("C01", "c01_nodes", [0, 1])
J("C01", "c01_nodes3", [0, 1])
J("C01", "c01_elements", range(8), weight=2)
J("C01", "c01_elements2", [0, 1], weight=8)
J("C01", "c01_mixed", [0, 1])
J("C01", "c01_ws", [0, 1], weight=2)
J("C01", "c01_bulk", [0, 1, 2, 3, 5, 7, 8, 9, 10, 15], weight=2)
J("C01", "c01_powers", range(6), weight=3)
J("C01", "c01_bulk", [4, 6, 11, 12, 13, 14], weight=2, tier="t")
J("C01", "c01_big", [0, 1], weight=3)
J("C01", "c01_huge", range(4), opts=HUGEO, weight=20, time=400)
J("C01", "c01_blocks", range(4), opts=HUGEO, weight=9)
J("C01", "c01_big", [4, 5], opts=BIGO, tier="t", time=1200)

P("C02", "c02.cpp",
  "0-2 entities of each kind with 0-2 physical and 0-2 boundary tags, eight mixtures of all kinds with up to 4 boundary tags, entity and tag counts 9/10/13/32; entities with up to 1500 tags; 12, 40, 130 and 300 (thorough 1000) entities per kind and groups; up to two groups with names of 0-3 arbitrary bytes, 1-3 groups with awkward fixed names (quotes, backslashes, line breaks, section markers, long), names of 27 lengths from 15 to 65536 with four kinds of content; 33000 points and volumes or groups; all tags, dimensions and finite coordinates symbolic",
  ["group dimensions are 0 to 3"])
J("C02", "c02_kind", range(16))
J("C02", "c02_mix", [0, 1])
J("C02", "c02_counts", [0, 1])
J("C02", "c02_long", range(8), weight=2)
J("C02", "c02_names", range(8), weight=2)
J("C02", "c02_odd", range(4))
J("C02", "c02_length", range(4), weight=4)
J("C02", "c02_huge", [0, 1, 4, 5, 6, 7], opts=HUGEO, weight=9)
J("C02", "c02_big", range(4), weight=3)
J("C02", "c02_big", range(4, 8), opts=BIGO, tier="t", time=1200)

P("C03", "c03.cpp",
  "per kind, version and encoding: one view with 0-2 string tags, 0-2 real tags, 3-4 integer tags, 0-3 fields, 0-2 entries, 0-3 nodes per element; 2-3 views of different shapes; all kinds together; names of 1-2 arbitrary bytes and awkward fixed ones; up to 11 integer and 10 real tags; 1300 entries or 700 fields; names of 19 lengths from 15 to 65536 characters; 33000 entries, fields or tags; 8250 views; nine views with 12 to 300 (thorough 1000) entries, fields and tags; values, tags and header numbers symbolic",
  ["entry tags below 2^31", "finite values", "number of fields and entries in the header agree with the data"])
J("C03", "c03_view", range(12), weight=6)
J("C03", "c03_views", range(12))
J("C03", "c03_all", range(4))
J("C03", "c03_names", range(12), weight=3)
J("C03", "c03_tags", range(12))
J("C03", "c03_bulk", range(12), weight=2)
J("C03", "c03_length", range(12), weight=2)
J("C03", "c03_huge", range(12), opts=HUGEO, weight=9, time=400)
J("C03", "c03_many", range(4), opts=HUGEO, weight=12)
J("C03", "c03_big", range(4), weight=3)
J("C03", "c03_big", range(4, 8), opts=BIGO, tier="t", time=1200)

P("C04", "c04.cpp",
  "1-2 node blocks with 0-3 nodes (symbolic tags), parametric dim 0-3; four node blocks and four element blocks (empty ones first, in the middle and last) of mixed types, all 31 types; up to 6 elements with up to 3 symbolic tags; symbolic node references for 1-3 elements; counts 9/10/13/32; 400-700 nodes and 300 elements, mostly concrete; 2^6 to 2^13 and 70001 (thorough 65536) nodes or elements; 33000 blocks; blocks of 12, 40, 130 and 300 (thorough 1000) nodes and elements among others",
  ["tags below 2^31", "an element block's dimension is that of its element type"])
J("C04", "c04_nodes", range(4), weight=5)
J("C04", "c04_types", range(8), weight=3)
J("C04", "c04_blocks", [0, 1], weight=9)
J("C04", "c04_refs", [0, 1], weight=9)
J("C04", "c04_ws", [0, 1])
J("C04", "c04_bulk", [0, 1, 2, 7], weight=4)
J("C04", "c04_bulk", [3, 4, 5, 6], weight=4, tier="t")
J("C04", "c04_powers", range(4), weight=6)
J("C04", "c04_huge", range(4), opts=HUGEO, weight=20, time=400)
J("C04", "c04_huge", range(4, 8), opts=HUGEO, tier="t", time=1200)
J("C04", "c04_many", range(4), opts=HUGEO, weight=12)
J("C04", "c04_big", [0, 1], weight=5)
J("C04", "c04_big", [4, 5], opts=BIGO, tier="t", time=1200)

P("C05", "c05.cpp",
  "extension on, per version and encoding: 0-2 curves and 0-2 patches with 0-2 control points, 0-2 knots per direction, rational flag 0, 1 or any larger value; 3 curves and 3 patches among other sections; 33 and 12000 curves and patches; one curve of 12000 points; one curve of 700 points and one patch of 400; format version of 1-3 printable characters; extension off: files with those sections and fixed contents; tags, types, degrees and values symbolic",
  ["the extension's version string is a non-empty word"])
J("C05", "c05_curves", range(8), ext=1, weight=6)
J("C05", "c05_patches", range(8), ext=1, weight=6)
J("C05", "c05_mix", range(4), ext=1)
J("C05", "c05_bulk", range(4), ext=1, weight=2)
J("C05", "c05_huge", range(4), ext=1, opts=HUGEO, weight=9)
J("C05", "c05_off", range(4), ext=0)

P("C06", "c06.cpp",
  "1-2 node blocks with 0-2 nodes (parametric dim 0-3, an empty last block), all 31 element types with 1-2 elements and empty blocks around them, in 4.1 and 2.2; 0-2 entities of each kind and a mixture; up to two groups with names of 0-3 arbitrary bytes other than quote and backslash; 1-2 views of six shapes per kind; everything together; 12, 40, 130 and 300 (thorough 1000) of everything; 33000 nodes, elements, blocks, entities, groups or data entries (some formats in the thorough tier only); ASCII and binary; tags and finite values symbolic",
  ["names and string tags without quotes and backslashes (the layout does not define an escape; C02 and C03 cover them through the library's own reader)", "tags below 2^31 in MSH 2.2"])
J("C06", "c06_nodes41", range(4), reach=("read",), weight=4)
J("C06", "c06_elements41", range(8), reach=("read",), weight=3)
J("C06", "c06_nodes22", range(2), reach=("read",), weight=4)
J("C06", "c06_elements22", range(8), reach=("read",), weight=3)
J("C06", "c06_meta", range(20), reach=("read",), weight=2)
J("C06", "c06_data", range(12), reach=("read",), weight=2)
J("C06", "c06_all", range(4), reach=("read",))
J("C06", "c06_big", range(4), reach=("read",), weight=5)
J("C06", "c06_big", range(4, 8), reach=("read",), opts=BIGO, tier="t", time=1200)
J("C06", "c06_huge", [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 15, 16, 17, 20, 23, 24, 27, 28, 31], opts=HUGEO, reach=("read",), weight=9, time=400)
J("C06", "c06_huge", [9, 10, 13, 14, 21, 22, 25, 26, 29, 30], opts=HUGEO, reach=("read",), tier="t", time=1200)

P("C07", "c07.cpp",
  "files from an independent writer: 4.1 with 0-2 node blocks of 0-2 nodes (parametric dim 0-3), all 31 element types, 0-2 entities per kind, 0-2 names of 0-4 arbitrary bytes, 1-2 views of six shapes per kind; 2.2 with 0-3 nodes, every element type with 0-4 tags, seven layouts of element headers and runs and every sequence of 0-4 tags in three runs, either section order; text with single, arbitrary (symbolic), CR-LF/tab or repeated white space, with and without a final newline; binary with and without a line break before $End; twelve number spellings; counts that look like white space; files with 12, 40, 130 and 300 (thorough 1000) of everything; 33000 nodes, elements, blocks, entities, groups or data entries (some formats in the thorough tier only); field values symbolic",
  ["MSH 2.2 tags are non-negative", "in MSH 2.2 at most three tags of one file are symbolic", "an element's entity is the second tag, or the only one"])
J("C07", "c07_nodes41", range(6), weight=3)
J("C07", "c07_elements41", range(12), weight=3)
J("C07", "c07_meta", range(30))
J("C07", "c07_data", range(36))
J("C07", "c07_nodes22", range(6), weight=3)
J("C07", "c07_types22", range(12), weight=4)
J("C07", "c07_runs22", range(6), weight=2)
J("C07", "c07_tags22", range(6), weight=2)
J("C07", "c07_all41", range(6))
J("C07", "c07_spelling", range(2))
J("C07", "c07_ws", range(8))
J("C07", "c07_big41", [0, 2, 4, 5], weight=4)
J("C07", "c07_big22", [0, 3, 4, 5], weight=6)
J("C07", "c07_big41", [8, 10, 12, 13], opts=BIGO, tier="t", time=1200)
J("C07", "c07_big22", [8, 11, 12, 13], opts=BIGO, tier="t", time=1200)
J("C07", "c07_huge41", [0, 2, 8, 10, 16, 26, 34, 40, 42], opts=HUGEO, weight=9, time=400)
J("C07", "c07_huge41", [18, 24, 32, 48, 50, 56, 58], opts=HUGEO, tier="t", time=1200)

P("C08", "c08.cpp",
  "MSH 2.2 text and binary, sections in both orders: three elements with symbolic entity and physical tags for six mixtures of types; two nodes and two elements with symbolic node tags, references and numbers; three nodes and three elements with symbolic numbers; every sequence of 0-4 tags on three elements; twelve structures of up to seven elements (shared nodes, interleaved entities, 0-4 tags, extreme tags) over dense and sparse node tags; undefined and unused nodes, no nodes, no elements; regular meshes of 60 and 120 elements",
  ["one node section and one element section", "at most five tags of one file are symbolic"])
J("C08", "c08_entities", range(24), weight=6)
J("C08", "c08_tags", range(8), weight=3)
J("C08", "c08_refs", range(4), weight=8)
J("C08", "c08_ids", range(4), weight=3)
J("C08", "c08_runs", range(8), weight=2)
J("C08", "c08_odd", range(8))
J("C08", "c08_bulk", range(8), weight=4)

P("C09", "c09.cpp",
  "both queries over all 2^32 type values against an independently written table; loading and saving 4.1 and 2.2, text and binary, with a block or element of any unsupported 32-bit type first, last or alone and 0-2 elements; all 31 supported types through all four readers and writers",
  [])
J("C09", "c09_query", [0, 1], reach=("queried",), samples=20)
J("C09", "c09_load", range(4), reach=("tried",), samples=6)
J("C09", "c09_save", range(4), reach=("tried",), samples=6)
J("C09", "c09_supported", range(4), reach=("tried",), weight=2)

P("C10", "c10.cpp",
  "1-2 node blocks with 0-2 tags and 0-13 data, 1-2 element blocks of four types with up to three elements' worth of data in every size, 0-2 blocks against any declared number; declared counts, flags, dimensions, tags and ranges symbolic; consistent specs of all 31 types; 33000 nodes, elements or blocks with two arbitrary tags; every accepted spec saved in all four formats with every memory access checked",
  ["inputs of the recorded findings (empty element blocks, data of the wrong width that divide evenly, unsupported types, flags above 1, impossible dimensions of parametric blocks) are decided in entries of their own"])
J("C10", "c10_nodes", range(3), reach=("validated", "accepted"), weight=3)
J("C10", "c10_counts", [0], reach=("validated", "accepted"))
J("C10", "c10_elements", range(4), reach=("validated", "accepted"), weight=3)
J("C10", "c10_valid", range(4), reach=("validated", "accepted", "valid"), weight=3)
J("C10", "c10_huge", range(4), opts=HUGEO, reach=("validated",), weight=4)
for _e in ("empty", "short", "width", "type", "flag", "dim"): J("C10", "c10_" + _e, [0], reach=())

P("C11", "c11.cpp",
  "headers with every version word of 1-5 non-space bytes and 18 longer or near-miss words, every 32-bit data size, every 4-byte marker, text and binary, every combination of three-byte version word, data size and marker, followed by a valid or by a malformed section; saving nodes, elements or both under every version string of 0-5 bytes",
  ["file type 0 or 1; other header fields are well-formed numbers"])
J("C11", "c11_version", range(4, 24), reach=("tried",))
J("C11", "c11_words", range(4), reach=("tried",))
J("C11", "c11_size", range(8), reach=("tried",))
J("C11", "c11_marker", range(8), reach=("tried",))
J("C11", "c11_both", range(8), reach=("tried",))
J("C11", "c11_save", range(36), reach=("tried",))
J("C11", "c11_save_words", range(6), reach=("tried",))

P("C12", "c12.cpp",
  "one section of every kind (4.1 nodes, elements, entities; 2.2 nodes, elements; names; three data kinds; curves and patches with the extension) with 1-4 entries, in text and binary: every byte position inside a binary entry, every field position in text, every position inside a string, with and without trailing white space; every number replaced by a word starting with any other byte or by ten awkward words; every field dropped; counts that announce more than is there (by 1, twice, 1000, any number above 2^22); the last section of a longer file; sections with 12 to 300 entries cut, corrupted or closed in 25 places; values symbolic",
  ["a text file cut inside its last number is indistinguishable from a complete one and not claimed", "a missing $End marker after a complete section is not claimed", "a section closed where a name is due is read as an unquoted name, which the claim does not cover"])
_all = [4 * k + m for k in range(12) for m in range(4) if not (k <= 3 and m & 2) and not (k in (4, 5) and not m & 2)]
for _x in (0, 1):
    _k = [c for c in _all if (c >= 40) == bool(_x)]
    J("C12", "c12_cut", _k, ext=_x, reach=("tried",), weight=2)
    J("C12", "c12_cut_text", [c for c in _k if not c & 1], ext=_x, reach=("tried",))
    J("C12", "c12_cut_end", [c for c in _k if not c & 1], ext=_x, reach=("tried",))
    J("C12", "c12_word", [c for c in _k if not c & 1 or c >= 16], ext=_x, reach=("tried",))
    J("C12", "c12_words", [c for c in _k if not c & 1 or c >= 16], ext=_x, reach=("tried",), weight=2)
J("C12", "c12_more", [c for c in _all if c < 40 and not c & 1], reach=("tried",))
J("C12", "c12_more", [c for c in _all if c >= 40 and not c & 1], ext=1, reach=("tried",))
J("C12", "c12_counts", [c for c in _all if c < 40], reach=("tried",))
J("C12", "c12_counts", [c for c in _all if c >= 40], ext=1, reach=("tried",))
J("C12", "c12_late", range(6), reach=("tried",))
J("C12", "c12_big", [c for c in _all if c < 40], reach=("tried",), weight=4)
J("C12", "c12_big", [c for c in _all if c >= 40], ext=1, reach=("tried",), weight=4)

P("C13", "c13.cpp",
  "every section kind in every version and encoding: each count 0-2 (0-3 for tags), negative, or any value above 2^22, every other field any value of its type (32- and 64-bit numbers, doubles incl. NaN), every supported and unsupported element type, then truncated, closed or followed by another section; text sections of 4-9 arbitrary small, negative or huge numbers; any 1-3 (5 at top level) raw bytes, digits limited to 0-2, after 27 prefixes; sections cut at every byte; header changes and repeated sections in the middle of a file; sections with 12 to 300 entries cut in 25 places; elements referring to any nodes; any file type",
  ["an allocation above 4 MiB fails with std::bad_alloc, as hostile counts do on a machine without that memory", "counts between 3 and 2^22 only repeat the loop bodies explored", "an element-node entry of zero fields has a small node count (a huge one only counts to it)"])
_o = ("--uninit", "--nsw")
_c13 = [0, 1, 4, 5, 8, 9, 12, 13, 18, 19, 22, 23, 24, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39]
J("C13", "c13_counts", [c for c in _c13 if c < 36], opts=_o, reach=("tried",), weight=3)
J("C13", "c13_counts", [36, 37, 38, 39], opts=_o, reach=("tried",), weight=40)
J("C13", "c13_counts", [40, 41, 44, 45], ext=1, opts=_o, reach=("tried",), weight=10)
J("C13", "c13_tokens", [4, 5], opts=_o, reach=("tried",))
J("C13", "c13_tokens", [0, 1, 18, 19, 24, 25, 28, 29, 36, 37], opts=_o, reach=("tried",))
J("C13", "c13_tokens", [8, 9, 22, 23], opts=_o, reach=("tried",), weight=15)
J("C13", "c13_tokens", [40, 41, 44, 45], ext=1, opts=_o, reach=("tried",))
J("C13", "c13_raw", [32 * 5 + k for k in (0, 1, 2, 5, 22, 23)], opts=_o, reach=("tried",))
J("C13", "c13_raw", [32 * 3 + k for k in (3, 4, 6, 7, 8, 10, 11, 13, 14, 15, 17, 18, 19, 20, 21)], opts=_o, reach=("tried",), weight=4)
J("C13", "c13_raw", [32 * 2 + k for k in (9, 12, 16, 24)], opts=_o, reach=("tried",), weight=4)
J("C13", "c13_raw", [32 * 3 + k for k in (25, 26, 27)], ext=1, opts=_o, reach=("tried",), weight=4)
J("C13", "c13_switch", range(16), opts=_o, reach=("tried",), weight=3)
J("C13", "c13_refs", range(8), opts=_o, reach=("tried",))
J("C13", "c13_type", range(4), opts=_o, reach=("tried",))
J("C13", "c13_cut", [c for c in _all if c < 40], opts=_o, reach=("tried",))
J("C13", "c13_cut", [c for c in _all if c >= 40], ext=1, opts=_o, reach=("tried",))
J("C13", "c13_big", [c for c in _all if c < 40], opts=_o, reach=("tried",), weight=4)
J("C13", "c13_big", [c for c in _all if c >= 40], ext=1, opts=_o, reach=("tried",), weight=4)

P("C14", "c14.cpp",
  "files of names, nodes, elements, entities and three data views with symbolic values, both versions and encodings: every order of the mesh sections and every position of each data section; 17 kinds of text, comment and unknown section between all sections, at each place and before the header; arbitrary bytes (1-6) in unknown sections and between sections; unknown section names of 1-5 arbitrary bytes; names that differ from each of the eight known ones by a byte added, removed, replaced or put in front, around contents of that kind; tabs, CR LF and blank lines; up to 4 views of every mixture of kinds and 12 views, interleaved with other sections; unknown sections, names and text of 30 to 70000 characters; eight file endings",
  ["text between sections contains no word starting with '$' that is not an unknown section", "an unknown section is closed by its $End marker as a separate word"])
J("C14", "c14_order", range(8), weight=3)
J("C14", "c14_filler", range(8), weight=3)
J("C14", "c14_place", range(4))
J("C14", "c14_bytes", range(12), weight=5)
J("C14", "c14_name", range(4))
J("C14", "c14_similar", range(4), weight=3)
J("C14", "c14_space", range(8))
J("C14", "c14_repeat", range(4), weight=6)
J("C14", "c14_many", range(4))
J("C14", "c14_end", range(8))
J("C14", "c14_long", range(4), weight=3)

P("C15", "c15.cpp",
  "full specs with symbolic values in all four formats saved over no file, shorter and longer files, and files as long as the new one that differ everywhere, in one byte or only in values, under four names; several files in a row; any 1-4 bytes after six prefixes, any 1-3 bytes in front of, inside or behind a whole file, every section kind cut at nine places, loaded from file and stream; 17-40 KB files; 12 to 300 of everything; eleven unopenable names; output limited to every number of bytes (binary, small text), to 40 fractions and around the 8191-byte buffer; errors of the stream overloads",
  ["the file system is a model of names and byte strings; natively a scratch directory and RLIMIT_FSIZE", "directories, links and permissions are not modelled: a file that cannot be opened is one in a directory that does not exist"])
J("C15", "c15_save", range(4), reach=("tried",))
J("C15", "c15_two", range(8), reach=("tried",))
J("C15", "c15_bytes", [0, 1, 2, 3, 4, 5, 8], reach=("tried",))
J("C15", "c15_around", range(16), reach=("tried",), weight=2)
J("C15", "c15_cut", [c for c in _all if c < 40], reach=("tried",))
J("C15", "c15_large", range(4), reach=("tried",))
J("C15", "c15_big", range(4), reach=("tried",), weight=3)
J("C15", "c15_open", range(4), reach=("tried",))
J("C15", "c15_limit", range(4), reach=("tried",), weight=8)
J("C15", "c15_limit_text", [0, 2], reach=("tried",))
J("C15", "c15_limit_large", range(2), reach=("tried",), weight=3)
J("C15", "c15_errors", range(4), reach=("tried",))

P("C16", "c16.cpp",
  "full specs and files with symbolic values in all four formats; streams with every combination of the 13 formatting flags, precision 0-400, width 0-60 and every fill character, for successful and failing calls; streams handing out 1-7 bytes or taking single bytes; output behind other output; eighteen kinds of earlier call (loads, saves and validations, successful and failed) and pairs of them before and between the compared calls; loads cut at 6 or 20 places of every section kind between them; what the first call after them returns against the file's contents; the same with 12 to 300 of everything",
  ["a locale other than the classic one and a stream set up to throw are not covered", "skipws and unitbuf do not matter to the model"])
for _x in (0, 1):
    J("C16", "c16_format_save", range(4), ext=_x, reach=("saved",), weight=3)
    J("C16", "c16_format_load", range(4), ext=_x, reach=("loaded",), weight=3)
    J("C16", "c16_append", range(4), ext=_x, reach=("saved",))
    J("C16", "c16_slow", range(8), ext=_x, reach=("loaded",))
J("C16", "c16_format_fail", range(8), reach=("failed",))
J("C16", "c16_calls", range(10), reach=("compared",), weight=3)
J("C16", "c16_cut", range(6), reach=("compared",), weight=3)
J("C16", "c16_calls2", range(10), reach=("compared",), weight=3)
J("C16", "c16_sparse", range(4), reach=("compared",))
J("C16", "c16_first", [0, 1, 4, 5], reach=("compared",))
J("C16", "c16_big", range(20), reach=(), weight=4)

P("C17", "c17.cpp",
  "files from an independent writer in all four formats, three shapes each (2-4 node blocks, 2-4 element blocks, entities, names, four data views, 2.2 elements with 0-3 tags), converted to all four formats; every chain of three conversions and back; all 31 element types; any node and element tag from 0, next to the largest one or alone; eight combinations of missing, empty and lonely sections; every loaded spec validated, saved again and compared; the same with 12, 40, 130 and 300 (thorough 1000) of everything; 33000 nodes, elements, blocks, entities, groups or data entries (some formats in the thorough tier only); values, entity and physical tags symbolic",
  ["node and element tags of the large shapes are concrete", "a section of zero nodes or elements may be left out", "an element's block has the dimension of its type"])
J("C17", "c17_convert", range(16), reach=("converted",), weight=3)
J("C17", "c17_convert", range(16), ext=1, reach=("converted",), weight=3)
J("C17", "c17_chain", range(4), reach=("converted",), weight=8)
J("C17", "c17_types", range(16), reach=("converted",), weight=5)
J("C17", "c17_tags", range(16), reach=("converted",))
J("C17", "c17_empty", range(4), reach=("converted",))
J("C17", "c17_big", range(16), weight=4)
J("C17", "c17_big", range(16, 32), opts=BIGO, tier="t", time=1200)
J("C17", "c17_huge", [2, 9, 20, 24, 36, 51], opts=HUGEO, weight=9, time=400)
J("C17", "c17_huge", [0, 4, 8, 16, 19, 22, 32, 40, 48, 54, 64, 68, 80, 82, 96, 104, 112, 122], opts=HUGEO, tier="t", time=1200)
J("C17", "c17_empty_block", [0], reach=())
J("C17", "c17_physical", [0, 1], reach=())

P("C18", "c18.cpp",
  "one spec saved in text and in binary, both versions: 1-2 node blocks of 0-2 nodes (parametric dim 0-3); all 31 element types with 1-3 elements; 0-2 entities of each kind with 0-2 group and boundary tags; names of 0-3 and string tags of 1-2 arbitrary bytes; two data views per kind with 0-3 fields, 0-2 entries, 0-2 real tags; curves and patches with 0-3 control points, 0-2 knots, any rational flag; counts 9/10/13/32; everything together; 12, 40, 130 and 300 (thorough 1000) of everything; 33000 nodes, elements, blocks, entities, groups or data entries (some formats in the thorough tier only); all tags and finite values symbolic",
  ["in MSH 2.2 tags are below 2^31 and node references concrete"])
J("C18", "c18_nodes", [0, 1], weight=4)
J("C18", "c18_elements", range(8), weight=3)
J("C18", "c18_entities", [0])
J("C18", "c18_groups", [0, 1])
J("C18", "c18_data", range(6), weight=3)
J("C18", "c18_name", range(6))
J("C18", "c18_counts", [0, 1])
J("C18", "c18_all", [0, 1])
J("C18", "c18_all", [0, 1], ext=1)
J("C18", "c18_ext", range(4), ext=1, weight=2)
J("C18", "c18_big", [0, 1], weight=4)
J("C18", "c18_big", [0, 1], ext=1, weight=4)
J("C18", "c18_big", [2, 3], opts=BIGO, tier="t", time=1200)
J("C18", "c18_huge", [0, 3, 4, 7, 8, 10], opts=HUGEO, weight=12, time=400)
J("C18", "c18_huge", [1, 2, 5, 6, 11, 12, 13, 14, 15], opts=HUGEO, tier="t", time=1200)
J("C18", "c18_huge", [16], ext=1, opts=HUGEO, weight=9)
J("C18", "c18_huge", [17], ext=1, opts=HUGEO, tier="t", time=1200)

P("C19", "c19.cpp",
  "the tool's main on files of all four formats from an independent writer: 1-2 node blocks of 0-2 nodes, non-parametric or parametric of dimension 1; all 31 element types in blocks of 0-2 elements; node, element and element-node data with 0-3 fields and 0-2 entries; 0-2 group and boundary tags per entity; everything together; 12, 40 and 130 of everything; missing and empty sections; every printed entry compared with the entry of the loaded spec, the copy loaded and compared; tags and finite values symbolic",
  ["parametric nodes of dimension 0, 2 and 3 are decided in an entry of their own (recorded finding)", "values count as printed when they are formatted as by a stream of 6, 10, 12, 15, 16 or 17 digits"])
J("C19", "c19_nodes", range(4), reach=("ran",), weight=2)
J("C19", "c19_elements", range(16), reach=("ran",), weight=2)
J("C19", "c19_data", range(12), reach=("ran",), weight=2)
J("C19", "c19_all", range(4), reach=("ran",), weight=2)
J("C19", "c19_empty", range(4), reach=("ran",))
J("C19", "c19_big", range(4), reach=("ran",), weight=5)
J("C19", "c19_parametric", [0, 2, 3], reach=())
