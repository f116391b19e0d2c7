"""Text of DESIGN.md's per-property section: what is decided, against which oracle, and why tests cannot."""
PROPS = [
("C01", "MSH 4.1 nodes and elements", "c01.cpp builds a spec in memory, saves and loads it through `std::stringstream`, and asserts field-by-field equality, doubles by bits. The oracle is the spec itself.",
 "Tests use a handful of small tags and round coordinates; lost digits, narrowed tags, misplaced parametric values and size-dependent mistakes need particular values."),
("C02", "Entities and physical groups", "As C01, for entities of each kind and mixtures, boundary and group tags in every number 0-2, and names whose bytes are symbolic (all 0-3 byte names, quotes and backslashes included). 2.2 is saved too, for the groups.",
 "Names with quotes, signed boundary tags, and digits of bounding boxes."),
("C03", "Post-processing data", "As C01, one view per kind with every combination of 0-2 tags, fields and entries, then several views. Entry values are symbolic doubles; real tags are printed as text even in binary files.",
 "Zero fields, zero entries, several views, long lists, values needing 17 digits."),
("C04", "MSH 2.2 round trip", "The saved spec's nodes and elements are listed as flat sequences (harness/flat.h) and compared with the flat sequences of the loaded one; totals and true extremes are recomputed by the harness.",
 "Empty blocks, blocks of mixed types, parametric blocks written without their parameters."),
("C05", "NanoSpline sections", "As C01 with the extension on; with the extension off, the files made by the extension build's writer (from an independent writer in the harness) must load with every other section equal.",
 "Flags above 1, zero knots, format versions other than the default."),
("C06", "Layout of saved files", "harness/io.h has a reader `R` written from the Gmsh reference manual only (never through the library); it parses the saved bytes strictly and every field is compared with the spec.",
 "A writer and reader that agree with each other but not with the format pass every round trip test."),
("C07", "Loading conforming files", "harness/io.h has a writer `W` written from the manual; it writes what the library never writes (any white space, any number of tags per 2.2 element, any split of binary element runs, number spellings) and the loaded spec must hold exactly the values it was given.",
 "The test data are files of one producer."),
("C08", "Derivation of 2.2 blocks", "The harness regroups the flat element and node lists on its own, directly from the statement (last element that lists the node; maximal runs; ordered unique physical tags) and compares all blocks, entities and extremes, for symbolic tags, references and numbers.",
 "Depends on coincidences between tags; a symbolic run visits all of them."),
("C09", "Element types", "A table copied by hand from the manual; both queries over one symbolic 32-bit argument; loads and saves with a symbolic unsupported type.", "2^32 values."),
("C10", "validate_spec", "The harness states consistency as a predicate and asserts that `validate_spec` returns exactly then, over symbolic counts, flags, dimensions, tags and data sizes; every accepted spec is also saved in all four formats with memory checks on. Cases that violate the property on the unchanged tree (below) are decided by entries of their own.",
 "A predicate over all specs; the tests only call it on valid ones."),
("C11", "Header checks", "Version words are symbolic bytes; data size and marker are symbolic numbers. A load must succeed exactly for the accepted ones, and throw UnsupportedFeature otherwise, even when what follows the header is malformed.", "All byte orders, data sizes and words."),
("C12", "Truncated or malformed sections", "`W` records the offset of every field (cuts) of one section; every cut, every field replaced by a word whose first byte is symbolic, every field dropped must end in a std::exception.", "Every position in every kind of section."),
("C13", "Arbitrary input", "No oracle beyond the engine's own checks (memory, uninitialised values, signed overflow, exceptions, step limit): section contents of symbolic counts (small, negative or huge) and symbolic values, raw symbolic bytes after prefixes of every kind, files cut at every byte, header switches, repeated sections.",
 "Hostile counts are never in a test."),
("C14", "Unknown sections and order", "The harness writes the same sections in a plain file and, permuted or with filler between them, in another; both loads must be equal. Filler and names contain symbolic bytes.", "Every order and place."),
("C15", "File overloads", "The modelled file system holds what the overload wrote; it is compared byte for byte (in normal form) with the stream overload. Every limit on writable bytes must end in runtime_error; so must names that cannot be opened. Natively the replay uses a scratch directory and RLIMIT_FSIZE.", "Disk-full at every byte."),
("C16", "Independence", "Saves under symbolic formatting flags, precision, width and fill are compared with a plain save; the flags must be as before afterwards, and the spec unchanged. Loads and saves before and between the compared calls must not change their results; sources hand out few bytes at a time.", "Stream states and call histories."),
("C17", "Conversion", "A file of `W` is loaded, converted through all formats and chains, and compared in a canonical form that keeps what the poorer format can express; every loaded spec must pass validate_spec and survive a save in its own format.", "Pairs and chains of formats times contents."),
("C18", "ASCII = binary", "One symbolic spec is saved in both encodings and the two loaded specs are compared in all fields except the encoding flag.", "Any precision or range lost by one encoding only."),
("C19", "msh_inspect", "The tool's `main` runs in the engine on files from `W`; its output is searched for each entry's line built from the loaded spec (numbers in any common precision), and the copy it writes is loaded and compared.", "No test runs the tool."),
]
