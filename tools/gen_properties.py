#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so it can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

RT = "the round-trip helper in tests/test_io.cpp feeds a dozen hand-written specs with tiny tags, one or two blocks and coordinates such as 0.0 and 1.0"

prop("C01", "MSH 4.1 save then load preserves nodes and elements exactly",
 "For every spec whose node and element sections are internally consistent, saving it as MSH 4.1 (ASCII or binary) and loading the result returns the same nodes and elements: block structure and order, entity dimension and tag, parametric flag, element type, counts, minimum and maximum tags, every node and element tag over the full unsigned 64-bit range, and every finite coordinate (parametric coordinates included) bit for bit. Only a section that holds zero nodes (or zero elements) in total may be left out.",
 ["inputs", "configurations"],
 "all consistent node/element sections (any number and size of blocks, entity dimension 0-3, parametric 0/1, all 31 element types, any tags, any finite doubles), ASCII and binary",
 "Tests sample; " + RT + ", so most element types, parametric blocks, large tags, unprintable mantissas and unequal blocks are never seen.",
 ["src/save_msh_nodes.cpp", "src/load_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/load_msh_elements.cpp", "src/save_msh.cpp", "src/load_msh.cpp"],
 [("v41::save_nodes_ascii/binary", "src/save_msh_nodes.cpp"), ("v41::load_nodes_ascii/binary", "src/load_msh_nodes.cpp"), ("v41::save_elements_ascii/binary", "src/save_msh_elements.cpp"), ("v41::load_elements_ascii/binary", "src/load_msh_elements.cpp")],
 [("MshSpec::nodes / MshSpec::elements", "the in-memory mesh", "include/mshio/MshSpec.h")], ["MshSpec returned by load_msh(stream) after save_msh(stream)"])

prop("C02", "Entities and physical groups survive a save/load round trip",
 "Saving a spec as MSH 4.1 (ASCII or binary) and loading it returns the same points, curves, surfaces and volumes in the same order, with the same tags, finite coordinates and bounding boxes, physical-group tags and (signed) boundary tags. Physical groups keep dimension, tag and name in both MSH versions and both encodings, for every name including empty ones and ones with spaces, quotes, backslashes or line breaks.",
 ["inputs", "configurations"],
 "all entity lists and physical-group lists, any tag lists and names",
 "The tests build one surface entity and one group and never compare entities or groups after the round trip.",
 ["src/save_msh_entities.cpp", "src/load_msh_entities.cpp", "src/save_msh_physical_groups.cpp", "src/load_msh_physical_groups.cpp"],
 [("v41::save_entities_ascii/binary", "src/save_msh_entities.cpp"), ("v41::load_entities_ascii/binary", "src/load_msh_entities.cpp"), ("std::quoted name I/O", "src/*_physical_groups.cpp")],
 [("MshSpec::entities, MshSpec::physical_groups", "BRep and group metadata", "include/mshio/MshSpec.h")], ["MshSpec returned by load_msh"])

prop("C03", "Node, element and element-node data survive a save/load round trip",
 "For every spec whose post-processing data agree with their headers, saving and loading it, in either MSH version and either encoding, returns the same node-data, element-data and element-node-data views in the same order, with the same string, real and integer tags, entry tags (below 2^31), per-element node counts and finite values bit for bit. This holds for any number of views, fields and entries, including zero, and for every string tag.",
 ["inputs", "configurations"],
 "all data views (string tags over arbitrary bytes, any number of tags/entries/fields, any finite doubles), 2 versions x 2 encodings x 3 kinds",
 "Tests use one scalar view with at most four entries and small integral values; vector fields, several views, several nodes per element with distinct values and non-trivial names are not reached.",
 ["src/save_msh_data.cpp", "src/load_msh_data.cpp"],
 [("internal::save_data", "src/save_msh_data.cpp"), ("internal::load_data, load_data_header, v41/v22::load_data_entry", "src/load_msh_data.cpp")],
 [("MshSpec::node_data/element_data/element_node_data", "post-processing views", "include/mshio/MshSpec.h")], ["MshSpec returned by load_msh"])

prop("C04", "MSH 2.2 save then load preserves the mesh content",
 "For every consistent spec with tags below 2^31, saving it as MSH 2.2 (ASCII or binary) and loading the result returns the same sequence of node tags with bit-identical finite x, y, z and the same sequence of elements (tag, type, dimension, entity tag, node tags); node and element totals are unchanged and minimum/maximum tags are the true extremes. Only block boundaries, the owning entity of nodes and parametric coordinates, which MSH 2.2 cannot express, may differ.",
 ["inputs", "configurations"],
 "all consistent node/element sections with tags < 2^31, any block structure, parametric or not, ASCII and binary",
 "Tests only use specs whose blocks already coincide with the 2.2 regrouping; " + RT + ".",
 ["src/save_msh_nodes.cpp", "src/load_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/load_msh_elements.cpp", "src/load_msh_post_process.cpp"],
 [("v22::save_nodes_*, v22::save_elements_*", "src/save_msh_nodes.cpp, src/save_msh_elements.cpp"), ("v22::load_nodes_*, v22::load_elements_*", "src/load_msh_nodes.cpp, src/load_msh_elements.cpp"), ("v22::regroup_*", "src/load_msh_post_process.cpp")],
 [("MshSpec::nodes / MshSpec::elements", "the in-memory mesh", "include/mshio/MshSpec.h")], ["MshSpec returned by load_msh"])

prop("C05", "NanoSpline curves and patches survive a save/load round trip",
 "With the NanoSpline extension enabled, saving any spec with consistent curves and patches (ASCII or binary, either MSH version) and loading it returns the same curves and patches in the same order: tags, types, degrees, control-point and knot counts, rational flag, every finite data value bit for bit, and the extension's format version. With the extension disabled the same files still load, and every other section is unaffected.",
 ["inputs", "configurations"],
 "all lists of curves and patches with consistent data sizes, with or without weights and knots, with other sections around them, extension on and off",
 "The single extension test has no knots, at most two curves and one patch, never compares patches, and uses integral values.",
 ["src/save_msh_curves.cpp", "src/load_msh_curves.cpp", "src/save_msh_patches.cpp", "src/load_msh_patches.cpp", "src/save_msh_nanospline_format.h", "src/load_msh_nanospline_format.h"],
 [("save_curves_*/load_curves_*", "src/save_msh_curves.cpp, src/load_msh_curves.cpp"), ("save_patches_*/load_patches_*", "src/save_msh_patches.cpp, src/load_msh_patches.cpp")],
 [("MshSpec::curves, MshSpec::patches, MshSpec::nanospline_format", "extension sections", "include/mshio/MshSpecExt.h")], ["MshSpec returned by load_msh"])

prop("C06", "Saved files follow the published MSH file layout",
 "Whatever consistent spec is saved, a reader written only from the published MSH 4.1/2.2 layout (header, section names and terminators, field order, field widths in binary, whitespace-separated fields in text, 32-bit tags in binary post-processing data) recovers exactly the spec's header, physical groups, entities, nodes, elements and data from the output. Every section that is opened is closed by its $End marker and nothing is written outside sections.",
 ["inputs", "configurations"],
 "all consistent specs x {4.1, 2.2} x {ASCII, binary}",
 "Tests only read the library's own output back with the library itself, so matching errors in writer and reader cancel out and go unseen.",
 ["src/save_msh.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh_data.cpp", "src/save_msh_physical_groups.cpp"],
 [("save_msh and the save_* section writers", "src/save_msh*.cpp")], [], ["bytes written by save_msh(stream)"])

prop("C07", "Conforming MSH files load to exactly what they contain",
 "A file laid out as the MSH 4.1 or 2.2 format prescribes, in ASCII or binary, loads to a spec holding exactly the values in the file: nodes (with parametric coordinates), elements, entities, physical names and data. This includes forms the library itself never writes: MSH 2.2 elements with zero, two or more tags, binary 2.2 element sections split over several headers or holding several elements per header, any whitespace between text fields, and a last line without a newline.",
 ["inputs", "configurations"],
 "all files produced by an independent writer of the published layout, over all field values within the type's range",
 "Tests load four fixed sample files that contain the same six-node mesh and check two counts.",
 ["src/load_msh.cpp", "src/load_msh_format.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_data.cpp", "src/load_msh_physical_groups.cpp", "src/io_utils.cpp"],
 [("load_msh and the load_* section readers", "src/load_msh*.cpp"), ("eat_white_space", "src/io_utils.cpp")], [], ["MshSpec returned by load_msh(stream)"])

prop("C08", "Loading MSH 2.2 derives blocks, entities and tag ranges faithfully",
 "After loading any MSH 2.2 file with one node section and one element section, elements are grouped into maximal runs of consecutive elements with equal dimension, entity tag and type; nodes are grouped into maximal runs of consecutive nodes with the same owning entity, which is the entity of the last element that lists the node (dimension 0, tag 0 if none). Each entity that elements with at least two tags refer to appears once, in its dimension's list, ordered by tag, with exactly the physical tags those elements name, in ascending order; block counts, totals and minimum/maximum tags are the true ones.",
 ["inputs", "configurations"],
 "all MSH 2.2 files with one node and one element section: any tags (dense or sparse), element types, number of tags, sharing of nodes between elements, order of sections",
 "Tests load one two-quad 2.2 mesh and never look at blocks, entities or tag ranges it derives.",
 ["src/load_msh_post_process.cpp", "src/load_msh_elements.cpp", "src/load_msh_nodes.cpp"],
 [("v22::regroup_nodes_into_blocks, v22::regroup_elements_into_blocks", "src/load_msh_post_process.cpp"), ("v22::create_entities", "src/load_msh_elements.cpp")],
 [("MshSpec::nodes.entity_blocks, elements.entity_blocks, entities", "derived grouping", "include/mshio/MshSpec.h")], ["MshSpec returned by load_msh"])

prop("C09", "Element type queries match the documented table and reject others",
 "For each of the 31 documented element types the library reports exactly the documented number of nodes and dimension. For every other integer both queries throw the unsupported-feature error, and loading or saving an element block of such a type throws the same error instead of producing data.",
 ["inputs", "configurations"],
 "all 2^32 element type values, through both queries and all load/save variants",
 "Tests exercise four element types and never an unsupported one.",
 ["src/element_utils.cpp", "src/load_msh_elements.cpp", "src/save_msh_elements.cpp"],
 [("assert_element_is_supported, nodes_per_element, get_element_dim", "src/element_utils.cpp")], [], ["return value / exception of nodes_per_element, get_element_dim, load_msh, save_msh"])

prop("C10", "validate_spec accepts exactly the consistent specs and never crashes",
 "validate_spec returns normally for every spec whose node and element sections are consistent: declared block counts match, minimum tag does not exceed maximum tag, each block's tags and data have the declared size (three coordinates per node, plus the entity's dimension, 0 to 3, of parametric ones when the flag is 1; for elements, count times one plus the nodes of its supported type), and every node, element and referenced node tag lies within the declared ranges. For every other spec, including ones with empty element blocks or data of the wrong size, it throws one of the library's errors; it never crashes, and the node and element sections of a spec it accepts can be saved without reading outside their arrays.",
 ["inputs"],
 "all specs, consistent or not: arbitrary counts, sizes, types, dims, flags and tags",
 "Tests only call it on valid specs; no rejecting path and no degenerate block is ever executed.",
 ["src/validate_spec.cpp"],
 [("validate_spec", "src/validate_spec.cpp")], [], ["exception or return of validate_spec; memory accesses of a following save_msh"])

prop("C11", "Unsupported versions, data sizes and byte orders are refused",
 "Loading accepts a header with well-formed fields (file type 0 or 1) exactly when the version is 2.2 or 4.1, the data size of a 4.1 file equals the platform's size type, and (for binary) the byte-order marker reads as 1 in native order; otherwise it throws the unsupported-feature error before interpreting any mesh data. Saving nodes or elements under any other version string throws the unsupported-feature error.",
 ["inputs", "configurations"],
 "all version strings, both file types, all data sizes and marker bytes; all section contents when saving",
 "Tests never present a bad header or save under an unknown version.",
 ["src/load_msh_format.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp"],
 [("load_mesh_format", "src/load_msh_format.cpp"), ("version dispatch in save_nodes/save_elements/save_entities", "src/save_msh_*.cpp")], [], ["exception type thrown by load_msh/save_msh"])

prop("C12", "Truncated or malformed sections are reported, not silently loaded",
 "If the input ends before all entries that a section's own counts announce have been read, or a text field that must be a number does not begin with one, load_msh throws an exception derived from std::exception. It never returns a spec with made-up or missing entries and never hangs on such input.",
 ["inputs", "crash_points"],
 "every cut position inside the body of every section and every malformed numeric field, 2 versions x 2 encodings, all section kinds",
 "Tests only load complete files.",
 ["src/load_msh.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_data.cpp", "src/load_msh_physical_groups.cpp", "src/load_msh_curves.cpp", "src/load_msh_patches.cpp"],
 [("stream-state checks after reads", "src/load_msh_*.cpp"), ("load_msh / forward_to loops", "src/load_msh.cpp")], [], ["exception or return of load_msh"])

prop("C13", "Loading arbitrary input is memory-safe and terminates",
 "Whatever bytes it is given, load_msh either returns a spec or throws an exception derived from std::exception: it never reads or writes outside its buffers, never computes with uninitialised values, never crashes and never loops forever. Running out of memory counts as such an exception. In particular hostile counts, negative or huge sizes, unknown element types, and elements that refer to nodes the file does not define cannot corrupt memory.",
 ["inputs", "configurations"],
 "arbitrary values of every count, size, tag, type, dimension and flag in every section, with more or less data following than announced",
 "Tests only load well-formed files; memory errors in particular need sizes and tags no sample file has.",
 ["src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_data.cpp", "src/load_msh_entities.cpp", "src/load_msh_post_process.cpp", "src/load_msh_curves.cpp", "src/load_msh_patches.cpp", "src/load_msh.cpp"],
 [("size computations before resize()", "src/load_msh_*.cpp"), ("node lookup during regrouping", "src/load_msh_post_process.cpp"), ("element_sizes/element_dims tables", "src/element_utils.cpp")], [], ["memory accesses, termination and exception type of load_msh"])

prop("C14", "Unknown sections are skipped and section order does not matter",
 "Sections the library does not know, text between sections, and comments are skipped without affecting any other section, wherever they appear and whatever whitespace separates them. After the header, sections may come in any order and sections that may repeat (node, element and element-node data) may occur any number of times; the loaded spec is the same and repeated views keep file order.",
 ["inputs", "histories"],
 "all interleavings of known and unknown sections and filler text, both versions and encodings",
 "Tests load files with one fixed order and no unknown section.",
 ["src/load_msh.cpp"],
 [("section dispatch loop and forward_to", "src/load_msh.cpp")], [], ["MshSpec returned by load_msh"])

prop("C15", "File overloads report unopenable or unwritable files, else equal streams",
 "load_msh and save_msh on a file name throw std::runtime_error when the file cannot be opened, and save_msh on a file name also throws it when any part of the output could not be written. When they return normally, the file holds exactly the bytes the stream overload produces, and loading it gives exactly what the stream overload gives for those bytes.",
 ["fault_sequences", "inputs", "crash_points"],
 "open failures and a write failure at any point of the output (including the final flush), for all specs",
 "Tests never use save_msh on a file name and never inject an I/O fault.",
 ["src/save_msh.cpp", "src/load_msh.cpp"],
 [("file overloads", "src/save_msh.cpp, src/load_msh.cpp")], [], ["exception or return; resulting file content"])

prop("C16", "Calls are independent of earlier calls and of stream formatting",
 "The result of loading depends only on the bytes given and the result of saving only on the spec given: not on any earlier load or save in the process, successful or failed. Saving writes the same bytes whatever precision, base or notation the caller's stream was set to, leaves that formatting as it found it, and does not change the spec.",
 ["histories", "inputs"],
 "all sequences of load/save/validate calls and all numeric formatting states of the output stream",
 "Each test case saves and loads once on a fresh stream.",
 ["src/save_msh.cpp", "src/load_msh.cpp", "src/load_msh_elements.cpp", "src/load_msh_nodes.cpp"],
 [("no mutable static state", "src/*.cpp"), ("formatting state set up and restored around writing", "src/save_msh.cpp")], [], ["output bytes, stream flags, MshSpec returned"])

prop("C17", "Converting between versions and encodings keeps the mesh",
 "Loading a file in any of the four supported formats (4.1/2.2, ASCII/binary), changing only the version or encoding in the loaded spec, saving it and loading it again yields the same nodes, elements, physical groups and data up to what the poorer format can express (MSH 2.2 has no parametric coordinates, block boundaries or entity section; a section without any node or element may be left out). Every spec obtained by loading a well-formed file, including files with no nodes or no elements, passes validate_spec, and re-saving it unchanged in its own format and loading it gives the same spec again.",
 ["inputs", "configurations", "histories"],
 "all well-formed files and all 4x4 format conversions",
 "Tests never convert a loaded file except the sample mesh, and never check a loaded spec with empty sections.",
 ["src/load_msh_post_process.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/save_msh.cpp", "src/validate_spec.cpp"],
 [("bookkeeping of num_entity_blocks/num_* and min/max tags during load", "src/load_msh_nodes.cpp, src/load_msh_elements.cpp, src/load_msh_post_process.cpp")], [], ["MshSpec after load, convert, save, load; validate_spec"])

prop("C18", "ASCII and binary encodings carry the same information",
 "For every consistent spec without NaN or infinite values, the spec loaded from its ASCII save equals the spec loaded from its binary save in every section and field except the encoding flag; in particular no section of the text encoding loses precision of any double or range of any tag that the binary encoding keeps.",
 ["inputs", "configurations"],
 "all consistent specs, all finite doubles in every section (coordinates, bounding boxes, real tags, data values, control points, knots)",
 "Tests use values that print exactly with six digits.",
 ["src/save_msh.cpp", "src/save_msh_nodes.cpp", "src/save_msh_entities.cpp", "src/save_msh_data.cpp", "src/save_msh_curves.cpp", "src/save_msh_patches.cpp"],
 [("text formatting of doubles", "src/save_msh*.cpp")], [], ["two MshSpec values returned by load_msh"])

prop("C19", "msh_inspect handles every loadable file and prints its real contents",
 "For every file that loads, the msh_inspect tool runs to completion without invalid memory accesses and prints each node with its own coordinates (all parametric ones included), each element with its own node tags and each node-data and element-data entry with its own values, to the digits it prints. The copy it writes loads back to the same mesh.",
 ["inputs"],
 "all loadable files, including parametric nodes of every dimension, vector data and empty sections",
 "The example program is only compiled, never run, by the tests.",
 ["examples/msh_inspect.cpp"],
 [("main", "examples/msh_inspect.cpp")], [], ["standard output and memory accesses of msh_inspect"])

prop("C20", "The Python binding exposes every field and function one to one",
 "Every field of the spec and every public function is reachable from Python under its documented name, with the same type and value as in C++, and assigning a field from Python changes exactly that field.",
 ["inputs", "programs"],
 "all fields and functions of the binding",
 "The binding is not built or tested at all here.",
 ["python/pymshio.cpp", "python/mshio/__init__.py"],
 [("nanobind class and function definitions", "python/pymshio.cpp")], [], ["attributes of mshio Python objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
