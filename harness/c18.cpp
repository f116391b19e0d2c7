// C18: the text and the binary encoding of one spec load to the same spec.
#include "io.h"
static MshSpec through(MshSpec s, int bin)
{
    s.mesh_format.file_type = bin; std::string b; MshSpec r; vh_assert(try_save(s, b) == LOADED, "a consistent spec cannot be saved"); vh_assert(try_load(b, r) == LOADED, "a saved file cannot be loaded");
    vh_assert(r.mesh_format.file_type == bin, "the encoding flag is wrong"); r.mesh_format.file_type = 0; return r;
}
static void check(const MshSpec& s, bool whole = true)
{
    MshSpec a = through(s, 0), b = through(s, 1); vh_reach("loaded");
    vh_assert(eq0(d_nodes(a.nodes, b.nodes)), "nodes of the text and the binary file differ");
    vh_assert(eq0(d_elements(a.elements, b.elements)), "elements of the text and the binary file differ");
    vh_assert(eq0(d_entities(a.entities, b.entities) | d_groups(a.physical_groups, b.physical_groups)), "entities or groups of the text and the binary file differ");
    vh_assert(eq0(d_data(a.node_data, b.node_data, true) | d_data(a.element_data, b.element_data, true) | d_data(a.element_node_data, b.element_node_data, true)), "data of the text and the binary file differ");
    vh_assert(eq0(d_curves(a.curves, b.curves) | d_patches(a.patches, b.patches)), "curves or patches of the text and the binary file differ");
    vh_assert(eq0(d_spec(a, b)), "the text and the binary file load differently");
    // neither encoding drops what the spec holds
    vh_assert(a.nodes.num_nodes == s.nodes.num_nodes && a.elements.num_elements == s.elements.num_elements && a.node_data.size() == s.node_data.size() && a.element_data.size() == s.element_data.size() && a.element_node_data.size() == s.element_node_data.size() && a.physical_groups.size() == s.physical_groups.size(), "a section is missing from both encodings");
    if (whole) vh_observe(digest(a));
}
static void version(MshSpec& s, int v22) { fmt(s, v22 ? "2.2" : "4.1", 0); }
VH_ENTRY(c18_nodes)  // cfg: bit 0: 2.2
{
    MshSpec s; version(s, cfg & 1); unsigned nb = 1 + pick(2, "blocks"); Range r = node_range(s, (cfg & 1) ? TAG22 : TAG41);
    for (unsigned i = 0; i < nb; i++) { unsigned n = pick(3, "nodes"); unsigned k = pick(5, "parametric"); if ((cfg & 1) && nb == 2) n = i; add_nodes(s, r, n, k > 0, k > 0 ? (int)k - 1 : -1); }
    check(s);
}
VH_ENTRY(c18_elements)  // cfg: bit 0: 2.2; rest: group of types
{
    int lo = (cfg >> 1) * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7, t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    MshSpec s; version(s, cfg & 1); bool old = cfg & 1; unsigned n = 1 + pick(old ? 1 : 2, "elements"), k = (unsigned)T_NODES[t];
    if (!old) { Range nr = node_range(s, TAG41), er = elem_range(s, TAG41); add_nodes(s, nr, 1, 0, -1); add_elements(s, er, nr, n, t); add_elements(s, er, nr, 0, 2); add_elements(s, er, nr, 1, 15); }
    else {
        mshio::ElementBlock b; b.entity_dim = T_DIM[t]; b.entity_tag = sym_int("entity"); b.element_type = t; b.num_elements_in_block = 2; u64 e = sym_range(0, TAG22, "element");
        for (u64 i = 0; i < 2; i++) { b.data.push_back(i ? 7 : e); for (unsigned j = 0; j < k; j++) b.data.push_back(1 + (j + i) % 4); }
        tiny_nodes(s); s.elements.entity_blocks = {b}; s.elements.num_entity_blocks = 1; s.elements.num_elements = 2; s.elements.max_element_tag = TAG22;
    }
    check(s, !old || t < 20);
}
VH_ENTRY(c18_entities)
{
    MshSpec s; version(s, 0); unsigned kind = pick(4, "kind"), n = pick(3, "entities"), p = pick(3, "groups"), b = pick(3, "boundary");
    for (unsigned i = 0; i < n; i++) { if (kind == 0) s.entities.points.push_back(mk_point(p)); else if (kind == 1) s.entities.curves.push_back(mk_curve(p, b)); else if (kind == 2) s.entities.surfaces.push_back(mk_surface(p, b)); else s.entities.volumes.push_back(mk_volume(p, b)); }
    if (n == 1) { s.entities.points.push_back(mk_point(1)); s.entities.volumes.push_back(mk_volume(0, 1)); }
    tiny_nodes(s); check(s);
}
VH_ENTRY(c18_groups)  // cfg: bit 0: 2.2; names of 0-3 arbitrary bytes
{
    MshSpec s; version(s, cfg & 1); unsigned a = pick(4, "length"), b = pick(2, "length"); s.physical_groups = {mk_group(sym_str(a, "name")), mk_group(sym_str(b, "name")), mk_group("tail")}; tiny_nodes(s); check(s);
}
VH_ENTRY(c18_data)  // cfg: bit 0: 2.2; rest: kind
{
    int kind = cfg >> 1; MshSpec s; version(s, cfg & 1); unsigned f = pick(4, "fields"), n = pick(3, "entries"), nr = pick(3, "real"), ni = 3 + pick(2, "ints"); std::vector<unsigned> k; if (kind == 2) k = pick(2, "nodes") ? std::vector<unsigned>{3, 1} : std::vector<unsigned>{0, 2};
    auto& v = kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data; v = {mk_view({"a \"b\\", ""}, nr, ni, f, n, k), mk_view({}, 1, 3, 2, 1, k)}; tiny_nodes(s); check(s);
}
VH_ENTRY(c18_name)  // string tags of 1-2 arbitrary bytes
{
    int kind = cfg >> 1; MshSpec s; version(s, cfg & 1); std::vector<unsigned> k; if (kind == 2) k = {1}; unsigned n = 1 + pick(2, "length");
    auto& v = kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data; v = {mk_view({sym_str(n, "name"), "x"}, 1, 3, 1, 1, k)}; check(s);
}
VH_ENTRY(c18_counts)  // counts that look like white space in binary
{
    static const unsigned ns[4] = {9, 10, 13, 32}; unsigned n = ns[pick(4, "count")]; MshSpec s; version(s, cfg & 1);
    mshio::NodeBlock b; b.entity_dim = 1; b.entity_tag = 10; b.num_nodes_in_block = n; for (unsigned i = 0; i < n; i++) { b.tags.push_back(n + i); b.data.push_back(i); b.data.push_back(0.1 * i); b.data.push_back(i == 3 ? sym_fin("z") : -1e300); }
    s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = n; s.nodes.min_node_tag = n; s.nodes.max_node_tag = 2 * n - 1;
    mshio::ElementBlock e; e.entity_dim = 1; e.entity_tag = 32; e.element_type = 1; e.num_elements_in_block = n - 1; for (unsigned i = 0; i + 1 < n; i++) { e.data.push_back(i + 9); e.data.push_back(n + i); e.data.push_back(n + i + 1); }
    s.elements.entity_blocks = {e}; s.elements.num_entity_blocks = 1; s.elements.num_elements = n - 1; s.elements.min_element_tag = 9; s.elements.max_element_tag = n + 7;
    s.element_data = {mk_view({"d"}, 0, 3, 1, n, {})}; if (!(cfg & 1)) for (unsigned i = 0; i < n; i++) s.entities.points.push_back(mk_point(0));
    check(s);
}
#ifdef MSHIO_EXT_NANOSPLINE
VH_ENTRY(c18_ext)  // cfg: bit 0: 2.2, bit 1: patches
{
    MshSpec s; version(s, cfg & 1); s.nanospline_format.version = "1.0"; unsigned n = 1 + pick(2, "number"), cp = pick(3, "points"), k = pick(3, "knots"), w = pick(3, "weights");
    u64 ww = w == 2 ? sym_range(2, ~0ull, "weights") : w;
    for (unsigned i = 0; i < n; i++) { if (cfg & 2) s.patches.push_back(mk_nspatch(cp + i, k, 2 - k, ww)); else s.curves.push_back(mk_nscurve(cp + i, k, ww)); }
    tiny_nodes(s); check(s);
}
#endif
VH_ENTRY(c18_all)  // cfg: bit 0: 2.2
{
    MshSpec s; version(s, cfg & 1); s.physical_groups = {mk_group("a \"b"), mk_group("")};
    if (!(cfg & 1)) {
        s.entities.points = {mk_point(1), mk_point(0)}; s.entities.curves = {mk_curve(1, 2)}; s.entities.surfaces = {mk_surface(2, 1)}; s.entities.volumes = {mk_volume(1, 1)};
        Range nr = node_range(s, TAG41), er = elem_range(s, TAG41); add_nodes(s, nr, 2, 1, 2); add_nodes(s, nr, 0, 0, -1); add_nodes(s, nr, 1, 1, 3); add_elements(s, er, nr, 2, 2); add_elements(s, er, nr, 1, 5);
    } else { tiny_nodes(s); tiny_elements(s); for (auto& x : s.nodes.entity_blocks[0].data) x = sym_fin("coord"); s.elements.entity_blocks[0].entity_tag = sym_int("entity"); }
    for (unsigned i = 0; i < 2; i++) { s.node_data.push_back(mk_view({"n"}, 1, 3, 1 + i, 2, {})); s.element_data.push_back(mk_view({}, 0, 4, 2, 1 + i, {})); s.element_node_data.push_back(mk_view({"x", "y"}, 2, 3, 1, 2, {2, 3})); }
#ifdef MSHIO_EXT_NANOSPLINE
    s.curves = {mk_nscurve(2, 3, 1), mk_nscurve(1, 1, 0)}; s.patches = {mk_nspatch(2, 1, 2, 1)}; s.nanospline_format.version = "1.0";
#endif
    check(s);
}
// many of everything
VH_ENTRY(c18_big)  // cfg: bit 0: 2.2, +2: 1000 of each
{
    MshSpec s = big((cfg & 1) * 2, (cfg & 2) ? 1000 : BIG_N[pick(4, "size")]); check(s, false);
}
VH_ENTRY(c18_huge) { check(huge((cfg & 1) * 2, (unsigned)cfg >> 1, (cfg >> 1) == 8 ? 12000 : HUGE_N), false); }  // very many of one thing; cfg: bit 0: 2.2, rest: kind
