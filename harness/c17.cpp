// C17: converting loaded files between versions and encodings; loaded specs are valid and stable.
#include "flat.h"
#include "io.h"
static void set_format(MshSpec& s, unsigned f) { s.mesh_format.version = (f & 2) ? "2.2" : "4.1"; s.mesh_format.file_type = (int)(f & 1); }
static bool valid(const MshSpec& s) { try { mshio::validate_spec(s); return true; } catch (const std::exception&) { return false; } }
// saves under format f and loads again
static MshSpec convert(MshSpec s, unsigned f)
{
    set_format(s, f); std::string b; MshSpec r; vh_assert(try_save(s, b) == LOADED, "a loaded spec cannot be saved in another format");
    vh_assert(try_load(b, r) == LOADED, "the converted file cannot be loaded"); return r;
}
static u64 d_common(const MshSpec& a, const MshSpec& b)
{
    return d_groups(a.physical_groups, b.physical_groups) | d_data(a.node_data, b.node_data, false) | d_data(a.element_data, b.element_data, false) | d_data(a.element_node_data, b.element_node_data, true) | d_curves(a.curves, b.curves) | d_patches(a.patches, b.patches);
}
static void compare(const MshSpec& a, const MshSpec& b, unsigned from, unsigned to)
{
    vh_assert(b.mesh_format.version == ((to & 2) ? "2.2" : "4.1") && b.mesh_format.file_type == (int)(to & 1) && b.mesh_format.data_size == 8, "the header is not that of the target format");
    vh_assert(eq0(d_common(a, b)), "groups or data changed in the conversion");
    vh_assert(eq0(d_flat(flat(a), flat(b))), "nodes or elements changed in the conversion");
    vh_assert(a.nodes.num_nodes == b.nodes.num_nodes && a.elements.num_elements == b.elements.num_elements, "totals changed in the conversion");
    if (!(to & 2) || (from & 2)) vh_assert(eq0((a.nodes.num_nodes ? d_nodes(a.nodes, b.nodes) : 0) | (a.elements.num_elements ? d_elements(a.elements, b.elements) : 0)), "blocks changed in a conversion that can keep them");
    if (!(to & 2)) vh_assert(eq0(d_entities(a.entities, b.entities)), "entities changed in a conversion that can keep them");
    else if (!(from & 2)) vh_assert(b.entities.empty(), "entities appeared");
    vh_assert(valid(b), "validate_spec refuses a loaded spec");
}
static void fixed(const MshSpec& a, unsigned f)
{
    vh_assert(valid(a), "validate_spec refuses a loaded spec");
    MshSpec b = convert(a, f); compare(a, b, f, f);
    vh_assert(eq0(dift(save_bytes(convert(b, f)), save_bytes(b))), "saving again changes the file");
}
// a file of format f: nodes in several blocks, elements of several types, everything else
static void n_block(MshSpec& s, std::vector<u64> tags, int par, int dim)
{
    mshio::NodeBlock b; b.entity_dim = dim; b.entity_tag = sym_int("entity"); b.parametric = par; b.tags = tags; b.num_nodes_in_block = tags.size();
    for (size_t i = 0; i < tags.size() * (3 + (par ? (size_t)dim : 0)); i++) b.data.push_back(sym_fin("coord"));
    s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks++; s.nodes.num_nodes += tags.size();
}
static void e_block(MshSpec& s, int type, unsigned n, u64 first, u64 nodes)
{
    mshio::ElementBlock b; b.entity_dim = T_DIM[type]; b.entity_tag = sym_int("entity"); b.element_type = type; b.num_elements_in_block = n;
    for (unsigned i = 0; i < n; i++) { b.data.push_back(first + i); for (int j = 0; j < T_NODES[type]; j++) b.data.push_back(1 + (i + (u64)j * 3) % nodes); }
    s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks++; s.elements.num_elements += n;
}
static std::string source(unsigned f, unsigned shape)
{
    W w; w.ver = (f & 2) ? 22 : 41; w.bin = f & 1; MshSpec s;
    s.physical_groups = {mk_group("a b"), mk_group("")};
    s.node_data = {mk_view({"n"}, 1, 3, 3, 2, {}), mk_view({"m", "k"}, 0, 4, 1, 1, {})}; s.element_data = {mk_view({}, 2, 3, 2, 2, {})}; s.element_node_data = {mk_view({"x"}, 1, 3, 1, 2, {3, 2})};
#ifdef MSHIO_EXT_NANOSPLINE
    s.curves = {mk_nscurve(2, 3, 1)}; s.patches = {mk_nspatch(1, 1, 2, 0)};
#endif
    if (!(f & 2)) {
        s.entities.points = {mk_point(1)}; s.entities.curves = {mk_curve(0, 2)}; s.entities.surfaces = {mk_surface(2, 1)}; s.entities.volumes = {mk_volume(1, 1)};
        if (shape == 0) { n_block(s, {1, 2}, 1, 2); n_block(s, {3, 4}, 0, 3); e_block(s, 2, 2, 1, 4); e_block(s, 1, 1, 3, 4); }
        else if (shape == 1) { n_block(s, {4, 2}, 0, 0); n_block(s, {}, 1, 1); n_block(s, {1}, 1, 3); n_block(s, {3}, 1, 0); e_block(s, 15, 1, 9, 4); e_block(s, 4, 2, 4, 4); e_block(s, 3, 1, 1, 4); }
        else { n_block(s, {1}, 0, 1); n_block(s, {2, 3, 4}, 1, 1); e_block(s, 8, 2, 2, 4); e_block(s, 8, 1, 1, 4); }
        s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 4; s.elements.min_element_tag = 1; s.elements.max_element_tag = 9;
        w_spec41(w, s);
    } else {
        w_header(w); w_groups(w, s.physical_groups);
        std::vector<N22> n; for (int i = 0; i < 4; i++) { N22 x = {shape == 1 ? 4 - i : i + 1, 0, 0, 0}; x.x = sym_fin("x"); x.y = sym_fin("y"); x.z = sym_fin("z"); n.push_back(x); }
        std::vector<E22> e; std::vector<unsigned> runs; int a = sym_int("entity"), b = sym_int("physical");
        if (shape == 0) { e = {{1, 2, {b, a}, {1, 2, 3}}, {2, 2, {b, a}, {2, 3, 4}}, {3, 1, {4, 9}, {1, 4}}}; runs = {2, 1}; }
        else if (shape == 1) { e = {{9, 15, {a}, {4}}, {4, 4, {b, 2}, {1, 2, 3, 4}}, {5, 4, {b, 3}, {4, 3, 2, 1}}, {1, 3, {1, 3, 5}, {1, 2, 3, 4}}}; runs = {1, 1, 1, 1}; }
        else { e = {{2, 8, {}, {1, 2, 3}}, {3, 8, {}, {2, 3, 4}}, {1, 8, {7, a}, {1, 3, 2}}}; runs = {2, 1}; }
        w_nodes22(w, n); w_elements22(w, e, runs);
        for (auto& d : s.node_data) w_view(w, 0, d);
        for (auto& d : s.element_data) w_view(w, 1, d);
        for (auto& d : s.element_node_data) w_view(w, 2, d);
    }
#ifdef MSHIO_EXT_NANOSPLINE
    w_format(w, "1.0"); w_curves(w, s.curves); w_patches(w, s.patches);
#endif
    return w.s;
}
static MshSpec loaded(const std::string& b) { MshSpec r; vh_assert(try_load(b, r) == LOADED, "a well-formed file was refused"); return r; }
VH_ENTRY(c17_convert)  // cfg = 4 * from + to
{
    unsigned from = (unsigned)cfg >> 2, to = cfg & 3; unsigned shape = pick(3, "shape"); MshSpec r = loaded(source(from, shape)), copy = r;
    vh_assert(valid(r), "validate_spec refuses a loaded spec");
    MshSpec q = convert(r, to); vh_reach("converted"); compare(r, q, from, to); vh_assert(eq0(d_spec(copy, r)), "saving changed the spec"); fixed(q, to); vh_observe(digest(q));
}
// four conversions in a row: back where they started nothing but what MSH 2.2 cannot hold is lost
VH_ENTRY(c17_chain)
{
    unsigned a = pick(4, "first"), b = pick(4, "second"), c = pick(4, "third"); MshSpec r = loaded(source((unsigned)cfg, 0));
    MshSpec p = convert(r, a), q = convert(p, b), t = convert(q, c), u = convert(t, (unsigned)cfg);
    vh_reach("converted"); compare(r, p, (unsigned)cfg, a); compare(p, q, a, b); compare(q, t, b, c); compare(t, u, c, (unsigned)cfg);
    vh_assert(eq0(d_common(r, u)) && eq0(d_flat(flat(r), flat(u))), "a chain of conversions changed the mesh");
    if (!((unsigned)cfg & 2) && !(a & 2) && !(b & 2) && !(c & 2)) vh_assert(eq0(d_spec(r, u)), "a chain of conversions that can keep everything changed the spec");
}
// every element type
VH_ENTRY(c17_types)
{
    unsigned from = (unsigned)cfg >> 2, to = cfg & 3; int t = 1 + (int)pick(31, "type"); W w; w.ver = (from & 2) ? 22 : 41; w.bin = from & 1; unsigned k = (unsigned)T_NODES[t];
    MshSpec s; std::vector<u64> tags; std::vector<N22> n; std::vector<int> ids; for (unsigned i = 1; i <= k; i++) { tags.push_back(i); ids.push_back((int)(1 + (i * 5) % k)); n.push_back({(int)i, 0.25 * i, -1.0 * i, 3}); }
    if (from & 2) { int a = sym_int("entity"); w_header(w); w_nodes22(w, n); w_elements22(w, {{5, t, {1, a}, ids}, {3, t, {1, a}, ids}}, {2}); }
    else { mshio::NodeBlock b; b.entity_dim = T_DIM[t]; b.entity_tag = sym_int("entity"); b.tags = tags; b.num_nodes_in_block = k; for (auto& x : n) { b.data.push_back(x.x); b.data.push_back(x.y); b.data.push_back(x.z); } s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = k; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = k; e_block(s, t, 2, 3, k); s.elements.min_element_tag = 3; s.elements.max_element_tag = 5; w_spec41(w, s); }
    MshSpec r = loaded(w.s); vh_assert(valid(r), "validate_spec refuses a loaded spec"); MshSpec q = convert(r, to); vh_reach("converted"); compare(r, q, from, to); compare(q, convert(q, to), to, to);
}
// extreme and symbolic tags
VH_ENTRY(c17_tags)
{
    unsigned from = (unsigned)cfg >> 2, to = cfg & 3; W w; w.ver = (from & 2) ? 22 : 41; w.bin = from & 1; u64 top = ((from | to) & 2) ? TAG22 : TAG41; MshSpec s;
    u64 a = sym_range(0, top, "node"), e = sym_range(0, top, "element"); bool one = pick(2, "one") != 0; u64 z = one ? a : top;
    if (from & 2) { w_header(w); w_nodes22(w, {{(int)a, 1, 2, 3}, {(int)z, 4, 5, 6}}); w_elements22(w, {{(int)e, 1, {2, 3}, {(int)a, (int)z}}}, {1}); }
    else { mshio::NodeBlock b; b.entity_dim = 1; b.entity_tag = 3; b.tags = {a, z}; b.num_nodes_in_block = 2; b.data = {1, 2, 3, 4, 5, 6}; s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = 2; s.nodes.min_node_tag = a; s.nodes.max_node_tag = z; mshio::ElementBlock x; x.entity_dim = 1; x.entity_tag = -3; x.element_type = 1; x.num_elements_in_block = 1; x.data = {e, a, z}; s.elements.entity_blocks = {x}; s.elements.num_entity_blocks = s.elements.num_elements = 1; s.elements.min_element_tag = s.elements.max_element_tag = e; w_spec41(w, s); }
    MshSpec r = loaded(w.s); MshSpec q = convert(r, to); vh_reach("converted"); compare(r, q, from, to); fixed(q, to); vh_observe(digest(q));
}
// missing, empty and lonely sections
VH_ENTRY(c17_empty)  // cfg: source format
{
    unsigned f = (unsigned)cfg & 3, k = pick(8, "case"), to = pick(4, "to"); W w; w.ver = (f & 2) ? 22 : 41; w.bin = f & 1; w_header(w); MshSpec s; std::vector<N22> n = {{3, 0.1, 0.2, 0.3}, {2, 1, 2, 3}}; std::vector<E22> e = {{4, 1, {1, 2}, {2, 3}}};
    bool nodes = k == 1 || k == 2 || k == 3 || k == 6, elements = k == 1 || k == 2 || k == 4 || k == 7, full_n = k == 2 || k == 3, full_e = k == 7;
    if (k == 1) full_n = full_e = false;
    if (k == 2) full_e = false;  // nodes and an empty element section
    if (k == 4) full_e = false;  // an empty element section alone
    if (k == 5) { s.physical_groups = {mk_group("g")}; w_groups(w, s.physical_groups); }
    if (f & 2) {
        if (nodes) w_nodes22(w, full_n ? n : std::vector<N22>{});
        if (k == 7) w_nodes22(w, n);
        if (elements) w_elements22(w, full_e ? e : std::vector<E22>{}, full_e ? std::vector<unsigned>{1} : std::vector<unsigned>{});
    } else {
        if (k == 6) { n_block(s, {}, 0, 2); n_block(s, {}, 1, 1); }
        if (full_n || k == 7) { n_block(s, {2, 3}, 0, 1); s.nodes.min_node_tag = 2; s.nodes.max_node_tag = 3; }
        if (full_e) { e_block(s, 1, 1, 4, 2); s.elements.entity_blocks[0].data = {4, 2, 3}; s.elements.min_element_tag = s.elements.max_element_tag = 4; }
        if (nodes || k == 7) w_nodes41(w, s.nodes);
        if (elements) w_elements41(w, s.elements);
    }
    MshSpec r = loaded(w.s); vh_assert(r.nodes.num_nodes == (full_n || k == 7 ? 2u : 0u) && r.elements.num_elements == (full_e ? 1u : 0u), "nodes or elements appeared");
    vh_assert(valid(r), "validate_spec refuses a loaded spec"); MshSpec q = convert(r, to); vh_reach("converted"); compare(r, q, f, to); fixed(q, to);
}
// ---- recorded findings
VH_ENTRY(c17_empty_block)  // an element block without elements: validate_spec divides by zero
{
    W w; w.ver = 41; MshSpec s; n_block(s, {1, 2}, 0, 1); s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 2; e_block(s, 1, 0, 1, 2); e_block(s, 1, 1, 1, 2); s.elements.min_element_tag = s.elements.max_element_tag = 1; w_spec41(w, s);
    vh_assert(valid(loaded(w.s)), "validate_spec refuses a loaded spec");
}
VH_ENTRY(c17_physical)  // MSH 2.2 output has one tag per element: physical tags are lost
{
    W w; w.ver = 22; w.bin = cfg & 1; w_header(w); w_nodes22(w, {{1, 0, 0, 0}, {2, 1, 0, 0}}); w_elements22(w, {{1, 1, {7, 3}, {1, 2}}}, {1});
    MshSpec r = loaded(w.s); vh_assert(eq0(d_entities(r.entities, convert(r, 2 + (cfg & 1)).entities)), "physical tags of elements are lost");
}
// many of everything; cfg = from + 4 * to, +16: 1000 of each
VH_ENTRY(c17_big)
{
    unsigned from = (unsigned)cfg & 3, to = (unsigned)cfg >> 2 & 3; MshSpec s = big((int)from, (cfg & 16) ? 1000 : BIG_N[pick(4, "size")], BIG_ALL, true), a = load_bytes(save_bytes(s)); vh_reach("loaded");
    if (from == to) fixed(a, from); else { MshSpec b = convert(a, to); compare(a, b, from, to); }
    vh_observe(a.nodes.num_nodes);
}
// very many of one thing; cfg = from + 4 * to + 16 * kind
VH_ENTRY(c17_huge)
{
    unsigned from = (unsigned)cfg & 3, to = (unsigned)cfg >> 2 & 3; MshSpec a = load_bytes(save_bytes(huge((int)from, (unsigned)cfg >> 4, HUGE_N, true))); vh_reach("loaded");
    if (from == to) fixed(a, from); else { MshSpec b = convert(a, to); compare(a, b, from, to); }
    vh_observe(a.nodes.num_nodes);
}
