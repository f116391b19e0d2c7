// C04: MSH 2.2 round trip of the mesh content.
#include "flat.h"
static void check(const MshSpec& s, bool obs = true)
{
    MshSpec r = round_trip(s);
    vh_reach("loaded");
    Flat a = flat(s), b = flat(r); u64 d = 0;
    vh_assert(a.ntags.size() == b.ntags.size() && a.els.size() == b.els.size(), "number of nodes or elements changed in the MSH 2.2 round trip");
    d |= difv(a.ntags, b.ntags) | difv(a.xyz, b.xyz);
    vh_assert(eq0(d), "node tags or coordinates changed in the MSH 2.2 round trip");
    d = 0;
    for (size_t i = 0; i < a.els.size(); i++) { d |= dif(a.els[i].tag, b.els[i].tag) | difi(a.els[i].type, b.els[i].type) | difi(a.els[i].dim, b.els[i].dim) | difi(a.els[i].ent, b.els[i].ent) | difv(a.els[i].nodes, b.els[i].nodes); }
    vh_assert(eq0(d), "elements changed in the MSH 2.2 round trip");
    u64 c = (r.nodes.num_nodes ^ a.ntags.size()) | (r.elements.num_elements ^ a.els.size()) | (r.nodes.num_entity_blocks ^ r.nodes.entity_blocks.size()) | (r.elements.num_entity_blocks ^ r.elements.entity_blocks.size());
    vh_assert(eq0(c), "totals changed in the MSH 2.2 round trip");
    if (!a.ntags.empty()) {  // minimum and maximum: bounds that are attained
        u64 lo = r.nodes.min_node_tag, hi = r.nodes.max_node_tag; int in = 1, al = 0, ah = 0;
        for (u64 t : a.ntags) { in &= (int)(t >= lo) & (int)(t <= hi); al |= (int)(t == lo); ah |= (int)(t == hi); }
        vh_assert((in & al & ah) != 0, "minimum or maximum node tag is wrong");
    }
    if (!a.els.empty()) {
        u64 lo = r.elements.min_element_tag, hi = r.elements.max_element_tag; int in = 1, al = 0, ah = 0;
        for (auto& e : a.els) { in &= (int)(e.tag >= lo) & (int)(e.tag <= hi); al |= (int)(e.tag == lo); ah |= (int)(e.tag == hi); }
        vh_assert((in & al & ah) != 0, "minimum or maximum element tag is wrong");
    }
    vh_observe(obs ? digest(r) : r.nodes.num_nodes);
}
static void range(MshSpec& s) { s.nodes.min_node_tag = 0; s.nodes.max_node_tag = TAG22; s.elements.min_element_tag = 0; s.elements.max_element_tag = TAG22; }
static const Range ALL = {0, TAG22};
// symbolic node tags, up to two blocks, no elements
VH_ENTRY(c04_nodes)
{
    static const unsigned sh[6][2] = {{2, 1}, {1, 2}, {0, 2}, {1, 0}, {1, 1}, {2, 0}};
    MshSpec s; fmt(s, "2.2", cfg & 1); range(s);
    unsigned k = pick(5, "parametric");
    if (cfg & 2) { unsigned q = pick(6, "shape"); for (unsigned i = 0; i < 2; i++) { add_nodes(s, ALL, sh[q][i], k > 0, k > 0 ? (int)k - 1 : -1); k = (2 * k + 1) % 5; } }
    else add_nodes(s, ALL, pick(4, "nodes"), k > 0, k > 0 ? (int)k - 1 : -1);
    check(s);
}
// concrete, sparse node tags; coordinates symbolic
static void conc_nodes(MshSpec& s, unsigned n, int par, int dim, u64 first, u64 step)
{
    mshio::NodeBlock b; b.entity_dim = dim; b.entity_tag = sym_int("entity_tag"); b.parametric = par; b.num_nodes_in_block = n; int ok = 1;
    for (unsigned i = 0; i < n; i++) b.tags.push_back(first + i * step);
    for (unsigned i = 0; i < n * (3 + (par ? (unsigned)dim : 0)); i++) { u64 t = sym_u64("coord"); ok &= (int)(((t >> 52) & 0x7ff) != 0x7ff); b.data.push_back(from_bits(t)); }
    vh_assume(ok != 0);
    s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks++; s.nodes.num_nodes += n;
}
// elements with concrete node references and symbolic tags
static void conc_elements(MshSpec& s, unsigned n, int type, u64 nodes, u64 first, u64 step, unsigned shift, unsigned syms = 2)
{
    mshio::ElementBlock b; b.entity_dim = T_DIM[type]; b.entity_tag = sym_int("entity_tag"); b.element_type = type; b.num_elements_in_block = n; int ok = 1; unsigned c = shift;
    for (unsigned i = 0; i < n; i++) { u64 t = 1000 - 3 * i; if (syms > 0) { syms--; t = sym_u64("element_tag"); ok &= (int)(t <= TAG22); } b.data.push_back(t); for (int j = 0; j < T_NODES[type]; j++) b.data.push_back(first + (c++ * 7 % nodes) * step); }
    vh_assume(ok != 0);
    s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks++; s.elements.num_elements += n;
}
// every element type
VH_ENTRY(c04_types)  // cfg = 2 * part + binary
{
    MshSpec s; fmt(s, "2.2", cfg & 1); range(s);
    int lo = (cfg >> 1) * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7, t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    unsigned n = 1 + pick(2, "elements");
    conc_nodes(s, 5, 0, 2, 3, 11); conc_elements(s, n, t, 5, 3, 11, 1);
    check(s);
}
// blocks of several types and sizes, empty blocks first, in the middle and last
VH_ENTRY(c04_blocks)
{
    static const int sh[8][4][2] = {{{0, 2}, {2, 1}, {1, 2}, {0, 15}}, {{1, 1}, {0, 4}, {2, 4}, {1, 1}}, {{3, 15}, {1, 2}, {1, 2}, {2, 3}}, {{0, 1}, {0, 1}, {0, 2}, {0, 3}}, {{1, 5}, {1, 6}, {0, 7}, {1, 7}}, {{2, 2}, {2, 2}, {1, 3}, {1, 2}}, {{1, 9}, {1, 8}, {0, 10}, {1, 16}}, {{4, 1}, {1, 15}, {2, 2}, {1, 4}}};
    MshSpec s; fmt(s, "2.2", cfg & 1); range(s);
    conc_nodes(s, 3, 1, 2, 1, 1); conc_nodes(s, 0, 0, 1, 0, 0); conc_nodes(s, 4, 0, 3, 4, 1); conc_nodes(s, 2, 1, 1, 100, 50);
    unsigned k = pick(8, "shape");
    for (unsigned i = 0; i < 4; i++) conc_elements(s, (unsigned)sh[k][i][0], sh[k][i][1], 7, 1, 1, k + i, i == 1 ? 1 : i == 3 ? 2 : 0);
    check(s);
}
// node references are symbolic, too
VH_ENTRY(c04_refs)
{
    MshSpec s; fmt(s, "2.2", cfg & 1); range(s);
    unsigned k = pick(3, "shape");
    add_nodes(s, ALL, k == 0 ? 2 : 1, 0, 2);
    if (k == 2) add_nodes(s, ALL, 1, 1, 1);
    static const int ty[3] = {1, 15, 2};
    add_elements(s, ALL, ALL, 1, ty[k], false);
    if (k == 1) add_elements(s, ALL, ALL, 1, 15, false);
    check(s);
}
// white-space-like counts
VH_ENTRY(c04_ws)
{
    static const unsigned cnt[4] = {9, 10, 13, 32};
    MshSpec s; fmt(s, "2.2", cfg & 1); range(s); unsigned n = cnt[pick(4, "count")];
    conc_nodes(s, n, 0, 0, 9, 1); conc_elements(s, n, 15, n, 9, 1, 0, 0); s.nodes.entity_blocks[0].data[0] = sym_fin("first");
    for (unsigned i = 0; i < n; i++) s.elements.entity_blocks[0].data[2 * i] = i + n;
    check(s);
}
VH_ENTRY(c04_bulk)  // cfg = 2 * shape + binary
{
    MshSpec s; fmt(s, "2.2", cfg & 1); range(s); unsigned n = (cfg & 2) ? 700 : 400;
    mshio::NodeBlock b; b.entity_dim = 2; b.entity_tag = 3; b.parametric = 1; b.num_nodes_in_block = n;
    for (unsigned i = 0; i < n; i++) { b.tags.push_back(n - i); for (int k = 0; k < 5; k++) b.data.push_back(i * 0.37 + k); }
    for (unsigned i = 0; i < n; i += n / 5) b.data[i * 5 + 2] = sym_fin("coord");
    s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = n;
    conc_elements(s, 3, 2, n, 1, 1, 5, (cfg & 4) ? 0 : 2);
    if (cfg & 4) { mshio::ElementBlock e; e.entity_dim = 0; e.entity_tag = 4; e.element_type = 15; e.num_elements_in_block = 300; for (unsigned i = 0; i < 300; i++) { e.data.push_back(7 + i); e.data.push_back(1 + i % 7); } e.data[100] = sym_range(0, TAG22, "element_tag"); s.elements.entity_blocks.push_back(e); s.elements.num_entity_blocks++; s.elements.num_elements += 300; }
    check(s, false);
}
VH_ENTRY(c04_big)  // cfg: format, +4: 1000 nodes and elements in the first block
{
    MshSpec s = big(2 + (cfg & 1), (cfg & 4) ? 1000 : BIG_N[pick(4, "size")]); check(s, false);
}
static void many(int cfg, unsigned n)
{
    vm_hash(1); MshSpec s; fmt(s, "2.2", cfg & 1); range(s);
    mshio::NodeBlock b; b.entity_dim = 2; b.entity_tag = 3; b.num_nodes_in_block = (cfg & 2) ? 3 : n;
    for (unsigned i = 0; i < b.num_nodes_in_block; i++) { b.tags.push_back(i + 1); for (unsigned k = 0; k < 3; k++) b.data.push_back(i + k); }
    b.data[b.data.size() / 2] = sym_fin("coord"); b.data.back() = sym_fin("last");
    s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = b.num_nodes_in_block;
    mshio::ElementBlock e; e.entity_dim = 1; e.entity_tag = 4; e.element_type = 1; e.num_elements_in_block = (cfg & 2) ? n : 2; u64 t = sym_range(100000, TAG22, "element_tag");
    for (unsigned i = 0; i < e.num_elements_in_block; i++) { e.data.push_back(i + 1 == e.num_elements_in_block ? t : i + 1); e.data.push_back(1 + i % 3); e.data.push_back(1 + i / 2 % 3); }
    s.elements.entity_blocks = {e}; s.elements.num_entity_blocks = 1; s.elements.num_elements = e.num_elements_in_block;
    check(s, false);
}
// node and element counts that are powers of two
VH_ENTRY(c04_powers) { many(cfg, 64u << pick(8, "size")); }  // cfg = 2 * shape + binary
VH_ENTRY(c04_huge) { many(cfg, (cfg & 4) ? 65536 : 70001); }
VH_ENTRY(c04_many) { check(huge(2 + (cfg & 1), 2 + ((unsigned)cfg >> 1), HUGE_N), false); }  // very many blocks; cfg: encoding + 2 * kind
