// C10: validate_spec accepts exactly the consistent specs.
#include "gen.h"
static u64 zero(u64 d) { return (u64)(d == 0); }
// Is the spec consistent?  Written from the property, without branching on symbolic values.
static int consistent(const MshSpec& s)
{
    u64 ok = zero(s.nodes.num_entity_blocks ^ s.nodes.entity_blocks.size()) & zero(s.elements.num_entity_blocks ^ s.elements.entity_blocks.size());
    ok &= (u64)(s.nodes.min_node_tag <= s.nodes.max_node_tag) & (u64)(s.elements.min_element_tag <= s.elements.max_element_tag);
    for (auto& b : s.nodes.entity_blocks) {
        ok &= zero(b.num_nodes_in_block ^ b.tags.size());
        for (u64 t : b.tags) ok &= (u64)(t >= s.nodes.min_node_tag) & (u64)(t <= s.nodes.max_node_tag);
        u64 n = b.tags.size(), par = (u64)(b.parametric == 1), sz = zero(b.data.size() ^ 3 * n) & (par ^ 1);
        for (u64 d = 0; d <= 3; d++) sz |= par & (u64)(b.entity_dim == (int)d) & zero(b.data.size() ^ (3 + d) * n);
        ok &= sz;
    }
    for (auto& b : s.elements.entity_blocks) {
        u64 any = 0;
        for (int t = 1; t <= NTYPES; t++) {
            u64 w = (u64)T_NODES[t] + 1; if (b.data.size() % w) continue;
            u64 in = (u64)(b.element_type == t) & zero(b.num_elements_in_block ^ b.data.size() / w);
            for (size_t j = 0; j < b.data.size(); j++) if (j % w == 0) in &= (u64)(b.data[j] >= s.elements.min_element_tag) & (u64)(b.data[j] <= s.elements.max_element_tag); else in &= (u64)(b.data[j] >= s.nodes.min_node_tag) & (u64)(b.data[j] <= s.nodes.max_node_tag);
            any |= in;
        }
        ok &= any;
    }
    return (int)ok;
}
static void check(const MshSpec& s)
{
    int want = consistent(s);
    bool accepted = false, lib = false;
    try { mshio::validate_spec(s); accepted = true; } catch (const mshio::CorruptData&) { lib = true; } catch (const mshio::InvalidFormat&) { lib = true; } catch (const mshio::UnsupportedFeature&) { lib = true; } catch (...) {}
    vh_reach("validated");
    vh_assert(accepted || lib, "validate_spec threw something other than the library's errors");
    vh_assert((int)accepted == want, accepted ? "validate_spec accepted an inconsistent spec" : "validate_spec refused a consistent spec");
    vh_observe(accepted);
    if (!accepted) return;
    for (int m = 0; m < 4; m++) {
        MshSpec q = s; fmt(q, (m & 2) ? "2.2" : "4.1", m & 1); q.nodes.num_nodes = q.elements.num_elements = 1; std::string b;
        Outcome o = try_save(q, b); vh_assert(o == LOADED || o == UNSUPPORTED, "saving an accepted spec failed");
    }
    vh_reach("accepted");
}
static void symtags(std::vector<size_t>& v, unsigned n) { for (unsigned i = 0; i < n; i++) v.push_back(sym_u64("tag")); }
static void limits(MshSpec& s) { s.nodes.min_node_tag = sym_u64("min"); s.nodes.max_node_tag = sym_u64("max"); s.elements.min_element_tag = sym_u64("emin"); s.elements.max_element_tag = sym_u64("emax"); }
// node blocks: declared counts, flags, dimensions and tags symbolic, sizes enumerated
VH_ENTRY(c10_nodes)  // cfg = number of tags
{
    MshSpec s; limits(s); unsigned nb = 1 + pick(2, "blocks");
    for (unsigned i = 0; i < nb; i++) {
        mshio::NodeBlock b; unsigned n = i ? 1 : (unsigned)cfg; b.entity_dim = sym_int("dim"); b.entity_tag = 4; b.parametric = sym_int("parametric"); b.num_nodes_in_block = sym_u64("count");
        symtags(b.tags, n); b.data.resize(i ? (pick(2, "size") ? 3 : 5) : pick(6 * n + 2, "size"), 0.5);
        // the rest of this domain is in c10_flag and c10_dim
        vh_assume(((int)(b.parametric <= 0) | ((int)(b.parametric == 1) & (int)(b.entity_dim >= 0) & (int)(b.entity_dim <= 3))) != 0);
        s.nodes.entity_blocks.push_back(b);
    }
    s.nodes.num_entity_blocks = nb; check(s);
}
// declared numbers of blocks
VH_ENTRY(c10_counts)
{
    MshSpec s; limits(s); unsigned a = pick(3, "nodes"), b = pick(3, "elements");
    for (unsigned i = 0; i < a; i++) { mshio::NodeBlock x; x.tags = {sym_u64("tag")}; x.num_nodes_in_block = 1; x.data = {1, 2, 3}; s.nodes.entity_blocks.push_back(x); }
    for (unsigned i = 0; i < b; i++) { mshio::ElementBlock x; x.element_type = 1; x.num_elements_in_block = 1; symtags(x.data, 3); s.elements.entity_blocks.push_back(x); }
    s.nodes.num_entity_blocks = sym_u64("nblocks"); s.elements.num_entity_blocks = sym_u64("eblocks");
    check(s);
}
// element blocks: counts, sizes and tags
static mshio::ElementBlock eblock(int type, u64 n, unsigned size) { mshio::ElementBlock b; b.entity_dim = 2; b.entity_tag = 3; b.element_type = type; b.num_elements_in_block = n; symtags(b.data, size); return b; }
static int recorded(int type, u64 n, unsigned size)  // combinations whose handling is a recorded finding: see the entries below
{
    int r = (int)(n == 0) | (int)(n > size), w = T_NODES[type] + 1;
    for (u64 k = 1; k <= size; k++) if (size % (size / k) == 0 && size != k * (u64)w) r |= (int)(n == k);
    return r;
}
VH_ENTRY(c10_elements)
{
    static const int ty[4] = {2, 15, 1, 4}; int t = ty[cfg];
    MshSpec s; limits(s); u64 n = sym_u64("count"); unsigned size = pick(3u * (unsigned)T_NODES[t] + 4, "size");
    vh_assume(recorded(t, n, size) == 0);
    s.elements.entity_blocks = {eblock(t, n, size)}; s.elements.num_entity_blocks = 1;
    if (pick(2, "second")) { s.elements.entity_blocks.push_back(eblock(15, 1, 2)); s.elements.num_entity_blocks++; }
    check(s);
}
// consistent specs of every element type
VH_ENTRY(c10_valid)
{
    MshSpec s; s.nodes.min_node_tag = sym_u64("min"); s.nodes.max_node_tag = sym_u64("max"); vh_assume(s.nodes.min_node_tag <= s.nodes.max_node_tag);
    Range nr = {s.nodes.min_node_tag, s.nodes.max_node_tag}, er = elem_range(s, TAG41);
    int lo = cfg * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7, t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    add_nodes(s, nr, 2, 1, t % 4); add_nodes(s, nr, 0, 0, -1); add_nodes(s, nr, 1, 0, -1);
    add_elements(s, er, nr, 2, t); add_elements(s, er, nr, 1, 15);
    check(s); vh_reach("valid");
}
// ---- recorded findings (KNOWN_FINDINGS.txt); each entry is limited to the inputs that fail
VH_ENTRY(c10_empty)  // an element block without elements: division by zero
{
    MshSpec s; s.elements.entity_blocks = {eblock(2, 0, 0)}; s.elements.num_entity_blocks = 1; s.elements.max_element_tag = s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = s.nodes.min_node_tag = 0;
    check(s);
}
VH_ENTRY(c10_short)  // fewer data than elements: division by zero
{
    MshSpec s; u64 n = sym_u64("count"); unsigned k = pick(3, "size"); vh_assume(n > k); s.elements.entity_blocks = {eblock(2, n, k)}; s.elements.num_entity_blocks = 1; s.elements.max_element_tag = s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = s.nodes.min_node_tag = 0;
    check(s);
}
VH_ENTRY(c10_width)  // data that divide evenly, but not into elements of the block's type
{
    static const unsigned sh[4][2] = {{1, 3}, {2, 2}, {1, 9}, {3, 15}}; unsigned k = pick(4, "shape");
    MshSpec s; s.elements.entity_blocks = {eblock(2, sh[k][0], sh[k][1])}; s.elements.num_entity_blocks = 1; s.elements.max_element_tag = s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = s.nodes.min_node_tag = 0;
    check(s);
}
VH_ENTRY(c10_type)  // an unsupported element type
{
    MshSpec s; s.elements.entity_blocks = {eblock(2, 1, 4)}; s.elements.entity_blocks[0].element_type = sym_int("type"); vh_assume((int)(s.elements.entity_blocks[0].element_type < 1) | (int)(s.elements.entity_blocks[0].element_type > NTYPES)); s.elements.num_entity_blocks = 1; s.elements.max_element_tag = s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = s.nodes.min_node_tag = 0;
    check(s);
}
static void one_block(int par, int dim, unsigned n, unsigned size)
{
    MshSpec s; s.elements.max_element_tag = s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = s.nodes.min_node_tag = 0; mshio::NodeBlock b; b.entity_dim = dim; b.parametric = par; b.num_nodes_in_block = n; symtags(b.tags, n); b.data.resize(size, 0.5); s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1;
    check(s);
}
VH_ENTRY(c10_flag)  // a parametric flag above 1
{
    int par = sym_int("parametric"), dim = sym_irange(1, 3, "dim"); vh_assume(par > 1); unsigned k = 3 + pick(4, "size"); one_block(par, dim, 1, k);
}
VH_ENTRY(c10_dim)  // a parametric block of impossible dimension
{
    int dim = sym_int("dim"); vh_assume((int)(dim < 0) | (int)(dim > 3)); unsigned k = pick(8, "size"); one_block(1, dim, 1, k);
}
// very many tags, two of them and a declared number of blocks arbitrary
VH_ENTRY(c10_huge)  // cfg: kind
{
    MshSpec s = huge(0, (unsigned)cfg, HUGE_N); u64 a = sym_u64("tag"), b = sym_u64("last"), c = sym_u64("count");
    if (cfg & 1) { auto& e = s.elements.entity_blocks; e[e.size() / 2].data[e[e.size() / 2].data.size() / 2] = a; e.back().data.back() = b; s.elements.num_entity_blocks = c; s.elements.max_element_tag = ~0ull; }
    else { auto& e = s.nodes.entity_blocks; e[e.size() / 2].tags[e[e.size() / 2].tags.size() / 2] = a; e.back().tags.back() = b; s.nodes.num_entity_blocks = c; }
    int want = consistent(s); bool ok = false; try { mshio::validate_spec(s); ok = true; } catch (const std::exception&) {} vh_reach("validated");
    vh_assert((int)ok == want, ok ? "validate_spec accepted an inconsistent spec" : "validate_spec refused a consistent spec"); vh_observe(ok);
}
