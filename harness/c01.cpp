// C01: MSH 4.1 round trip of nodes and elements.
#include "gen.h"
static void check_rt(const MshSpec& s, bool obs = true)
{
    MshSpec r = round_trip(s);
    vh_reach("loaded");
    if (s.nodes.num_nodes > 0) vh_assert(eq0(d_nodes(s.nodes, r.nodes)), "nodes differ after MSH 4.1 round trip");
    else vh_assert(r.nodes.num_nodes == 0, "nodes appeared");
    if (s.elements.num_elements > 0) vh_assert(eq0(d_elements(s.elements, r.elements)), "elements differ after MSH 4.1 round trip");
    else vh_assert(r.elements.num_elements == 0, "elements appeared");
    vh_observe(obs ? digest(r) : r.nodes.num_nodes ^ r.elements.num_elements);
}
// every combination of up to `2` blocks with 0..2 nodes, parametric or not
VH_ENTRY(c01_nodes)  // cfg: 0 ascii, 1 binary; +2: two blocks
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range r = node_range(s, TAG41);
    unsigned nb = (cfg & 2) ? 2 : pick(2, "blocks");
    for (unsigned i = 0; i < nb; i++) { unsigned n = pick(3, "nodes"); unsigned k = pick(5, "parametric"); add_nodes(s, r, n, k > 0, k > 0 ? (int)k - 1 : -1); }
    check_rt(s);
}
// three blocks of unequal sizes, symbolic shape order
VH_ENTRY(c01_nodes3)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range r = node_range(s, TAG41);
    static const int sh[4][3][3] = {{{3, 1, 2}, {1, 0, -1}, {2, 1, 1}}, {{0, 1, 3}, {4, 1, 3}, {1, 1, 0}}, {{1, 0, -1}, {0, 0, -1}, {3, 0, -1}}, {{2, 1, 1}, {2, 1, 2}, {2, 1, 3}}};
    unsigned k = pick(4, "shape");
    for (int i = 0; i < 3; i++) add_nodes(s, r, (unsigned)sh[k][i][0], sh[k][i][1], sh[k][i][2]);
    check_rt(s);
}
// one block of every element type, then a second block
VH_ENTRY(c01_elements)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    int lo = (cfg >> 1) * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7;
    int t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    unsigned n = 1 + pick(2, "elements");
    add_elements(s, er, nr, n, t);
    check_rt(s);
}
VH_ENTRY(c01_elements2)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    static const int ty[6] = {1, 2, 15, 4, 7, 9};
    unsigned nb = 1 + pick(2, "blocks");
    for (unsigned i = 0; i < nb; i++) { int t = ty[pick(6, "type")]; add_elements(s, er, nr, pick(3, "elements"), t); }
    check_rt(s);
}
// nodes and elements together, including totals of zero with declared blocks
VH_ENTRY(c01_mixed)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    unsigned k = pick(3, "nodes"), e = pick(3, "elements");
    if (k) add_nodes(s, nr, k, 1, 2);
    add_nodes(s, nr, 1, 0, -1);
    add_elements(s, er, nr, e, 2); add_elements(s, er, nr, 1, 3);
    check_rt(s);
}
// sections whose first binary byte looks like white space (block count 9, 10, 13 or 32)
VH_ENTRY(c01_ws)
{
    static const unsigned cnt[4] = {9, 10, 13, 32};
    MshSpec s; fmt(s, "4.1", cfg & 1); unsigned n = cnt[pick(4, "count")];
    Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    for (unsigned i = 0; i < n; i++) { add_nodes(s, nr, i == 3 ? 1 : 0, 0, -1); add_elements(s, er, nr, i == 5 ? 1 : 0, 15); }
    check_rt(s);
}
// blocks whose sizes are powers of two: 2^5 .. 2^12 nodes, or elements of two or five numbers
VH_ENTRY(c01_powers)  // cfg: format + 2 * kind
{
    unsigned n = 32u << pick(8, "size"); MshSpec s; fmt(s, "4.1", cfg & 1); s.nodes.min_node_tag = s.elements.min_element_tag = 0; s.nodes.max_node_tag = s.elements.max_element_tag = ~0ull;
    if (cfg < 2) {
        mshio::NodeBlock b; b.entity_dim = 2; b.entity_tag = 3; b.num_nodes_in_block = n; b.data.resize(n * 3); b.tags.resize(n);
        for (unsigned i = 0; i < n; i++) { b.tags[i] = i + 1; b.data[i * 3] = i; b.data[i * 3 + 1] = -0.5; b.data[i * 3 + 2] = n - i; }
        b.tags[n / 2] = sym_u64("node_tag"); b.tags[n - 1] = sym_u64("last_tag"); b.data[n * 3 / 2] = sym_fin("coord"); b.data[n * 3 - 1] = sym_fin("last");
        s.nodes.entity_blocks = {b, b}; s.nodes.num_entity_blocks = 2; s.nodes.num_nodes = 2 * n;
    } else {
        mshio::ElementBlock b; b.element_type = cfg < 4 ? 15 : 3; b.entity_dim = T_DIM[b.element_type]; b.entity_tag = 3; b.num_elements_in_block = n; unsigned k = (unsigned)T_NODES[b.element_type] + 1; b.data.resize(n * k);
        for (unsigned i = 0; i < n * k; i++) b.data[i] = i * 3 + 1;
        b.data[n * k / 2] = sym_u64("number"); b.data[n * k - 1] = sym_u64("last"); b.data[n * k - k] = sym_u64("last_tag");
        s.elements.entity_blocks = {b, b}; s.elements.num_entity_blocks = 2; s.elements.num_elements = 2 * n;
    }
    check_rt(s, false);
}
// large blocks, mostly concrete
VH_ENTRY(c01_bulk)
{
    static const unsigned ns[8] = {300, 1100, 2200, 5000, 300, 1100, 2200, 5000};
    unsigned n = ns[cfg >> 1]; bool el = (cfg >> 1) >= 4;
    MshSpec s; fmt(s, "4.1", cfg & 1); s.nodes.min_node_tag = 1; s.nodes.max_node_tag = ~0ull; s.elements.min_element_tag = 1; s.elements.max_element_tag = ~0ull;
    if (!el) {
        mshio::NodeBlock b; b.entity_dim = 2; b.entity_tag = 3; b.parametric = 1; b.num_nodes_in_block = n;
        for (unsigned i = 0; i < n; i++) { b.tags.push_back(i + 1 + (1ull << 33)); for (int k = 0; k < 5; k++) b.data.push_back(i * 0.37 + k); }
        for (unsigned i = 0; i < n; i += n / 7) { b.tags[i] = sym_range(1, ~0ull, "node_tag"); b.data[i * 5 + 4] = sym_fin("coord"); }
        b.tags[n - 1] = sym_range(1, ~0ull, "last_tag"); b.data[n * 5 - 1] = sym_fin("last");
        s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = n;
    } else {
        mshio::ElementBlock b; b.entity_dim = 1; b.entity_tag = 3; b.element_type = 1; b.num_elements_in_block = n;
        for (unsigned i = 0; i < n; i++) { b.data.push_back(i + (1ull << 40)); b.data.push_back(i + 1); b.data.push_back(i + 2); }
        for (unsigned i = 0; i < n; i += n / 7) { b.data[i * 3] = sym_range(1, ~0ull, "element_tag"); b.data[i * 3 + 2] = sym_range(1, ~0ull, "node_ref"); }
        b.data[n * 3 - 1] = sym_range(1, ~0ull, "last_ref");
        s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks = 1; s.elements.num_elements = n;
    }
    check_rt(s, false);
}
// many blocks' worth of everything at once
VH_ENTRY(c01_big)  // cfg: format, +4: 1000 of each
{
    MshSpec s = big(cfg & 1, (cfg & 4) ? 1000 : BIG_N[pick(4, "size")]); check_rt(s, false);
}
// more items than any plausible buffer or chunk holds
VH_ENTRY(c01_huge)  // cfg: format + 2 * kind
{
    static const unsigned ns[3] = {8192, 65536, 70001}; unsigned n = ns[pick(3, "size")]; MshSpec s; fmt(s, "4.1", cfg & 1); s.nodes.min_node_tag = s.elements.min_element_tag = 0; s.nodes.max_node_tag = s.elements.max_element_tag = ~0ull;
    if (cfg < 2) {
        mshio::NodeBlock b; b.entity_dim = 2; b.entity_tag = 3; b.num_nodes_in_block = n; b.data.resize(n * 3); b.tags.resize(n);
        for (unsigned i = 0; i < n; i++) { b.tags[i] = i + 1; b.data[i * 3] = (double)i; b.data[i * 3 + 1] = 2; b.data[i * 3 + 2] = 7; }
        b.tags[n / 2] = sym_u64("node_tag"); b.tags[n - 1] = sym_u64("last_tag"); b.data[n * 3 / 2] = sym_fin("coord"); b.data[n * 3 - 1] = sym_fin("last");
        s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = n;
    } else {
        mshio::ElementBlock b; b.element_type = 1; b.entity_dim = 1; b.entity_tag = 3; b.num_elements_in_block = n; b.data.resize(n * 3);
        for (unsigned i = 0; i < n * 3; i++) b.data[i] = i + 1;
        b.data[n * 3 / 2] = sym_u64("number"); b.data[n * 3 - 1] = sym_u64("last"); b.data[n * 3 - 3] = sym_u64("last_tag");
        s.elements.entity_blocks = {b}; s.elements.num_entity_blocks = 1; s.elements.num_elements = n;
    }
    check_rt(s, false);
}
VH_ENTRY(c01_blocks) { check_rt(huge(cfg & 1, 2 + ((unsigned)cfg >> 1), HUGE_N), false); }  // very many blocks; cfg: encoding + 2 * kind
