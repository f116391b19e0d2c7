// C08: blocks, owners of nodes, entities and tag ranges derived from MSH 2.2 files.
#include "io.h"
static std::string file22(int cfg, const std::vector<N22>& n, const std::vector<E22>& e)  // bit 0: binary, bit 1: elements first
{
    W w; w.ver = 22; w.bin = cfg & 1; w_header(w);
    std::vector<unsigned> runs;  // longest runs of one type and one number of tags
    for (size_t i = 0; i < e.size(); i++) if (i && e[i].type == e[i - 1].type && e[i].tags.size() == e[i - 1].tags.size() && runs.back() < 3) runs.back()++; else runs.push_back(1);
    if (cfg & 2) w_elements22(w, e, runs);
    w_nodes22(w, n);
    if (!(cfg & 2)) w_elements22(w, e, runs);
    return w.s;
}
static u64 mask(u64 b) { return 0 - (b & 1); }
static int same(int ok) { return ok != 0; }
static void check_entities(const MshSpec& q, const std::vector<E22>& e)
{
    std::vector<int> tags[4]; std::vector<std::vector<int>> phys[4]; int ok = 1;
    for (auto& x : q.entities.points) { tags[0].push_back(x.tag); phys[0].push_back(x.physical_group_tags); }
    for (auto& x : q.entities.curves) { tags[1].push_back(x.tag); phys[1].push_back(x.physical_group_tags); }
    for (auto& x : q.entities.surfaces) { tags[2].push_back(x.tag); phys[2].push_back(x.physical_group_tags); }
    for (auto& x : q.entities.volumes) { tags[3].push_back(x.tag); phys[3].push_back(x.physical_group_tags); }
    for (int d = 0; d < 4; d++) {
        for (size_t i = 0; i + 1 < tags[d].size(); i++) ok &= (int)(tags[d][i] < tags[d][i + 1]);
        for (size_t i = 0; i < tags[d].size(); i++) {
            if (phys[d][i].empty()) ok = 0;
            for (size_t j = 0; j + 1 < phys[d][i].size(); j++) ok &= (int)(phys[d][i][j] < phys[d][i][j + 1]);
        }
    }
    vh_assert(same(ok), "entities or their physical tags are not in ascending order");
    for (auto& x : e) if (x.tags.size() >= 2) {  // named by the file => present
        int d = T_DIM[x.type], found = 0;
        for (size_t i = 0; i < tags[d].size(); i++) { int p = 0; for (int t : phys[d][i]) p |= (int)(t == x.tags[0]); found |= (int)(tags[d][i] == x.tags[1]) & p; }
        ok &= found;
    }
    vh_assert(same(ok), "an entity or physical tag that elements name is missing");
    for (int d = 0; d < 4; d++) for (size_t i = 0; i < tags[d].size(); i++) for (int t : phys[d][i]) {  // present => named by the file
        int found = 0;
        for (auto& x : e) if (x.tags.size() >= 2 && T_DIM[x.type] == d) found |= (int)(x.tags[1] == tags[d][i]) & (int)(x.tags[0] == t);
        ok &= found;
    }
    vh_assert(same(ok), "an entity or physical tag that no element names appeared");
}
static void check(int cfg, const std::vector<N22>& n, const std::vector<E22>& e, bool obs = true)
{
    MshSpec q; Outcome o = try_load(file22(cfg, n, e), q);
    vh_reach("loaded");
    vh_assert(o == LOADED, "a well-formed file was refused");
    vh_assert(q.nodes.num_nodes == n.size() && q.elements.num_elements == e.size() && q.nodes.num_entity_blocks == q.nodes.entity_blocks.size() && q.elements.num_entity_blocks == q.elements.entity_blocks.size(), "totals are wrong");
    // elements: same order; block number of each
    std::vector<size_t> blk; std::vector<int> ent; int ok = 1; size_t k = 0; bool have = false; int untagged = 0;
    for (size_t b = 0; b < q.elements.entity_blocks.size(); b++) {
        auto& x = q.elements.entity_blocks[b]; vh_assert(x.element_type >= 1 && x.element_type <= NTYPES && x.num_elements_in_block > 0, "an element block has no elements or no type");
        size_t m = (size_t)T_NODES[x.element_type] + 1;
        vh_assert(x.data.size() == m * x.num_elements_in_block, "an element block has the wrong amount of data");
        for (size_t i = 0; i < x.num_elements_in_block; i++, k++) {
            vh_assert(k < e.size() && e[k].type == x.element_type, "element order changed");
            if (e[k].tags.empty() && !have) { have = true; untagged = x.entity_tag; }
            int t = e[k].tags.size() >= 2 ? e[k].tags[1] : e[k].tags.size() == 1 ? e[k].tags[0] : untagged;
            blk.push_back(b); ent.push_back(t);
            ok &= (int)(x.entity_tag == t) & (int)(x.entity_dim == T_DIM[e[k].type]) & (int)(x.data[i * m] == (u64)(u32)e[k].id);
            for (size_t j = 1; j < m; j++) ok &= (int)(x.data[i * m + j] == (u64)(u32)e[k].nodes[j - 1]);
        }
    }
    vh_assert(k == e.size() && same(ok), "elements changed or are in a block of another entity");
    for (size_t i = 0; i + 1 < k; i++) { int eq = (int)(ent[i] == ent[i + 1]) & (int)(e[i].type == e[i + 1].type); ok &= (int)(eq == (int)(blk[i] == blk[i + 1])); }
    vh_assert(same(ok), "element blocks are not maximal runs of one entity and type");
    // nodes and their owners
    std::vector<size_t> nb; std::vector<u64> od, ot; k = 0;
    for (auto& x : n) {
        u64 d = 0, t = 0;
        for (size_t i = 0; i < e.size(); i++) { int l = 0; for (int v : e[i].nodes) l |= (int)(v == x.tag); u64 mk = mask((u64)l); d = (d & ~mk) | ((u64)T_DIM[e[i].type] & mk); t = (t & ~mk) | ((u64)(u32)ent[i] & mk); }
        od.push_back(d); ot.push_back(t);
    }
    for (size_t b = 0; b < q.nodes.entity_blocks.size(); b++) {
        auto& x = q.nodes.entity_blocks[b]; vh_assert(x.num_nodes_in_block > 0 && x.tags.size() == x.num_nodes_in_block && x.data.size() == 3 * x.tags.size() && x.parametric == 0, "a node block has the wrong amount of data");
        for (size_t i = 0; i < x.tags.size(); i++, k++) {
            vh_assert(k < n.size(), "node order changed"); nb.push_back(b);
            ok &= (int)((u64)(u32)x.entity_dim == od[k]) & (int)((u64)(u32)x.entity_tag == ot[k]) & (int)(x.tags[i] == (u64)(u32)n[k].tag) & (int)((difd(x.data[3 * i], n[k].x) | difd(x.data[3 * i + 1], n[k].y) | difd(x.data[3 * i + 2], n[k].z)) == 0);
        }
    }
    vh_assert(k == n.size() && same(ok), "nodes changed or are in a block of another entity than the last element that lists them");
    for (size_t i = 0; i + 1 < k; i++) { int eq = (int)(od[i] == od[i + 1]) & (int)(ot[i] == ot[i + 1]); ok &= (int)(eq == (int)(nb[i] == nb[i + 1])); }
    vh_assert(same(ok), "node blocks are not maximal runs of one owner");
    if (!n.empty()) { int in = 1, a = 0, b = 0; for (auto& x : n) { u64 t = (u64)(u32)x.tag; in &= (int)(t >= q.nodes.min_node_tag) & (int)(t <= q.nodes.max_node_tag); a |= (int)(t == q.nodes.min_node_tag); b |= (int)(t == q.nodes.max_node_tag); } vh_assert((in & a & b) != 0, "minimum or maximum node tag is wrong"); }
    if (!e.empty()) { int in = 1, a = 0, b = 0; for (auto& x : e) { u64 t = (u64)(u32)x.id; in &= (int)(t >= q.elements.min_element_tag) & (int)(t <= q.elements.max_element_tag); a |= (int)(t == q.elements.min_element_tag); b |= (int)(t == q.elements.max_element_tag); } vh_assert((in & a & b) != 0, "minimum or maximum element tag is wrong"); }
    check_entities(q, e);
    vh_observe(obs ? digest(q) : q.nodes.num_entity_blocks);
}
static int sym_tag(const char* n) { return (int)sym_range(0, TAG22, n); }
static const int SPARSE[6] = {4, 1, 2000000000, 77, 300, 2147483647};
static std::vector<N22> some(unsigned k, bool sparse) { std::vector<N22> n; for (unsigned i = 0; i < k; i++) n.push_back({sparse ? SPARSE[i] : (int)i + 1, sym_fin("x"), 0.5 * i, -1.0 / (i + 1)}); return n; }
static E22 el(int type, int id, const std::vector<int>& tags, const std::vector<N22>& n, unsigned shift) { E22 e; e.type = type; e.id = id; e.tags = tags; for (int j = 0; j < T_NODES[type]; j++) e.nodes.push_back(n[((unsigned)j + shift) % n.size()].tag); return e; }
// symbolic entity and physical tags; cfg = 4 * shape + mode
VH_ENTRY(c08_entities)
{
    static const int ty[6][3] = {{2, 2, 2}, {15, 1, 15}, {4, 4, 2}, {1, 1, 8}, {2, 3, 2}, {15, 15, 15}};
    std::vector<N22> n = some(4, cfg & 4); std::vector<E22> e; unsigned k = (unsigned)cfg / 4;
    for (unsigned i = 0; i < 3; i++) { int p = i < 2 ? sym_int("physical") : 8, t = sym_int("entity"); std::vector<int> tg = {p, t}; if (i == 1 && k % 2) tg.push_back(6); e.push_back(el(ty[k][i], 10 - (int)i, tg, n, i)); }
    check(cfg & 3, n, e);
}
// elements with any numbers of tags after one another
VH_ENTRY(c08_tags)
{
    static const int ty[2][3] = {{15, 15, 15}, {2, 3, 2}}; std::vector<N22> n = some(4, cfg & 4); std::vector<E22> e; n[0].x = 0.5;
    for (unsigned r = 0; r < 3; r++) { unsigned nt = pick(5, "tags"); std::vector<int> tg; for (unsigned j = 0; j < nt; j++) tg.push_back(j == 1 && r == 1 ? sym_irange(-1, 1000, "entity") : (int)(3 - r + 10 * j)); e.push_back(el(ty[(cfg >> 2) & 1][r], 10 + (int)r, tg, n, r)); }
    check(cfg & 3, n, e);
}
// symbolic element numbers and node tags and references
VH_ENTRY(c08_refs)
{
    std::vector<N22> n; std::vector<E22> e; unsigned k = pick(3, "shape");
    int nt = k == 2 ? 1 : 2;
    for (int i = 0; i < nt; i++) n.push_back({sym_tag("node"), 1.5, sym_fin("y"), 2});
    if (k == 2) n.push_back({17, 0, 0, 0});
    static const int ty[3] = {1, 15, 1};
    for (int i = 0; i < 2; i++) { E22 x; x.type = i ? 15 : ty[k]; x.id = i ? 3 : sym_tag("id"); x.tags = {5, 7 + i}; for (int j = 0; j < T_NODES[x.type]; j++) x.nodes.push_back(i && k != 1 ? 17 : sym_tag("ref")); e.push_back(x); }
    check(cfg & 3, n, e);
}
VH_ENTRY(c08_ids)
{
    std::vector<N22> n = some(3, true); std::vector<E22> e; n[0].tag = sym_tag("node"); n[1].tag = sym_tag("node");
    vh_assume((int)(n[0].tag != n[1].tag) & (int)(n[0].tag != n[2].tag) & (int)(n[1].tag != n[2].tag) & (int)(n[0].tag != 9));
    for (int i = 0; i < 3; i++) { E22 x; x.type = 15; x.id = i < 2 ? sym_tag("id") : 1000; x.tags = {i}; x.nodes = {i == 0 ? 9 : 2000000000}; e.push_back(x); }
    check(cfg & 3, n, e);
}
// concrete structures: shared nodes, runs broken by type, entity and dimension, different numbers of tags
VH_ENTRY(c08_runs)
{
    struct S { int type, ntags, ent, phys; unsigned shift; };
    static const S sh[12][7] = {
        {{2, 2, 1, 1, 0}, {2, 2, 1, 2, 1}, {2, 2, 2, 1, 2}, {2, 2, 1, 1, 3}, {3, 2, 1, 5, 0}, {3, 3, 1, 4, 1}, {15, 2, 1, 1, 2}},
        {{15, 2, 9, 3, 0}, {1, 2, 9, 2, 1}, {2, 2, 9, 1, 2}, {4, 2, 9, 0, 1}, {0}},
        {{4, 2, 9, 0, 1}, {2, 2, 9, 1, 2}, {1, 2, 9, 2, 1}, {15, 2, 9, 3, 0}, {0}},
        {{2, 1, 3, 0, 0}, {2, 1, 3, 0, 1}, {2, 2, 3, 7, 2}, {2, 1, 4, 0, 3}, {0}},
        {{2, 0, 0, 0, 0}, {2, 0, 0, 0, 1}, {1, 0, 0, 0, 3}, {0}},
        {{1, 2, 0, 0, 0}, {1, 2, 0, 0, 1}, {1, 2, -1, -5, 2}, {0}},
        {{15, 2, 0, 0, 0}, {15, 2, 0, 0, 1}, {0}},
        {{2, 2, 0, 1, 0}, {1, 2, 0, 1, 4}, {0}},
        {{5, 2, 6, 2, 0}, {6, 2, 6, 2, 1}, {7, 2, 6, 2, 2}, {5, 2, 6, 1, 3}, {0}},
        {{1, 2, 2, 4, 0}, {1, 2, 1, 4, 2}, {1, 2, 2, 3, 4}, {1, 2, 1, 4, 1}, {8, 2, 1, 4, 3}, {0}},
        {{1, 4, 2, 4, 0}, {1, 3, 2, 4, 1}, {1, 2, 2, 9, 2}, {1, 1, 2, 0, 3}, {0}},
        {{15, 2, 2147483647, 1, 0}, {15, 2, -2147483647, 2147483647, 1}, {15, 2, 5, -1, 5}, {0}}};
    std::vector<N22> n = some(6, cfg & 4); std::vector<E22> e; unsigned k = pick(12, "shape");
    for (unsigned i = 0; i < 7 && sh[k][i].type; i++) { auto& s = sh[k][i]; std::vector<int> tg; if (s.ntags == 1) tg = {s.ent}; else if (s.ntags >= 2) { tg = {s.phys, s.ent}; for (int j = 2; j < s.ntags; j++) tg.push_back(sym_int("tag_n")); } e.push_back(el(s.type, 50 - 7 * (int)i, tg, n, s.shift)); }
    check(cfg & 3, n, e);
}
// undefined nodes, unused nodes, no nodes, no elements
VH_ENTRY(c08_odd)
{
    unsigned k = pick(6, "shape"); std::vector<N22> n = some(k == 0 ? 0 : k == 1 ? 1 : 5, cfg & 4), all = some(6, cfg & 4); std::vector<E22> e;
    if (k == 2) { }
    else if (k == 3) e.push_back(el(1, 0, {1, sym_int("entity")}, all, 4));
    else { e.push_back(el(2, 9, {1, sym_int("entity")}, all, 3)); e.push_back(el(1, 2, {1, 2}, all, k)); if (k == 5) e.push_back(el(15, 1, {}, all, 0)); }
    check(cfg & 3, n, e);
}
// larger meshes with a regular structure
VH_ENTRY(c08_bulk)  // cfg = 4 * shape + mode
{
    std::vector<N22> n; std::vector<E22> e; int k = cfg >> 2; unsigned nn = k ? 120 : 60; static const int ty[4] = {2, 3, 1, 4};
    for (unsigned i = 0; i < nn; i++) n.push_back({(int)(1 + (i * 37) % nn) * (k ? 1000003 : 1), i * 0.1, i * 0.01, 1});
    for (unsigned i = 0; i < nn; i++) { unsigned r = i / 5; e.push_back(el(ty[(r / 2) % 4], (int)(nn * 2 - i), {(int)(i * 7 % 5), (int)(r % 3) + 1, 1}, n, i * 3)); }
    n[7].z = sym_fin("z"); e[11].tags[0] = sym_irange(100, 200, "physical"); e[20].id = sym_irange(0, 1000, "id"); vh_assume((int)(e[20].id < 20) | (int)(e[20].id > 500));
    check(cfg & 3, n, e, false);
}
