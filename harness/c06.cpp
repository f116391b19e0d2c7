// C06: files written by the library, read by an independent reader of the published layout.
#include "io.h"
static File read_back(const MshSpec& s)
{
    std::string b = save_bytes(s); File f; std::string why = r_try(b, f);
    vh_reach("read");
    vh_assert(why.empty(), why.empty() ? "layout" : why.c_str());
    u64 d = difs(f.s.mesh_format.version, s.mesh_format.version) | difi(f.s.mesh_format.file_type, s.mesh_format.file_type) | difi(f.s.mesh_format.data_size, s.mesh_format.data_size);
    vh_assert(eq0(d), "the header differs from the spec's");
    vh_assert(f.seen_nodes <= 1 && f.seen_elements <= 1 && f.seen_entities <= 1 && f.seen_groups <= 1, "a section was written twice");
    vh_observe(b.size() * 0 + f.sections);
    return f;
}
static void check_rest(const MshSpec& s, const File& f)
{
    vh_assert(eq0(d_groups(s.physical_groups, f.s.physical_groups)), "physical groups in the file differ");
    if (s.mesh_format.version == "4.1") vh_assert(eq0(d_entities(s.entities, f.s.entities)), "entities in the file differ");
    vh_assert(eq0(d_data(s.node_data, f.s.node_data, false)), "node data in the file differ");
    vh_assert(eq0(d_data(s.element_data, f.s.element_data, false)), "element data in the file differ");
    vh_assert(eq0(d_data(s.element_node_data, f.s.element_node_data, true)), "element-node data in the file differ");
}
static void check41(const MshSpec& s, bool obs = true)
{
    File f = read_back(s);
    if (s.nodes.num_nodes > 0) vh_assert(eq0(d_nodes(s.nodes, f.s.nodes)), "nodes in the file differ"); else vh_assert(f.s.nodes.num_nodes == 0, "nodes appeared");
    if (s.elements.num_elements > 0) vh_assert(eq0(d_elements(s.elements, f.s.elements)), "elements in the file differ"); else vh_assert(f.s.elements.num_elements == 0, "elements appeared");
    check_rest(s, f);
    vh_observe(obs ? digest(f.s) : f.s.nodes.num_nodes);
}
static void check22(const MshSpec& s)
{
    File f = read_back(s);
    u64 d = 0; size_t k = 0;
    for (auto& b : s.nodes.entity_blocks) { size_t m = 3 + (b.parametric == 1 ? (size_t)b.entity_dim : 0); for (size_t i = 0; i < b.num_nodes_in_block; i++, k++) { if (k >= f.n22.size()) { d |= 1; continue; } auto& x = f.n22[k]; d |= dif((u64)(u32)x.tag, b.tags[i]) | difd(x.x, b.data[i * m]) | difd(x.y, b.data[i * m + 1]) | difd(x.z, b.data[i * m + 2]); } }
    vh_assert(k == f.n22.size(), "the file does not have the spec's nodes");
    vh_assert(eq0(d), "nodes in the file differ");
    d = 0; k = 0; int tagged = 1;
    for (auto& b : s.elements.entity_blocks) {
        size_t n = (size_t)T_NODES[b.element_type];
        for (size_t i = 0; i < b.num_elements_in_block; i++, k++) {
            if (k >= f.e22.size()) { d |= 1; continue; }
            auto& e = f.e22[k]; d |= dif((u64)(u32)e.id, b.data[i * (n + 1)]) | difi(e.type, b.element_type);
            if (e.nodes.size() != n) { d |= 1; continue; }
            for (size_t j = 0; j < n; j++) d |= dif((u64)(u32)e.nodes[j], b.data[i * (n + 1) + j + 1]);
            if (e.tags.empty()) tagged = 0; else tagged &= (int)(e.tags[e.tags.size() > 1 ? 1 : 0] == b.entity_tag);
        }
    }
    vh_assert(k == f.e22.size(), "the file does not have the spec's elements");
    vh_assert(eq0(d), "elements in the file differ");
    vh_assert(tagged != 0, "an element does not carry the tag of its entity");
    check_rest(s, f);
}
VH_ENTRY(c06_nodes41)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range r = node_range(s, TAG41);
    unsigned nb = 1 + pick(2, "blocks");
    for (unsigned i = 0; i < nb; i++) { unsigned n = i ? 1 : pick(3, "nodes"); unsigned k = pick(5, "parametric"); add_nodes(s, r, n, k > 0, k > 0 ? (int)k - 1 : -1); }
    if (cfg & 2) { s.nodes.entity_blocks.emplace_back(); s.nodes.num_entity_blocks++; }  // an empty last block
    check41(s);
}
VH_ENTRY(c06_elements41)  // cfg = 2 * part + binary
{
    MshSpec s; fmt(s, "4.1", cfg & 1); Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    int lo = (cfg >> 1) * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7;
    int t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    add_elements(s, er, nr, 1 + pick(2, "elements"), t);
    if (t % 3 == 0) { add_elements(s, er, nr, 0, 2); add_elements(s, er, nr, 1, 15); }
    check41(s);
}
VH_ENTRY(c06_nodes22)
{
    MshSpec s; fmt(s, "2.2", cfg & 1); Range r = node_range(s, TAG22);
    unsigned nb = 1 + pick(2, "blocks");
    for (unsigned i = 0; i < nb; i++) { unsigned n = i ? 1 : pick(3, "nodes"); unsigned k = pick(5, "parametric"); add_nodes(s, r, n, k > 0, k > 0 ? (int)k - 1 : -1); }
    check22(s);
}
VH_ENTRY(c06_elements22)
{
    MshSpec s; fmt(s, "2.2", cfg & 1); Range nr = node_range(s, TAG22), er = elem_range(s, TAG22);
    int lo = (cfg >> 1) * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7;
    int t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    if (t % 2 == 0) add_elements(s, er, nr, 0, 4);
    add_elements(s, er, nr, 1 + pick(2, "elements"), t, false);
    if (t % 3 == 0) { add_elements(s, er, nr, 0, 2); add_elements(s, er, nr, 1, 15); }
    if (t % 4 == 0) add_elements(s, er, nr, 0, 15);
    check22(s);
}
// entities and groups; cfg = 4 * shape + mode
VH_ENTRY(c06_meta)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1);
    switch (cfg >> 2) {
    case 0: for (unsigned i = 0, n = pick(3, "points"); i < n; i++) s.entities.points.push_back(mk_point(pick(3, "ptags"))); break;
    case 1: for (unsigned i = 0, n = 1 + pick(2, "curves"); i < n; i++) { unsigned a = pick(2, "ptags"), b = pick(3, "btags"); auto e = mk_curve(a, b); s.entities.curves.push_back(e); } break;
    case 2: for (unsigned i = 0, n = 1 + pick(2, "surfaces"); i < n; i++) { unsigned a = pick(3, "ptags"), b = pick(2, "btags"); auto e = mk_surface(a, b); s.entities.surfaces.push_back(e); } break;
    case 3: for (unsigned i = 0, n = 1 + pick(2, "volumes"); i < n; i++) { unsigned a = pick(2, "ptags"), b = pick(3, "btags"); auto e = mk_volume(a, b); s.entities.volumes.push_back(e); } break;
    default: s.entities.points = {mk_point(1), mk_point(0)}; s.entities.curves = {mk_curve(0, 2), mk_curve(2, 0)}; s.entities.surfaces = {mk_surface(1, 3)}; s.entities.volumes = {mk_volume(2, 1), mk_volume(0, 4)}; tiny_nodes(s); tiny_elements(s);
    }
    unsigned g = pick(3, "groups");
    for (unsigned i = 0; i < g; i++) {
        std::string t; unsigned n = i ? 3 : (unsigned)(cfg >> 2) % 3; int ok = 1;
        for (unsigned j = 0; j < n; j++) { u8 c = sym_u8("name"); ok &= (int)(c != '"') & (int)(c != '\\'); t += (char)c; }
        vh_assume(ok != 0);
        s.physical_groups.push_back(mk_group(t));
    }
    if (cfg & 2) check22(s); else check41(s);
}
// data views; cfg = 4 * kind + mode
static void put(MshSpec& s, int kind, const mshio::Data& d) { (kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data).push_back(d); }
VH_ENTRY(c06_data)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); int kind = cfg >> 2;
    static const unsigned sh[6][5] = {{1, 1, 3, 1, 2}, {0, 0, 3, 3, 1}, {2, 2, 4, 2, 3}, {1, 0, 3, 0, 2}, {1, 3, 5, 9, 1}, {0, 1, 3, 1, 0}};
    unsigned k = pick(6, "shape"), n = pick(2, "second");
    for (unsigned i = 0; i <= n; i++) {
        const unsigned* q = sh[(k + 2 * i) % 6];
        std::vector<std::string> names; for (unsigned j = 0; j < q[0]; j++) names.push_back(j ? "a b" : "view");
        put(s, kind, mk_view(names, q[1], q[2], q[3], q[4], kind == 2 ? std::vector<unsigned>{2, 0, 3} : std::vector<unsigned>{}));
    }
    if (cfg & 2) check22(s); else check41(s);
}
// everything at once
VH_ENTRY(c06_all)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); Range nr = node_range(s, TAG22), er = elem_range(s, TAG22);
    add_nodes(s, nr, 2, 1, 2); add_nodes(s, nr, 1, 0, 1); add_elements(s, er, nr, 1, 2); add_elements(s, er, nr, 2, 15);
    s.physical_groups = {mk_group("g one"), mk_group("")};
    s.entities.points = {mk_point(2)}; s.entities.surfaces = {mk_surface(1, 1)};
    for (int k = 0; k < 3; k++) for (int j = 0; j < 2; j++) put(s, k, mk_view({j ? "y" : "x"}, 1, 3 + (unsigned)j, 1 + (unsigned)j, 2, k == 2 ? std::vector<unsigned>{1, 2} : std::vector<unsigned>{}));
    if (cfg & 2) check22(s); else check41(s);
}
// many of everything
VH_ENTRY(c06_big)  // cfg: format, +4: 1000 of each
{
    MshSpec s = big(cfg & 3, (cfg & 4) ? 1000 : BIG_N[pick(4, "size")]); s.physical_groups[1].name = "no quotes"; if (cfg & 2) check22(s); else check41(s, false);
}
VH_ENTRY(c06_huge) { MshSpec s = huge(cfg & 3, (unsigned)cfg >> 2, HUGE_N); if (cfg & 2) check22(s); else check41(s, false); }  // cfg: format + 4 * kind
