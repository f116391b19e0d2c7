// C07: files written by an independent writer of the published layout, read by the library.
#include "io.h"
// mode: 0-3 text with different white space, 4 binary with and 5 without a line break before $End
static W mk(int mode, int ver) { W w; w.ver = ver; w.bin = mode >= 4; w.ws = mode < 4 ? mode : 0; w.nl_after = mode != 5; return w; }
static MshSpec load(W& w, bool cut_nl = false)
{
    if (cut_nl) while (!w.s.empty() && (w.ws == 1 ? w.at_start : R::sp(w.s.back()))) { w.s.pop_back(); w.at_start = false; }
    MshSpec r; Outcome o = try_load(w.s, r);
    vh_reach("loaded");
    vh_assert(o == LOADED, "a well-formed file was refused");
    vh_assert(eq0(difs(r.mesh_format.version, w.ver == 41 ? "4.1" : "2.2") | difi(r.mesh_format.file_type, w.bin) | difi(r.mesh_format.data_size, 8)), "the header loaded differs from the file's");
    return r;
}
static void only(const MshSpec& r, bool nodes, bool elems)
{
    if (!nodes) vh_assert(r.nodes.entity_blocks.empty() && r.nodes.num_nodes == 0, "nodes appeared");
    if (!elems) vh_assert(r.elements.entity_blocks.empty() && r.elements.num_elements == 0, "elements appeared");
}
// ------------------------------------------------------------ MSH 4.1 mesh
VH_ENTRY(c07_nodes41)
{
    W w = mk(cfg, 41); MshSpec s; Range r = node_range(s, TAG41); unsigned nb = pick(3, "blocks"), k = nb ? pick(5, "parametric") : 0, last = pick(2, "nl");
    for (unsigned i = 0; i < nb; i++) { add_nodes(s, r, (k + i) % 3, k > 0, k > 0 ? (int)k - 1 : -1); k = (k * 2 + 1) % 5; }
    w_header(w); w_nodes41(w, s.nodes);
    MshSpec q = load(w, last);
    vh_assert(eq0(d_nodes(s.nodes, q.nodes)), "the nodes loaded differ from the file's"); only(q, true, false);
    vh_observe(digest(q));
}
VH_ENTRY(c07_elements41)  // cfg = 6 * part + mode
{
    W w = mk(cfg % 6, 41); MshSpec s; Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    int lo = (cfg / 6) * 16 + 1, hi = lo + 15 > NTYPES ? NTYPES : lo + 15, t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    if (t % 2) add_elements(s, er, nr, 0, 5);
    add_elements(s, er, nr, 1 + (unsigned)(t % 2), t); if (t % 3 == 0) add_elements(s, er, nr, 2, 1);
    w_header(w); w_elements41(w, s.elements);
    MshSpec q = load(w);
    vh_assert(eq0(d_elements(s.elements, q.elements)), "the elements loaded differ from the file's"); only(q, false, true);
    vh_observe(digest(q));
}
VH_ENTRY(c07_meta)  // entities and names; cfg = 6 * shape + mode
{
    W w = mk(cfg % 6, 41); MshSpec s; unsigned k = (unsigned)cfg / 6, m = pick(3, "ptags"), b = pick(3, "btags");
    if (k == 0) s.entities.points = {mk_point(m), mk_point(b)};
    if (k == 1) s.entities.curves = {mk_curve(m, b), mk_curve(b, m)};
    if (k == 2) s.entities.surfaces = {mk_surface(m, b), mk_surface(b, m)};
    if (k == 3) s.entities.volumes = {mk_volume(m, b), mk_volume(b, m)};
    if (k == 4) { s.entities.points = {mk_point(m)}; s.entities.curves = {mk_curve(b, 2)}; s.entities.surfaces = {mk_surface(0, m)}; s.entities.volumes = {mk_volume(1, b)}; }
    for (unsigned i = 0; i < m; i++) {
        std::string t; int ok = 1;
        for (unsigned j = 0; j < k; j++) { u8 c = sym_u8("name"); ok &= (int)(c != '"') & (int)(c != '\\'); t += (char)c; }
        vh_assume(ok != 0); s.physical_groups.push_back(mk_group(t));
    }
    w_header(w); w_groups(w, s.physical_groups); w_entities(w, s.entities);
    MshSpec q = load(w, m == 1);
    vh_assert(eq0(d_entities(s.entities, q.entities)), "the entities loaded differ from the file's");
    vh_assert(eq0(d_groups(s.physical_groups, q.physical_groups)), "the physical names loaded differ from the file's");
    only(q, false, false);
    vh_observe(digest(q));
}
static void put(MshSpec& s, int kind, const mshio::Data& d) { (kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data).push_back(d); }
VH_ENTRY(c07_data)  // cfg = 12 * kind + 6 * version + mode
{
    int ver = (cfg / 6) & 1 ? 22 : 41, kind = cfg / 12; W w = mk(cfg % 6, ver); MshSpec s;
    static const unsigned sh[6][5] = {{1, 1, 3, 1, 2}, {0, 0, 3, 3, 1}, {2, 2, 4, 2, 3}, {1, 0, 3, 0, 2}, {1, 3, 5, 9, 1}, {0, 1, 3, 1, 0}};
    unsigned k = pick(6, "shape"), n = pick(2, "second");
    for (unsigned i = 0; i <= n; i++) {
        const unsigned* q = sh[(k + 2 * i) % 6];
        std::vector<std::string> names; for (unsigned j = 0; j < q[0]; j++) names.push_back(j ? "a \\ \"b" : "view");
        put(s, kind, mk_view(names, q[1], q[2], q[3], q[4], kind == 2 ? std::vector<unsigned>{2, 0, 3} : std::vector<unsigned>{}));
    }
    w_header(w);
    for (auto* v : {&s.node_data, &s.element_data, &s.element_node_data}) for (auto& d : *v) w_view(w, kind, d);
    MshSpec q = load(w, k == 2);
    vh_assert(eq0(d_data(s.node_data, q.node_data, false) | d_data(s.element_data, q.element_data, false) | d_data(s.element_node_data, q.element_node_data, true)), "the data loaded differ from the file's");
    only(q, false, false);
    vh_observe(digest(q));
}
// ------------------------------------------------------------ MSH 2.2 mesh
static void same22(const MshSpec& q, const std::vector<N22>& n, const std::vector<E22>& e)
{
    u64 d = 0; size_t k = 0;
    for (auto& b : q.nodes.entity_blocks) {
        if (b.tags.size() != b.num_nodes_in_block || b.data.size() != 3 * b.tags.size() || b.parametric != 0) { d |= 1; continue; }
        for (size_t i = 0; i < b.tags.size(); i++, k++) { if (k >= n.size()) { d |= 1; continue; } d |= dif(b.tags[i], (u64)(u32)n[k].tag) | difd(b.data[3 * i], n[k].x) | difd(b.data[3 * i + 1], n[k].y) | difd(b.data[3 * i + 2], n[k].z); }
    }
    vh_assert(k == n.size() && q.nodes.num_nodes == k, "the number of nodes loaded differs from the file's");
    vh_assert(eq0(d), "the nodes loaded differ from the file's");
    d = 0; k = 0;
    for (auto& b : q.elements.entity_blocks) {
        if (b.element_type < 1 || b.element_type > NTYPES) { d |= 1; continue; }
        size_t m = (size_t)T_NODES[b.element_type] + 1;
        if (b.data.size() != b.num_elements_in_block * m) { d |= 1; continue; }
        for (size_t i = 0; i < b.num_elements_in_block; i++, k++) {
            if (k >= e.size()) { d |= 1; continue; }
            const E22& x = e[k]; d |= difi(b.element_type, x.type) | difi(b.entity_dim, T_DIM[x.type]) | dif(b.data[i * m], (u64)(u32)x.id);
            if (x.tags.size() >= 2) d |= difi(b.entity_tag, x.tags[1]); else if (x.tags.size() == 1) d |= difi(b.entity_tag, x.tags[0]);
            if (b.element_type == x.type) for (size_t j = 1; j < m; j++) d |= dif(b.data[i * m + j], (u64)(u32)x.nodes[j - 1]);
        }
    }
    vh_assert(k == e.size() && q.elements.num_elements == k, "the number of elements loaded differs from the file's");
    vh_assert(eq0(d), "the elements loaded differ from the file's");
}
static int sym_tag() { return (int)sym_range(0, TAG22, "tag"); }
VH_ENTRY(c07_nodes22)
{
    W w = mk(cfg, 22); std::vector<N22> n; unsigned k = pick(4, "nodes");
    for (unsigned i = 0; i < k; i++) { N22 x; x.tag = i < 2 ? sym_tag() : 70 + (int)i; x.x = sym_fin("x"); x.y = sym_fin("y"); x.z = sym_fin("z"); n.push_back(x); }
    w_header(w); w_nodes22(w, n);
    MshSpec q = load(w, k == 2); same22(q, n, {});
    vh_observe(digest(q));
}
static E22 el(int type, unsigned ntags, bool symid, int id, unsigned shift = 0)
{
    E22 e; e.type = type; e.id = symid ? sym_tag() : id;
    for (unsigned j = 0; j < ntags; j++) e.tags.push_back(j == 0 ? (symid ? sym_int("physical") : 3 + id % 2) : j == 1 ? 4 : sym_int("tag_n"));
    for (int j = 0; j < T_NODES[type]; j++) e.nodes.push_back(1 + (int)((unsigned)j * 3 + shift) % 6);
    return e;
}
static void six(std::vector<N22>& n) { for (int i = 1; i <= 6; i++) n.push_back({i, 0.1 * i, -i * 1e-7, 1.0 / i}); n[2].x = sym_fin("x"); }
// every element type with 0-4 tags; cfg = 6 * part + mode
VH_ENTRY(c07_types22)
{
    W w = mk(cfg % 6, 22); std::vector<N22> n; six(n);
    int lo = (cfg / 6) * 16 + 1, hi = lo + 15 > NTYPES ? NTYPES : lo + 15, t = lo + (int)pick((unsigned)(hi - lo + 1), "type");
    unsigned k = pick(5, "tags");
    std::vector<E22> e = {el(t, k, true, 0), el(t, k, false, 9, 2)};
    w_header(w); w_nodes22(w, n); w_elements22(w, e, (t & 1) ? std::vector<unsigned>{2} : std::vector<unsigned>{1, 1});
    MshSpec q = load(w, k == 3); same22(q, n, e);
    vh_observe(digest(q));
}
// element sections of several headers and runs
VH_ENTRY(c07_runs22)
{
    W w = mk(cfg, 22); std::vector<N22> n; six(n); std::vector<E22> e; std::vector<unsigned> runs;
    static const int sh[7][12] = {  // run length, type, tags ...
        {1, 2, 2, 1, 2, 2, 1, 2, 2, 0}, {3, 2, 2, 2, 1, 2, 0}, {2, 15, 0, 2, 1, 3, 0}, {4, 3, 2, 0}, {1, 15, 2, 2, 2, 3, 1, 15, 2, 0}, {2, 2, 2, 2, 2, 3, 1, 4, 4, 0}, {1, 4, 1, 2, 4, 2, 1, 4, 0, 0}};
    unsigned k = pick(7, "shape"); int id = 20;
    for (const int* p = sh[k]; *p; p += 3) { runs.push_back((unsigned)p[0]); for (int i = 0; i < p[0]; i++) { bool first = id == 20; id++; e.push_back(el(p[1], (unsigned)p[2], first, 0x7f000000 - id, (unsigned)id)); } }
    unsigned order = pick(2, "order");
    w_header(w);
    if (order) { w_elements22(w, e, runs); w_nodes22(w, n); } else { w_nodes22(w, n); w_elements22(w, e, runs); }
    MshSpec q = load(w, k == 0); same22(q, n, e);
    vh_observe(digest(q));
}
// runs with any numbers of tags after one another
VH_ENTRY(c07_tags22)
{
    W w = mk(cfg, 22); std::vector<N22> n; six(n); std::vector<E22> e; std::vector<unsigned> runs; static const int ty[3] = {15, 2, 15}; int id = 20;
    for (unsigned r = 0; r < 3; r++) { unsigned nt = pick(5, "tags"), len = 1 + (r & 1); runs.push_back(len); for (unsigned i = 0; i < len; i++) { E22 x = el(ty[r], 0, false, ++id, r); for (unsigned j = 0; j < nt; j++) x.tags.push_back(j == 1 && i == 0 ? sym_int("entity") : (int)(100 * r + 10 * i + j)); e.push_back(x); } }
    w_header(w); w_nodes22(w, n); w_elements22(w, e, runs);
    MshSpec q = load(w, false); same22(q, n, e);
    vh_observe(digest(q));
}
// all bytes of a long file; mode as above, version 4.1
VH_ENTRY(c07_all41)
{
    W w = mk(cfg, 41); MshSpec s; Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
    add_nodes(s, nr, 2, 1, 2); add_nodes(s, nr, 1, 0, 1); add_elements(s, er, nr, 1, 2); add_elements(s, er, nr, 2, 15);
    s.physical_groups = {mk_group("g one"), mk_group("")}; s.entities.points = {mk_point(2)}; s.entities.surfaces = {mk_surface(1, 1)};
    for (int k = 0; k < 3; k++) put(s, k, mk_view({"x"}, 1, 3, 2, 2, k == 2 ? std::vector<unsigned>{1, 2} : std::vector<unsigned>{}));
    w_spec41(w, s);
    MshSpec q = load(w, true);
    vh_assert(eq0(d_nodes(s.nodes, q.nodes) | d_elements(s.elements, q.elements) | d_rest(s, q)), "the spec loaded differs from the file");
    vh_observe(digest(q));
}
// numbers in the spellings that text files use
VH_ENTRY(c07_spelling)
{
    static const struct { const char* t; double v; } sp[12] = {{"1e3", 1000}, {"+1.5", 1.5}, {"-.25", -0.25}, {"7.", 7}, {"1E-2", 0.01}, {"00012", 12}, {"-0", -0.0}, {"1.7976931348623157e308", 1.7976931348623157e308}, {"2.2250738585072014e-308", 2.2250738585072014e-308}, {"0.1000000000000000055511151231257827", 0.1}, {"123456789012345678", 123456789012345678.0}, {"-1e+00", -1}};
    W w = mk(0, cfg & 1 ? 22 : 41); unsigned k = pick(12, "spelling"); double y = sym_fin("y");
    w_header(w); w.open("Nodes");
    if (cfg & 1) { w.text("01"); w.nl(); w.text("+5"); w.text(sp[k].t); w.d(y); w.text(sp[(k + 5) % 12].t); w.nl(); }
    else { w.text("01"); w.text("+1"); w.text("5"); w.text("0005"); w.nl(); w.text("+2"); w.text("-3"); w.text("0"); w.text("1"); w.nl(); w.text("5"); w.nl(); w.text(sp[k].t); w.d(y); w.text(sp[(k + 5) % 12].t); w.nl(); }
    w.close("Nodes");
    MshSpec q = load(w, false);
    vh_assert(q.nodes.num_nodes == 1 && q.nodes.entity_blocks.size() == 1 && q.nodes.entity_blocks[0].tags.size() == 1 && q.nodes.entity_blocks[0].tags[0] == 5 && q.nodes.entity_blocks[0].data.size() == 3, "the node loaded differs from the file's");
    auto& b = q.nodes.entity_blocks[0];
    if (!(cfg & 1)) vh_assert(b.entity_dim == 2 && b.entity_tag == -3, "the block header loaded differs from the file's");
    vh_assert(eq0(difd(b.data[0], sp[k].v) | difd(b.data[1], y) | difd(b.data[2], sp[(k + 5) % 12].v)), "a number was read wrongly");
    vh_observe(digest(q));
}
// counts whose binary form starts with bytes that look like white space
VH_ENTRY(c07_ws)  // cfg = 2 * section + (nl_after)
{
    static const unsigned cnt[4] = {9, 10, 13, 32};
    W w = mk(4 + (cfg & 1), cfg >= 4 ? 22 : 41); unsigned n = cnt[pick(4, "count")]; MshSpec s; w_header(w);
    if (cfg < 4) {
        Range nr = node_range(s, TAG41), er = elem_range(s, TAG41);
        for (unsigned i = 0; i < n; i++) { if (cfg & 2) add_elements(s, er, nr, i == 1, 15); else add_nodes(s, nr, i == 2, 0, 1); }
        if (cfg & 2) w_elements41(w, s.elements); else w_nodes41(w, s.nodes);
        MshSpec q = load(w);
        vh_assert(eq0(d_nodes(s.nodes, q.nodes) * !(cfg & 2) | d_elements(s.elements, q.elements) * !!(cfg & 2)), "the section loaded differs from the file's");
        vh_observe(digest(q));
    } else {
        std::vector<N22> m; std::vector<E22> e; six(m); m[0].tag = (int)n; m[0].y = sym_fin("y");
        int first = (int)n; e.push_back(el(first % 31 + 1, 2, false, (int)n)); e.push_back(el(10, 2, true, 0)); e.push_back(el(9, 2, false, (int)n + 1)); e.push_back(el(13, 2, false, 10));
        if (cfg & 2) w_nodes22(w, m);
        w_elements22(w, e, {1, 1, 1, 1});
        if (!(cfg & 2)) w_nodes22(w, m);
        MshSpec q = load(w); same22(q, m, e);
        vh_observe(digest(q));
    }
}
// many of everything
VH_ENTRY(c07_big41)  // cfg: mode (without symbolic white space), +8: 1000 of each
{
    MshSpec s = big(0, (cfg & 8) ? 1000 : BIG_N[pick(4, "size")]); W w = mk(cfg & 7, 41); s.mesh_format.file_type = w.bin; w_spec41(w, s); MshSpec q = load(w);
    vh_assert(eq0(d_nodes(s.nodes, q.nodes) | d_elements(s.elements, q.elements) | d_rest(s, q)), "a long file is loaded wrongly"); vh_observe(q.nodes.num_nodes);
}
VH_ENTRY(c07_big22)  // cfg: mode, +8: 1000 of each
{
    unsigned n = (cfg & 8) ? 1000 : BIG_N[pick(4, "size")]; W w = mk(cfg & 7, 22); w_header(w); std::vector<N22> m; std::vector<E22> e; std::vector<unsigned> runs;
    for (unsigned i = 0; i < n; i++) m.push_back({(int)(3 * i + 2), i * 0.31, i == n / 2 ? sym_fin("y") : -1. * i, i + 1 == n ? sym_fin("z") : 1e-5 * i});
    static const int ty[4] = {2, 15, 1, 4};
    for (unsigned i = 0; i < n; i++) { E22 x; x.id = (int)(n * 2 - i); x.type = ty[(i / (n / 3)) % 4]; unsigned nt = 2 + (i / (n / 3)) % 3; for (unsigned j = 0; j < nt; j++) x.tags.push_back((int)(j + i % 5)); for (int j = 0; j < T_NODES[x.type]; j++) x.nodes.push_back((int)(3 * ((i + 5 * (unsigned)j) % n) + 2)); e.push_back(x); }
    e[n / 2].tags[1] = sym_irange(0, 6, "entity");
    for (unsigned i = 0; i < n;) { unsigned j = i; while (j < n && e[j].type == e[i].type) j++; runs.push_back(j - i); i = j; }
    MshSpec s = big(2, n, BIG_DATA); w_nodes22(w, m); w_elements22(w, e, runs); for (auto& d : s.node_data) w_view(w, 0, d); for (auto& d : s.element_data) w_view(w, 1, d); for (auto& d : s.element_node_data) w_view(w, 2, d);
    MshSpec q = load(w); same22(q, m, e); vh_assert(eq0(d_rest(s, q) * 0 | d_data(s.node_data, q.node_data, false) | d_data(s.element_data, q.element_data, false) | d_data(s.element_node_data, q.element_node_data, true)), "a long file is loaded wrongly"); vh_observe(q.nodes.num_nodes);
}
VH_ENTRY(c07_huge41)  // very many of one thing; cfg: mode + 8 * kind
{
    MshSpec s = huge(0, (unsigned)cfg >> 3, HUGE_N); W w = mk(cfg & 7, 41); s.mesh_format.file_type = w.bin; w_spec41(w, s); MshSpec q = load(w);
    vh_assert(eq0(d_nodes(s.nodes, q.nodes) | d_elements(s.elements, q.elements) | d_rest(s, q)), "a long file is loaded wrongly"); vh_observe(q.nodes.num_nodes);
}
