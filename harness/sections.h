// One section of each kind with everything it announces marked in w.cuts; shared by C12 and C13.
#pragma once
#include "io.h"
static unsigned pick_many(size_t n, const char* name) { unsigned hi = pick((unsigned)((n + 99) / 100), name), m = (unsigned)n - hi * 100; return hi * 100 + pick(m > 100 ? 100 : m, name); }
static void six(std::vector<N22>& n, unsigned k) { for (unsigned i = 1; i <= k; i++) n.push_back({(int)i, 0.1 * i, sym_fin("y"), 1.0 / i}); }
// one section of a kind; everything the section's counts announce is marked in w.cuts
static void section(W& w, int kind)
{
    MshSpec s; Range nr = {1, TAG22}, er = {1, TAG22};
    std::vector<N22> n; std::vector<E22> e;
    switch (kind) {
    case 0: w.ver = 41; w_header(w); add_nodes(s, nr, 2, 1, 1); add_nodes(s, nr, 1, 0, 2); w_nodes41(w, s.nodes); break;
    case 1: w.ver = 41; w_header(w); add_elements(s, er, nr, 2, 1); add_elements(s, er, nr, 1, 4); w_elements41(w, s.elements); break;
    case 2: w.ver = 41; w_header(w); s.entities.points = {mk_point(2), mk_point(0)}; s.entities.curves = {mk_curve(1, 2)}; w_entities(w, s.entities); break;
    case 3: w.ver = 41; w_header(w); s.entities.surfaces = {mk_surface(0, 2)}; s.entities.volumes = {mk_volume(2, 1), mk_volume(0, 0)}; w_entities(w, s.entities); break;
    case 4: w.ver = 22; w_header(w); six(n, 3); w_nodes22(w, n); break;
    case 5: { w.ver = 22; w_header(w); E22 a = {7, 2, {1, 2}, {1, 2, 3}}, b = {9, 2, {4, 5}, {3, 2, 1}}, c = {2, 15, {}, {3}}, d = {3, 1, {1, 2, 3}, {1, 2}}; a.tags[0] = sym_int("tag"); e = {a, b, c, d}; w_elements22(w, e, {2, 1, 1}); break; }
    case 6: w_header(w); s.physical_groups = {mk_group("ab \"c"), mk_group(""), mk_group("x")}; w_groups(w, s.physical_groups); break;
    case 7: case 8: case 9: w_header(w); w_view(w, kind - 7, mk_view({"a b", "c"}, 2, 4, 2, 2, kind == 9 ? std::vector<unsigned>{2, 1} : std::vector<unsigned>{})); break;
    case 10: w_header(w); s.curves = {mk_nscurve(2, 3, 1), mk_nscurve(1, 0, 0)}; w_curves(w, s.curves); break;
    case 11: w_header(w); s.patches = {mk_nspatch(2, 1, 2, 1), mk_nspatch(1, 2, 1, 0)}; w_patches(w, s.patches); break;
    }
}
// cfg = 4 * kind + 2 * version + binary (the version is fixed by the kind for 0-5)
static W begin(int cfg) { W w; w.ver = (cfg & 2) ? 22 : 41; w.bin = cfg & 1; return w; }
// a section with many entries; the same kinds
static void big_section(W& w, int kind, unsigned n)
{
    MshSpec s = big(w.bin, n, kind == 0 || kind == 1 || kind == 4 || kind == 5 ? BIG_MESH : kind >= 7 && kind <= 9 ? BIG_DATA : BIG_META); w.ver = kind == 4 || kind == 5 ? 22 : kind < 4 ? 41 : w.ver; w_header(w);
    if (kind == 0) w_nodes41(w, s.nodes);
    if (kind == 1) w_elements41(w, s.elements);
    if (kind == 2) { s.entities.surfaces.clear(); s.entities.volumes.clear(); w_entities(w, s.entities); }
    if (kind == 3) { s.entities.points.clear(); s.entities.curves.clear(); w_entities(w, s.entities); }
    if (kind == 4) { std::vector<N22> m; for (unsigned i = 0; i < n; i++) m.push_back({(int)i + 1, 0.1 * i, i == n / 2 ? sym_fin("y") : 3, 1. / (i + 1)}); w_nodes22(w, m); }
    if (kind == 5) { std::vector<E22> e; for (unsigned i = 0; i < n; i++) { E22 x = {(int)i + 1, 2, {1, (int)i % 3}, {1, 2, 3}}; if (i % 7 == 3) x = {(int)i + 1, 1, {}, {2, 3}}; e.push_back(x); } std::vector<unsigned> r; for (unsigned i = 0; i < n;) { unsigned j = i; while (j < n && e[j].type == e[i].type) j++; r.push_back(j - i); i = j; } w_elements22(w, e, r); }
    if (kind == 6) w_groups(w, s.physical_groups);
    if (kind >= 7 && kind <= 9) w_view(w, kind - 7, (kind == 7 ? s.node_data : kind == 8 ? s.element_data : s.element_node_data)[pick(3, "view")]);
    if (kind == 10) w_curves(w, s.curves);
    if (kind == 11) w_patches(w, s.patches);
}
