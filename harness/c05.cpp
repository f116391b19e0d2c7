// C05: NanoSpline curves and patches.
#include "io.h"
static void check(const MshSpec& s, bool obs = true)
{
    MshSpec r = round_trip(s);
    vh_reach("loaded");
    vh_assert(eq0(d_curves(s.curves, r.curves)), "curves differ after the round trip");
    vh_assert(eq0(d_patches(s.patches, r.patches)), "patches differ after the round trip");
    vh_assert(eq0(difs(s.nanospline_format.version, r.nanospline_format.version)), "format version of the extension differs");
    vh_assert(eq0(d_nodes(s.nodes, r.nodes) | d_rest(s, r)) && r.elements.num_elements == s.elements.num_elements, "other sections were affected");
    vh_observe(obs ? digest(r) : r.curves.size());
}
static void base(MshSpec& s, int cfg)
{
    fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); tiny_nodes(s); tiny_elements(s);
    if (cfg & 2) { s.nodes.entity_blocks[0].entity_dim = 1; s.nodes.entity_blocks[0].entity_tag = 9; }
}
static u64 weight() { unsigned k = pick(3, "rational"); return k < 2 ? k : sym_range(2, ~0ull, "with_weights"); }
VH_ENTRY(c05_curves)  // cfg: 0..3, +4: two curves
{
    MshSpec s; base(s, cfg); unsigned n = (cfg & 4) ? 2 : pick(2, "curves");
    for (unsigned i = 0; i < n; i++) { unsigned cp = pick(i ? 2 : 3, "points"), kn = pick(i ? 2 : 3, "knots"); s.curves.push_back(mk_nscurve(cp, kn, weight())); }
    check(s);
}
VH_ENTRY(c05_patches)
{
    MshSpec s; base(s, cfg); unsigned n = (cfg & 4) ? 2 : pick(2, "patches");
    for (unsigned i = 0; i < n; i++) {
        unsigned cp, ku, kv;
        if (n == 1) { cp = pick(3, "points"); ku = pick(3, "uknots"); kv = pick(3, "vknots"); }
        else { static const unsigned sh[6][3] = {{0, 0, 0}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 1, 1}, {3, 0, 0}}; unsigned q = pick(i ? 4 : 6, "shape"); cp = sh[q][0]; ku = sh[q][1]; kv = sh[q][2]; }
        s.patches.push_back(mk_nspatch(cp, ku, kv, weight()));
    }
    check(s);
}
VH_ENTRY(c05_mix)
{
    MshSpec s; base(s, cfg); unsigned k = pick(4, "shape"), l = pick(3, "version");
    std::string v = sym_str(l + 1, "version"); int ok = 1; for (char c : v) ok &= (int)(c > 32) & (int)(c < 127); vh_assume(ok != 0);
    s.nanospline_format.version = v;
    if (k & 1) { s.curves.push_back(mk_nscurve(4, 8, 0)); s.curves.push_back(mk_nscurve(3, 6, 1)); s.curves.push_back(mk_nscurve(2, 0, 1)); }
    if (k & 2) { s.patches.push_back(mk_nspatch(4, 4, 5, 1)); s.patches.push_back(mk_nspatch(6, 5, 4, 0)); s.patches.push_back(mk_nspatch(1, 0, 2, 0)); }
    s.physical_groups.push_back(mk_group("g")); s.node_data.push_back(mk_view({"v"}, 1, 3, 2, 2, {})); s.element_node_data.push_back(mk_view({"w"}, 1, 3, 1, 1, {2}));
    check(s);
}
VH_ENTRY(c05_bulk)
{
    MshSpec s; base(s, cfg); bool many = pick(2, "shape") == 1;
    if (!many) {
        mshio::Curve c; c.curve_tag = 1; c.num_control_points = 700; c.num_knots = 704; c.with_weights = 1; c.curve_degree = 3; for (unsigned i = 0; i < 700 * 4 + 704; i++) c.data.push_back(i * 0.37);
        c.data[1] = sym_fin("cv"); c.data.back() = sym_fin("last"); s.curves.push_back(c); s.curves.push_back(mk_nscurve(2, 5, 0));
        mshio::Patch p; p.patch_tag = 1; p.num_control_points = 400; p.num_u_knots = 21; p.num_v_knots = 32; for (unsigned i = 0; i < 1200 + 53; i++) p.data.push_back(i * 0.37);
        p.data[1] = sym_fin("cv"); p.data.back() = sym_fin("last"); s.patches.push_back(p); s.patches.push_back(mk_nspatch(2, 5, 1, 0));
    } else for (unsigned i = 0; i < 33; i++) { mshio::Curve c; c.curve_tag = i; c.num_control_points = i % 3; c.num_knots = 9 + i % 5; c.data.assign(i % 3 * 3 + 9 + i % 5, i * 0.1); if (i == 32) c = mk_nscurve(10, 13, 1); s.curves.push_back(c); mshio::Patch p; p.patch_tag = i; p.num_control_points = i % 2; p.num_u_knots = 9 + i % 5; p.data.assign(i % 2 * 3 + 9 + i % 5, i * 0.1); if (i == 32) p = mk_nspatch(9, 10, 13, 1); s.patches.push_back(p); }
    check(s, false);
}
// extension off: files that hold extension sections still load
VH_ENTRY(c05_off)  // cfg: 0..3; the sections are laid out as the library itself lays them out
{
    MshSpec s; base(s, cfg); unsigned k = pick(4, "shape");
    s.physical_groups.push_back(mk_group("g")); s.node_data.push_back(mk_view({"v"}, 1, 3, 2, 2, {})); s.element_node_data.push_back(mk_view({"w"}, 1, 3, 1, 1, {2}));
    MshSpec plain = s;
    W w; w.bin = cfg & 1; w.nl_after = false; w.s = save_bytes(s);
    w_format(w, "1.0");
    if (k & 1) { mshio::Curve c; c.curve_tag = 3; c.num_control_points = 2; c.num_knots = 2; c.data = {0, 1, 2, 3, 4, 5, 0.5, 10}; std::vector<mshio::Curve> v = {c, c}; w_curves(w, v); }
    if (k & 2) { mshio::Patch c; c.patch_tag = 3; c.num_control_points = 2; c.num_u_knots = 1; c.data = {0, 1, 2, 3, 4, 5, 0.5}; std::vector<mshio::Patch> v = {c, c}; w_patches(w, v); }
    MshSpec r, q; Outcome o = try_load(w.s, r);
    vh_assert(o == LOADED, "a file with extension sections does not load without the extension");
    vh_reach("loaded");
    q = load_bytes(save_bytes(plain));
    r.curves.clear(); r.patches.clear(); r.nanospline_format = q.nanospline_format;
    vh_assert(eq0(d_spec(q, r)), "extension sections affect other sections");
    vh_assert(eq0(d_nodes(s.nodes, r.nodes) | d_rest(s, r)), "extension sections affect other sections");
    vh_observe(digest(r));
}
VH_ENTRY(c05_huge) { check(huge(cfg & 3, 8, 12000), false); }  // very many curves, patches, points and knots
