// C02: entities and physical groups survive a round trip.
#include "gen.h"
static void check(const MshSpec& s, bool obs = true)
{
    MshSpec r = round_trip(s);
    vh_reach("loaded");
    vh_assert(eq0(d_entities(s.entities, r.entities)), "entities differ after the round trip");
    vh_assert(eq0(d_groups(s.physical_groups, r.physical_groups)), "physical groups differ after the round trip");
    vh_assert(eq0(d_nodes(s.nodes, r.nodes)) && r.elements.num_elements == s.elements.num_elements, "other sections were affected");
    vh_observe(obs ? digest(r) : r.entities.points.size());
}
// up to two entities of one kind with 0..2 physical and boundary tags each
VH_ENTRY(c02_kind)  // cfg = 4 * kind + 2 * two + binary
{
    MshSpec s; fmt(s, "4.1", cfg & 1); int kind = cfg >> 2; unsigned n = (cfg & 2) ? 2 : pick(2, "count");
    for (unsigned i = 0; i < n; i++) {
        unsigned np = pick(3, "physical"), nb = kind ? pick(3, "bounding") : 0;
        if (kind == 0) s.entities.points.push_back(mk_point(np));
        else if (kind == 1) s.entities.curves.push_back(mk_curve(np, nb));
        else if (kind == 2) s.entities.surfaces.push_back(mk_surface(np, nb));
        else s.entities.volumes.push_back(mk_volume(np, nb));
    }
    tiny_nodes(s); check(s);
}
// all kinds at once
VH_ENTRY(c02_mix)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); unsigned k = pick(8, "shape");
    static const unsigned sh[8][4] = {{1, 1, 1, 1}, {2, 0, 1, 0}, {0, 3, 0, 1}, {3, 1, 2, 0}, {0, 0, 0, 2}, {1, 0, 0, 1}, {0, 0, 3, 0}, {2, 2, 2, 2}};
    for (unsigned i = 0; i < sh[k][0]; i++) s.entities.points.push_back(mk_point(i % 3));
    for (unsigned i = 0; i < sh[k][1]; i++) s.entities.curves.push_back(mk_curve((i + 1) % 3, (i + 2) % 3));
    for (unsigned i = 0; i < sh[k][2]; i++) s.entities.surfaces.push_back(mk_surface((i + 2) % 3, i % 4));
    for (unsigned i = 0; i < sh[k][3]; i++) s.entities.volumes.push_back(mk_volume(i % 2, (i + 3) % 5));
    if (k & 1) { s.physical_groups.push_back(mk_group("a b")); s.physical_groups.push_back(mk_group("")); }
    tiny_nodes(s); tiny_elements(s); check(s);
}
// counts that look like white space in binary, and longer tag lists
VH_ENTRY(c02_counts)
{
    static const unsigned cnt[4] = {9, 10, 13, 32};
    MshSpec s; fmt(s, "4.1", cfg & 1); unsigned n = cnt[pick(4, "count")], k = pick(4, "kind");
    for (unsigned i = 0; i < n; i++) {
        mshio::PointEntity p; p.tag = (int)i; p.x = i * 0.1; p.physical_group_tags.assign(i == 3 ? n : i % 2, (int)i - 4);
        mshio::CurveEntity c; c.tag = -(int)i; c.min_x = i * 0.7; c.boundary_point_tags.assign(i == 2 ? n : i % 3, -(int)i);
        if (k == 0) s.entities.points.push_back(p);
        if (k == 1) s.entities.curves.push_back(c);
        if (k == 2) { mshio::SurfaceEntity f; f.tag = c.tag; f.max_z = 1. / (i + 3); f.boundary_curve_tags = c.boundary_point_tags; f.physical_group_tags = p.physical_group_tags; s.entities.surfaces.push_back(f); }
        if (k == 3) { mshio::VolumeEntity f; f.tag = c.tag; f.max_z = 1. / (i + 3); f.boundary_surface_tags = c.boundary_point_tags; f.physical_group_tags = p.physical_group_tags; s.entities.volumes.push_back(f); }
    }
    if (k == 0) s.entities.points[n - 1] = mk_point(2);
    if (k == 1) s.entities.curves[n - 1] = mk_curve(2, 3);
    if (k == 2) s.entities.surfaces[n - 1] = mk_surface(2, 3);
    if (k == 3) s.entities.volumes[n - 1] = mk_volume(2, 3);
    tiny_nodes(s); check(s);
}
// many tags on one entity, in powers of two and around them
VH_ENTRY(c02_long)  // cfg: 2 * kind + binary
{
    static const unsigned cnt[8] = {63, 64, 127, 128, 256, 300, 1024, 1500};
    MshSpec s; fmt(s, "4.1", cfg & 1); unsigned n = cnt[pick(8, "count")]; std::vector<int> a(n), b(n / 2 + 1); for (unsigned i = 0; i < n; i++) a[i] = (int)(i * 7) - 40; for (unsigned i = 0; i < n / 2 + 1; i++) b[i] = -(int)i;
    a[n / 2] = sym_int("tag"); a[n - 1] = sym_int("last"); b[n / 2] = sym_int("blast");
    mshio::PointEntity p = mk_point(1); mshio::CurveEntity c = mk_curve(1, 1), e; mshio::SurfaceEntity f = mk_surface(0, 2), g; mshio::VolumeEntity v = mk_volume(1, 0), w;
    s.entities.points = {p}; s.entities.curves = {c}; s.entities.surfaces = {f}; s.entities.volumes = {v};
    if (cfg >> 1 == 0) { p.physical_group_tags = a; s.entities.points = {p, p}; }
    if (cfg >> 1 == 1) { e = c; e.physical_group_tags = a; e.boundary_point_tags = b; s.entities.curves = {e, c}; }
    if (cfg >> 1 == 2) { g = f; g.physical_group_tags = b; g.boundary_curve_tags = a; s.entities.surfaces = {f, g}; }
    if (cfg >> 1 == 3) { w = v; w.physical_group_tags = a; w.boundary_surface_tags = a; s.entities.volumes = {w, v}; }
    tiny_nodes(s); check(s);
}
// group names made of arbitrary bytes
VH_ENTRY(c02_names)  // cfg: 0/1 4.1, 2/3 2.2; +4: three symbolic bytes
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1);
    unsigned len = (cfg & 4) ? 3 : pick(3, "length");
    s.physical_groups.push_back(mk_group(sym_str(len, "name")));
    s.physical_groups.push_back(mk_group((cfg & 4) ? std::string("next") : sym_str(pick(2, "length2"), "name2")));
    mshio::NodeBlock b; tiny_nodes(s);
    if (cfg & 2) { s.nodes.entity_blocks[0].entity_dim = 0; s.nodes.entity_blocks[0].entity_tag = 0; }
    check(s);
}
// awkward fixed names
VH_ENTRY(c02_odd)
{
    static const char* nm[] = {"", " ", "\"", "\\", "a\"b\\c", "line\nbreak", "\t tab ", "$EndPhysicalNames", "2 3 \"x\"", "\r\n", "$Nodes\n1\n", "\\\\\"\"", "caf\303\251", "a very long name that does not fit into the small string buffer of the library", "'", "x "};
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1);
    unsigned k = pick(16, "name"), n = 1 + pick(3, "count");
    for (unsigned i = 0; i < n; i++) s.physical_groups.push_back(mk_group(nm[(k + i * 5) % 16]));
    tiny_nodes(s);
    if (cfg & 2) { s.nodes.entity_blocks[0].entity_dim = 0; s.nodes.entity_blocks[0].entity_tag = 0; }
    check(s);
}
// many entities of every kind and many groups
VH_ENTRY(c02_big)  // cfg: format, +4: 1000 of each
{
    MshSpec s = big(cfg & 3, (cfg & 4) ? 1000 : BIG_N[pick(4, "size")], BIG_META); tiny_nodes(s); if (cfg & 2) { s.nodes.entity_blocks[0].entity_dim = s.nodes.entity_blocks[0].entity_tag = 0; } check(s, false);
}
// names of many lengths, with and without characters that need care
VH_ENTRY(c02_length)
{
    static const unsigned ns[] = {15, 16, 31, 32, 63, 64, 79, 80, 100, 126, 127, 128, 200, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 5000, 65536};
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); unsigned n = ns[pick(sizeof ns / sizeof *ns, "length")], k = pick(4, "content"); std::string x;
    for (unsigned i = 0; i < n; i++) x += k == 0 ? 'n' : k == 1 ? "a b"[i % 3] : k == 2 ? "x\"\\ "[i % 4] : (char)('!' + i % 90);
    x.back() = (char)sym_u8("last"); s.physical_groups = {mk_group(x), mk_group(""), mk_group(x.substr(n / 2))};
    tiny_nodes(s); if (cfg & 2) { s.nodes.entity_blocks[0].entity_dim = 0; s.nodes.entity_blocks[0].entity_tag = 0; }
    check(s, false);
}
// very many entities (4.1) or groups
VH_ENTRY(c02_huge) { MshSpec s = huge(cfg & 3, 4 + ((unsigned)cfg >> 2), HUGE_N); check(s, false); }  // cfg: format + 4 * kind
