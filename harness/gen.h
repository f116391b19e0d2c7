// Builders of consistent specs with symbolic values.
#pragma once
#include "vh.h"
// The documented element table (README / MSH format description), written out independently.
static const int NTYPES = 31;
static const int T_NODES[32] = {0, 2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8, 20, 15, 13, 9, 10, 12, 15, 15, 21, 4, 5, 6, 20, 35, 56};
static const int T_DIM[32] = {0, 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3, 0, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 3, 3, 3};
static const u64 TAG22 = 0x7fffffff;
static const u64 TAG41 = ~0ull;

struct Range { u64 lo, hi; };
static inline void fmt(MshSpec& s, const char* version, int binary) { s.mesh_format.version = version; s.mesh_format.file_type = binary; s.mesh_format.data_size = sizeof(size_t); }
static inline Range node_range(MshSpec& s, u64 maxtag)
{
    Range r; r.lo = sym_u64("min_node_tag"); r.hi = sym_u64("max_node_tag");
    vh_assume((int)(r.lo <= r.hi) & (int)(r.hi <= maxtag));
    s.nodes.min_node_tag = r.lo; s.nodes.max_node_tag = r.hi; return r;
}
static inline Range elem_range(MshSpec& s, u64 maxtag)
{
    Range r; r.lo = sym_u64("min_element_tag"); r.hi = sym_u64("max_element_tag");
    vh_assume((int)(r.lo <= r.hi) & (int)(r.hi <= maxtag));
    s.elements.min_element_tag = r.lo; s.elements.max_element_tag = r.hi; return r;
}
static inline void add_nodes(MshSpec& s, Range r, unsigned n, int par, int dim)
{
    mshio::NodeBlock b;
    b.entity_dim = dim >= 0 ? dim : sym_irange(0, 3, "entity_dim");
    b.entity_tag = sym_int("entity_tag"); b.parametric = par; b.num_nodes_in_block = n;
    int ok = 1;  // one assumption for the whole block: cheaper for the solver
    for (unsigned i = 0; i < n; i++) { u64 t = sym_u64("node_tag"); ok &= (int)(t >= r.lo) & (int)(t <= r.hi); b.tags.push_back(t); }
    unsigned m = n * (3 + (par == 1 ? (unsigned)dim : 0));
    for (unsigned i = 0; i < m; i++) { u64 t = sym_u64("coord"); ok &= (int)(((t >> 52) & 0x7ff) != 0x7ff); b.data.push_back(from_bits(t)); }
    vh_assume(ok != 0);
    s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks++; s.nodes.num_nodes += n;
}
static inline void add_elements(MshSpec& s, Range er, Range nr, unsigned n, int type, bool free_dim = true)
{
    mshio::ElementBlock b;
    b.entity_dim = free_dim ? sym_irange(0, 3, "entity_dim") : T_DIM[type];
    b.entity_tag = sym_int("entity_tag"); b.element_type = type; b.num_elements_in_block = n;
    int ok = 1;
    for (unsigned i = 0; i < n; i++) {
        u64 t = sym_u64("element_tag"); ok &= (int)(t >= er.lo) & (int)(t <= er.hi); b.data.push_back(t);
        for (int j = 0; j < T_NODES[type]; j++) { u64 x = sym_u64("node_ref"); ok &= (int)(x >= nr.lo) & (int)(x <= nr.hi); b.data.push_back(x); }
    }
    vh_assume(ok != 0);
    s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks++; s.elements.num_elements += n;
}
// the smallest legal section of each kind, so that other sections have neighbours
static inline void tiny_nodes(MshSpec& s)
{
    mshio::NodeBlock b; b.entity_dim = 2; b.entity_tag = 7; b.num_nodes_in_block = 2; b.tags = {1, 2}; b.data = {0.5, -1.25, 3, 4, 5e-3, 6e12};
    s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = 2; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 2;
}
static inline void tiny_elements(MshSpec& s)
{
    mshio::ElementBlock b; b.entity_dim = 1; b.entity_tag = 9; b.element_type = 1; b.num_elements_in_block = 1; b.data = {5, 1, 2};
    s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks = 1; s.elements.num_elements = 1; s.elements.min_element_tag = 5; s.elements.max_element_tag = 5;
}
static inline std::vector<int> sym_ints(unsigned n, const char* name) { std::vector<int> v; for (unsigned i = 0; i < n; i++) v.push_back(sym_int(name)); return v; }
static inline mshio::PointEntity mk_point(unsigned np) { mshio::PointEntity e; e.tag = sym_int("etag"); e.x = sym_fin("x"); e.y = sym_fin("y"); e.z = sym_fin("z"); e.physical_group_tags = sym_ints(np, "ptag"); return e; }
template <class E> static inline E mk_box(unsigned np)
{
    E e; e.tag = sym_int("etag"); e.min_x = sym_fin("bb"); e.min_y = sym_fin("bb"); e.min_z = sym_fin("bb"); e.max_x = sym_fin("bb"); e.max_y = sym_fin("bb"); e.max_z = sym_fin("bb");
    e.physical_group_tags = sym_ints(np, "ptag"); return e;
}
static inline mshio::CurveEntity mk_curve(unsigned np, unsigned nb) { auto e = mk_box<mshio::CurveEntity>(np); e.boundary_point_tags = sym_ints(nb, "btag"); return e; }
static inline mshio::SurfaceEntity mk_surface(unsigned np, unsigned nb) { auto e = mk_box<mshio::SurfaceEntity>(np); e.boundary_curve_tags = sym_ints(nb, "btag"); return e; }
static inline mshio::VolumeEntity mk_volume(unsigned np, unsigned nb) { auto e = mk_box<mshio::VolumeEntity>(np); e.boundary_surface_tags = sym_ints(nb, "btag"); return e; }
static inline mshio::PhysicalGroup mk_group(const std::string& name) { mshio::PhysicalGroup g; g.dim = sym_irange(0, 3, "gdim"); g.tag = sym_int("gtag"); g.name = name; return g; }
// a data view; nint >= 3; nodes = nodes per element for element-node data, or 0
static inline mshio::Data mk_view(const std::vector<std::string>& names, unsigned nreal, unsigned nint, unsigned fields, unsigned entries, const std::vector<unsigned>& nodes)
{
    mshio::Data d; d.header.string_tags = names;
    for (unsigned i = 0; i < nreal; i++) d.header.real_tags.push_back(sym_fin("real_tag"));
    for (unsigned i = 0; i < nint; i++) d.header.int_tags.push_back(i == 1 ? (int)fields : i == 2 ? (int)entries : sym_int("int_tag"));
    for (unsigned i = 0; i < entries; i++) {
        mshio::DataEntry e; e.tag = sym_range(0, TAG22, "entry_tag");
        unsigned n = fields;
        if (!nodes.empty()) { unsigned k = nodes[i % nodes.size()]; e.num_nodes_per_element = (int)k; n *= k; }
        for (unsigned j = 0; j < n; j++) e.data.push_back(sym_fin("value"));
        d.entries.push_back(e);
    }
    return d;
}
static inline mshio::Curve mk_nscurve(unsigned cp, unsigned kn, u64 w)
{
    mshio::Curve c; c.curve_tag = sym_u64("ctag"); c.curve_type = sym_u64("ctype"); c.curve_degree = sym_u64("cdeg"); c.num_control_points = cp; c.num_knots = kn; c.with_weights = w;
    unsigned n = cp * (w > 0 ? 4 : 3) + kn; for (unsigned i = 0; i < n; i++) c.data.push_back(sym_fin("cv")); return c;
}
static inline mshio::Patch mk_nspatch(unsigned cp, unsigned ku, unsigned kv, u64 w)
{
    mshio::Patch c; c.patch_tag = sym_u64("ptag"); c.patch_type = sym_u64("ptype"); c.degree_u = sym_u64("du"); c.degree_v = sym_u64("dv"); c.num_control_points = cp; c.num_u_knots = ku; c.num_v_knots = kv; c.with_weights = w;
    unsigned n = cp * (w > 0 ? 4 : 3) + ku + kv; for (unsigned i = 0; i < n; i++) c.data.push_back(sym_fin("pv")); return c;
}
// A spec with many of everything: n nodes and elements in the first blocks, n data entries, n groups, n entities per kind.
// Mostly concrete; a few symbolic values (small: the tags fit in 32 bits) at interesting places.
enum { BIG_MESH = 1, BIG_META = 2, BIG_DATA = 4, BIG_ALL = 7 };
static inline MshSpec big(int cfg, unsigned n, unsigned what = BIG_ALL, bool small = false)
{
    bool old = (cfg & 2) != 0; MshSpec s; fmt(s, old ? "2.2" : "4.1", cfg & 1); u64 base = old || small ? 2 : (1ull << 33), total = 0; int in_range = 1;
    if (what & BIG_MESH) {
        unsigned sizes[4] = {n, 0, n / 2 + 1, 1}; u64 t = base;
        for (unsigned k = 0; k < 4; k++) {
            mshio::NodeBlock b; b.entity_dim = k == 3 ? 3 : 2; b.entity_tag = k == 2 ? sym_int("entity_tag") : 3 + (int)k; b.parametric = k == 2; b.num_nodes_in_block = sizes[k]; unsigned w = k == 2 ? 5 : 3;
            for (unsigned i = 0; i < sizes[k]; i++, t += 3) { b.tags.push_back(t); for (unsigned j = 0; j < w; j++) b.data.push_back(i * 0.37 - j * 1e-7); }
            if (sizes[k]) { b.data[b.data.size() / 2] = sym_fin("coord"); b.data.back() = sym_fin("last_coord"); }
            s.nodes.entity_blocks.push_back(b); s.nodes.num_entity_blocks++; s.nodes.num_nodes += sizes[k]; total += sizes[k];
        }
        s.nodes.min_node_tag = base; s.nodes.max_node_tag = t - 3;
        static const int ty[5] = {2, 15, 4, 9, 2}; unsigned es[5] = {n, n / 2, 1, 3, 2}; u64 e = base + 5, c = 0; s.elements.min_element_tag = base + 5;
        for (unsigned k = 0; k < 5; k++) {
            mshio::ElementBlock b; b.entity_dim = T_DIM[ty[k]]; b.entity_tag = k == 3 ? sym_int("entity_tag") : (int)k * 7 - 6; b.element_type = ty[k]; b.num_elements_in_block = es[k];
            for (unsigned i = 0; i < es[k]; i++, e += 2) { b.data.push_back(e); for (int j = 0; j < T_NODES[ty[k]]; j++) b.data.push_back(base + 3 * (c++ * 7 % total)); }
            if (!old && !small) { b.data[b.data.size() / 2] = sym_u64("number"); b.data.back() = sym_u64("last_number"); for (u64 x : {b.data[b.data.size() / 2], b.data.back()}) in_range &= (int)(x >= base + 5) & (int)(x <= base + 9 * n + 40); }
            s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks++; s.elements.num_elements += es[k];
        }
        s.elements.max_element_tag = old ? e - 2 : base + 9 * n + 40; if (!old) s.nodes.max_node_tag = base + 9 * n + 40;
    }
    if (what & BIG_META) {
        for (unsigned i = 0; i < n; i++) { mshio::PhysicalGroup g; g.dim = (int)i % 4; g.tag = i == n - 1 ? sym_int("gtag") : (int)(i * 5) - 3; g.name = i == 1 ? "with \"quotes\" \\" : std::string("group").substr(0, i % 6) + std::string(i % 23, (char)('a' + i % 26)); s.physical_groups.push_back(g); }
        for (unsigned i = 0; i < n && !old; i++) {
            std::vector<int> p, q; for (unsigned j = 0; j < i % 4; j++) p.push_back((int)(i * 3 + j)); for (unsigned j = 0; j < i % 5; j++) q.push_back((int)j - (int)i);
            mshio::PointEntity a; a.tag = (int)i; a.x = i * 0.1; a.z = -1. / (i + 1); a.physical_group_tags = p; if (i == n - 1) a.y = sym_fin("y"); s.entities.points.push_back(a);
            mshio::CurveEntity b; b.tag = -(int)i; b.min_x = i * 0.7; b.max_y = i; b.physical_group_tags = q; b.boundary_point_tags = p; if (i == n / 2) b.max_z = sym_fin("max_z"); s.entities.curves.push_back(b);
            mshio::SurfaceEntity f; f.tag = (int)i * 9; f.min_y = i * 0.7; f.max_x = i; f.physical_group_tags = p; f.boundary_curve_tags = q; if (i == n / 2) f.tag = sym_int("etag"); s.entities.surfaces.push_back(f);
            mshio::VolumeEntity v; v.tag = (int)i + 1; v.min_z = i * 0.7; v.max_z = 1e10 * i; v.physical_group_tags = q; v.boundary_surface_tags = q; if (i == n - 2) v.min_x = sym_fin("min_x"); s.entities.volumes.push_back(v);
        }
    }
    if (what & BIG_DATA) for (int kind = 0; kind < 3; kind++) for (unsigned k = 0; k < 3; k++) {  // many entries, many fields, many tags
        mshio::Data d; unsigned m = k == 0 ? n : 2, f = k == 1 ? n : k + 1;
        for (unsigned i = 0; i < (k == 2 ? n / 4 : k); i++) d.header.string_tags.push_back(std::string(i % 20, (char)('a' + i % 26)));
        for (unsigned i = 0; i < (k == 2 ? n / 3 : k); i++) d.header.real_tags.push_back(i * 0.3);
        d.header.int_tags = {(int)k, (int)f, (int)m}; if (k == 2) for (unsigned i = 0; i < n / 2; i++) d.header.int_tags.push_back((int)i * 4 - 9);
        for (unsigned i = 0; i < m; i++) {
            mshio::DataEntry e; e.tag = 1 + i * 2; unsigned c = f; if (kind == 2) { e.num_nodes_per_element = k == 2 && i == 1 ? (int)n : 2 + (int)i % 3; c *= (unsigned)e.num_nodes_per_element; }
            for (unsigned j = 0; j < c; j++) e.data.push_back(i * 0.21 - j * 1e-9);
            if (i == m / 2 && c) e.data[c / 2] = sym_fin("value"); if (i + 1 == m && c) { e.data.back() = sym_fin("last_value"); e.tag = sym_range(0, TAG22, "entry_tag"); }
            d.entries.push_back(e);
        }
        (kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data).push_back(d);
    }
#ifdef MSHIO_EXT_NANOSPLINE
    if (what & BIG_META) {
        s.nanospline_format.version = "1.0"; mshio::Curve c; c.curve_tag = 4; c.curve_degree = 3; c.num_control_points = n; c.num_knots = n + 4; c.with_weights = 1; for (unsigned i = 0; i < n * 4 + n + 4; i++) c.data.push_back(i * 0.3); c.data.back() = sym_fin("knot"); s.curves = {c};
        mshio::Patch p; p.patch_tag = 9; p.num_control_points = n; p.num_u_knots = n / 2; p.num_v_knots = 3; for (unsigned i = 0; i < n * 3 + n / 2 + 3; i++) p.data.push_back(i * 0.7); p.data.back() = sym_fin("knot"); s.patches = {p};
        for (unsigned i = 0; i < n / 4; i++) { c.num_control_points = c.num_knots = 1; c.data = {1, 2, 3, 4. * i, 5}; c.curve_tag = i; s.curves.push_back(c); p.num_control_points = p.num_u_knots = p.num_v_knots = 1; p.data = {1. * i, 2, 3, 4, 5}; p.patch_tag = i; s.patches.push_back(p); }
    }
#endif
    if (in_range != 1) vh_assume(in_range != 0);
    return s;
}
static const unsigned BIG_N[4] = {12, 40, 130, 300};
// A spec with very many of one thing: 0 nodes, 1 elements, 2 node blocks, 3 element blocks, 4 points and volumes (4.1), 5 groups, 6 entries of a view, 7 views, 8 curves and patches.
static inline MshSpec huge(int cfg, unsigned kind, unsigned n, bool small = false)  // cfg: as for big
{
    vm_hash(1); bool old = (cfg & 2) != 0; MshSpec s; fmt(s, old ? "2.2" : "4.1", cfg & 1);
    unsigned nn = kind == 0 || kind == 2 ? n : 3, ne = kind == 1 || kind == 3 ? n : 2, nb = kind == 2 ? n : 1, eb = kind == 3 ? n : 1;
    if (kind <= 3) {
        for (unsigned k = 0; k < nb; k++) {
            mshio::NodeBlock b; b.entity_dim = 1 + (int)k % 3; b.entity_tag = (int)k + 3; b.num_nodes_in_block = nn / nb;
            for (unsigned i = 0; i < nn / nb; i++) { b.tags.push_back(1 + k + i); b.data.push_back(i + k); b.data.push_back(2); b.data.push_back(7); }
            s.nodes.entity_blocks.push_back(b);
        }
        s.nodes.num_entity_blocks = nb; s.nodes.num_nodes = nn; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = nn; auto& m = s.nodes.entity_blocks[nb / 2]; m.data[m.data.size() / 2] = sym_fin("coord"); s.nodes.entity_blocks.back().data.back() = sym_fin("last");
        u64 t = old || small ? sym_range(5 * n, TAG22, "element_tag") : sym_range(5 * n, ~0ull, "element_tag");
        for (unsigned k = 0; k < eb; k++) {
            mshio::ElementBlock b; b.entity_dim = 1; b.entity_tag = (int)k + 4; b.element_type = 1; b.num_elements_in_block = ne / eb;
            for (unsigned i = 0; i < ne / eb; i++) { unsigned id = k + i; b.data.push_back(id + 1 == ne ? t : id + 1); b.data.push_back(1 + id % 3); b.data.push_back(1 + id / 2 % 3); }
            s.elements.entity_blocks.push_back(b);
        }
        s.elements.num_entity_blocks = eb; s.elements.num_elements = ne; s.elements.min_element_tag = 1; s.elements.max_element_tag = t;
    }
    if (kind == 4) for (unsigned i = 0; i < n; i++) {
        mshio::PointEntity a; a.tag = (int)i; a.x = i; if (i == n - 1) { a.y = sym_fin("y"); a.physical_group_tags = {sym_int("group")}; } s.entities.points.push_back(a);
        mshio::VolumeEntity v; v.tag = (int)i + 1; v.min_z = i; if (i % 5000 == 1) { v.physical_group_tags = {1, -2}; v.boundary_surface_tags = {3}; } if (i == n - 1) v.max_x = sym_fin("max_x"); s.entities.volumes.push_back(v);
    }
    if (kind == 5) for (unsigned i = 0; i < n; i++) { mshio::PhysicalGroup g; g.dim = (int)i % 4; g.tag = i == n - 1 ? sym_int("gtag") : (int)i + 1; g.name = i % 9 ? "g" : "two words"; s.physical_groups.push_back(g); }
    if (kind == 6 || kind == 7) for (unsigned q = 0; q < 3; q++) for (unsigned k = 0; k < (kind == 6 ? 1 : n / 4); k++) {
        mshio::Data d; unsigned m = kind == 6 ? n : 1; d.header.string_tags = {"v"}; d.header.int_tags = {(int)k, 1, (int)m};
        for (unsigned i = 0; i < m; i++) { mshio::DataEntry e; e.tag = i + 1; if (q == 2) e.num_nodes_per_element = 1; e.data = {i + 2. * k}; d.entries.push_back(e); }
        if (kind == 6 || k + 1 == n / 4) { d.entries[m / 2].data[0] = sym_fin("value"); d.entries[m - 1].tag = sym_range(0, TAG22, "entry_tag"); }
        (q == 0 ? s.node_data : q == 1 ? s.element_data : s.element_node_data).push_back(d);
    }
#ifdef MSHIO_EXT_NANOSPLINE
    if (kind == 8) {
        s.nanospline_format.version = "1.0"; mshio::Curve c; c.curve_tag = 4; c.curve_degree = 1; c.num_control_points = c.num_knots = 1; c.data = {1, 2, 3, 4}; mshio::Patch p; p.num_control_points = p.num_u_knots = p.num_v_knots = 1; p.data = {1, 2, 3, 4, 5};
        for (unsigned i = 0; i < n; i++) { c.curve_tag = i; c.data[3] = i; p.patch_tag = i; p.data[2] = i; if (i + 1 == n) { c.data[2] = sym_fin("x"); p.data[4] = sym_fin("knot"); } s.curves.push_back(c); s.patches.push_back(p); }
        c.num_control_points = n; c.num_knots = 2; c.data.assign(n * 3 + 2, 5.); c.data[n] = sym_fin("point"); s.curves.push_back(c); p.num_control_points = n; p.num_u_knots = n / 2; p.num_v_knots = 7; p.data.assign(n * 3 + n / 2 + 7, 6.); p.data[n] = sym_fin("point"); s.patches.push_back(p);
    }
#endif
    return s;
}
static const unsigned HUGE_N = 33000;
