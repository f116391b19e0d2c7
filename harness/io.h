// An independent writer and reader of the published MSH 4.1 / 2.2 layout.  They share no code with
// the library: they are written from the file-format description only.
#pragma once
#include "gen.h"
struct E22 { int id, type; std::vector<int> tags, nodes; };  // an MSH 2.2 element
struct N22 { int tag; double x, y, z; };

// ------------------------------------------------------------------ writer
struct W {
    std::string s; int ver = 41; bool bin = false;
    int ws = 0;            // 0: ' ' and '\n'; 1: symbolic white space; 2: tab and CR LF; 3: several, leading ones too
    bool nl_after = true;  // new line between binary data and $End (as Gmsh writes)
    bool closed = true;    // write $End markers
    std::vector<size_t> cuts;  // offsets at which a required entry is about to start (text) or is inside (binary)
    bool at_start = true;
    unsigned nws = 0;
    // counts whose increase always announces more than the section holds; one of them may be replaced
    int target = -1, ncounts = 0;
    u64 count(u64 n, bool last = true) { return last && ncounts++ == target ? more_than(n, ~0ull) : n; }
    int icount(int n, bool last = true) { return last && ncounts++ == target ? (int)more_than((u64)n, 0x7fffffff) : n; }
    u64 more_than(u64 n, u64 top) { unsigned k = pick(4, "more"); return k == 0 ? n + 1 : k == 1 ? 2 * n + 2 : k == 2 ? n + 1000 : sym_range(1 << 22, top, "count"); }
    char wsch() { if (nws++ >= 24 && nws % 5) return "\t\n\v\f\r "[nws % 6]; u8 c = sym_u8("white"); vh_assume(((int)(c == 32) | (int)((u8)(c - 9) < 5)) != 0); return (char)c; }
    void sp() { if (ws == 0) s += ' '; else if (ws == 1) s += wsch(); else if (ws == 2) s += '\t'; else s += " \t\r\n "; }
    void nl() { if (ws == 0) s += '\n'; else if (ws == 1) s += wsch(); else if (ws == 2) s += "\r\n"; else s += "\n\n \n"; at_start = true; }
    void gap() { if (!at_start) sp(); at_start = false; }
    // text tokens
    std::vector<size_t> beg, end;  // numeric tokens
    void text(const std::string& t) { gap(); cuts.push_back(s.size()); beg.push_back(s.size()); s += t; end.push_back(s.size()); }
    void word(const std::string& t) { gap(); s += t; }
    void u(u64 v) { text(std::to_string(v)); }
    void i(int v) { text(std::to_string(v)); }
    void d(double v) { std::ostringstream o; o.precision(17); o << v; text(o.str()); }
    void quoted(const std::string& t) { std::string q = "\""; for (char c : t) { if (c == '"' || c == '\\') q += '\\'; q += c; } q += '"'; gap(); for (size_t k = 0; k < q.size(); k++) cuts.push_back(s.size() + k); s += q; }
    // binary fields
    void raw(const void* p, size_t n) { for (size_t k = 0; k < n; k++) cuts.push_back(s.size() + k); s.append((const char*)p, n); }
    void b_i(int v) { raw(&v, 4); }
    void b_u(u64 v) { raw(&v, 8); }
    void b_d(double v) { raw(&v, 8); }
    // either
    void I(int v) { if (bin) b_i(v); else i(v); }
    void U(u64 v) { if (bin) b_u(v); else u(v); }
    void D(double v) { if (bin) b_d(v); else d(v); }
    void L() { if (!bin) nl(); }
    void open(const char* name) { if (ws == 3) s += " \n"; s += "$"; s += name; at_start = false; if (bin) { s += '\n'; at_start = true; } else nl(); }
    void close(const char* name) { if (bin && nl_after) s += '\n'; if (closed) { s += "$End"; s += name; nl(); } at_start = true; }
    void tclose(const char* name) { if (closed) { s += "$End"; s += name; nl(); } at_start = true; }  // after text
};
static inline void w_header_raw(W& w, const std::string& version, const std::string& type, const std::string& size, const std::string& marker)
{
    w.open("MeshFormat"); w.word(version); w.word(type); w.word(size); if (marker.empty()) w.nl(); else { w.s += '\n'; w.s += marker; w.s += '\n'; } w.at_start = true; w.tclose("MeshFormat");
}
static inline void w_header(W& w)
{
    w_header_raw(w, w.ver == 41 ? "4.1" : "2.2", w.bin ? "1" : "0", "8", w.bin ? std::string("\1\0\0\0", 4) : "");
}
static inline void w_groups(W& w, const std::vector<mshio::PhysicalGroup>& g)
{
    w.open("PhysicalNames"); w.u(w.count(g.size())); w.nl();
    for (auto& x : g) { w.i(x.dim); w.i(x.tag); w.quoted(x.name); w.nl(); }
    w.tclose("PhysicalNames");
}
static inline void w_ints(W& w, const std::vector<int>& v, bool last = false) { w.U(w.count(v.size(), last)); for (int x : v) w.I(x); }
template <class E> static inline void w_box(W& w, const E& e) { w.I(e.tag); w.D(e.min_x); w.D(e.min_y); w.D(e.min_z); w.D(e.max_x); w.D(e.max_y); w.D(e.max_z); w_ints(w, e.physical_group_tags); }
static inline void w_entities(W& w, const mshio::Entities& e)
{
    w.open("Entities"); w.U(e.points.size()); w.U(e.curves.size()); w.U(e.surfaces.size()); w.U(w.count(e.volumes.size())); w.L();
    for (auto& x : e.points) { w.I(x.tag); w.D(x.x); w.D(x.y); w.D(x.z); w_ints(w, x.physical_group_tags); w.L(); }
    for (auto& x : e.curves) { w_box(w, x); w_ints(w, x.boundary_point_tags, &x == &e.curves.back() && e.surfaces.empty() && e.volumes.empty()); w.L(); }
    for (auto& x : e.surfaces) { w_box(w, x); w_ints(w, x.boundary_curve_tags); w.L(); }
    for (auto& x : e.volumes) { w_box(w, x); w_ints(w, x.boundary_surface_tags, &x == &e.volumes.back()); w.L(); }
    w.close("Entities");
}
static inline void w_nodes41(W& w, const mshio::Nodes& n)
{
    w.open("Nodes"); w.U(w.count(n.entity_blocks.size())); w.U(n.num_nodes); w.U(n.min_node_tag); w.U(n.max_node_tag); w.L();
    for (auto& b : n.entity_blocks) {
        w.I(b.entity_dim); w.I(b.entity_tag); w.I(b.parametric); w.U(w.count(b.tags.size(), &b == &n.entity_blocks.back())); w.L();
        for (u64 t : b.tags) { w.U(t); w.L(); }
        size_t k = b.tags.empty() ? 1 : b.data.size() / b.tags.size(), j = 0;
        for (double d : b.data) { w.D(d); if (++j % k == 0) w.L(); }
    }
    w.close("Nodes");
}
static inline void w_elements41(W& w, const mshio::Elements& n)
{
    w.open("Elements"); w.U(w.count(n.entity_blocks.size())); w.U(n.num_elements); w.U(n.min_element_tag); w.U(n.max_element_tag); w.L();
    for (auto& b : n.entity_blocks) {
        w.I(b.entity_dim); w.I(b.entity_tag); w.I(b.element_type); w.U(w.count(b.num_elements_in_block, &b == &n.entity_blocks.back())); w.L();
        size_t k = (size_t)T_NODES[b.element_type] + 1, j = 0;
        for (u64 t : b.data) { w.U(t); if (++j % k == 0) w.L(); }
    }
    w.close("Elements");
}
static inline void w_nodes22(W& w, const std::vector<N22>& n)
{
    w.open("Nodes"); w.u(w.count(n.size())); if (w.bin) { w.s += '\n'; } else w.nl();
    for (auto& x : n) { w.I(x.tag); w.D(x.x); w.D(x.y); w.D(x.z); w.L(); }
    w.at_start = true; w.close("Nodes");
}
// runs[i] = elements per header in binary files (consecutive elements of one type with one number of tags)
static inline void w_elements22(W& w, const std::vector<E22>& n, const std::vector<unsigned>& runs)
{
    w.open("Elements"); w.u(w.count(n.size())); if (w.bin) { w.s += '\n'; } else w.nl();
    if (!w.bin) for (auto& e : n) { w.i(e.id); w.i(e.type); w.u(w.count(e.tags.size(), &e == &n.back())); for (int t : e.tags) w.i(t); for (int t : e.nodes) w.i(t); w.nl(); }
    else {
        size_t k = 0;
        for (unsigned r : runs) {
            w.b_i(n[k].type); w.b_i(w.icount((int)r, k + r == n.size())); w.b_i(w.icount((int)n[k].tags.size(), k + r == n.size()));
            for (unsigned j = 0; j < r; j++, k++) { w.b_i(n[k].id); for (int t : n[k].tags) w.b_i(t); for (int t : n[k].nodes) w.b_i(t); }
        }
    }
    w.at_start = true; w.close("Elements");
}
static const char* const KIND[3] = {"NodeData", "ElementData", "ElementNodeData"};
static inline void w_view(W& w, int kind, const mshio::Data& d)
{
    w.open(KIND[kind]);
    w.u(d.header.string_tags.size()); w.nl(); for (auto& t : d.header.string_tags) { w.quoted(t); w.nl(); }
    w.u(d.header.real_tags.size()); w.nl(); for (double t : d.header.real_tags) { w.d(t); w.nl(); }
    w.u(d.header.int_tags.size()); w.nl(); for (size_t k = 0; k < d.header.int_tags.size(); k++) { w.i(w.icount(d.header.int_tags[k], k == 2 || (k == 1 && kind != 2))); if (w.bin && k + 1 == d.header.int_tags.size()) { w.s += '\n'; w.at_start = true; } else w.nl(); }
    for (auto& e : d.entries) {
        if (w.bin) w.b_i((int)e.tag); else w.u(e.tag);
        if (kind == 2) w.I(w.icount(e.num_nodes_per_element, &e == &d.entries.back()));
        for (double x : e.data) w.D(x);
        w.L();
    }
    w.close(KIND[kind]);
}
static inline void w_curves(W& w, const std::vector<mshio::Curve>& c)
{
    w.open("Curves"); w.u(w.count(c.size())); w.nl();
    for (auto& x : c) { w.u(x.curve_tag); w.u(x.curve_type); w.u(x.curve_degree); w.u(w.count(x.num_control_points, &x == &c.back())); w.u(w.count(x.num_knots, &x == &c.back())); w.u(x.with_weights); if (w.bin) { w.s += '\n'; w.at_start = true; } else w.nl(); for (double d : x.data) w.D(d); w.L(); }
    w.close("Curves");
}
static inline void w_patches(W& w, const std::vector<mshio::Patch>& c)
{
    w.open("Patches"); w.u(w.count(c.size())); w.nl();
    for (auto& x : c) { w.u(x.patch_tag); w.u(x.patch_type); w.u(x.degree_u); w.u(x.degree_v); w.u(w.count(x.num_control_points, &x == &c.back())); w.u(w.count(x.num_u_knots, &x == &c.back())); w.u(w.count(x.num_v_knots, &x == &c.back())); w.u(x.with_weights); if (w.bin) { w.s += '\n'; w.at_start = true; } else w.nl(); for (double d : x.data) w.D(d); w.L(); }
    w.close("Patches");
}
static inline void w_format(W& w, const std::string& v) { w.open("NanoSplineFormat"); w.word(v); w.nl(); w.tclose("NanoSplineFormat"); }
// a whole 4.1 file in the usual order
static inline void w_spec41(W& w, const MshSpec& s)
{
    w_header(w);
    if (!s.physical_groups.empty()) w_groups(w, s.physical_groups);
    if (!s.entities.empty()) w_entities(w, s.entities);
    if (!s.nodes.entity_blocks.empty()) w_nodes41(w, s.nodes);
    if (!s.elements.entity_blocks.empty()) w_elements41(w, s.elements);
    for (auto& d : s.node_data) w_view(w, 0, d);
    for (auto& d : s.element_data) w_view(w, 1, d);
    for (auto& d : s.element_node_data) w_view(w, 2, d);
}

// ------------------------------------------------------------------ reader
// Throws std::string on anything the layout does not allow.
struct R {
    const std::string& s; size_t p = 0; bool bin = false; int ver = 0;
    explicit R(const std::string& b) : s(b) {}
    static bool sp(char c) { return ((int)(c == 32) | (int)((u8)(c - 9) < 5)) != 0; }
    void fail(const char* m) { throw std::string(m); }
    void skip() { while (p < s.size() && sp(s[p])) p++; }
    std::string word() { skip(); size_t b = p; while (p < s.size() && !sp(s[p])) p++; if (b == p) fail("missing field"); return s.substr(b, p - b); }
    void line() { if (p < s.size() && s[p] == '\n') p++; else fail("binary data must follow a line break"); }
    u64 u() { std::string t = word(); if (t[0] == '-') fail("negative count or tag"); char* e = nullptr; u64 v = strtoull(t.c_str(), &e, 10); if (*e) fail("not an unsigned number"); return v; }
    int i() { std::string t = word(); char* e = nullptr; long v = strtol(t.c_str(), &e, 10); if (*e) fail("not a number"); return (int)v; }
    double d() { std::string t = word(); char* e = nullptr; double v = strtod(t.c_str(), &e); if (*e) fail("not a real number"); return v; }
    void raw(void* q, size_t n) { if (s.size() - p < n) fail("binary data too short"); memcpy(q, s.data() + p, n); p += n; }
    int I() { if (!bin) return i(); int v; raw(&v, 4); return v; }
    u64 U() { if (!bin) return u(); u64 v; raw(&v, 8); return v; }
    double D() { if (!bin) return d(); double v; raw(&v, 8); return v; }
    std::string quoted() { skip(); std::string r; if (p >= s.size() || s[p] != '"') fail("missing quote"); p++; for (;;) { if (p >= s.size()) fail("unterminated string"); char c = s[p++]; if (c == '"') return r; r += c; } }
    void bounded(u64 n) { if (n > 100000) fail("implausible count"); }
};
struct File { MshSpec s; std::vector<N22> n22; std::vector<E22> e22; int seen_nodes = 0, seen_elements = 0, seen_entities = 0, seen_groups = 0, sections = 0; };
static inline std::vector<int> r_ints(R& r) { u64 n = r.U(); r.bounded(n); std::vector<int> v; for (u64 k = 0; k < n; k++) v.push_back(r.I()); return v; }
template <class E> static inline E r_box(R& r) { E e; e.tag = r.I(); e.min_x = r.D(); e.min_y = r.D(); e.min_z = r.D(); e.max_x = r.D(); e.max_y = r.D(); e.max_z = r.D(); e.physical_group_tags = r_ints(r); return e; }
static inline void r_section(R& r, File& f, const std::string& name)
{
    MshSpec& s = f.s;
    if (name == "MeshFormat") {
        s.mesh_format.version = r.word(); s.mesh_format.file_type = r.i(); s.mesh_format.data_size = r.i();
        r.bin = s.mesh_format.file_type == 1; r.ver = s.mesh_format.version == "4.1" ? 41 : s.mesh_format.version == "2.2" ? 22 : 0;
        if (r.bin) { r.line(); int one; r.raw(&one, 4); if (one != 1) r.fail("byte order marker"); }
    } else if (name == "PhysicalNames") {
        f.seen_groups++; u64 n = r.u(); r.bounded(n);
        for (u64 k = 0; k < n; k++) { mshio::PhysicalGroup g; g.dim = r.i(); g.tag = r.i(); g.name = r.quoted(); s.physical_groups.push_back(g); }
    } else if (name == "Entities") {
        if (r.ver != 41) r.fail("entities in an MSH 2.2 file");
        f.seen_entities++; if (r.bin) r.line();
        u64 a = r.U(), b = r.U(), c = r.U(), d = r.U(); r.bounded(a); r.bounded(b); r.bounded(c); r.bounded(d);
        for (u64 k = 0; k < a; k++) { mshio::PointEntity e; e.tag = r.I(); e.x = r.D(); e.y = r.D(); e.z = r.D(); e.physical_group_tags = r_ints(r); s.entities.points.push_back(e); }
        for (u64 k = 0; k < b; k++) { auto e = r_box<mshio::CurveEntity>(r); e.boundary_point_tags = r_ints(r); s.entities.curves.push_back(e); }
        for (u64 k = 0; k < c; k++) { auto e = r_box<mshio::SurfaceEntity>(r); e.boundary_curve_tags = r_ints(r); s.entities.surfaces.push_back(e); }
        for (u64 k = 0; k < d; k++) { auto e = r_box<mshio::VolumeEntity>(r); e.boundary_surface_tags = r_ints(r); s.entities.volumes.push_back(e); }
    } else if (name == "Nodes") {
        f.seen_nodes++;
        if (r.ver == 41) {
            if (r.bin) r.line();
            auto& n = s.nodes; n.num_entity_blocks = r.U(); n.num_nodes = r.U(); n.min_node_tag = r.U(); n.max_node_tag = r.U(); r.bounded(n.num_entity_blocks);
            for (u64 k = 0; k < n.num_entity_blocks; k++) {
                mshio::NodeBlock b; b.entity_dim = r.I(); b.entity_tag = r.I(); b.parametric = r.I(); b.num_nodes_in_block = r.U(); r.bounded(b.num_nodes_in_block);
                for (u64 j = 0; j < b.num_nodes_in_block; j++) b.tags.push_back(r.U());
                u64 m = b.num_nodes_in_block * (3 + (b.parametric == 1 ? (u64)b.entity_dim : 0));
                for (u64 j = 0; j < m; j++) b.data.push_back(r.D());
                n.entity_blocks.push_back(b);
            }
        } else {
            u64 n = r.u(); r.bounded(n); if (r.bin) r.line();
            for (u64 k = 0; k < n; k++) { N22 x; x.tag = r.I(); x.x = r.D(); x.y = r.D(); x.z = r.D(); f.n22.push_back(x); }
        }
    } else if (name == "Elements") {
        f.seen_elements++;
        if (r.ver == 41) {
            if (r.bin) r.line();
            auto& n = s.elements; n.num_entity_blocks = r.U(); n.num_elements = r.U(); n.min_element_tag = r.U(); n.max_element_tag = r.U(); r.bounded(n.num_entity_blocks);
            for (u64 k = 0; k < n.num_entity_blocks; k++) {
                mshio::ElementBlock b; b.entity_dim = r.I(); b.entity_tag = r.I(); b.element_type = r.I(); b.num_elements_in_block = r.U(); r.bounded(b.num_elements_in_block);
                if (b.element_type < 1 || b.element_type > NTYPES) r.fail("element type");
                u64 m = b.num_elements_in_block * (1 + (u64)T_NODES[b.element_type]);
                for (u64 j = 0; j < m; j++) b.data.push_back(r.U());
                n.entity_blocks.push_back(b);
            }
        } else {
            u64 n = r.u(); r.bounded(n); if (r.bin) r.line();
            while (f.e22.size() < n) {
                E22 e; u64 run = 1, nt;
                if (r.bin) { e.type = r.I(); run = (u64)(u32)r.I(); nt = (u64)(u32)r.I(); r.bounded(run); if (run == 0) r.fail("empty element run"); }
                else { e.id = r.i(); e.type = r.i(); nt = r.u(); }
                r.bounded(nt);
                if (e.type < 1 || e.type > NTYPES) r.fail("element type");
                for (u64 k = 0; k < run; k++) {
                    if (r.bin) e.id = r.I();
                    e.tags.clear(); e.nodes.clear();
                    for (u64 j = 0; j < nt; j++) e.tags.push_back(r.I());
                    for (int j = 0; j < T_NODES[e.type]; j++) e.nodes.push_back(r.I());
                    f.e22.push_back(e);
                }
            }
            if (f.e22.size() != n) r.fail("element count");
        }
    } else if (name == "NodeData" || name == "ElementData" || name == "ElementNodeData") {
        mshio::Data d; bool en = name == "ElementNodeData";
        u64 n = r.u(); r.bounded(n); for (u64 k = 0; k < n; k++) d.header.string_tags.push_back(r.quoted());
        n = r.u(); r.bounded(n); for (u64 k = 0; k < n; k++) d.header.real_tags.push_back(r.d());
        n = r.u(); r.bounded(n); for (u64 k = 0; k < n; k++) d.header.int_tags.push_back(r.i());
        if (n < 3) r.fail("integer tags");
        if (r.bin) r.line();
        int fields = d.header.int_tags[1], entries = d.header.int_tags[2]; r.bounded((u64)(u32)fields); r.bounded((u64)(u32)entries);
        for (int k = 0; k < entries; k++) {
            mshio::DataEntry e; e.tag = r.bin ? (u64)(u32)r.I() : r.u(); u64 m = (u64)fields;
            if (en) { e.num_nodes_per_element = r.I(); r.bounded((u64)(u32)e.num_nodes_per_element); m *= (u64)e.num_nodes_per_element; }
            for (u64 j = 0; j < m; j++) e.data.push_back(r.D());
            d.entries.push_back(e);
        }
        (en ? s.element_node_data : name == "NodeData" ? s.node_data : s.element_data).push_back(d);
    } else r.fail("unknown section");
}
static inline File r_file(const std::string& b)
{
    File f; R r(b);
    r.skip();
    while (r.p < b.size()) {
        if (b[r.p] != '$') r.fail("text outside of sections");
        r.p++; std::string name = r.word();
        if (f.sections == 0 && name != "MeshFormat") r.fail("the header must come first");
        f.sections++;
        r_section(r, f, name);
        r.skip();
        if (r.word() != "$End" + name) r.fail("section not closed");
        r.skip();
    }
    return f;
}
// "" or what is wrong
static inline std::string r_try(const std::string& b, File& f) { try { f = r_file(b); return ""; } catch (const std::string& m) { return m; } }
