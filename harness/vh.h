// Harness library.  The same harness source runs in two ways:
//  * as LLVM IR in the symbolic executor (engine/symex.cpp), where vh_sym introduces symbolic bytes;
//  * compiled natively with g++ (-DVH_NATIVE, see vh_native.cpp), where vh_sym reads recorded inputs
//    so that solver counterexamples and sampled paths are replayed against the real library.
#pragma once
#include <mshio/mshio.h>
#include <mshio/exception.h>
#include <cstdint>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
extern "C" {
void vh_sym(void*, size_t, const char*);
void vh_assume(bool);
void vh_assert(bool, const char*);
void vh_reach(const char*);
void vh_observe(u64);
u64 vh_concretize(u64);
void vh_fail(const char*);
int vh_symbolic_mode();
// file system of the model (scratch directory when native)
void vm_fs_put(const char*, const char*, size_t);
int vm_fs_has(const char*);
size_t vm_fs_get(const char*, const char**);
void vm_fs_limit(u64);
void vm_hash(int real);  // real hash tables (no symbolic keys)
int vm_fs_open_handles();
size_t vm_norm(const char*, size_t, char*);
}
#ifdef VH_NATIVE
struct VhReg { VhReg(const char*, void (*)(int)); };
#define VH_ENTRY(n) extern "C" void n(int); static VhReg vhreg_##n(#n, n); extern "C" void n(int cfg)
#else
#define VH_ENTRY(n) extern "C" void n([[maybe_unused]] int cfg)
#endif
using mshio::MshSpec;

// ------------------------------------------------------------------ symbolic values
static inline u64 sym_u64(const char* n) { u64 v; vh_sym(&v, 8, n); return v; }
static inline u32 sym_u32(const char* n) { u32 v; vh_sym(&v, 4, n); return v; }
static inline int sym_int(const char* n) { int v; vh_sym(&v, 4, n); return v; }
static inline u8 sym_u8(const char* n) { u8 v; vh_sym(&v, 1, n); return v; }
static inline char sym_char(const char* n) { char v; vh_sym(&v, 1, n); return v; }
static inline u64 sym_range(u64 lo, u64 hi, const char* n) { u64 v = sym_u64(n); vh_assume((int)(v >= lo) & (int)(v <= hi)); return v; }
static inline int sym_irange(int lo, int hi, const char* n) { int v = sym_int(n); vh_assume((int)(v >= lo) & (int)(v <= hi)); return v; }
// one of 0..n-1, each explored as its own path
static inline unsigned pick(unsigned n, const char* name) { if (n <= 1) return 0; u8 v = sym_u8(name); vh_assume(v < n); return (unsigned)vh_concretize(v); }
static inline double from_bits(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 to_bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
// any finite double
static inline double sym_fin(const char* n) { u64 b = sym_u64(n); vh_assume(((b >> 52) & 0x7ff) != 0x7ff); return from_bits(b); }
static inline double sym_any_double(const char* n) { return from_bits(sym_u64(n)); }
static inline std::string sym_str(unsigned len, const char* n) { std::string s; for (unsigned i = 0; i < len; i++) s.push_back(sym_char(n)); return s; }

// ------------------------------------------------------------------ non-branching comparison
// A Diff accumulates differences; 0 means equal.
static inline u64 dif(u64 a, u64 b) { return a ^ b; }
static inline u64 difd(double a, double b) { return to_bits(a) ^ to_bits(b); }
static inline u64 difi(int a, int b) { return (u32)a ^ (u32)b; }
static inline u64 difv(const std::vector<size_t>& a, const std::vector<size_t>& b) { if (a.size() != b.size()) return 1; u64 r = 0; for (size_t i = 0; i < a.size(); i++) r |= a[i] ^ b[i]; return r; }
static inline u64 difv(const std::vector<int>& a, const std::vector<int>& b) { if (a.size() != b.size()) return 1; u64 r = 0; for (size_t i = 0; i < a.size(); i++) r |= difi(a[i], b[i]); return r; }
static inline u64 difv(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return 1; u64 r = 0; for (size_t i = 0; i < a.size(); i++) r |= difd(a[i], b[i]); return r; }
static inline u64 difs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 1; u64 r = 0; for (size_t i = 0; i < a.size(); i++) r |= (u8)((u8)a[i] ^ (u8)b[i]); return r; }
static inline u64 difsv(const std::vector<std::string>& a, const std::vector<std::string>& b) { if (a.size() != b.size()) return 1; u64 r = 0; for (size_t i = 0; i < a.size(); i++) r |= difs(a[i], b[i]); return r; }

static inline u64 d_nodes(const mshio::Nodes& a, const mshio::Nodes& b)
{
    if (a.entity_blocks.size() != b.entity_blocks.size()) return 1;
    u64 r = dif(a.num_entity_blocks, b.num_entity_blocks) | dif(a.num_nodes, b.num_nodes) | dif(a.min_node_tag, b.min_node_tag) | dif(a.max_node_tag, b.max_node_tag);
    for (size_t i = 0; i < a.entity_blocks.size(); i++) {
        const auto &x = a.entity_blocks[i], &y = b.entity_blocks[i];
        r |= difi(x.entity_dim, y.entity_dim) | difi(x.entity_tag, y.entity_tag) | difi(x.parametric, y.parametric) | dif(x.num_nodes_in_block, y.num_nodes_in_block) | difv(x.tags, y.tags) | difv(x.data, y.data);
    }
    return r;
}
static inline u64 d_elements(const mshio::Elements& a, const mshio::Elements& b)
{
    if (a.entity_blocks.size() != b.entity_blocks.size()) return 1;
    u64 r = dif(a.num_entity_blocks, b.num_entity_blocks) | dif(a.num_elements, b.num_elements) | dif(a.min_element_tag, b.min_element_tag) | dif(a.max_element_tag, b.max_element_tag);
    for (size_t i = 0; i < a.entity_blocks.size(); i++) {
        const auto &x = a.entity_blocks[i], &y = b.entity_blocks[i];
        r |= difi(x.entity_dim, y.entity_dim) | difi(x.entity_tag, y.entity_tag) | difi(x.element_type, y.element_type) | dif(x.num_elements_in_block, y.num_elements_in_block) | difv(x.data, y.data);
    }
    return r;
}
template <class E> static inline u64 d_box(const E& a, const E& b)
{
    return difi(a.tag, b.tag) | difd(a.min_x, b.min_x) | difd(a.min_y, b.min_y) | difd(a.min_z, b.min_z) | difd(a.max_x, b.max_x) | difd(a.max_y, b.max_y) | difd(a.max_z, b.max_z) | difv(a.physical_group_tags, b.physical_group_tags);
}
static inline u64 d_entities(const mshio::Entities& a, const mshio::Entities& b)
{
    if (a.points.size() != b.points.size() || a.curves.size() != b.curves.size() || a.surfaces.size() != b.surfaces.size() || a.volumes.size() != b.volumes.size()) return 1;
    u64 r = 0;
    for (size_t i = 0; i < a.points.size(); i++) { const auto &x = a.points[i], &y = b.points[i]; r |= difi(x.tag, y.tag) | difd(x.x, y.x) | difd(x.y, y.y) | difd(x.z, y.z) | difv(x.physical_group_tags, y.physical_group_tags); }
    for (size_t i = 0; i < a.curves.size(); i++) r |= d_box(a.curves[i], b.curves[i]) | difv(a.curves[i].boundary_point_tags, b.curves[i].boundary_point_tags);
    for (size_t i = 0; i < a.surfaces.size(); i++) r |= d_box(a.surfaces[i], b.surfaces[i]) | difv(a.surfaces[i].boundary_curve_tags, b.surfaces[i].boundary_curve_tags);
    for (size_t i = 0; i < a.volumes.size(); i++) r |= d_box(a.volumes[i], b.volumes[i]) | difv(a.volumes[i].boundary_surface_tags, b.volumes[i].boundary_surface_tags);
    return r;
}
static inline u64 d_groups(const std::vector<mshio::PhysicalGroup>& a, const std::vector<mshio::PhysicalGroup>& b)
{
    if (a.size() != b.size()) return 1;
    u64 r = 0;
    for (size_t i = 0; i < a.size(); i++) r |= difi(a[i].dim, b[i].dim) | difi(a[i].tag, b[i].tag) | difs(a[i].name, b[i].name);
    return r;
}
static inline u64 d_header(const mshio::DataHeader& a, const mshio::DataHeader& b) { return difsv(a.string_tags, b.string_tags) | difv(a.real_tags, b.real_tags) | difv(a.int_tags, b.int_tags); }
static inline u64 d_data(const std::vector<mshio::Data>& a, const std::vector<mshio::Data>& b, bool node_counts)
{
    if (a.size() != b.size()) return 1;
    u64 r = 0;
    for (size_t i = 0; i < a.size(); i++) {
        r |= d_header(a[i].header, b[i].header);
        if (a[i].entries.size() != b[i].entries.size()) return 1;
        for (size_t j = 0; j < a[i].entries.size(); j++) {
            const auto &x = a[i].entries[j], &y = b[i].entries[j];
            r |= dif(x.tag, y.tag) | difv(x.data, y.data);
            if (node_counts) r |= difi(x.num_nodes_per_element, y.num_nodes_per_element);
        }
    }
    return r;
}
static inline u64 d_curves(const std::vector<mshio::Curve>& a, const std::vector<mshio::Curve>& b)
{
    if (a.size() != b.size()) return 1;
    u64 r = 0;
    for (size_t i = 0; i < a.size(); i++) r |= dif(a[i].curve_tag, b[i].curve_tag) | dif(a[i].curve_type, b[i].curve_type) | dif(a[i].curve_degree, b[i].curve_degree) | dif(a[i].num_control_points, b[i].num_control_points) | dif(a[i].num_knots, b[i].num_knots) | dif(a[i].with_weights, b[i].with_weights) | difv(a[i].data, b[i].data);
    return r;
}
static inline u64 d_patches(const std::vector<mshio::Patch>& a, const std::vector<mshio::Patch>& b)
{
    if (a.size() != b.size()) return 1;
    u64 r = 0;
    for (size_t i = 0; i < a.size(); i++) r |= dif(a[i].patch_tag, b[i].patch_tag) | dif(a[i].patch_type, b[i].patch_type) | dif(a[i].degree_u, b[i].degree_u) | dif(a[i].degree_v, b[i].degree_v) | dif(a[i].num_control_points, b[i].num_control_points) | dif(a[i].num_u_knots, b[i].num_u_knots) | dif(a[i].num_v_knots, b[i].num_v_knots) | dif(a[i].with_weights, b[i].with_weights) | difv(a[i].data, b[i].data);
    return r;
}
static inline u64 d_rest(const MshSpec& a, const MshSpec& b)  // everything but nodes, elements, header and extension
{
    return d_entities(a.entities, b.entities) | d_groups(a.physical_groups, b.physical_groups) | d_data(a.node_data, b.node_data, false) | d_data(a.element_data, b.element_data, false) | d_data(a.element_node_data, b.element_node_data, true);
}
static inline u64 d_spec(const MshSpec& a, const MshSpec& b, bool header = true)
{
    u64 r = d_nodes(a.nodes, b.nodes) | d_elements(a.elements, b.elements) | d_rest(a, b) | d_curves(a.curves, b.curves) | d_patches(a.patches, b.patches) | difs(a.nanospline_format.version, b.nanospline_format.version);
    if (header) r |= difs(a.mesh_format.version, b.mesh_format.version) | difi(a.mesh_format.file_type, b.mesh_format.file_type) | difi(a.mesh_format.data_size, b.mesh_format.data_size);
    return r;
}
// A digest of a spec; only used to compare sampled symbolic paths with native runs.
struct Dig {
    u64 h = 0; unsigned k = 0;
    void u(u64 v) { k = k * 7 + 1; unsigned r = 1 + k % 62; h ^= (v << r) ^ (v >> (64 - r)); }  // one rotation per value: cheap for the solver
    void i(int v) { u((u64)(u32)v); }
    void d(double v) { u(to_bits(v)); }
    void c(u64 v) { u(v * 0x9e3779b97f4a7c15ull + 1); }
    void s(const std::string& t) { c(t.size()); for (char x : t) u((u8)x); }
    template <class V> void iv(const V& v) { c(v.size()); for (int x : v) i(x); }
    template <class V> void dv(const V& v) { c(v.size()); for (double x : v) d(x); }
    void uv(const std::vector<size_t>& v) { c(v.size()); for (u64 x : v) u(x); }
};
static inline u64 digest(const MshSpec& s)
{
    Dig g;
    g.u(s.nodes.num_nodes); g.u(s.elements.num_elements); g.u(s.nodes.num_entity_blocks); g.u(s.elements.num_entity_blocks); g.u(s.nodes.min_node_tag); g.u(s.nodes.max_node_tag); g.u(s.elements.min_element_tag); g.u(s.elements.max_element_tag);
    for (const auto& b : s.nodes.entity_blocks) { g.i(b.entity_dim); g.i(b.entity_tag); g.i(b.parametric); g.uv(b.tags); g.dv(b.data); }
    for (const auto& b : s.elements.entity_blocks) { g.i(b.entity_dim); g.i(b.entity_tag); g.i(b.element_type); g.uv(b.data); }
    for (const auto& x : s.physical_groups) { g.i(x.dim); g.i(x.tag); g.s(x.name); }
    g.c(s.entities.points.size()); for (const auto& e : s.entities.points) { g.i(e.tag); g.d(e.x); g.d(e.y); g.d(e.z); g.iv(e.physical_group_tags); }
    g.c(s.entities.curves.size()); for (const auto& e : s.entities.curves) { g.i(e.tag); g.d(e.min_x); g.d(e.max_z); g.iv(e.physical_group_tags); g.iv(e.boundary_point_tags); }
    g.c(s.entities.surfaces.size()); for (const auto& e : s.entities.surfaces) { g.i(e.tag); g.d(e.min_x); g.d(e.max_z); g.iv(e.physical_group_tags); g.iv(e.boundary_curve_tags); }
    g.c(s.entities.volumes.size()); for (const auto& e : s.entities.volumes) { g.i(e.tag); g.d(e.min_x); g.d(e.max_z); g.iv(e.physical_group_tags); g.iv(e.boundary_surface_tags); }
    for (const auto* v : {&s.node_data, &s.element_data, &s.element_node_data}) { g.c(v->size()); for (const auto& d : *v) { for (const auto& t : d.header.string_tags) g.s(t); g.dv(d.header.real_tags); g.iv(d.header.int_tags); for (const auto& e : d.entries) { g.u(e.tag); g.dv(e.data); } } }
    for (const auto& c : s.curves) { g.u(c.curve_tag); g.dv(c.data); }
    for (const auto& c : s.patches) { g.u(c.patch_tag); g.dv(c.data); }
    return g.h;
}
static inline bool eq0(u64 d) { return d == 0; }

// two pieces of saved text hold the same characters (symbolic numbers in a normal form; the identity when native)
static inline std::string norm(const std::string& s) { size_t n = vm_norm(s.data(), s.size(), nullptr); if (n == s.size() && !vh_symbolic_mode()) return s; std::string r(n, ' '); if (n) vm_norm(s.data(), s.size(), &r[0]); return r; }
static inline u64 dift(const std::string& a, const std::string& b) { return difs(norm(a), norm(b)); }

// ------------------------------------------------------------------ calling the library
static inline std::string save_bytes(const MshSpec& s) { std::ostringstream o(std::ios::binary); mshio::save_msh(o, s); return o.str(); }
static inline MshSpec load_bytes(const std::string& b) { std::istringstream i(b, std::ios::binary); return mshio::load_msh(i); }
static inline MshSpec round_trip(const MshSpec& s) { std::stringstream io(std::ios::in | std::ios::out | std::ios::binary); mshio::save_msh(io, s); return mshio::load_msh(io); }
// outcome of loading
enum Outcome { LOADED, INVALID, UNSUPPORTED, CORRUPT, OTHER_STD, OTHER };
static inline Outcome try_load(const std::string& b, MshSpec& s)
{
    try { s = load_bytes(b); return LOADED; }
    catch (const mshio::InvalidFormat&) { return INVALID; }
    catch (const mshio::UnsupportedFeature&) { return UNSUPPORTED; }
    catch (const mshio::CorruptData&) { return CORRUPT; }
    catch (const std::exception&) { return OTHER_STD; }
    catch (...) { return OTHER; }
}
static inline Outcome try_save(const MshSpec& s, std::string& b)
{
    try { b = save_bytes(s); return LOADED; }
    catch (const mshio::InvalidFormat&) { return INVALID; }
    catch (const mshio::UnsupportedFeature&) { return UNSUPPORTED; }
    catch (const mshio::CorruptData&) { return CORRUPT; }
    catch (const std::exception&) { return OTHER_STD; }
    catch (...) { return OTHER; }
}
