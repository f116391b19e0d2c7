// C15: the overloads that take a file name.
#include "sections.h"
#include <stdexcept>
static Outcome load_file(const std::string& name, MshSpec& s, bool& runtime)
{
    runtime = false;
    try { s = mshio::load_msh(name); return LOADED; }
    catch (const mshio::InvalidFormat&) { return INVALID; }
    catch (const mshio::UnsupportedFeature&) { return UNSUPPORTED; }
    catch (const mshio::CorruptData&) { return CORRUPT; }
    catch (const std::runtime_error&) { runtime = true; return OTHER_STD; }
    catch (const std::exception&) { return OTHER_STD; }
    catch (...) { return OTHER; }
}
static Outcome save_file(const std::string& name, const MshSpec& s, bool& runtime)
{
    runtime = false;
    try { mshio::save_msh(name, s); return LOADED; }
    catch (const mshio::InvalidFormat&) { return INVALID; }
    catch (const mshio::UnsupportedFeature&) { return UNSUPPORTED; }
    catch (const mshio::CorruptData&) { return CORRUPT; }
    catch (const std::runtime_error&) { runtime = true; return OTHER_STD; }
    catch (const std::exception&) { return OTHER_STD; }
    catch (...) { return OTHER; }
}
static std::string content(const char* name) { const char* p = nullptr; size_t n = vm_fs_get(name, &p); return std::string(p, n); }
static MshSpec full(int cfg)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1);
    s.physical_groups = {mk_group("a \n\r\n\"b"), mk_group("")};
    if (!(cfg & 2)) {
        s.entities.points = {mk_point(1)}; s.entities.volumes = {mk_volume(1, 2)};
        Range nr = {0, TAG41}, er = {0, TAG41}; s.nodes.min_node_tag = s.elements.min_element_tag = 0; s.nodes.max_node_tag = s.elements.max_element_tag = TAG41;
        add_nodes(s, nr, 2, 1, 2); add_elements(s, er, nr, 2, 2);
    } else { tiny_nodes(s); tiny_elements(s); s.nodes.entity_blocks[0].data[1] = sym_fin("x"); s.elements.entity_blocks[0].entity_tag = sym_int("entity"); }
    s.node_data = {mk_view({"n"}, 1, 3, 1, 2, {})}; s.element_node_data = {mk_view({"x"}, 0, 3, 1, 1, {2})};
    return s;
}
static const char* const FILES[4] = {"a.msh", "with space.msh", "noextension", "./dir.msh"};
// saving to a file: same bytes as the stream, whatever the file held before; then loading it
VH_ENTRY(c15_save)
{
    MshSpec s = full(cfg); std::string want = save_bytes(s), name = FILES[pick(4, "name")];
    unsigned before = pick(8, "before");
    if (before == 1) vm_fs_put(name.c_str(), "old", 3);
    if (before == 2) { std::string old = want + std::string(400, 'x'); vm_fs_put(name.c_str(), old.data(), old.size()); }
    if (before > 2) {  // as long as the new content, or nearly the same
        std::string old = before == 3 ? std::string(want.size(), 'y') : want;
        if (before == 4) old[old.size() / 2] ^= 1;
        if (before == 5) old.back() ^= 1;
        if (before == 6) old.resize(old.size() / 2);
        if (before == 7) { MshSpec u = full(cfg); old = save_bytes(u); }
        vm_fs_put(name.c_str(), old.data(), old.size());
    }
    bool rt; Outcome o = save_file(name, s, rt);
    vh_reach("tried");
    vh_assert(o == LOADED, "a spec could not be saved to a file");
    vh_assert(vm_fs_open_handles() == 0, "the output file is left open");
    vh_assert(eq0(dift(want, content(name.c_str()))), "the saved file differs from what the stream overload writes");
    MshSpec a, b; Outcome p = load_file(name, a, rt), q = try_load(want, b);
    vh_assert(p == LOADED && q == LOADED && eq0(d_spec(a, b)), "loading the file differs from loading the same bytes from a stream");
    vh_assert(vm_fs_open_handles() == 0, "the input file is left open");
    vh_assert(eq0(dift(want, content(name.c_str()))), "loading changed the file");
    vh_observe(digest(a));
}
// several files one after the other
VH_ENTRY(c15_two)
{
    MshSpec s = full(cfg & 3), t; fmt(t, (cfg & 4) ? "4.1" : "2.2", (cfg >> 1) & 1); tiny_nodes(t); bool rt;
    Outcome o1 = save_file("one.msh", s, rt), o2 = save_file("two.msh", t, rt), o3 = save_file("one.msh", t, rt), o4 = save_file("two.msh", s, rt);
    vh_reach("tried");
    vh_assert(o1 == LOADED && o2 == LOADED && o3 == LOADED && o4 == LOADED, "a spec could not be saved to a file");
    vh_assert(eq0(dift(save_bytes(t), content("one.msh")) | dift(save_bytes(s), content("two.msh"))), "the saved file differs from what the stream overload writes");
    vh_assert(!vm_fs_has("tmp") && vm_fs_open_handles() == 0, "stray files");
}
// loading any bytes from a file gives what the stream gives
static void same(const std::string& bytes)
{
    vm_fs_put("in.msh", bytes.data(), bytes.size());
    MshSpec a, b; bool rt; Outcome p = load_file("in.msh", a, rt), q = try_load(bytes, b);
    vh_reach("tried");
    vh_assert(p == q, "loading from a file fails differently than from a stream");
    vh_assert(p != LOADED || eq0(d_spec(a, b)), "loading the file differs from loading the same bytes from a stream");
    vh_assert(vm_fs_open_handles() == 0, "the input file is left open");
    vh_observe(p);
}
VH_ENTRY(c15_bytes)
{
    static const char* const pre[6] = {"", "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Nodes\r\n1 1 1 1\r\n0 1 0 1\r\n1\r\n0 0 0\r\n$EndNodes\r\n", "$PhysicalNames\n1 1 1 \"", "$", "$MeshFormat\n", "$Comments\n\x1a \xff\xfe\n$EndComments\n"};
    std::string b = pre[cfg % 6]; unsigned n = 1 + pick(cfg == 4 ? 2 : 4, "length"); for (unsigned i = 0; i < n; i++) b += sym_char("byte");
    if (cfg >= 6) b += "\"\n$EndPhysicalNames\n";
    same(b);
}
// any bytes in front of, inside and behind a whole file; cfg bits 0-1 format, the rest the place
VH_ENTRY(c15_around)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); tiny_nodes(s); tiny_elements(s); s.physical_groups = {mk_group("g")};
    std::string b = save_bytes(s), x; unsigned n = 1 + pick(3, "length"), place = (unsigned)cfg >> 2; for (unsigned i = 0; i < n; i++) x += sym_char("byte");
    size_t at = place == 0 || place == 3 ? 0 : place == 1 ? b.size() : b.find("$Nodes"); if (place == 3) x += "\n";
    same(b.substr(0, at) + x + b.substr(at));
}
VH_ENTRY(c15_cut)
{
    W w = begin(cfg); section(w, cfg >> 2);
    unsigned k = pick(9, "cut"); size_t c = k == 8 ? w.s.size() : w.cuts[w.cuts.size() * k / 8];
    same(w.s.substr(0, c));
}
VH_ENTRY(c15_large)  // more than one buffer
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); mshio::NodeBlock b; b.entity_dim = 0; b.entity_tag = 0; unsigned n = 700; b.num_nodes_in_block = n;
    for (unsigned i = 1; i <= n; i++) { b.tags.push_back(i); b.data.push_back(0.1 * i); b.data.push_back(1.0 / i); b.data.push_back(i); }
    for (unsigned k : {0u, 255u, 256u, 400u, 699u}) b.data[3 * k] = sym_fin("x");
    s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = n; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = n;
    std::string want = save_bytes(s); bool rt; Outcome o = save_file("big.msh", s, rt);
    vh_reach("tried");
    vh_assert(o == LOADED && eq0(dift(want, content("big.msh"))), "the saved file differs from what the stream overload writes");
    MshSpec r; Outcome p = load_file("big.msh", r, rt);
    vh_assert(p == LOADED && eq0(difv(r.nodes.entity_blocks[0].data, b.data) | difv(r.nodes.entity_blocks[0].tags, b.tags)), "a large file changed");
    std::string cut = want.substr(0, want.size() * pick(4, "part") / 4); vm_fs_put("cut.msh", cut.data(), cut.size());
    if (cfg & 1) { p = load_file("cut.msh", r, rt); MshSpec q; vh_assert(p == try_load(cut, q), "a truncated file fails differently"); }
}
// files that cannot be opened
VH_ENTRY(c15_open)
{
    static const char* const in[4] = {"missing.msh", "", "/nonexistent/a.msh", "missing dir/a.msh"};
    static const char* const out[3] = {"/nonexistent/a.msh", "", "/nonexistent/b/c"};
    bool rt; MshSpec r, s = full(cfg); unsigned k = pick(4, "in"), l = pick(3, "out"); vm_fs_put("there.msh", "$", 1);
    Outcome p = load_file(in[k], r, rt);
    vh_reach("tried");
    vh_assert(p == OTHER_STD && rt, "loading a file that cannot be opened did not throw std::runtime_error");
    vh_assert(!vm_fs_has("missing.msh"), "loading created a file");
    Outcome o = save_file(out[l], s, rt);
    vh_assert(o == OTHER_STD && rt, "saving to a file that cannot be opened did not throw std::runtime_error");
    MshSpec t; Outcome q = load_file("there.msh", t, rt); vh_assert(q == LOADED, "an earlier failure affects later files");
    vh_observe(p);
}
// a device that takes only so many bytes
static void limited(const MshSpec& s, const std::string& want, u64 limit)
{
    unsigned before = pick(2, "before"); if (before) vm_fs_put("out.msh", "previous", 8);
    vm_fs_limit(limit); bool rt; Outcome o = save_file("out.msh", s, rt); vm_fs_limit(~0ull);
    vh_reach("tried");
    if (limit < want.size()) vh_assert(o == OTHER_STD && rt, "an incomplete file was not reported with std::runtime_error");
    else { vh_assert(o == LOADED, "a complete file was reported as incomplete"); vh_assert(eq0(dift(want, content("out.msh"))), "the saved file differs from what the stream overload writes"); }
    vh_assert(vm_fs_open_handles() == 0, "the output file is left open");
}
VH_ENTRY(c15_limit)
{
    MshSpec s; 
    if (cfg & 1) s = full(cfg);  // binary: every byte
    else { fmt(s, (cfg & 2) ? "2.2" : "4.1", 0); tiny_nodes(s); tiny_elements(s); }
    std::string want = save_bytes(s);
    limited(s, want, pick_many(want.size() + 2, "limit"));
}
VH_ENTRY(c15_limit_text) { MshSpec s = full(cfg); std::string want = save_bytes(s); limited(s, want, (want.size() + 1) * pick(40, "part") / 39); }
VH_ENTRY(c15_limit_large)
{
    MshSpec s; fmt(s, "4.1", cfg & 1); mshio::NodeBlock b; unsigned n = 900; b.num_nodes_in_block = n; b.entity_tag = sym_int("entity");
    for (unsigned i = 1; i <= n; i++) { b.tags.push_back(i); b.data.push_back(0.5 * i); b.data.push_back(i); b.data.push_back(0); }
    s.nodes.entity_blocks = {b}; s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = n; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = n;
    std::string want = save_bytes(s);
    static const int at[12] = {0, 1, 8190, 8191, 8192, 16382, 16383, -8192, -8191, -2, -1, 0}; unsigned k = pick(12, "limit");
    limited(s, want, k == 11 ? want.size() : at[k] >= 0 ? (u64)at[k] : want.size() + (u64)(int64_t)at[k]);
}
// errors of the stream overload come through
VH_ENTRY(c15_errors)
{
    MshSpec s = full(cfg); bool rt; unsigned k = pick(3, "what");
    if (k == 0) s.mesh_format.version = "3.0"; else if (k == 1) s.elements.entity_blocks[0].element_type = 77; else s.mesh_format.version = "";
    std::string b; Outcome o = save_file("e.msh", s, rt), p = try_save(s, b);
    vh_reach("tried");
    vh_assert(o == p && p == UNSUPPORTED, "an error of saving is not reported for files");
    vh_assert(vm_fs_open_handles() == 0, "the output file is left open");
}
// many of everything, through files
VH_ENTRY(c15_big)
{
    MshSpec s = big(cfg, BIG_N[pick(4, "size")]), a, b; bool rt; std::string want = save_bytes(s); Outcome o = save_file("big.msh", s, rt); vh_reach("tried");
    vh_assert(o == LOADED && eq0(dift(want, content("big.msh"))), "the saved file differs from what the stream overload writes");
    Outcome p = load_file("big.msh", a, rt), q = try_load(want, b); vh_assert(p == LOADED && q == LOADED && eq0(d_spec(a, b)), "loading the file differs from loading the same bytes from a stream"); vh_assert(vm_fs_open_handles() == 0, "a file is left open");
}
