// C19: the msh_inspect tool.
#define main inspect_main
#include <msh_inspect.cpp>
#undef main
#include "flat.h"
#include "io.h"
struct Run { std::string out; int rc; };
// runs the tool on a file of these bytes
static Run inspect(const std::string& b)
{
    vm_fs_put("in.msh", b.data(), b.size());
    std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); char a0[] = "msh_inspect", a1[] = "in.msh"; char* argv[3] = {a0, a1, nullptr}; Run r;
    try { r.rc = inspect_main(2, argv); } catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old); r.out = o.str(); return r;
}
static std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> v; size_t i = 0;
    while (i < s.size()) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t')) i++; size_t b = i; while (i < s.size() && s[i] != ' ' && s[i] != '\n' && s[i] != '\t') i++; if (i > b) v.push_back(s.substr(b, i - b)); }
    return v;
}
// the lines of a text, white space collapsed
static std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v; size_t b = 0;
    for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == '\n') { std::string l; for (auto& w : words(s.substr(b, i - b))) { if (!l.empty()) l += ' '; l += w; } v.push_back(l); b = i + 1; }
    return v;
}
struct Want { std::vector<std::string> v; int prec; std::ostringstream o; void end() { v.push_back(lines(o.str())[0]); o.str(""); } };
static void want_nodes(Want& w, const MshSpec& s)
{
    for (auto& b : s.nodes.entity_blocks) { size_t k = 3 + (b.parametric == 1 ? (size_t)b.entity_dim : 0); for (size_t i = 0; i < b.tags.size(); i++) { w.o << b.tags[i] << ":"; for (size_t j = 0; j < k; j++) w.o << ' ' << b.data[i * k + j]; w.end(); } }
}
static void want_elements(Want& w, const MshSpec& s)
{
    for (auto& b : s.elements.entity_blocks) { size_t k = (size_t)T_NODES[b.element_type] + 1; for (size_t i = 0; i < b.num_elements_in_block; i++) { w.o << b.data[i * k] << ":"; for (size_t j = 1; j < k; j++) w.o << ' ' << b.data[i * k + j]; w.end(); } }
}
static void want_data(Want& w, const std::vector<mshio::Data>& v)
{
    for (auto& d : v) for (auto& e : d.entries) { w.o << e.tag << ":"; for (double x : e.data) w.o << ' ' << x; w.end(); }
}
// the wanted lines occur in this order, and no other line looks like an entry ("...: numbers" with as many lines as wanted)
static bool occurs(const std::vector<std::string>& have, const std::vector<std::string>& want)
{
    size_t i = 0; for (auto& l : have) if (i < want.size() && l == want[i]) i++;
    return i == want.size();
}
static size_t entry_lines(const std::vector<std::string>& have)  // lines whose first word is a number followed by a colon
{
    size_t n = 0; for (auto& l : have) { std::string f = l.substr(0, l.find(' ')); if (f.size() > 1 && f.back() == ':' && !((f[0] >= 'a' && f[0] <= 'z') || (f[0] >= 'A' && f[0] <= 'Z'))) n++; } return n;
}
static std::string tool(const std::string& b)
{
    Run r = inspect(b); vh_reach("ran"); vh_assert(r.rc == 0, "msh_inspect failed on a loadable file"); return r.out;
}
static void check(const std::string& b)
{
    MshSpec s = load_bytes(b); std::string out = tool(b); std::vector<std::string> have = lines(out); bool nodes = false, els = false, data = false; size_t n = 0;
    static const int precs[6] = {6, 17, 16, 15, 12, 10};
    for (int p : precs) {  // "to the digits it prints"
        Want w, x; w.o.precision(p); x.o.precision(p); want_nodes(w, s); nodes = nodes || occurs(have, w.v); Want e; want_elements(e, s); els = els || occurs(have, e.v);
        want_data(x, s.node_data); want_data(x, s.element_data); data = data || occurs(have, x.v); n = w.v.size() + e.v.size() + x.v.size();
        if (nodes && els && data) break;
    }
    vh_assert(nodes, "msh_inspect does not print the nodes' own coordinates");
    vh_assert(els, "msh_inspect does not print the elements' own nodes");
    vh_assert(data, "msh_inspect does not print the data's own values");
    vh_assert(entry_lines(have) >= n, "msh_inspect leaves out entries");
    const char* q = nullptr; vh_assert(vm_fs_has("tmp.msh") != 0, "msh_inspect wrote no copy"); size_t k = vm_fs_get("tmp.msh", &q); MshSpec c; vh_assert(try_load(std::string(q, k), c) == LOADED, "the copy msh_inspect wrote does not load");
    u64 d = d_flat(flat(s), flat(c)); if (s.mesh_format.version == "4.1") d |= (s.nodes.num_nodes ? d_nodes(s.nodes, c.nodes) : 0) | (s.elements.num_elements ? d_elements(s.elements, c.elements) : 0) | d_entities(s.entities, c.entities);
    d |= d_groups(s.physical_groups, c.physical_groups) | d_data(s.node_data, c.node_data, false) | d_data(s.element_data, c.element_data, false) | d_data(s.element_node_data, c.element_node_data, true);
    vh_assert(eq0(d), "the copy msh_inspect wrote is a different mesh");
    vh_observe(digest(c));
}
static W start(unsigned f) { W w; w.ver = (f & 2) ? 22 : 41; w.bin = f & 1; w_header(w); return w; }
static std::vector<N22> nodes22(unsigned n) { std::vector<N22> v; for (unsigned i = 0; i < n; i++) { N22 x = {(int)(n - i), 0, 0, 0}; x.x = sym_fin("x"); x.y = sym_fin("y"); x.z = sym_fin("z"); v.push_back(x); } return v; }
static void ranges(MshSpec& s) { s.nodes.min_node_tag = s.elements.min_element_tag = 0; s.nodes.max_node_tag = s.elements.max_element_tag = TAG41; }
static const Range ANY = {0, TAG41};
VH_ENTRY(c19_nodes)  // cfg: format
{
    W w = start((unsigned)cfg); unsigned nb = 1 + pick(2, "blocks");
    if (cfg & 2) { w_nodes22(w, nodes22(pick(4, "nodes"))); if (nb == 2) w_elements22(w, {{4, 15, {1, 2}, {2}}}, {1}); }
    else { MshSpec s; ranges(s); for (unsigned i = 0; i < nb; i++) { unsigned n = pick(3, "nodes"), p = pick(2, "parametric"); add_nodes(s, ANY, n, (int)p, p ? 1 : -1); } w_nodes41(w, s.nodes); }
    check(w.s);
}
VH_ENTRY(c19_elements)  // cfg: format + 4 * group of types
{
    int lo = (cfg >> 2) * 8 + 1, hi = lo + 7 > NTYPES ? NTYPES : lo + 7, t = lo + (int)pick((unsigned)(hi - lo + 1), "type"); W w = start((unsigned)cfg & 3);
    if (cfg & 2) { std::vector<int> ids; for (int i = 0; i < T_NODES[t]; i++) ids.push_back(1 + i % 3); w_nodes22(w, nodes22(3)); int p = sym_int("physical"), a = sym_irange(-3, 9, "entity"), b = sym_irange(-3, 9, "entity"); if (cfg < 8) w_elements22(w, {{8, t, {p, a}, ids}, {7, t, {3, b}, ids}, {9, 15, {}, {1}}}, {2, 1}); else w_elements22(w, {{9, 15, {p}, {1}}, {8, t, {3, a}, ids}, {7, t, {3, b}, ids}}, {1, 2}); }
    else { MshSpec s; ranges(s); add_elements(s, ANY, ANY, 2, t); add_elements(s, ANY, ANY, pick(2, "elements"), 15); w_elements41(w, s.elements); }
    check(w.s);
}
VH_ENTRY(c19_data)  // cfg: format + 4 * kind
{
    W w = start((unsigned)cfg & 3); int kind = cfg >> 2; unsigned f = pick(4, "fields"), n = pick(3, "entries"); std::vector<unsigned> k; if (kind == 2) k = {2, 1};
    mshio::Data a = mk_view({"a b"}, 1, 3, f, n, k), b = mk_view({}, 0, 4, 2, 2, k); w_view(w, kind, a); w_view(w, kind, b); if (kind < 2) w_view(w, 1 - kind, mk_view({"\"q"}, 0, 3, 1, 1, {})); check(w.s);
}
VH_ENTRY(c19_all)  // cfg: format
{
    W w = start((unsigned)cfg); MshSpec s; ranges(s); s.physical_groups = {mk_group("a \"b"), mk_group("")}; w_groups(w, s.physical_groups);
    if (cfg & 2) { w_nodes22(w, nodes22(3)); w_elements22(w, {{1, 2, {1, 2}, {1, 2, 3}}, {2, 1, {sym_int("physical"), 4}, {1, 3}}}, {1, 1}); }
    else {
        unsigned p = pick(3, "groups"), b = pick(3, "boundary"); s.entities.points = {mk_point(p), mk_point(0)}; s.entities.curves = {mk_curve(p, b)}; s.entities.surfaces = {mk_surface(p, b)}; s.entities.volumes = {mk_volume(p, b), mk_volume(b, p)}; w_entities(w, s.entities);
        add_nodes(s, ANY, 2, 0, -1); add_nodes(s, ANY, 0, 0, -1); add_nodes(s, ANY, 1, 1, 1); w_nodes41(w, s.nodes); add_elements(s, ANY, ANY, 2, 2); add_elements(s, ANY, ANY, 0, 4); add_elements(s, ANY, ANY, 1, 5); w_elements41(w, s.elements);
    }
    w_view(w, 0, mk_view({"n"}, 1, 3, 3, 2, {})); w_view(w, 1, mk_view({"e", ""}, 0, 3, 1, 2, {})); w_view(w, 2, mk_view({"x"}, 0, 3, 1, 2, {3, 2})); check(w.s);
}
VH_ENTRY(c19_empty)  // cfg: format
{
    W w = start((unsigned)cfg); unsigned k = pick(5, "case"); MshSpec s;
    if (k & 1) { if (cfg & 2) w_nodes22(w, {}); else w_nodes41(w, s.nodes); }
    if (k & 2) { if (cfg & 2) w_elements22(w, {}, {}); else w_elements41(w, s.elements); }
    if (k == 4) { w_groups(w, {}); w_view(w, 0, mk_view({}, 0, 3, 0, 0, {})); w_view(w, 1, mk_view({}, 0, 3, 2, 0, {})); if (!(cfg & 2)) w_entities(w, s.entities); }
    check(w.s);
}
// ---- recorded findings: the stride of parametric nodes is taken for 3 + flag
VH_ENTRY(c19_parametric)  // cfg: dimension (0, 2, 3)
{
    W w = start(0); MshSpec s; ranges(s); add_nodes(s, ANY, 2, 1, cfg); w_nodes41(w, s.nodes); check(w.s);
}
// many of everything
VH_ENTRY(c19_big)  // cfg: format
{
    unsigned n = BIG_N[pick(3, "size")]; MshSpec s = big(cfg, n); if (!(cfg & 2)) { auto& b = s.nodes.entity_blocks[2]; b.parametric = 0; b.data.resize(b.num_nodes_in_block * 3); } check(save_bytes(s));
}
