// C16: earlier calls, stream formatting and the kind of stream make no difference.
#include "sections.h"
static MshSpec full(int cfg)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1);
    s.physical_groups = {mk_group("a \"b")};
    if (!(cfg & 2)) {
        s.entities.points = {mk_point(1)}; s.entities.surfaces = {mk_surface(1, 2)};
        Range nr = {0, TAG41}, er = {0, TAG41}; s.nodes.min_node_tag = s.elements.min_element_tag = 0; s.nodes.max_node_tag = s.elements.max_element_tag = TAG41;
        add_nodes(s, nr, 2, 1, 1); add_elements(s, er, nr, 2, 2);
    } else { tiny_nodes(s); tiny_elements(s); s.nodes.entity_blocks[0].data[1] = sym_fin("x"); s.elements.entity_blocks[0].entity_tag = sym_int("entity"); }
    s.node_data = {mk_view({"n"}, 1, 3, 1, 2, {})}; s.element_data = {mk_view({}, 0, 4, 2, 1, {})}; s.element_node_data = {mk_view({"x"}, 0, 3, 1, 1, {2})};
#ifdef MSHIO_EXT_NANOSPLINE
    s.curves = {mk_nscurve(1, 2, 1)}; s.patches = {mk_nspatch(1, 1, 1, 0)}; s.nanospline_format.version = "1.0";
#endif
    return s;
}
static const unsigned FLAGS = 0x7fff & ~0x2000u & ~(unsigned)std::ios_base::unitbuf;
struct Look { unsigned flags; long prec, width; int fill; };
static Look symbolic_look()
{
    Look l; l.flags = sym_u32("flags"); vh_assume((l.flags & ~FLAGS) == 0);
    l.prec = sym_irange(0, 400, "precision"); l.width = sym_irange(0, 60, "width"); l.fill = sym_u8("fill"); return l;
}
template <class S> static void put(S& s, const Look& l) { s.flags((std::ios_base::fmtflags)l.flags); s.precision(l.prec); s.width(l.width); s.fill((char)l.fill); }
template <class S> static bool kept(S& s, const Look& l, bool width) { return eq0((unsigned)s.flags() ^ l.flags) && eq0((u64)s.precision() ^ (u64)l.prec) && (!width || eq0((u64)s.width() ^ (u64)l.width)) && eq0((u64)(u8)s.fill() ^ (u64)l.fill); }
// saving with any formatting of the stream
VH_ENTRY(c16_format_save)
{
    MshSpec s = full(cfg), copy = s; std::string want = save_bytes(s); Look l = symbolic_look();
    std::ostringstream o(std::ios::binary); put(o, l); mshio::save_msh(o, s);
    vh_reach("saved");
    vh_assert(eq0(dift(want, o.str())), "the formatting of the stream changed what was saved");
    vh_assert(kept(o, l, false), "saving changed the formatting of the stream");
    vh_assert(eq0(d_spec(copy, s)), "saving changed the spec");
}
VH_ENTRY(c16_format_load)
{
    MshSpec s = full(cfg), want; std::string b = save_bytes(s); want = load_bytes(b); Look l = symbolic_look();
    std::istringstream in(b, std::ios::binary); put(in, l); MshSpec r = mshio::load_msh(in);
    vh_reach("loaded");
    vh_assert(eq0(d_spec(want, r)), "the formatting of the stream changed what was loaded");
    vh_assert(kept(in, l, false), "loading changed the formatting of the stream");
}
// formatting stays as it was when the call fails, too
VH_ENTRY(c16_format_fail)
{
    MshSpec s = full(cfg & 3); Look l = symbolic_look(); bool threw = false; unsigned k = pick(3, "what");
    if (cfg & 4) {
        if (k == 0) s.mesh_format.version = "9"; else if (k == 1) s.elements.entity_blocks[0].element_type = 99; else s.mesh_format.version = "2.20";
        std::ostringstream o(std::ios::binary); put(o, l); try { mshio::save_msh(o, s); } catch (const std::exception&) { threw = true; }
        vh_reach("failed"); vh_assert(threw, "an unsupported spec was saved"); vh_assert(kept(o, l, false), "a failed save changed the formatting of the stream");
    } else {
        std::string b = save_bytes(s); b = b.substr(0, k == 0 ? 18 : b.size() * k / 3);
        std::istringstream in(b, std::ios::binary); put(in, l); try { mshio::load_msh(in); } catch (const std::exception&) { threw = true; }
        vh_reach("failed"); vh_assert(kept(in, l, false), "a failed load changed the formatting of the stream");
    }
}
// streams that hand out or take a few bytes at a time and cannot seek
struct Slow : std::streambuf {
    const std::string& s; size_t p = 0, k; char buf[8];
    Slow(const std::string& b, size_t n) : s(b), k(n) {}
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); size_t n = s.size() - p < k ? s.size() - p : k; if (!n) return traits_type::eof(); memcpy(buf, s.data() + p, n); p += n; setg(buf, buf, buf + n); return traits_type::to_int_type(buf[0]); }
};
struct Drip : std::streambuf { std::string s; int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; s += (char)c; return c; } };
// a length that ends in or next to a section marker or, in binary files, in the middle of a number
static size_t cut_at(MshSpec s, unsigned k, bool bin)
{
    s.element_node_data.clear(); if (k % 3 > 0) s.element_data.clear(), s.node_data.clear(); if (k % 3 > 1) s.elements = {};
    return save_bytes(s).size() + (k < 3 ? 3 : bin ? -20 : -4);
}
VH_ENTRY(c16_slow)
{
    MshSpec s = full(cfg & 3); Drip d; std::ostream o(&d); mshio::save_msh(o, s); std::string b = save_bytes(s);
    vh_assert(eq0(dift(b, d.s)), "the kind of stream changed what was saved");
    static const size_t ks[4] = {1, 2, 3, 7}; if (cfg & 4) b.resize(cut_at(s, pick(6, "part"), cfg & 1));
    Slow q(b, ks[pick(4, "chunk")]); std::istream in(&q); MshSpec want, r; Outcome x = try_load(b, want), y;
    try { r = mshio::load_msh(in); y = LOADED; } catch (const mshio::InvalidFormat&) { y = INVALID; } catch (const std::exception&) { y = OTHER_STD; }
    vh_reach("loaded");
    vh_assert(x == y && (x != LOADED || eq0(d_spec(want, r))), "the kind of stream changed what was loaded");
}
// saving behind other output
VH_ENTRY(c16_append)
{
    MshSpec s = full(cfg); std::string b = save_bytes(s); std::ostringstream o(std::ios::binary); o << "prefix 1.5 "; mshio::save_msh(o, s); mshio::save_msh(o, s);
    vh_reach("saved");
    vh_assert(eq0(dift("prefix 1.5 " + b + b, o.str())), "what the stream held before changed what was saved");
}
// ---------------------------------------------------------------- earlier calls
static std::string file22(int bin, int variant)
{
    W w; w.ver = 22; w.bin = bin; w_header(w); std::vector<N22> n; for (int i = 1; i <= 4; i++) n.push_back({i * (variant ? 10 : 1), 0.5 * i, 1, 2}); int m = variant ? 10 : 1;
    std::vector<E22> e = variant ? std::vector<E22>{{3, 15, {7, 8, 9}, {m}}, {4, 1, {}, {m, 2 * m}}} : std::vector<E22>{{1, 2, {1, 2}, {m, 2 * m, 3 * m}}, {2, 1, {4}, {3 * m, 4 * m}}, {5, 1, {1, 2}, {3 * m, 9}}};
    w_nodes22(w, n); w_elements22(w, e, variant ? std::vector<unsigned>{1, 1} : std::vector<unsigned>{1, 1, 1}); return w.s;
}
static void earlier(unsigned k)
{
    MshSpec s; std::string b;
    switch (k) {
    case 0: try_load(file22(0, 1), s); break;
    case 1: try_load(file22(1, 1), s); break;
    case 2: b = file22(0, 1); try_load(b.substr(0, b.size() * 3 / 5), s); break;  // fails among the elements
    case 3: b = file22(1, 1); try_load(b.substr(0, b.size() - 20), s); break;
    case 4: case 5: { MshSpec f = full(k & 1); b = save_bytes(f); try_load(b, s); break; }
    case 6: case 7: { MshSpec f = full(k & 1); b = save_bytes(f); try_load(b.substr(0, b.size() / 2), s); break; }
    case 8: case 9: { MshSpec f = full(2 + (k & 1)); save_bytes(f); break; }
    case 10: { MshSpec f = full(0); f.mesh_format.version = "7"; try_save(f, b); break; }
    case 11: { MshSpec f = full(1); f.elements.entity_blocks[0].element_type = 40; try_save(f, b); break; }
    case 12: try_load("$MeshFormat\n9.9 0 8\n$EndMeshFormat\n", s); break;
    case 13: try_load("$MeshFormat\n4.1 1 8\nxxxx\n$EndMeshFormat\n", s); break;
    case 14: try_load("$Unknown\n1 2 3\n", s); break;
    case 15: case 16: { W w; w.ver = 22; w.bin = k & 1; w_header(w); w_nodes22(w, {}); w_elements22(w, {}, {}); try_load(w.s, s); break; }
    default: { MshSpec f = full(0); try { mshio::validate_spec(f); } catch (const std::exception&) {} f.nodes.num_nodes++; try { mshio::validate_spec(f); } catch (const std::exception&) {} }
    }
}
// cfg: 0-3 load what the library saves, 4-5 load an MSH 2.2 file of the other kind, 6-9 save
struct Result { Outcome o; MshSpec s; std::string b; };
static std::string input(int cfg) { return cfg < 4 ? save_bytes(full(cfg)) : file22(cfg & 1, 0); }
static Result act(int cfg, const std::string& in, const MshSpec& spec) { Result r; if (cfg < 6) r.o = try_load(in, r.s); else r.o = try_save(spec, r.b); return r; }
static void compare(const Result& a, const Result& b) { vh_reach("compared"); vh_assert(a.o == LOADED && b.o == LOADED, "a call fails"); vh_assert(eq0(d_spec(a.s, b.s)) && eq0(dift(a.b, b.b)), "an earlier call changed the result"); vh_observe(digest(a.s)); }
VH_ENTRY(c16_calls)
{
    unsigned k = pick(18, "earlier"); MshSpec spec; std::string in;
    if (cfg < 6) in = input(cfg); else spec = full(cfg - 6);
    Result first = act(cfg, in, spec); earlier(k); compare(first, act(cfg, in, spec));
}
// a load that fails anywhere in a section of any kind; cfg = what is loaded before and after it
VH_ENTRY(c16_cut)
{
    std::string in = input(cfg); Result first = act(cfg, in, {}); unsigned kind = pick(11, "kind"), bin = pick(2, "encoding"); std::string b;
    if (kind == 10) { b = file22((int)bin, 1); size_t at = b.find("$Elements") + 10; b.resize(at + (b.size() - at) * pick(24, "cut") / 23); }
    else { W w; w.ver = 41; w.bin = (int)bin; section(w, (int)kind); b = w.s.substr(0, w.cuts[(w.cuts.size() - 1) * (1 + pick(cfg < 4 ? 6 : 20, "cut")) / (cfg < 4 ? 6 : 20)]); }
    MshSpec s; try_load(b, s); compare(first, act(cfg, in, {}));
}
VH_ENTRY(c16_calls2)
{
    static const unsigned some[5] = {0, 3, 5, 7, 11}; unsigned j = pick(5, "earlier"), k = pick(5, "earlier"); MshSpec spec; std::string in;
    if (cfg < 6) in = input(cfg); else spec = full(cfg - 6);
    earlier(some[j]); Result first = act(cfg, in, spec); earlier(some[k]); Result second = act(cfg, in, spec); compare(first, second); compare(second, act(cfg, in, spec));
}
// a file with next to nothing in it, loaded after another one
VH_ENTRY(c16_sparse)  // cfg: format
{
    unsigned k = pick(18, "earlier"), what = pick(5, "file"); earlier(k); W w; w.ver = (cfg & 2) ? 22 : 41; w.bin = cfg & 1; w_header(w);
    if (what > 0) { if (cfg & 2) w_nodes22(w, {}); else w_nodes41(w, MshSpec().nodes); }
    if (what > 1) { if (cfg & 2) w_elements22(w, {}, {}); else w_elements41(w, MshSpec().elements); }
    if (what > 2) w_groups(w, {});
    if (what > 3) { w_view(w, 0, mk_view({}, 0, 3, 0, 0, {})); if (!(cfg & 2)) w_entities(w, MshSpec().entities); }
    MshSpec r, e; Outcome o = try_load(w.s, r); vh_reach("compared"); vh_assert(o == LOADED, "a call fails");
    vh_assert(r.entities.empty() && r.physical_groups.empty() && r.element_data.empty() && r.element_node_data.empty() && r.node_data.size() == (what > 3) && r.nodes.num_nodes == 0 && r.elements.num_elements == 0 && r.nodes.entity_blocks.empty() && r.elements.entity_blocks.empty(), "an earlier call changed the result");
}
// the first call of a process: what it loads is checked against the file's contents
VH_ENTRY(c16_first)
{
    unsigned k = pick(18, "earlier"); earlier(k);
    if (cfg < 4) {
        MshSpec s = full(cfg), r; s.node_data.clear(); if (cfg & 2) return; Outcome o = try_load(save_bytes(s), r); vh_reach("compared");
        vh_assert(o == LOADED && eq0(d_spec(s, r)), "an earlier call changed the result");
    } else {
        MshSpec r; Outcome o = try_load(file22(cfg & 1, 0), r); vh_reach("compared");
        vh_assert(o == LOADED && r.nodes.num_nodes == 4 && r.elements.num_elements == 3 && r.elements.min_element_tag == 1 && r.elements.max_element_tag == 5 && r.nodes.min_node_tag == 1 && r.nodes.max_node_tag == 4, "an earlier call changed the result");
        vh_assert(r.entities.points.empty() && r.entities.surfaces.size() == 1 && r.entities.curves.size() == 1 && r.entities.curves[0].physical_group_tags.size() == 1, "an earlier call changed the result");
    }
}
// the same with many of everything; cfg bits 0-1 format, then what differs: 0 saving with formatting, 1 loading with it, 2 kind of stream, 3 appended, 4 repeated calls
VH_ENTRY(c16_big)
{
    MshSpec s = big(cfg & 3, BIG_N[pick(cfg >> 2 == 4 ? 2 : cfg >> 2 == 2 ? 3 : 4, "size")]); std::string b = save_bytes(s); MshSpec want = load_bytes(b);
    if (cfg >> 2 == 0) { Look l = symbolic_look(); std::ostringstream o(std::ios::binary); put(o, l); mshio::save_msh(o, s); vh_reach("saved"); vh_assert(eq0(dift(b, o.str())), "the formatting of the stream changed what was saved"); vh_assert(kept(o, l, false), "saving changed the formatting of the stream"); }
    if (cfg >> 2 == 1) { Look l = symbolic_look(); std::istringstream in(b, std::ios::binary); put(in, l); MshSpec r = mshio::load_msh(in); vh_reach("loaded"); vh_assert(eq0(d_spec(want, r)), "the formatting of the stream changed what was loaded"); vh_assert(kept(in, l, false), "loading changed the formatting of the stream"); }
    if (cfg >> 2 == 2) {
        Drip d; std::ostream o(&d); mshio::save_msh(o, s); vh_assert(eq0(dift(b, d.s)), "the kind of stream changed what was saved");
        Slow q(b, 1 + 6 * pick(2, "chunk")); std::istream in(&q); MshSpec r = mshio::load_msh(in); vh_reach("loaded"); vh_assert(eq0(d_spec(want, r)), "the kind of stream changed what was loaded");
    }
    if (cfg >> 2 == 3) { std::ostringstream o(std::ios::binary); o << "prefix 1.5 "; mshio::save_msh(o, s); mshio::save_msh(o, s); vh_reach("saved"); vh_assert(eq0(dift("prefix 1.5 " + b + b, o.str())), "what the stream held before changed what was saved"); }
    if (cfg >> 2 == 4) {
        unsigned k = pick(18, "earlier"); earlier(k); std::string b2 = save_bytes(s); MshSpec r = load_bytes(b); vh_reach("compared"); vh_assert(eq0(dift(b, b2) | d_spec(want, r)), "an earlier call changed the result");
        MshSpec t = full(cfg & 3), u; std::string c = save_bytes(t); u = load_bytes(c); s = big((cfg & 3) ^ 1, 12); save_bytes(s); load_bytes(b); vh_assert(eq0(dift(c, save_bytes(t)) | d_spec(u, load_bytes(c))), "an earlier call changed the result");
    }
}
