// C13: hostile input.  Memory errors, uninitialised values, overflow and endless loops are reported by
// the engine itself; the entries only check that nothing but std::exception escapes.
#include "sections.h"
static void feed(const std::string& b)
{
    MshSpec s; Outcome o = try_load(b, s);
    vh_reach("tried");
    vh_assert(o != OTHER, "load_msh threw something that is not a std::exception");
    vh_observe(o); vh_observe(s.nodes.entity_blocks.size()); vh_observe(s.elements.entity_blocks.size());
}
// Writes a section field by field; counts are 0..max or hostile (negative or above 2^22), after which it stops.
struct Stop {};
struct G {
    W w; unsigned max;
    u64 count(unsigned most) { unsigned k = pick(most + 2, "count"); if (k <= most) { w.U(k); return k; } u64 v = sym_u64("huge"); vh_assume(v > (1u << 22)); w.U(v); junk(); throw Stop(); }
    u64 count_text(unsigned most) { unsigned k = pick(most + 3, "count"); if (k <= most) { w.u(k); return k; } if (k == most + 1) { u64 v = sym_u64("huge"); vh_assume(v > (1u << 22)); w.u(v); } else { int v = sym_int("negative"); vh_assume(v < 0); w.i(v); } junk(); throw Stop(); }
    u64 count_int(unsigned most) { unsigned k = pick(most + 2, "count"); if (k <= most) { w.I((int)k); return k; } int v = sym_int("bad"); vh_assume((u32)v > (1u << 22)); w.I(v); junk(); throw Stop(); }
    void junk() { for (int i = 0; i < 5; i++) w.D(0.5); }
    void tag() { w.I(sym_int("tag")); }
    void utag() { w.U(sym_u64("tag")); }
    void num() { w.D(sym_any_double("x")); }
    int type() { unsigned k = pick(4, "type"); int t = k == 0 ? 15 : k == 1 ? 1 : k == 2 ? 31 : sym_int("bad"); if (k == 3) vh_assume((u32)t - 1u >= 31); w.I(t); if (k > 1) { junk(); throw Stop(); } return t; }
    void ints(unsigned most) { u64 n = count(most); for (u64 k = 0; k < n; k++) tag(); }
};
static const char* const NAME[12] = {"Nodes", "Elements", "Entities", "Entities", "Nodes", "Elements", "PhysicalNames", "NodeData", "ElementData", "ElementNodeData", "Curves", "Patches"};
// small fixed numbers: symbolic ones are the business of c13_refs
static void refs(G& g, u64 n) { for (u64 i = 0; i < n; i++) g.w.I((int)(i * i) - 3); }
static void body(G& g, int kind)
{
    W& w = g.w; u64 n;
    switch (kind) {
    case 0:
        n = g.count(2); g.utag(); g.utag(); g.utag(); w.L();
        for (u64 k = 0; k < n; k++) {
            unsigned q = pick(4, "parametric"); int dim = sym_int("dim"), par = sym_int("flag"); u64 extra = 0;  // not parametric, parametric curve or volume, impossible dimension
            if (q == 0) vh_assume(par != 1); else { par = 1; if (q == 3) vh_assume((u32)dim > 3); else { dim = q == 1 ? 1 : 3; extra = (u64)dim; } }
            w.I(dim); g.tag(); w.I(par); u64 m = g.count(1); w.L(); for (u64 j = 0; j < m; j++) g.utag();
            if (q == 3) { g.junk(); throw Stop(); }
            for (u64 j = 0; j < (3 + extra) * m; j++) g.num(); w.L();
        }
        break;
    case 1:
        n = g.count(2); g.utag(); g.utag(); g.utag(); w.L();
        for (u64 k = 0; k < n; k++) { g.tag(); g.tag(); int t = g.type(); u64 m = g.count(1); w.L(); for (u64 j = 0; j < m * (1 + (u64)T_NODES[t]); j++) g.utag(); w.L(); }
        break;
    case 2: case 3: {
        u64 c[4]; for (int d = 0; d < 4; d++) { c[d] = 0; if ((d < 2) == (kind == 2)) c[d] = g.count(1); else w.U(0); } w.L();
        for (int d = 0; d < 4; d++) for (u64 k = 0; k < c[d]; k++) { g.tag(); for (int j = 0; j < (d ? 6 : 3); j++) g.num(); g.ints(1); if (d) g.ints(2); w.L(); }
        break;
    }
    case 4:
        n = g.count_text(2); if (w.bin) { w.s += '\n'; w.at_start = true; } else w.nl();
        for (u64 k = 0; k < n; k++) { g.tag(); g.num(); g.num(); g.num(); w.L(); }
        break;
    case 5:
        n = g.count_text(2); if (w.bin) { w.s += '\n'; w.at_start = true; } else w.nl();
        for (u64 k = 0; k < n;) {
            if (w.bin) { int t = g.type(); u64 m = g.count_int(2), p = g.count_int(2); for (u64 j = 0; j < m; j++, k++) refs(g, 1 + p + (u64)T_NODES[t]); if (m == 0) { g.w.b_i(0); break; } }
            else { g.tag(); int t = g.type(); u64 p = g.count_int(3); refs(g, p + (u64)T_NODES[t]); w.nl(); k++; }
        }
        break;
    case 6:
        n = g.count_text(2); w.nl();
        for (u64 k = 0; k < n; k++) { w.i(sym_int("dim")); w.i(sym_int("tag")); w.quoted(k ? "" : "a \"\\b"); w.nl(); }
        break;
    case 7: case 8: case 9: {
        n = g.count_text(1); w.nl(); for (u64 k = 0; k < n; k++) { w.quoted("a b"); w.nl(); }
        n = g.count_text(1); w.nl(); for (u64 k = 0; k < n; k++) { w.d(sym_any_double("real")); w.nl(); }
        unsigned m = pick(3, "int_tags"); if (m == 0) { g.count_text(2); w.i(1); w.i(1); return; }
        w.u(m + 2); w.nl(); w.i(sym_int("step")); w.nl();
        unsigned f = pick(4, "fields"), e = pick(4, "entries"); int fv = (int)f, ev = (int)e;
        if (f == 3) { fv = sym_int("fields"); vh_assume((u32)fv > (1u << 22)); }
        if (e == 3) { ev = sym_int("entries"); vh_assume((u32)ev > (1u << 22)); }
        w.i(fv); w.nl(); w.i(ev); if (m == 2) { w.nl(); w.i(3); } if (w.bin) { w.s += '\n'; w.at_start = true; } else w.nl();
        if (e == 3) e = 1;
        for (unsigned k = 0; k < e; k++) {
            if (w.bin) g.tag(); else w.u(sym_u64("tag"));
            u64 c = 1; if (kind == 9) { if (f == 0) { c = pick(3, "count"); w.I((int)c); } else c = g.count_int(2); }
            if (f == 3) { g.junk(); throw Stop(); }
            for (u64 j = 0; j < c * f; j++) g.num();
            w.L();
        }
        break;
    }
    default: {
        n = g.count_text(2); w.nl();
        for (u64 k = 0; k < n; k++) {
            for (int j = 0; j < (kind == 10 ? 3 : 4); j++) w.u(sym_u64("tag"));
            u64 m = 0, bad = 0; int nc = kind == 10 ? 2 : 3;
            for (int j = 0; j < nc; j++) { unsigned c = pick(j ? 3 : 2, "count"); if (c == 2 || (j == 0 && c == 1 && pick(2, "big"))) { u64 v = sym_u64("huge"); vh_assume(v > (1u << 22)); w.u(v); bad = 1; } else { w.u(c); m += j ? c : 3 * c; } }
            u64 wt = sym_u64("weights"); vh_assume(wt == 0); w.u(wt); if (w.bin) { w.s += '\n'; w.at_start = true; } else w.nl();
            if (bad) { g.junk(); throw Stop(); }
            for (u64 j = 0; j < m; j++) g.num();
            w.L();
        }
    }
    }
}
// cfg = 4 * kind + 2 * version + binary
VH_ENTRY(c13_counts)
{
    G g; int kind = cfg >> 2; g.w.ver = (cfg & 2) ? 22 : 41; g.w.bin = cfg & 1;
    w_header(g.w); g.w.open(NAME[kind]);
    unsigned tail = pick(3, "tail");
    try { body(g, kind); if (tail) g.w.close(NAME[kind]); } catch (Stop) {}
    if (tail == 2) g.w.s += "$Nodes\n0 0 0 0\n$EndNodes\n$Elements\n";
    feed(g.w.s);
}
// every field of the text layouts is any small, negative or huge number
static int small_or_huge(u64 v) { return (int)(v <= 2) | (int)(v == 15) | (int)(v > (1u << 22)); }
VH_ENTRY(c13_tokens)
{
    W w; int kind = cfg >> 2; w.ver = (cfg & 2) ? 22 : 41; w_header(w); w.open(NAME[kind]);
    unsigned n = 4 + pick(kind == 1 || kind >= 10 ? 3 : 6, "tokens");
    for (unsigned i = 0; i < n; i++) { u64 v = sym_u64("token"); vh_assume(small_or_huge(v) != 0); if (cfg & 1) w.text(std::to_string((long)v)); else w.u(v); }
    w.nl(); w.close(NAME[kind]);
    feed(w.s);
}
// raw bytes; cfg selects what precedes them
static const char* const PRE[28] = {"", "$", "$MeshFormat\n", "$MeshFormat\n4.1 ", "$MeshFormat\n4.1 1 8\n", "$MeshFormat\n4.1 0 8\n$", "$Nodes\n", "$Elements\n", "$Entities\n", "$PhysicalNames\n", "$PhysicalNames\n1 1 1 ", "$PhysicalNames\n1 1 1 \"", "$NodeData\n", "$NodeData\n1 ", "$NodeData\n1 \"\" 0 3 0 ", "$ElementNodeData\n0 0 3 0 1 1 1 ",
    "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Elements\n", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Elements\n1 1 15 ", "$Elements\n1 1 1 1 0 1 ", "$Nodes\n1 1 1 1 1 1 ", "$Nodes\n1 1 1 1 0 1 0 1 ", "$Unknown\n", "$MeshFormat\n2.2 1 8\n\1\0\0\0", "$Entities\n1 0 0 0 1 0 0 0 ",
    "$Curves\n1 1 1 1 ", "$Patches\n1 1 1 1 1 ", "$NanoSplineFormat\n"};
static std::string raw(unsigned n) { std::string s; int ok = 1; for (unsigned i = 0; i < n; i++) { u8 c = sym_u8("byte"); ok &= (int)((u8)(c - '3') >= 7); s += (char)c; } vh_assume(ok != 0); return s; }
VH_ENTRY(c13_raw)
{
    std::string p = (cfg & 31) == 23 ? std::string("$MeshFormat\n2.2 1 8\n\1\0\0\0", 24) : PRE[cfg & 31];
    if ((cfg & 31) > 5 && p.compare(0, 5, "$Mesh") != 0) p = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n" + p;
    unsigned n = 1 + pick((unsigned)(cfg >> 5), "length");
    feed(p + raw(n));
}
// the header changes in the middle of a file, or a section comes twice; cfg = 16 * (sections) + 4 * first + second format
static bool cfg_par, cfg_plain;
static void part(W& w, int f, unsigned what)
{
    w.ver = (f & 2) ? 22 : 41; w.bin = f & 1; w.at_start = true;
    int t = cfg_plain ? 4 : sym_int("tag");
    if (w.ver == 22) {
        std::vector<N22> n = {{t, 0, 1, 2}, {2, 3, 4, 5}}; std::vector<E22> e = {{1, 1, {1, 2}, {2, t}}, {2, 15, {}, {7}}};
        if (what & 1) w_nodes22(w, n); if (what & 2) w_elements22(w, e, {1, 1});
    } else {
        MshSpec s; tiny_nodes(s); tiny_elements(s); s.nodes.entity_blocks[0].entity_tag = t; s.elements.entity_blocks[0].data[1] = (u64)(u32)t;
        if (cfg_par) { auto& b = s.nodes.entity_blocks[0]; b.parametric = 1; b.data.insert(b.data.end(), 4, 0.5); }
        if (what & 1) w_nodes41(w, s.nodes); if (what & 2) w_elements41(w, s.elements);
    }
}
VH_ENTRY(c13_switch)
{
    cfg_plain = false;
    W w; int a = (cfg >> 2) & 3, b = cfg & 3; cfg_par = pick(2, "parametric"); unsigned first = pick(4, "first"), second = pick(4, "second"), third = pick(2, "third");
    w.ver = (a & 2) ? 22 : 41; w.bin = a & 1; w_header(w); part(w, a, first);
    if (third) { MshSpec s; s.node_data = {mk_view({"v"}, 0, 3, 1, 1, {})}; w_view(w, 0, s.node_data[0]); }
    w.ver = (b & 2) ? 22 : 41; w.bin = b & 1; w_header(w); part(w, b, second);
    feed(w.s);
}
// MSH 2.2 elements that refer to nodes the file does not define, with any numbers
VH_ENTRY(c13_refs)
{
    W w; w.ver = 22; w.bin = cfg & 1; w_header(w);
    int x = sym_int("node"), y = sym_int("node"), p = sym_int("ref"), q = sym_int("ref");
    std::vector<N22> n = {{x, 0, 1, 2}, {y, 3, 4, 5}}; std::vector<E22> e = {{sym_int("id"), 1, {1, 2}, {p, q}}, {3, 15, {5, 4}, {p}}};
    if (cfg & 2) { w_elements22(w, e, {1, 1}); if (!(cfg & 4)) w_nodes22(w, n); } else { w_nodes22(w, n); w_elements22(w, e, {1, 1}); }
    feed(w.s);
}
// file types other than 0 and 1, data sizes, missing headers
VH_ENTRY(c13_type)
{
    cfg_plain = (cfg & 2) != 0;
    W w; int t = sym_int("type"); if (cfg & 2) vh_assume(t != 0); w.open("MeshFormat"); w.word(cfg & 1 ? "2.2" : "4.1"); w.i(t); w.i(8); w.s += "\n\1"; w.s += std::string("\0\0\0\n", 4); w.s += "$EndMeshFormat\n";
    w.bin = cfg & 2; w.ver = cfg & 1 ? 22 : 41; w.at_start = true; unsigned what = 1 + pick(3, "what"), kind = pick(3, "kind"); part(w, (cfg & 1) * 2 + ((cfg & 2) >> 1), what);
    mshio::Data v = mk_view({"v"}, 0, 3, 1, 1, {}); if (cfg & 2) { v.header.int_tags[0] = 0; v.entries[0].tag = 4; v.entries[0].data[0] = 0.5; }  // concrete: it may be read as text
    w_view(w, (int)kind, v);
    feed(w.s);
}
// a section cut at any place, with the symbolic values that every layout can hold
VH_ENTRY(c13_cut)
{
    W w = begin(cfg); section(w, cfg >> 2);
    size_t c = w.cuts[pick_many(w.cuts.size(), "cut")];
    feed(w.s.substr(0, c));
}
// sections with many entries, whole or cut in any of 25 places
VH_ENTRY(c13_big)
{
    W w = begin(cfg); big_section(w, cfg >> 2, BIG_N[pick(4, "size")]); unsigned k = pick(26, "place"); std::string b = k == 25 ? w.s : w.s.substr(0, w.cuts[(w.cuts.size() - 1) * k / 24]); MshSpec s; Outcome o = try_load(b, s); vh_reach("tried"); vh_observe(o); vh_observe(digest(s));
}
