// C14: unknown sections, text and comments between sections, order and repetition of sections.
#include "io.h"
// the sections of a small file, as separate pieces of text; symbolic values throughout
struct Pieces { std::vector<std::string> s; std::string header; MshSpec spec; };
static W piece(int cfg, int ws) { W w; w.ver = (cfg & 2) ? 22 : 41; w.bin = cfg & 1; w.ws = ws; return w; }
static Pieces make(int cfg, int ws, bool data)
{
    Pieces p; MshSpec& s = p.spec; int v22 = cfg & 2; fmt(s, v22 ? "2.2" : "4.1", cfg & 1);
    W h = piece(cfg, ws); w_header(h); p.header = h.s;
    s.physical_groups = {mk_group("a b"), mk_group("")};
    { W w = piece(cfg, ws); w_groups(w, s.physical_groups); p.s.push_back(w.s); }
    if (!v22) {
        s.entities.points = {mk_point(1)}; s.entities.curves = {mk_curve(0, 2)};
        Range nr = {0, TAG41}, er = {0, TAG41}; s.nodes.min_node_tag = 0; s.nodes.max_node_tag = TAG41; s.elements.min_element_tag = 0; s.elements.max_element_tag = TAG41;
        add_nodes(s, nr, 2, 0, -1); add_elements(s, er, nr, 1, 2);
        { W w = piece(cfg, ws); w_nodes41(w, s.nodes); p.s.push_back(w.s); }
        { W w = piece(cfg, ws); w_elements41(w, s.elements); p.s.push_back(w.s); }
        { W w = piece(cfg, ws); w_entities(w, s.entities); p.s.push_back(w.s); }
    } else {
        std::vector<N22> n; for (int i = 1; i <= 3; i++) n.push_back({i, sym_fin("x"), 0.5, 1});
        E22 a = {7, 2, {1, 2}, {1, 2, 3}}, b = {9, 1, {4, 5}, {3, 1}}; a.id = sym_irange(1, 100, "id"); std::vector<E22> e = {a, b};
        { W w = piece(cfg, ws); w_nodes22(w, n); p.s.push_back(w.s); }
        { W w = piece(cfg, ws); w_elements22(w, e, {1, 1}); p.s.push_back(w.s); }
    }
    if (data) {
        s.node_data = {mk_view({"n"}, 1, 3, 1, 2, {})}; s.element_data = {mk_view({"e"}, 0, 4, 2, 1, {})}; s.element_node_data = {mk_view({"x"}, 0, 3, 1, 1, {2})};
        for (int k = 0; k < 3; k++) { W w = piece(cfg, ws); w_view(w, k, (k == 0 ? s.node_data : k == 1 ? s.element_data : s.element_node_data)[0]); p.s.push_back(w.s); }
    }
    return p;
}
static void check(const Pieces& p, int cfg, const std::string& file, const char* msg)
{
    MshSpec r; Outcome o = try_load(file, r);
    vh_reach("loaded");
    vh_assert(o == LOADED, "a well-formed file was refused");
    if (!(cfg & 2)) vh_assert(eq0(d_spec(p.spec, r)), msg);
    else {
        std::string c = p.header; for (auto& s : p.s) c += s;
        MshSpec q; Outcome o2 = try_load(c, q);
        vh_assert(o2 == LOADED && eq0(d_nodes(q.nodes, r.nodes) | d_elements(q.elements, r.elements) | d_entities(q.entities, r.entities) | difs(q.mesh_format.version, r.mesh_format.version) | difi(q.mesh_format.file_type, r.mesh_format.file_type)), msg);
        vh_assert(eq0(d_groups(p.spec.physical_groups, r.physical_groups) | d_data(p.spec.node_data, r.node_data, false) | d_data(p.spec.element_data, r.element_data, false) | d_data(p.spec.element_node_data, r.element_node_data, true)), msg);
    }
    vh_observe(digest(r));
}
static std::string all(const Pieces& p, const std::string& filler) { std::string f = p.header; for (auto& s : p.s) f += filler + s; return f + filler; }
// every order of the sections; cfg bits: binary, version 2.2, 4: data sections too (rotations of them among the others)
VH_ENTRY(c14_order)
{
    Pieces p = make(cfg, 0, cfg & 4); std::vector<std::string> left = p.s; std::string f = p.header;
    if (cfg & 4) {  // one section moved to any place, in the given or in the reverse order
        unsigned from = pick((unsigned)left.size(), "from"), to = pick((unsigned)left.size(), "to"); std::string x = left[from]; left.erase(left.begin() + from); left.insert(left.begin() + to, x);
        if (pick(2, "reverse")) left = std::vector<std::string>(left.rbegin(), left.rend());
        for (auto& s : left) f += s;
    } else while (!left.empty()) { unsigned k = pick((unsigned)left.size(), "next"); f += left[k]; left.erase(left.begin() + k); }
    check(p, cfg, f, "the order of the sections changed what was loaded");
}
// text, comments and unknown sections between all sections
static std::string filler(unsigned k)
{
    switch (k) {
    case 0: return "\n\n \t\r\n";
    case 1: return "# a comment 1 2 3\n";
    case 2: return "$Comments\nfree text 1 2 $ 3\n$EndComments\n";
    case 3: return "$Periodic\n1\n0 1 3\n2\n1 4\n3 5\n$EndPeriodic\n";
    case 4: return "$Comment\n$Nodes\n1 1 1 1\n$EndNodes\n$Elements 0 $EndComment\n";  // known names inside a comment
    case 5: return "a$Nodes Nodes EndNodes \"$Nodes\"\n";
    case 6: return "$nodes\n9 9\n$Endnodes\n$NodesX\n1 1 1 1\n$EndNodesX\n";  // names that only resemble known ones
    case 7: return "$InterpolationScheme\n\"x\"\n1\n3\n2\n4 4\n1 0.5e-3 -1 +2\n$EndInterpolationScheme\n";
    case 8: return "$PartitionedEntities\n2\n1\n$EndPartitionedEntities\n$GhostElements\n0\n$EndGhostElements\n";
    case 9: return "$Parametrizations\r\n1 0\r\n$EndParametrizations\r\n\r\n";
    case 10: return "$EndNodes\n$EndFoo\n$EndEndNodes\n$EndEndFoo\n";  // an end marker without a beginning is itself an unknown section
    case 11: return "$Empty\n$EndEmpty\n$Empty $EndEmpty ";
    case 12: return "1 2 3 4\n-5 6e7 .\n";
    case 13: return "$\n1\n$End\n";
    case 14: return "$Foo\n1 $EndFooBar 2 $EndFoo, x$EndFoo\n$Nodes\n9 9\n$EndFoo\n";  // words that only contain the end marker
    case 15: return "$Foo\n$endfoo $ENDFOO $EndFo $End $EndF \"$EndFoo\n$EndFo o\n$EndFoo\n";
    case 16: return "$Foo\n$Foo\n$Foo 3\n$EndFoo\n";  // sections do not nest
    default: return "$Element\n1\n$EndElement\n$Node\n$EndNode\n$MeshFormats\n9.9\n$EndMeshFormats\n$PhysicalName\n$EndPhysicalName\n";
    }
}
static const unsigned NFILL = 18;
VH_ENTRY(c14_filler)
{
    unsigned k = pick(NFILL, "filler"); if (k == 10) return;
    Pieces p = make(cfg, 0, cfg & 4);
    check(p, cfg, all(p, filler(k)), "text between sections changed what was loaded");
}
// one filler at one place (also before the header), two different ones elsewhere
VH_ENTRY(c14_place)
{
    Pieces p = make(cfg, 0, false); unsigned k = pick(5, "filler"), at = pick((unsigned)p.s.size() + 2, "place"); static const unsigned which[5] = {2, 4, 5, 12, 14};
    std::string x = filler(which[k]), f = (at == p.s.size() + 1 ? x : "") + p.header;
    for (size_t i = 0; i <= p.s.size(); i++) { if (i == at) f += x; if (i < p.s.size()) f += p.s[i]; }
    check(p, cfg, f, "text at one place changed what was loaded");
}
// unknown sections with any content and text of any bytes; cfg bits 0-1 format, the rest selects
VH_ENTRY(c14_bytes)
{
    Pieces p = make(cfg & 3, 0, false); std::string x; unsigned n = 1 + pick(6, "length"), ok = 1;
    for (unsigned i = 0; i < n; i++) { u8 c = sym_u8("byte"); if ((cfg >> 2) != 0) ok &= (unsigned)(c != '$'); x += (char)c; }  // only text outside sections must not start one
    if (ok != 1) vh_assume(ok != 0);
    std::string f = (cfg >> 2) == 0 ? "$Comments\n" + x + "\n$EndComments\n" : (cfg >> 2) == 1 ? x + "\n" : "$Foo " + x + " 1 2 " + x + " $EndFoo\n" + x + " ";
    check(p, cfg & 3, p.header + f + p.s[0] + f + p.s[1] + p.s[2] + (p.s.size() > 3 ? f + p.s[3] : ""), "arbitrary text changed what was loaded");
}
// unknown sections of any name
VH_ENTRY(c14_name)
{
    Pieces p = make(cfg & 3, 0, false); std::string x; unsigned n = 1 + pick(5, "length"); int ok = 1;
    for (unsigned i = 0; i < n; i++) { u8 c = sym_u8("byte"); ok &= (int)(c != 32) & (int)((u8)(c - 9) >= 5) & (i ? 1 : (int)(c != '$') & (int)(c != 'E')); x += (char)c; }
    if (n == 5) ok &= 1 - ((int)(x[0] == 'N') & (int)(x[1] == 'o') & (int)(x[2] == 'd') & (int)(x[3] == 'e') & (int)(x[4] == 's'));
    vh_assume(ok != 0);
    std::string f = "$" + x + "\n1 2 3 4\n$Nodes\n7 $End\n$End" + x + "\n";
    check(p, cfg & 3, p.header + p.s[0] + f + p.s[1] + p.s[2] + (p.s.size() > 3 ? p.s[3] : "") + f, "a section with an unknown name changed what was loaded");
}
// names that resemble known ones, with contents that would make a section of that kind; cfg bits 0-1 format
static std::string other(int v22, unsigned kind)
{
    W w = piece(v22 ? 2 : 0, 0); MshSpec s; mshio::NodeBlock nb; nb.entity_dim = 1; nb.entity_tag = 9; nb.num_nodes_in_block = 1; nb.tags = {5}; nb.data = {7, 8, 9}; s.nodes.entity_blocks = {nb}; s.nodes.num_entity_blocks = s.nodes.num_nodes = 1; s.nodes.min_node_tag = s.nodes.max_node_tag = 5;
    mshio::ElementBlock eb; eb.entity_tag = 9; eb.element_type = 15; eb.num_elements_in_block = 1; eb.data = {6, 5}; s.elements.entity_blocks = {eb}; s.elements.num_entity_blocks = s.elements.num_elements = 1; s.elements.min_element_tag = s.elements.max_element_tag = 6;
    mshio::PhysicalGroup g; g.dim = 1; g.tag = 8; g.name = "other"; mshio::PointEntity pt; pt.tag = 77; s.entities.points = {pt};
    mshio::Data d; d.header.string_tags = {"other"}; d.header.real_tags = {1}; d.header.int_tags = {0, 1, 1}; mshio::DataEntry de; de.tag = 3; de.data = {4}; if (kind == 6) de.num_nodes_per_element = 1; d.entries = {de};
    if (kind == 0) { if (v22) w_nodes22(w, {{5, 7, 8, 9}}); else w_nodes41(w, s.nodes); }
    else if (kind == 1) { if (v22) { E22 e = {6, 15, {3, 9}, {5}}; w_elements22(w, {e}, {1}); } else w_elements41(w, s.elements); }
    else if (kind == 2) w_entities(w, s.entities);
    else if (kind == 3) w_groups(w, {g});
    else if (kind < 7) w_view(w, (int)kind - 4, d);
    else w.s = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
    return w.s;
}
VH_ENTRY(c14_similar)
{
    static const char* const known[8] = {"Nodes", "Elements", "Entities", "PhysicalNames", "NodeData", "ElementData", "ElementNodeData", "MeshFormat"};
    Pieces p = make(cfg & 3, 0, true); unsigned kind = pick(8, "kind"), how = pick(7, "how"), at = pick(2, "place"); std::string k = known[kind], x = k, sec = other(cfg & 2, kind); u8 c = sym_u8("byte"); int ok = (int)(c != 32) & (int)((u8)(c - 9) >= 5);
    if (how == 0) x += (char)c;
    else if (how == 1) x.pop_back();
    else if (how == 2) { ok &= (int)(c != (u8)x.back()); x.back() = (char)c; }
    else if (how == 3) { ok &= (int)(c != (u8)x[0]) & (int)(c != 'E'); x[0] = (char)c; }
    else if (how == 4) { ok &= (int)(c != (u8)x[x.size() / 2]); x[x.size() / 2] = (char)c; }
    else if (how == 5) { ok &= (int)(c != 'E'); x = (char)c + x; }
    else x += k;
    vh_assume(ok != 0);
    sec = "$" + x + sec.substr(1 + k.size(), sec.size() - 2 * k.size() - 6) + "$End" + x + "\n";
    std::string f = p.header; if (!at) f += sec; for (auto& s : p.s) f += s; if (at) f += sec;
    check(p, cfg & 3, f, "a section whose name resembles a known one changed what was loaded");
}
// every white space layout
VH_ENTRY(c14_space)
{
    int ws = 2 + (cfg >> 2); Pieces p = make(cfg & 3, ws, true);
    check(p, cfg & 3, all(p, filler(pick(3, "filler") * 2)), "white space changed what was loaded");
}
// repeated views, interleaved with other sections; cfg bits 0-1 format
VH_ENTRY(c14_repeat)
{
    Pieces p = make(cfg & 3, 0, false); unsigned n = 1 + pick(4, "views"), others = 0; MshSpec& s = p.spec; std::string f = p.header;
    for (unsigned i = 0; i < n; i++) {
        unsigned kind = pick(3, "kind"); mshio::Data d = mk_view({std::string(1, (char)('a' + i))}, i % 2, 3 + i % 3, 1, i % 3, kind == 2 ? std::vector<unsigned>{1} : std::vector<unsigned>{});
        W w = piece(cfg, 0); w_view(w, (int)kind, d); (kind == 0 ? s.node_data : kind == 1 ? s.element_data : s.element_node_data).push_back(d);
        f += w.s; if (others < p.s.size()) f += p.s[others++];
        if (i == 1) f += "$Comments\n1\n$EndComments\n";
    }
    while (others < p.s.size()) f += p.s[others++];
    check(p, cfg & 3, f, "repeated data sections were not kept in file order");
}
VH_ENTRY(c14_many)
{
    Pieces p = make(cfg & 3, 0, false); MshSpec& s = p.spec; std::string f = p.header, t; unsigned first = pick(2, "first");
    for (unsigned i = 0; i < 12; i++) {
        mshio::Data d = mk_view({std::string(i, 'v')}, 0, 3, 1, 1, i % 3 == 2 ? std::vector<unsigned>{1} : std::vector<unsigned>{});
        W w = piece(cfg, 0); w_view(w, (int)(i % 3), d); (i % 3 == 0 ? s.node_data : i % 3 == 1 ? s.element_data : s.element_node_data).push_back(d); t += w.s;
    }
    if (first) f += t; for (auto& x : p.s) f += x; if (!first) f += t;
    check(p, cfg & 3, f, "repeated data sections were not kept in file order");
}
// what may follow the last section
VH_ENTRY(c14_end)
{
    static const char* const tail[8] = {"", "text", "$Comments", "$Comments\n", "$Comments\n1 2", "$", "\n\n ", "$End"};
    Pieces p = make(cfg & 3, 0, cfg & 4); unsigned k = pick(8, "tail"); std::string f = all(p, ""); if (k == 0) f.pop_back();
    check(p, cfg & 3, f + tail[k], "what follows the last section changed what was loaded");
}
// unknown sections and text that are long, or many of them; cfg bits 0-1 format
VH_ENTRY(c14_long)
{
    static const unsigned ns[5] = {30, 300, 4095, 5000, 70000}; unsigned n = ns[pick(5, "length")], k = pick(8, "filler"); std::string x, name(n > 5000 ? 5000 : n, 'N');
    if (k == 0) x = "$Foo\n" + std::string(n, 'a') + "\n$EndFoo\n";
    else if (k == 1) { x = "$Foo\n"; for (unsigned i = 0; i < n / 3; i++) x += "1 \n"; x += "$EndFoo\n"; }
    else if (k == 2) x = "$" + name + "\n1 2\n$End" + name + "\n";
    else if (k == 3) x = std::string(n, '#') + "\n";
    else if (k == 4) x = std::string(n, '\n');
    else if (k == 5) { for (unsigned i = 0; i < n / 20; i++) x += "$C" + std::to_string(i) + "\n1 2 3\n$EndC" + std::to_string(i) + "\n"; }
    else if (k == 6) { for (unsigned i = 0; i < n / 10; i++) x += "word " + std::to_string(i) + (i % 7 ? " " : "\n"); x += "\n"; }
    else { x = "$Foo\n"; for (unsigned i = 0; i < n / 8; i++) x += i % 3 ? "$Nodes " : "$EndFo "; x += "$EndFoo\n"; }
    Pieces p = make(cfg & 3, 0, false); check(p, cfg & 3, p.header + x + p.s[0] + p.s[1] + x + p.s[2] + (p.s.size() > 3 ? p.s[3] : "") + x, "long text between sections changed what was loaded");
}
