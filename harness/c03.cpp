// C03: post-processing data survive a round trip.
#include "gen.h"
static void check(const MshSpec& s, bool obs = true)
{
    MshSpec r = round_trip(s);
    vh_reach("loaded");
    vh_assert(eq0(d_data(s.node_data, r.node_data, false)), "node data differ after the round trip");
    vh_assert(eq0(d_data(s.element_data, r.element_data, false)), "element data differ after the round trip");
    vh_assert(eq0(d_data(s.element_node_data, r.element_node_data, true)), "element-node data differ after the round trip");
    vh_assert(r.nodes.num_nodes == s.nodes.num_nodes && r.elements.num_elements == s.elements.num_elements && r.physical_groups.empty(), "other sections were affected");
    vh_observe(obs ? digest(r) : r.node_data.size());
}
static void base(MshSpec& s, int cfg) { fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); tiny_nodes(s); tiny_elements(s); }
static std::vector<mshio::Data>& kind(MshSpec& s, int k) { return k == 0 ? s.node_data : k == 1 ? s.element_data : s.element_node_data; }
// one view: every header shape and entry count
VH_ENTRY(c03_view)  // cfg = 4 * kind + 2 * (2.2) + binary
{
    MshSpec s; base(s, cfg); int k = cfg >> 2;
    unsigned ns = pick(3, "strings"), nr = pick(3, "reals"), ni = 3 + pick(2, "ints"), f = pick(4, "fields"), e = pick(3, "entries");
    std::vector<std::string> names; if (ns > 0) names.push_back("view 1"); if (ns > 1) names.push_back("");
    std::vector<unsigned> nodes; if (k == 2) { unsigned v = pick(4, "nodes"); nodes = v == 0 ? std::vector<unsigned>{0, 1} : v == 1 ? std::vector<unsigned>{1, 2} : v == 2 ? std::vector<unsigned>{3, 2} : std::vector<unsigned>{2, 0}; }
    kind(s, k).push_back(mk_view(names, nr, ni, f, e, nodes));
    check(s);
}
// several views of one kind, of different shapes, in order
VH_ENTRY(c03_views)
{
    MshSpec s; base(s, cfg); int k = cfg >> 2; unsigned n = 2 + pick(2, "views"), sh = pick(3, "shape");
    for (unsigned i = 0; i < n; i++) {
        std::vector<unsigned> nodes; if (k == 2) nodes = {1 + (i + sh) % 3, 2};
        kind(s, k).push_back(mk_view({i == 1 ? "second" : "same name"}, 1 + (i + sh) % 2, 3 + i % 2, 1 + (i * 2 + sh) % 4, (i + sh) % 3, nodes));
    }
    check(s);
}
// all three kinds, sharing names
VH_ENTRY(c03_all)
{
    MshSpec s; base(s, cfg); unsigned sh = pick(4, "shape");
    for (int k = 0; k < 3; k++) for (unsigned i = 0; i < (sh + (unsigned)k) % 3; i++) kind(s, k).push_back(mk_view({"v"}, 1, 3, 1 + (sh + i) % 3, 1 + (i + (unsigned)k) % 2, k == 2 ? std::vector<unsigned>{2, 3} : std::vector<unsigned>{}));
    s.physical_groups.clear();
    check(s);
}
// string tags of arbitrary bytes, odd fixed ones
VH_ENTRY(c03_names)
{
    static const char* nm[] = {"", " ", "\"", "\\", "a\"b\\c", "line\nbreak", "$EndNodeData", "3", "\r\n", "$Nodes\n1\n", "a long view name that does not fit into the small buffer", "x "};
    MshSpec s; base(s, cfg); int k = cfg >> 2; unsigned l = pick(3, "length");
    std::vector<std::string> names;
    if (l < 2) { names.push_back(sym_str(l + 1, "name")); if (pick(2, "second")) names.push_back(sym_str(1, "name2")); }
    else { unsigned q = pick(12, "fixed"), n = 1 + pick(3, "strings"); for (unsigned i = 0; i < n; i++) names.push_back(nm[(q + 7 * i) % 12]); }
    kind(s, k).push_back(mk_view(names, 1, 3, 1, 1, k == 2 ? std::vector<unsigned>{2} : std::vector<unsigned>{}));
    check(s);
}
// integer tags: many, negative, partition ids; many real tags
VH_ENTRY(c03_tags)
{
    MshSpec s; base(s, cfg); int k = cfg >> 2; unsigned ni = 3 + 4 * pick(3, "ints"), nr = 5 * pick(3, "reals");
    kind(s, k).push_back(mk_view({"a", "b", "c"}, nr, ni, 9, 2, k == 2 ? std::vector<unsigned>{4, 8} : std::vector<unsigned>{}));
    check(s);
}
// many entries or fields, mostly concrete
VH_ENTRY(c03_bulk)
{
    MshSpec s; base(s, cfg); int k = cfg >> 2; bool wide = pick(2, "shape") == 1; unsigned n = wide ? 3 : 1300, f = wide ? 700 : 3;
    mshio::Data d; d.header.string_tags = {"bulk"}; d.header.real_tags = {0.25}; d.header.int_tags = {0, (int)f, (int)n};
    for (unsigned i = 0; i < n; i++) { mshio::DataEntry e; e.tag = i + 1; unsigned m = f; if (k == 2) { e.num_nodes_per_element = 2; m *= 2; } for (unsigned j = 0; j < m; j++) e.data.push_back(i * 0.37 + j); d.entries.push_back(e); }
    for (unsigned i = 0; i < n; i += n / 3) { d.entries[i].tag = sym_range(0, TAG22, "entry_tag"); d.entries[i].data[f - 1] = sym_fin("value"); }
    d.entries[n - 1].data.back() = sym_fin("last");
    kind(s, k).push_back(d);
    check(s, false);
}
// nine views with many entries, fields or tags
VH_ENTRY(c03_big)  // cfg: format, +4: 1000 of each
{
    MshSpec s = big(cfg & 3, (cfg & 4) ? 1000 : BIG_N[pick(4, "size")], BIG_DATA); tiny_nodes(s); tiny_elements(s); check(s, false);
}
// string tags of many lengths
VH_ENTRY(c03_length)
{
    static const unsigned ns[] = {15, 16, 31, 32, 63, 64, 80, 100, 127, 128, 200, 255, 256, 257, 512, 1024, 1025, 4096, 65536};
    MshSpec s; base(s, cfg); int k = cfg >> 2; unsigned n = ns[pick(sizeof ns / sizeof *ns, "length")], c = pick(3, "content"); std::string x;
    for (unsigned i = 0; i < n; i++) x += c == 0 ? 'n' : c == 1 ? "x\"\\ "[i % 4] : (char)('!' + i % 90);
    x.back() = (char)sym_u8("last");
    kind(s, k).push_back(mk_view({x, "", x.substr(n / 2)}, 1, 3, 1, 1, k == 2 ? std::vector<unsigned>{2} : std::vector<unsigned>{}));
    check(s, false);
}
// very many entries or values
VH_ENTRY(c03_huge)
{
    MshSpec s; base(s, cfg); int k = cfg >> 2; unsigned sh = pick(3, "shape"), n = sh ? 2 : 33000, f = sh == 1 ? 33000 : 2;
    mshio::Data d; d.header.string_tags = {"huge"}; d.header.int_tags = {0, (int)f, (int)n}; if (sh == 2) for (unsigned i = 0; i < 33000; i++) { d.header.real_tags.push_back(i); d.header.int_tags.push_back((int)i); }
    for (unsigned i = 0; i < n; i++) { mshio::DataEntry e; e.tag = i + 1; unsigned m = f; if (k == 2) { e.num_nodes_per_element = 2; m *= 2; } for (unsigned j = 0; j < m; j++) e.data.push_back(j + 3); d.entries.push_back(e); }
    d.entries[n / 2].data[f - 1] = sym_fin("value"); d.entries[n - 1].data.back() = sym_fin("last"); d.entries[n - 1].tag = sym_range(0, TAG22, "entry_tag");
    kind(s, k).push_back(d);
    check(s, false);
}
VH_ENTRY(c03_many) { check(huge(cfg & 3, 7, HUGE_N), false); }  // very many views
