// C12: input that ends early and text that is not a number.
#include "sections.h"
static void refuse(const std::string& b, const char* msg)
{
    MshSpec s; Outcome o = try_load(b, s);
    vh_reach("tried");
    vh_assert(o != LOADED && o != OTHER, msg);
    vh_observe(o);
}
VH_ENTRY(c12_cut)
{
    W w = begin(cfg); section(w, cfg >> 2);
    size_t c = w.cuts[pick_many(w.cuts.size(), "cut")];
    refuse(w.s.substr(0, c), "a truncated section was loaded");
}
// a text file that ends right behind a number that is not the last one
VH_ENTRY(c12_cut_end)
{
    W w = begin(cfg); section(w, cfg >> 2);
    size_t c = w.end[pick_many(w.end.size() - 1, "cut")];
    refuse(w.s.substr(0, c), "a truncated section was loaded");
}
// the same with a line break or blanks after the cut
VH_ENTRY(c12_cut_text)
{
    W w = begin(cfg); w.ws = 2; section(w, cfg >> 2);
    size_t c = w.cuts[pick_many(w.cuts.size(), "cut")];
    static const char* const tail[3] = {"\n", " \t\r\n", "\n\n  \n"};
    refuse(w.s.substr(0, c) + tail[pick(3, "tail")], "a truncated section was loaded");
}
// one number replaced by a word; the file goes on normally
VH_ENTRY(c12_word)
{
    W w = begin(cfg); section(w, cfg >> 2);
    unsigned k = pick_many(w.beg.size(), "token"); u8 c = sym_u8("first");
    vh_assume(((int)(c != '+') & (int)(c != '-') & (int)(c != '.') & (int)((u8)(c - '0') >= 10) & (int)(c != 32) & (int)((u8)(c - 9) >= 5)) != 0);
    refuse(w.s.substr(0, w.beg[k]) + (char)c + "1" + w.s.substr(w.end[k]), "a field that is not a number was loaded");
}
VH_ENTRY(c12_words)
{
    static const char* const word[10] = {"-", "+", "--1", "+-2", "x", "nan", "\"1\"", "$EndNodes", "e5", "$"};
    W w = begin(cfg); section(w, cfg >> 2);
    unsigned k = pick_many(w.beg.size(), "token"), j = pick(10, "word");
    refuse(w.s.substr(0, w.beg[k]) + word[j] + w.s.substr(w.end[k]), "a field that is not a number was loaded");
}
// a section that is closed before all announced entries are there; the file goes on
VH_ENTRY(c12_more)
{
    W w = begin(cfg); section(w, cfg >> 2);
    size_t c = w.beg[pick_many(w.beg.size(), "cut")];  // a number is missing; a missing name would be an unquoted one
    static const char* const name[12] = {"Nodes", "Elements", "Entities", "Entities", "Nodes", "Elements", "PhysicalNames", "NodeData", "ElementData", "ElementNodeData", "Curves", "Patches"};
    refuse(w.s.substr(0, c) + "\n$End" + name[cfg >> 2] + "\n$Comment\n1 2 3\n$EndComment\n", "a section with missing entries was loaded");
}
// everything in one file, cut inside the last section
VH_ENTRY(c12_late)
{
    W w = begin(cfg & 1); w_header(w); MshSpec s; Range nr = {1, TAG22}, er = {1, TAG22};
    tiny_nodes(s); tiny_elements(s); (void)nr; (void)er;
    w_groups(w, {mk_group("a")}); w_nodes41(w, s.nodes); w_elements41(w, s.elements); size_t first = w.cuts.size();
    w_view(w, (cfg >> 1) % 3, mk_view({"v"}, 1, 3, 1, 4, cfg / 2 == 2 ? std::vector<unsigned>{1} : std::vector<unsigned>{}));
    size_t c = w.cuts[first + pick_many(w.cuts.size() - first, "cut")];
    refuse(w.s.substr(0, c), "a truncated section was loaded");
}
// sections with many entries: cut in any of 25 places, a word in place of a number, closed early
VH_ENTRY(c12_big)
{
    W w = begin(cfg); big_section(w, cfg >> 2, BIG_N[pick(4, "size")]); unsigned k = pick(25, "place"), what = pick((cfg & 1) && w.beg.size() < 30 ? 1 : 3, "what"); std::string b; size_t n = w.cuts.size(), m = w.beg.size();
    static const char* const name[12] = {"Nodes", "Elements", "Entities", "Entities", "Nodes", "Elements", "PhysicalNames", "NodeData", "ElementData", "ElementNodeData", "Curves", "Patches"};
    if (what == 0) b = w.s.substr(0, w.cuts[(n - 1) * k / 24]);
    else if (what == 1) b = w.s.substr(0, w.beg[(m - 1) * k / 24]) + "x" + w.s.substr(w.end[(m - 1) * k / 24]);
    else b = w.s.substr(0, w.beg[(m - 1) * k / 24]) + "\n$End" + name[cfg >> 2] + "\n$Comment\n1 2 3\n$EndComment\n";
    refuse(b, what == 0 ? "a truncated section was loaded" : what == 1 ? "a field that is not a number was loaded" : "a section with missing entries was loaded");
}
// a count announces more than the section holds: by one or two, by many, or by any huge number
VH_ENTRY(c12_counts)
{
    W w = begin(cfg); int kind = cfg >> 2; w.target = (int)pick(5, "target"); section(w, kind); if (w.ncounts <= w.target) return;
    bool bytes = w.bin && kind != 6; unsigned k = bytes ? 0 : pick(3, "tail"); static const char* const tail[3] = {"", "$Comment\n1 2 3\n$EndComment\n", "$PhysicalNames\n1\n2 3 \"four\"\n$EndPhysicalNames\n"};
    // text behind binary data would be read as such
    refuse(bytes ? w.s.substr(0, w.cuts.back() + 1) : w.s + tail[k], "a section that announces more than it holds was loaded");
}
