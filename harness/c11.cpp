// C11: headers that must be refused, versions that must not be saved.
#include "io.h"
static int is_version(const std::string& v) { int a = 0, b = 0; if (v.size() == 3) { a = (int)(v[0] == '2') & (int)(v[1] == '.') & (int)(v[2] == '2'); b = (int)(v[0] == '4') & (int)(v[1] == '.') & (int)(v[2] == '1'); } return a | 2 * b; }
static std::string body(bool garbage, bool bin)
{
    if (garbage) return "$Nodes\nx y z\n$EndNodes\n$Elements\n-1 -1\n$EndElements\n";
    return bin ? "$PhysicalNames\n1\n2 3 \"a\"\n$EndPhysicalNames\n" : "$PhysicalNames\n1 2 3 \"a\"\n$EndPhysicalNames\n";
}
static void check(const std::string& file, int want, bool garbage)
{
    MshSpec s; Outcome o = try_load(file, s);
    vh_reach("tried");
    if (garbage) vh_assert((int)(o == UNSUPPORTED) == (1 - want), "an unsupported header was not refused before mesh data were read, or a supported one was");
    else {
        vh_assert(o == LOADED || o == UNSUPPORTED, "a well-formed header gave another error");
        vh_assert((int)(o == LOADED) == want, o == LOADED ? "an unsupported header was accepted" : "a supported header was refused");
        if (o == LOADED) vh_assert(s.physical_groups.size() == 1 && s.physical_groups[0].tag == 3, "the section after the header was not loaded");
    }
    vh_observe(o);
}
// any version word; cfg = 4 * length + 2 * garbage + binary
VH_ENTRY(c11_version)
{
    W w; std::string v; int ok = 1; for (int i = 0; i < cfg / 4; i++) { u8 c = sym_u8("version"); ok &= (int)(c != 32) & (int)((u8)(c - 9) >= 5); v += (char)c; }
    vh_assume(ok != 0);
    w_header_raw(w, v, cfg & 1 ? "1" : "0", "8", cfg & 1 ? std::string("\1\0\0\0", 4) : "");
    check(w.s + body(cfg & 2, cfg & 1), is_version(v) != 0, cfg & 2);
}
// near misses of every length
VH_ENTRY(c11_words)
{
    static const char* const v[18] = {"2", "2.", "2.1", "2.20", "2.2.1", "22", "4", "4.", "4.0", "4.10", "04.1", "4,1", "4.1\"", "v4.1", "2.2e0", "3.0", "1.0", "41"};
    W w; unsigned k = pick(18, "word");
    w_header_raw(w, v[k], cfg & 1 ? "1" : "0", "8", cfg & 1 ? std::string("\1\0\0\0", 4) : "");
    check(w.s + body(cfg & 2, cfg & 1), 0, cfg & 2);
}
// any data size; cfg bits: binary, garbage, version 2.2
VH_ENTRY(c11_size)
{
    int size = sym_int("size"); W w;
    w_header_raw(w, cfg & 4 ? "2.2" : "4.1", cfg & 1 ? "1" : "0", std::to_string(size), cfg & 1 ? std::string("\1\0\0\0", 4) : "");
    check(w.s + body(cfg & 2, cfg & 1), (cfg & 4 ? 1 : 0) | (int)(size == 8), cfg & 2);
}
// any byte-order marker; cfg bits: version 2.2, garbage, three line breaks around it
VH_ENTRY(c11_marker)
{
    u32 m = sym_u32("marker"); W w; w.open("MeshFormat"); w.s += (cfg & 1) ? "2.2 1 8" : "4.1 1 8"; w.s += (cfg & 4) ? " \r\n" : "\n"; w.b_i((int)m); w.s += "\n$EndMeshFormat\n";
    check(w.s + body(cfg & 2, true), (int)(m == 1), cfg & 2);
}
// any size and marker together; cfg bits: garbage, version 2.2, any version word of three bytes
VH_ENTRY(c11_both)
{
    u32 m = sym_u32("marker"); int size = sym_int("size"); W w; std::string v = (cfg & 2) ? "2.2" : "4.1"; int k = (cfg & 2) ? 1 : 2;
    if (cfg & 4) { int ok = 1; for (char& x : v) { u8 c = sym_u8("version"); ok &= (int)(c != 32) & (int)((u8)(c - 9) >= 5); x = (char)c; } vh_assume(ok != 0); k = is_version(v); }
    w.open("MeshFormat"); w.s += v + " 1 " + std::to_string(size) + "\n"; w.b_i((int)m); w.s += "\n$EndMeshFormat\n";
    check(w.s + body(cfg & 1, true), (int)(m == 1) & ((k & 1) | ((k >> 1) & (int)(size == 8))), cfg & 1);
}
// saving under any version string; cfg = 6 * length + 2 * sections + binary
VH_ENTRY(c11_save)
{
    std::string v = sym_str((unsigned)cfg / 6, "version"); MshSpec s; fmt(s, "", cfg & 1); s.mesh_format.version = v; s.mesh_format.data_size = sym_int("data_size"); int k = (cfg / 2) % 3;
    if (k != 1) tiny_nodes(s); if (k != 0) tiny_elements(s);
    std::string b; Outcome o = try_save(s, b); int good = is_version(v) != 0;
    vh_reach("tried");
    vh_assert(o == LOADED || o == UNSUPPORTED, "saving failed with another error");
    vh_assert((int)(o == LOADED) == good, o == LOADED ? "nodes or elements were saved under an unsupported version" : "a supported version was refused");
    vh_observe(o);
}
VH_ENTRY(c11_save_words)
{
    static const char* const v[16] = {"2", "2.", "2.1", "2.20", "2.2.1", "22", "4", "4.", "4.0", "4.10", "04.1", "4.1 ", " 4.1", "3.0", "1.0", ""};
    MshSpec s; fmt(s, v[pick(16, "word")], cfg & 1); int k = cfg / 2; if (k != 1) tiny_nodes(s); if (k != 0) tiny_elements(s);
    s.physical_groups = {mk_group("g")}; s.elements.entity_blocks.empty() ? void() : void(s.elements.entity_blocks[0].entity_tag = sym_int("tag"));
    std::string b; Outcome o = try_save(s, b);
    vh_reach("tried");
    vh_assert(o == UNSUPPORTED, "nodes or elements were saved under an unsupported version");
    vh_observe(o);
}
