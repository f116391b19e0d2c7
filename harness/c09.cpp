// C09: element type queries and unsupported element types.
#include "io.h"
#include "element_utils.h"
enum What { OK_, UNSUP, ELSE };
template <class F> static What run(F f) { try { f(); return OK_; } catch (const mshio::UnsupportedFeature&) { return UNSUP; } catch (const std::exception&) { return ELSE; } catch (...) { return ELSE; } }
static int known(int t) { return (int)(t >= 1) & (int)(t <= NTYPES); }
static int want(const int* table, int t) { int r = 0; for (int k = 1; k <= NTYPES; k++) r |= -(int)(k == t) & table[k]; return r; }  // without branching
// every 32-bit value
VH_ENTRY(c09_query)
{
    int t = sym_int("type"); int n = -1, d = -1; u64 m = 0;
    if (cfg == 0) {
        What w = run([&] { m = mshio::nodes_per_element(t); }); vh_reach("queried");
        vh_assert(w == (known(t) ? OK_ : UNSUP), "nodes_per_element accepts or refuses the wrong types");
        if (w == OK_) vh_assert(m == (u64)want(T_NODES, t), "nodes_per_element is wrong");
    } else {
        What w = run([&] { d = mshio::get_element_dim(t); }); vh_reach("queried");
        vh_assert(w == (known(t) ? OK_ : UNSUP), "get_element_dim accepts or refuses the wrong types");
        if (w == OK_) vh_assert(d == want(T_DIM, t), "get_element_dim is wrong");
    }
    vh_observe(m); vh_observe((u64)(u32)d); vh_observe((u64)n);
}
static int bad_type() { int t = sym_int("type"); vh_assume(known(t) == 0); return t; }
// files with a block or element of an unsupported type; cfg = 2 * version + binary
VH_ENTRY(c09_load)
{
    W w; w.ver = (cfg & 2) ? 22 : 41; w.bin = cfg & 1; unsigned where = pick(3, "where"), count = pick(3, "count"); int t = bad_type();
    w_header(w);
    if (w.ver == 41) {
        mshio::Nodes n; mshio::NodeBlock b; b.entity_dim = 1; b.entity_tag = 1; b.num_nodes_in_block = 1; b.tags = {1}; b.data = {0, 0, 1}; n.entity_blocks = {b}; n.num_entity_blocks = n.num_nodes = n.min_node_tag = n.max_node_tag = 1;
        w_nodes41(w, n);
        w.open("Elements"); w.U(where == 0 ? 1 : 2); w.U(count + (where > 0)); w.U(1); w.U(9); w.L();
        for (unsigned i = 0; i < 2; i++) {
            bool bad = i == (where == 2); if (!bad && where == 0) continue;
            w.I(1); w.I(1); w.I(bad ? t : 15); w.U(bad ? count : 1); w.L();
            if (bad) for (unsigned k = 0; k < count; k++) { for (u64 v = 1; v <= 4; v++) w.U(v); w.L(); }
            else { w.U(3); w.U(1); w.L(); }
        }
        w.close("Elements");
    } else {
        if (count == 0) return;  // an MSH 2.2 element always has a type
        std::vector<N22> n = {{1, 0, 0, 1}}; w_nodes22(w, n);
        w.open("Elements"); w.u(where == 0 ? count : count + 1); if (w.bin) w.s += '\n'; else w.nl();
        for (unsigned i = 0; i < 2; i++) {
            bool bad = i == (where == 2); if (!bad && where == 0) continue;
            unsigned m = bad ? count : 1;
            if (w.bin) { w.b_i(bad ? t : 15); w.b_i((int)m); w.b_i(2); }
            for (unsigned k = 0; k < m; k++) { w.I((int)(k + 1)); if (!w.bin) { w.i(bad ? t : 15); w.i(2); } w.I(1); w.I(2); w.I(1); if (bad) { w.I(1); w.I(1); } w.L(); }
        }
        w.at_start = true; w.close("Elements");
    }
    MshSpec s; Outcome o = try_load(w.s, s);
    vh_reach("tried");
    vh_assert(o == UNSUPPORTED, "a file with an unsupported element type was not refused as unsupported");
    vh_observe(o);
}
// specs with a block of an unsupported type; cfg = 2 * version + binary
VH_ENTRY(c09_save)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); tiny_nodes(s); tiny_elements(s);
    unsigned count = pick(3, "count"), where = pick(2, "where");
    mshio::ElementBlock b; b.entity_dim = 2; b.entity_tag = 1; b.element_type = bad_type(); b.num_elements_in_block = count; b.data.resize(count * pick(3, "width"), 1);
    if (where) s.elements.entity_blocks.push_back(b); else s.elements.entity_blocks.insert(s.elements.entity_blocks.begin(), b);
    s.elements.num_entity_blocks++; s.elements.num_elements += count;
    std::string out; Outcome o = try_save(s, out);
    vh_reach("tried");
    vh_assert(o == UNSUPPORTED, "a spec with an unsupported element type was not refused as unsupported");
    vh_observe(o);
}
// supported types are accepted by all four readers and writers
VH_ENTRY(c09_supported)
{
    MshSpec s; fmt(s, (cfg & 2) ? "2.2" : "4.1", cfg & 1); s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 3; s.elements.min_element_tag = 4; s.elements.max_element_tag = 5;
    int t = 1 + (int)pick((unsigned)NTYPES, "type");
    if (cfg & 2) {
        mshio::ElementBlock b; b.entity_dim = T_DIM[t]; b.entity_tag = sym_int("entity_tag"); b.element_type = t; b.num_elements_in_block = 1; b.data = {sym_range(4, 5, "element_tag")};
        for (int j = 0; j < T_NODES[t]; j++) b.data.push_back(1 + (u64)j % 3);
        s.elements.entity_blocks = {b}; s.elements.num_entity_blocks = s.elements.num_elements = 1;
    } else add_elements(s, Range{4, 5}, Range{1, 3}, 1, t, false);
    std::string out; Outcome o = try_save(s, out); MshSpec r; Outcome p = o == LOADED ? try_load(out, r) : o;
    vh_reach("tried");
    vh_assert(o == LOADED && p == LOADED, "a supported element type was refused");
    vh_assert(r.elements.entity_blocks.size() == 1 && eq0(difi(r.elements.entity_blocks[0].entity_dim, T_DIM[t]) | difi(r.elements.entity_blocks[0].element_type, t) | difv(r.elements.entity_blocks[0].data, s.elements.entity_blocks[0].data)), "an element of a supported type changed");
    vh_observe(digest(r));
}
