// The mesh content of a spec without its block structure.
#pragma once
#include "gen.h"
struct Flat { std::vector<u64> ntags; std::vector<double> xyz; struct El { u64 tag; int type, dim, ent; std::vector<u64> nodes; }; std::vector<El> els; };
static Flat flat(const MshSpec& s)
{
    Flat f;
    for (auto& b : s.nodes.entity_blocks) { size_t k = 3 + (b.parametric == 1 ? (size_t)b.entity_dim : 0); for (size_t i = 0; i < b.num_nodes_in_block; i++) { f.ntags.push_back(b.tags.at(i)); for (size_t j = 0; j < 3; j++) f.xyz.push_back(b.data.at(i * k + j)); } }
    for (auto& b : s.elements.entity_blocks) { size_t n = (size_t)T_NODES[b.element_type]; for (size_t i = 0; i < b.num_elements_in_block; i++) { Flat::El e; e.tag = b.data.at(i * (n + 1)); e.type = b.element_type; e.dim = b.entity_dim; e.ent = b.entity_tag; for (size_t j = 1; j <= n; j++) e.nodes.push_back(b.data.at(i * (n + 1) + j)); f.els.push_back(e); } }
    return f;
}
static u64 d_flat(const Flat& a, const Flat& b)
{
    if (a.ntags.size() != b.ntags.size() || a.els.size() != b.els.size()) return 1;
    u64 d = difv(a.ntags, b.ntags) | difv(a.xyz, b.xyz);
    for (size_t i = 0; i < a.els.size(); i++) d |= dif(a.els[i].tag, b.els[i].tag) | difi(a.els[i].type, b.els[i].type) | difi(a.els[i].dim, b.els[i].dim) | difi(a.els[i].ent, b.els[i].ent) | difv(a.els[i].nodes, b.els[i].nodes);
    return d;
}
