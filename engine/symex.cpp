// A small symbolic executor for LLVM IR (LLVM 18 + Z3), written for /verif.
//
// Explores every feasible path of one entry function, forking on symbolic branches, allocation sizes
// and pointers.  Memory objects are byte arrays with concrete, symbolic or uninitialised bytes;
// every access is bounds- and lifetime-checked.  vh_* functions are the harness interface, vm_* the
// interface of the runtime model (rt_model.cpp).  See DESIGN.md.
#include <z3.h>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ expressions
static Z3_context C;
struct Ex {
    Z3_ast a = nullptr;
    Ex() {}
    explicit Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(C, a); }
    Ex(const Ex& o) : a(o.a) { if (a) Z3_inc_ref(C, a); }
    Ex(Ex&& o) noexcept : a(o.a) { o.a = nullptr; }
    Ex& operator=(const Ex& o) { if (o.a) Z3_inc_ref(C, o.a); if (a) Z3_dec_ref(C, a); a = o.a; return *this; }
    Ex& operator=(Ex&& o) noexcept { std::swap(a, o.a); return *this; }
    ~Ex() { if (a) Z3_dec_ref(C, a); }
    explicit operator bool() const { return a != nullptr; }
};
static u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static Z3_sort bvsort(unsigned w) {
    static std::unordered_map<unsigned, Z3_sort> m;
    auto it = m.find(w); if (it != m.end()) return it->second;
    Z3_sort s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); m[w] = s; return s;
}
struct Agg;
struct Val {
    u64 c = 0; Ex e; std::shared_ptr<Agg> agg; u32 w = 0; bool undef = false;
    bool sym() const { return e.a != nullptr; }
    bool conc() const { return !e.a && !agg; }
};
struct Agg { std::vector<Val> f; };
static Val mkc(unsigned w, u64 c) { Val v; v.w = w; v.c = c & maskw(w); return v; }
static Ex num(unsigned w, u64 c) {
    if (w == 1) return Ex(c ? Z3_mk_true(C) : Z3_mk_false(C));
    if (w <= 64) return Ex(Z3_mk_unsigned_int64(C, c, bvsort(w)));
    Ex lo(Z3_mk_unsigned_int64(C, c, bvsort(64)));
    return Ex(Z3_mk_zero_ext(C, w - 64, lo.a));
}
static Ex simp(const Ex& e) { return Ex(Z3_simplify(C, e.a)); }
static Ex X(const Val& v) { if (v.sym()) return v.e; return num(v.w, v.c); }
static bool isNum(Z3_ast a, unsigned w, u64& out) {
    if (w == 1) { Z3_lbool b = Z3_get_bool_value(C, a); if (b == Z3_L_UNDEF) return false; out = (b == Z3_L_TRUE); return true; }
    if (Z3_get_ast_kind(C, a) != Z3_NUMERAL_AST) return false;
    if (w > 64) return false;
    uint64_t v; if (!Z3_get_numeral_uint64(C, a, &v)) return false; out = v; return true;
}
static Val V(const Ex& e0, unsigned w, bool dosimp = true) {
    Ex e = dosimp ? simp(e0) : e0; Val v; v.w = w; u64 n;
    if (isNum(e.a, w, n)) { v.c = n; return v; }
    v.e = e; return v;
}
static Ex exnot(const Ex& e) { return simp(Ex(Z3_mk_not(C, e.a))); }
static Ex exeq(const Ex& a, const Ex& b) { return simp(Ex(Z3_mk_eq(C, a.a, b.a))); }
static Ex b2bv(const Ex& b, unsigned w) { Ex one = num(w, 1), z = num(w, 0); return Ex(Z3_mk_ite(C, b.a, one.a, z.a)); }
static Ex bv2b(const Ex& e) { Ex one(Z3_mk_unsigned_int64(C, 1, bvsort(1))); return Ex(Z3_mk_eq(C, e.a, one.a)); }
static Ex freshBV(const std::string& nm, unsigned w) {
    Z3_symbol s = Z3_mk_string_symbol(C, nm.c_str());
    return Ex(Z3_mk_const(C, s, bvsort(w)));
}
static std::unordered_map<unsigned, bool> uninitMemo; static std::vector<Ex> uninitKeep;
static bool hasUninit(Z3_ast a) {
    if (Z3_get_ast_kind(C, a) != Z3_APP_AST) return false;
    unsigned id = Z3_get_ast_id(C, a);
    auto it = uninitMemo.find(id); if (it != uninitMemo.end()) return it->second;
    Z3_app app = Z3_to_app(C, a); unsigned n = Z3_get_app_num_args(C, app); bool r = false;
    if (n == 0) {
        Z3_func_decl d = Z3_get_app_decl(C, app); Z3_symbol s = Z3_get_decl_name(C, d);
        if (Z3_get_symbol_kind(C, s) == Z3_STRING_SYMBOL && strncmp(Z3_get_symbol_string(C, s), "uninit!", 7) == 0) r = true;
    }
    for (unsigned i = 0; i < n && !r; i++) r = hasUninit(Z3_get_app_arg(C, app, i));
    uninitMemo[id] = r; uninitKeep.push_back(Ex(a)); return r;
}

// ------------------------------------------------------------------ options / statistics
static bool optUninit = false, optNsw = false; static u64 optSteps = 400000000; static double optTime = 600; static u64 optMaxAlloc = 1 << 22;
static unsigned optEnum = 256, optSamples = 12, optDump = 0, optMaxViol = 3; static std::string optOut, optDumpDir; static bool optTrace = false; static i64 optArg = 0;
static u64 stQueries = 0, stSat = 0, stUnsat = 0, stUnknown = 0, stSteps = 0, stForks = 0, stPaths = 0, stKilled = 0, stAsserts = 0, stAssertQ = 0, stMaxDepth = 0;
static double stSolver = 0, T0;

// ------------------------------------------------------------------ memory
struct SymB { Ex e; u32 idx; u32 n; };  // byte idx (little endian) of n-byte value e
enum { K_GLOBAL, K_STACK, K_HEAP, K_EXTERN };
struct Obj {
    int rc = 1; u64 size; uint8_t kind; bool ro = false; uint8_t* b; uint8_t* st; SymB* s = nullptr; const char* name = "";
    Obj(u64 sz, uint8_t k, uint8_t init) : size(sz), kind(k) { b = (uint8_t*)calloc(sz * 2 + 1, 1); st = b + sz; if (init) memset(st, init, sz); }
    Obj(const Obj& o) : size(o.size), kind(o.kind), ro(o.ro), name(o.name) {
        b = (uint8_t*)malloc(size * 2 + 1); st = b + size; memcpy(b, o.b, size * 2);
        if (o.s) { s = new SymB[size]; for (u64 i = 0; i < size; i++) if (st[i] == 1) s[i] = o.s[i]; }
    }
    ~Obj() { free(b); delete[] s; }
};
struct ORef {
    Obj* p = nullptr;
    ORef() {} explicit ORef(Obj* o) : p(o) {}
    ORef(const ORef& o) : p(o.p) { if (p) p->rc++; }
    ORef(ORef&& o) noexcept : p(o.p) { o.p = nullptr; }
    ORef& operator=(const ORef& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    ORef& operator=(ORef&& o) noexcept { std::swap(p, o.p); return *this; }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    ~ORef() { drop(); }
};
static const u64 FIRST_ID = 16, BASEOFF = 0x10000;
static u64 baseOf(u64 id) { return ((id + FIRST_ID) << 32) | BASEOFF; }
// memory table: chunked copy-on-write so that forks are cheap
struct Chunk { int rc = 1; ORef o[64]; };
struct CRef {
    Chunk* p = nullptr; CRef() {} explicit CRef(Chunk* c) : p(c) {}
    CRef(const CRef& o) : p(o.p) { if (p) p->rc++; } CRef(CRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    CRef& operator=(const CRef& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; } CRef& operator=(CRef&& o) noexcept { std::swap(p, o.p); return *this; }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; } ~CRef() { drop(); }
};
struct Memory {
    std::vector<CRef> ch; u64 n = 0;
    ORef* slotW(u64 id) {
        CRef& c = ch[id >> 6];
        if (c.p->rc > 1) { Chunk* k = new Chunk; for (int i = 0; i < 64; i++) k->o[i] = c.p->o[i]; c = CRef(k); }
        return &c.p->o[id & 63];
    }
    u64 alloc(u64 size, uint8_t kind, uint8_t init) {
        u64 id = n++; if ((id >> 6) >= ch.size()) ch.emplace_back(new Chunk);
        *slotW(id) = ORef(new Obj(size, kind, init)); return id;
    }
    Obj* get(u64 id) const { if (id >= n) return nullptr; return ch[id >> 6].p->o[id & 63].p; }
    Obj* getW(u64 id) { ORef* r = slotW(id); if (r->p && r->p->rc > 1) { Obj* k = new Obj(*r->p); *r = ORef(k); } return r->p; }
    void kill(u64 id) { slotW(id)->drop(); }
};

// ------------------------------------------------------------------ program
struct Opnd { int s = 0; };  // >=0 register, <0 constant -(s+1)
struct GepTerm { int s; u64 scale; unsigned w; };
struct DI { Instruction* I; unsigned op; int dst = -1; std::vector<int> ops; u64 off = 0; std::vector<GepTerm> gep; u32 w = 0, w2 = 0; u32 t0 = 0, t1 = 0; u32 aux = 0; };
struct FnInfo {
    Function* F; bool decoded = false, executed = false; std::vector<DI> code; std::vector<u32> bbStart; std::vector<std::vector<std::pair<int, std::vector<std::pair<u32, int>>>>> phis;
    u32 nregs = 0; FnInfo* over = nullptr; int builtin = -1; bool resolved = false; std::vector<Val> cpool; u64 addr = 0; u64 steps = 0;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, u32> bbid; std::string name;
};
struct Frame {
    FnInfo* fn; u32 pc = 0; u32 bb = 0; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs;
    bool keepRet = false;
};
struct PCNode { Ex e; std::shared_ptr<PCNode> up; u32 depth; ~PCNode() { auto p = std::move(up); while (p && p.use_count() == 1) { auto q = std::move(p->up); p = std::move(q); } } };
struct MRef { Z3_model m = nullptr; MRef() {} explicit MRef(Z3_model x) : m(x) { if (m) Z3_model_inc_ref(C, m); } MRef(const MRef& o) : m(o.m) { if (m) Z3_model_inc_ref(C, m); } MRef& operator=(const MRef& o) { if (o.m) Z3_model_inc_ref(C, o.m); if (m) Z3_model_dec_ref(C, m); m = o.m; return *this; } ~MRef() { if (m) Z3_model_dec_ref(C, m); } };
struct SymIn { std::string name; u32 n; Val v; };
struct Caught { u64 obj; u64 ti; };
struct State {
    std::vector<Frame> st; Memory mem; std::shared_ptr<PCNode> pc; MRef model; std::vector<SymIn> ins; std::vector<Val> obs; std::vector<std::pair<Ex, u64>> known;
    u64 steps = 0; std::vector<Caught> caught; u64 excObj = 0, excTi = 0; bool approx = false; std::map<u64, u64> excInfo; std::vector<std::pair<Ex, Ex>> rounds; u32 nsym = 0; std::vector<std::string> notes;
    std::vector<std::pair<std::string, u64>> choices;
    bool rounded = false;
};
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<Function*, FnInfo*> fnOf; static std::vector<FnInfo*> fnByIdx; static std::unordered_map<const GlobalVariable*, u64> gaddr; static std::unordered_map<u64, const GlobalVariable*> gById;
static std::vector<std::unique_ptr<State>> work; static std::set<std::string> reached; static std::map<std::string, u64> killedWhy; static std::vector<std::string> engineErrors; static std::set<std::string> softErrors;
// do two expressions share no input variable?  (used only to avoid pointless equality queries)
static std::unordered_map<unsigned, std::vector<unsigned>> leafMemo; static std::vector<Ex> leafKeep;
static const std::vector<unsigned>& leavesOf(Z3_ast a) {
    unsigned id = Z3_get_ast_id(C, a); auto it = leafMemo.find(id); if (it != leafMemo.end()) return it->second;
    std::vector<unsigned> r;
    if (Z3_get_ast_kind(C, a) == Z3_APP_AST) {
        Z3_app app = Z3_to_app(C, a); unsigned n = Z3_get_app_num_args(C, app);
        if (!n) { if (Z3_get_decl_kind(C, Z3_get_app_decl(C, app)) == Z3_OP_UNINTERPRETED) r.push_back(id); }
        else for (unsigned i = 0; i < n; i++) { auto& l = leavesOf(Z3_get_app_arg(C, app, i)); r.insert(r.end(), l.begin(), l.end()); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); }
    }
    leafKeep.push_back(Ex(a)); return leafMemo[id] = r;
}
static bool disjointLeaves(const Ex& a, const Ex& b) { std::vector<unsigned> x = leavesOf(a.a); const auto& y = leavesOf(b.a); for (unsigned i : y) if (std::binary_search(x.begin(), x.end(), i)) return false; return true; }
static u64 uninitCtr = 0, havocCtr = 0;

struct Kill { std::string why; bool engineError; };
struct Violation { std::string kind, msg, where, trace; std::vector<std::pair<std::string, std::string>> inputs; bool approx; };
static std::vector<Violation> viols; static std::set<std::string> violKeys;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<u64> obs; bool approx; };
static std::vector<Sample> samples;

static std::string where(const State& S, bool full);

// ------------------------------------------------------------------ solver
static Z3_solver SOL; static std::vector<PCNode*> pushed; static std::vector<std::shared_ptr<PCNode>> pushedKeep;
static void syncSolver(const std::shared_ptr<PCNode>& pc) {
    std::vector<std::shared_ptr<PCNode>> path; for (auto p = pc; p; p = p->up) path.push_back(p);
    std::reverse(path.begin(), path.end());
    size_t l = 0; while (l < path.size() && l < pushed.size() && pushed[l] == path[l].get()) l++;
    if (pushed.size() > l) { Z3_solver_pop(C, SOL, (unsigned)(pushed.size() - l)); pushed.resize(l); pushedKeep.resize(l); }
    for (; l < path.size(); l++) { Z3_solver_push(C, SOL); Z3_solver_assert(C, SOL, path[l]->e.a); pushed.push_back(path[l].get()); pushedKeep.push_back(path[l]); }
}
static u64 dumped = 0;
static int check(const State& S, const std::vector<Ex>& extra, MRef* m) {
    if (now() - T0 > optTime) throw Kill{"time budget exhausted", true};
    syncSolver(S.pc); double t = now(); Z3_solver_push(C, SOL);
    for (auto& e : extra) Z3_solver_assert(C, SOL, e.a);
    Z3_lbool r = Z3_solver_check(C, SOL); stQueries++;
    if (r == Z3_L_TRUE && m) *m = MRef(Z3_solver_get_model(C, SOL));
    if (optDump && r != Z3_L_UNDEF && dumped < optDump && (stQueries % 7) == 1) {
        std::ofstream f(optDumpDir + "/q" + std::to_string(dumped++) + (r == Z3_L_TRUE ? ".sat.smt2" : ".unsat.smt2"));
        f << Z3_solver_to_string(C, SOL) << "(check-sat)\n";
    }
    Z3_solver_pop(C, SOL, 1); stSolver += now() - t;
    if (r == Z3_L_UNDEF) { stUnknown++; throw Kill{"solver answered unknown", true}; }
    (r == Z3_L_TRUE ? stSat : stUnsat)++;
    return r == Z3_L_TRUE;
}
static void addPC(State& S, const Ex& e) { auto n = std::make_shared<PCNode>(); n->e = e; n->up = S.pc; n->depth = S.pc ? S.pc->depth + 1 : 1; S.pc = n; if (n->depth > stMaxDepth) stMaxDepth = n->depth; }
static bool evalBool(State& S, const Ex& e, bool& out) {
    if (!S.model.m) return false; Z3_ast r; if (!Z3_model_eval(C, S.model.m, e.a, true, &r)) return false; Ex k(r);
    Z3_lbool b = Z3_get_bool_value(C, k.a); if (b == Z3_L_UNDEF) return false; out = b == Z3_L_TRUE; return true;
}
static bool evalBV(const MRef& m, const Val& v, u64& out) {
    if (!v.sym()) { out = v.c; return true; }
    if (!m.m) return false; Z3_ast r; if (!Z3_model_eval(C, m.m, v.e.a, true, &r)) return false; Ex k(r); k = simp(k); return isNum(k.a, v.w, out);
}
static void learn(State& S, const Ex& e, unsigned w, u64 v) {
    S.known.push_back({e, v});
    if (Z3_get_ast_kind(C, e.a) != Z3_APP_AST) return;
    Z3_app app = Z3_to_app(C, e.a); Z3_func_decl d = Z3_get_app_decl(C, app); Z3_decl_kind k = Z3_get_decl_kind(C, d); unsigned n = Z3_get_app_num_args(C, app);
    if (w == 1) {
        if (k == Z3_OP_NOT) { Ex a(Z3_get_app_arg(C, app, 0)); learn(S, a, 1, !v); return; }
        if (k == Z3_OP_AND && v) { for (unsigned i = 0; i < n; i++) learn(S, Ex(Z3_get_app_arg(C, app, i)), 1, 1); return; }
        if (k == Z3_OP_OR && !v) { for (unsigned i = 0; i < n; i++) learn(S, Ex(Z3_get_app_arg(C, app, i)), 1, 0); return; }
        if (k == Z3_OP_EQ && v) {
            for (int i = 0; i < 2; i++) {
                Ex a(Z3_get_app_arg(C, app, i)), b(Z3_get_app_arg(C, app, 1 - i));
                Z3_sort s = Z3_get_sort(C, a.a); if (Z3_get_sort_kind(C, s) != Z3_BV_SORT) continue;
                unsigned bw = Z3_get_bv_sort_size(C, s); u64 c; if (bw <= 64 && isNum(b.a, bw, c) && bw > 1) { learn(S, a, bw, c); return; }
            }
        }
        return;
    }
    if (k == Z3_OP_ZERO_EXT || k == Z3_OP_SIGN_EXT) {
        Ex a(Z3_get_app_arg(C, app, 0)); unsigned aw = Z3_get_bv_sort_size(C, Z3_get_sort(C, a.a)); if (aw > 1 && aw <= 64) learn(S, a, aw, v & maskw(aw));
    } else if (k == Z3_OP_CONCAT) {
        unsigned pos = 0; for (int i = (int)n - 1; i >= 0; i--) { Ex a(Z3_get_app_arg(C, app, i)); unsigned aw = Z3_get_bv_sort_size(C, Z3_get_sort(C, a.a)); if (aw > 1 && aw <= 64 && Z3_get_ast_kind(C, a.a) != Z3_NUMERAL_AST) learn(S, a, aw, (v >> pos) & maskw(aw)); pos += aw; }
    } else if (k == Z3_OP_BADD && n == 2) {
        u64 c; Ex a(Z3_get_app_arg(C, app, 0)), b(Z3_get_app_arg(C, app, 1)); if (isNum(a.a, w, c)) learn(S, b, w, (v - c) & maskw(w));
    } else if (k == Z3_OP_BMUL && n == 2) {
        // c*x = v determines x only for odd c; leave it
    }
}
static const Val& res(State& S, const Val& v, Val& tmp) {
    if (!v.sym()) return v;
    for (auto it = S.known.rbegin(); it != S.known.rend(); ++it) if (it->first.a == v.e.a) { tmp = mkc(v.w, it->second); return tmp; }
    return v;
}

// ------------------------------------------------------------------ violations
static std::string hexbytes(const Val& v, u32 n, const MRef& m) {
    std::string s; char b[4];
    if (v.w <= 64) { u64 x = 0; evalBV(m, v, x); for (u32 i = 0; i < n; i++) { snprintf(b, 4, "%02x", (unsigned)((x >> (8 * i)) & 255)); s += b; } }
    return s;
}
static std::vector<std::pair<std::string, std::string>> inputsOf(const State& S, const MRef& m) {
    std::vector<std::pair<std::string, std::string>> r; for (auto& i : S.ins) r.push_back({i.name, hexbytes(i.v, i.n, m)}); return r;
}
// Gives the inputs of a finished path varied values that still satisfy its path condition, so that
// the native comparison of sampled paths exercises more than the solver's default zeros.
static u64 rngState = 88172645463325252ull; static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static MRef diversify(const State& S, const MRef& m) {
    size_t n = S.ins.size(); if (!m.m || n > 120 || !n) return m;
    std::vector<u64> val(n); std::unordered_map<unsigned, size_t> idx;
    for (size_t i = 0; i < n; i++) { if (!S.ins[i].v.sym() || S.ins[i].v.w > 64 || Z3_get_ast_kind(C, S.ins[i].v.e.a) != Z3_APP_AST || Z3_get_app_num_args(C, Z3_to_app(C, S.ins[i].v.e.a))) return m; if (!evalBV(m, S.ins[i].v, val[i])) return m; idx[Z3_get_ast_id(C, S.ins[i].v.e.a)] = i; }
    std::vector<std::vector<Ex>> of(n); for (auto p = S.pc; p; p = p->up) for (unsigned l : leavesOf(p->e.a)) { auto it = idx.find(l); if (it == idx.end()) return m; of[it->second].push_back(p->e); }
    for (auto& o : S.obs) if (o.sym()) for (unsigned l : leavesOf(o.e.a)) if (!idx.count(l)) return m;
    auto build = [&]() { MRef x(Z3_mk_model(C)); for (size_t i = 0; i < n; i++) { Ex c = num(S.ins[i].v.w, val[i]); Z3_add_const_interp(C, x.m, Z3_get_app_decl(C, Z3_to_app(C, S.ins[i].v.e.a)), c.a); } return x; };
    for (size_t i = 0; i < n; i++) {
        if (of[i].size() > 40) continue; u64 old = val[i]; bool ok = false;
        for (int k = 0; k < 2 && !ok; k++) {
            u64 r = rnd(); if (k == 1) r &= 15; else if (S.ins[i].v.w == 64) { if (S.ins[i].name[0] == 'c' || (r & 1)) r = (r & 0x800fffffffffffffull) | ((u64)(1023 - 40 + rnd() % 80) << 52); } val[i] = r & maskw(S.ins[i].v.w);
            MRef x = build(); ok = true;
            for (auto& e : of[i]) { Z3_ast a; if (!Z3_model_eval(C, x.m, e.a, true, &a)) { ok = false; break; } Ex kx(a); if (Z3_get_bool_value(C, kx.a) != Z3_L_TRUE) { ok = false; break; } }
        }
        if (!ok) val[i] = old;
    }
    return build();
}
static void report(State& S, const std::string& kind, const std::string& msg, const std::vector<Ex>& extra, MRef m) {
    std::string w = where(S, false); std::string key = kind + "|" + msg + "|" + w;
    if (viols.size() >= optMaxViol || !violKeys.insert(key).second) return;
    if (!S.rounds.empty()) {  // prefer doubles that really change when printed with few digits
        std::vector<Ex> x = extra; static const double hard[] = {0.12345678901234567, 1234567.8912345678, 3.1415926535897931e-7, -2.7182818284590451e9, 9.8765432109876543}; int k = 0;
        for (auto& r : S.rounds) { double d = hard[k++ % 5]; u64 b; memcpy(&b, &d, 8); Ex nb = num(64, b); x.push_back(exeq(r.first, nb)); }
        MRef m2; try { if (check(S, x, &m2)) m = m2; } catch (Kill&) {}
    }
    Violation v; v.kind = kind; v.msg = msg; v.where = w; v.trace = where(S, true); v.inputs = inputsOf(S, m); v.approx = S.approx; viols.push_back(v);
    fprintf(stderr, "[symex] VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str());
}
[[noreturn]] static void violate(State& S, const std::string& kind, const std::string& msg) { report(S, kind, msg, {}, S.model); throw Kill{"violation", false}; }
[[noreturn]] static void unsupported(const std::string& msg) { throw Kill{"unsupported: " + msg, true}; }

static std::string locOf(const Instruction* I, const FnInfo* f) {
    std::string s = f->name; if (I) if (auto& dl = I->getDebugLoc()) { s += " ("; auto* sc = cast<DIScope>(dl->getScope()); s += sc->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")"; } return s;
}
static std::string where(const State& S, bool full) {
    std::string r; for (int i = (int)S.st.size() - 1; i >= 0; i--) {
        auto& f = S.st[i]; std::string l = locOf(f.pc < f.fn->code.size() ? f.fn->code[f.pc].I : nullptr, f.fn);
        if (full) r += (r.empty() ? "" : " <- ") + l;
        else if (l.find("/repo/") != std::string::npos || l.find("harness") != std::string::npos) return l;
        if (full && r.size() > 3000) break;
    }
    return r;
}

// ------------------------------------------------------------------ forking helpers
static std::unique_ptr<State> cloneS(const State& S) { stForks++; return std::make_unique<State>(S); }
// decide a boolean; forks when both outcomes are feasible (the other outcome re-executes the instruction)
static bool decide(State& S, const Val& v0) {
    Val t; const Val& v = res(S, v0, t);
    if (!v.sym()) return v.c & 1;
    if (optUninit && hasUninit(v.e.a)) violate(S, "uninitialised", "branch depends on an uninitialised value");
    Ex e = v.e; bool mv; MRef mt = S.model, mf = S.model; bool ct, cf; Ex ne = exnot(e);
    if (evalBool(S, e, mv)) { if (mv) { ct = true; cf = check(S, {ne}, &mf); } else { cf = true; ct = check(S, {e}, &mt); } }
    else { ct = check(S, {e}, &mt); cf = check(S, {ne}, &mf); }
    if (ct && cf) {
        auto o = cloneS(S); addPC(*o, ne); learn(*o, e, 1, 0); o->model = mf; work.push_back(std::move(o));
        addPC(S, e); learn(S, e, 1, 1); S.model = mt; return true;
    }
    if (!ct && !cf) throw Kill{"infeasible", false};
    if (ct) { learn(S, e, 1, 1); return true; } learn(S, e, 1, 0); return false;
}
static u64 concretize(State& S, const Val& v0, const char* what) {
    Val t; const Val v = res(S, v0, t);
    if (!v.sym()) return v.c;
    if (optUninit && hasUninit(v.e.a)) violate(S, "uninitialised", std::string(what) + " depends on an uninitialised value");
    std::vector<std::pair<u64, MRef>> vals; std::vector<Ex> ex; u64 x;
    if (evalBV(S.model, v, x)) { vals.push_back({x, S.model}); ex.push_back(exnot(exeq(v.e, num(v.w, x)))); }
    for (;;) {
        MRef m; if (!check(S, ex, &m)) break; if (!evalBV(m, v, x)) unsupported("model evaluation");
        vals.push_back({x, m}); ex.push_back(exnot(exeq(v.e, num(v.w, x))));
        if (vals.size() > optEnum) {  // go on with some small values; the run is reported as incomplete
            softErrors.insert(std::string("too many values for ") + what + " (only some explored)");
            vals.resize(4);
            for (u64 k : {0, 1, 2, 3, 4, 5, 8, 16, 64}) { bool have = false; for (auto& q : vals) have |= q.first == k; MRef mk; if (!have && check(S, {exeq(v.e, num(v.w, k))}, &mk)) vals.push_back({k, mk}); }
            break;
        }
    }
    if (vals.empty()) throw Kill{"infeasible", false};
    for (size_t i = vals.size(); i-- > 1;) { auto o = cloneS(S); Ex q = exeq(v.e, num(v.w, vals[i].first)); addPC(*o, q); learn(*o, v.e, v.w, vals[i].first); o->model = vals[i].second; work.push_back(std::move(o)); }
    if (vals.size() > 1) addPC(S, exeq(v.e, num(v.w, vals[0].first)));
    learn(S, v.e, v.w, vals[0].first); S.model = vals[0].second; return vals[0].first;
}

// ------------------------------------------------------------------ memory access
static Obj* access(State& S, u64 addr, u64 n, bool write, u64& id, u64& off) {
    if (addr < baseOf(0) - BASEOFF) {
        if (addr < 4096) violate(S, "memory", std::string(write ? "write" : "read") + " through null pointer");
        violate(S, "memory", "access through wild pointer");
    }
    id = (addr >> 32) - FIRST_ID; off = (addr & 0xffffffff) - BASEOFF; Obj* o = S.mem.get(id);
    if (!o) violate(S, "memory", std::string(write ? "write" : "read") + (id < S.mem.n ? " of freed memory or dead stack slot" : " through wild pointer"));
    if ((addr & 0xffffffff) < BASEOFF || off > o->size || n > o->size - off) violate(S, "memory", std::string(write ? "write" : "read") + " out of bounds of a " + (o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global") + " object");
    if (write && o->ro) violate(S, "memory", "write to constant data");
    if (o->kind == K_EXTERN) unsupported(std::string("access to external object ") + o->name);
    if (write) o = S.mem.getW(id);
    return o;
}
static Val byteVal(const Obj* o, u64 i) {
    if (o->st[i] == 0) return mkc(8, o->b[i]);
    const SymB& s = o->s[i]; Ex x(Z3_mk_extract(C, s.idx * 8 + 7, s.idx * 8, s.e.a)); return V(x, 8);
}
static void ensureS(Obj* o) { if (!o->s) o->s = new SymB[o->size]; }
static Val loadC(State& S, u64 addr, u32 n, u32 w) {
    u64 id, off; Obj* o = access(S, addr, n, false, id, off);
    bool allc = true, anyu = false; for (u32 i = 0; i < n; i++) { if (o->st[off + i]) allc = false; if (o->st[off + i] == 2) anyu = true; }
    if (allc && n <= 8) { u64 c = 0; memcpy(&c, o->b + off, n); if (w == 1) return mkc(1, c & 1); return mkc(w, c); }
    if (anyu) {
        o = S.mem.getW(id); ensureS(o); u32 i = 0;
        while (i < n) { if (o->st[off + i] != 2) { i++; continue; } u32 j = i; while (j < n && o->st[off + j] == 2) j++; Ex f = freshBV("uninit!" + std::to_string(uninitCtr++), (j - i) * 8); for (u32 k = i; k < j; k++) { o->st[off + k] = 1; o->s[off + k] = {f, k - i, j - i}; } i = j; }
    }
    // whole value?
    if (o->st[off] == 1) { const SymB& s = o->s[off]; if (s.idx == 0 && s.n == n) { bool ok = true; for (u32 i = 1; i < n && ok; i++) ok = o->st[off + i] == 1 && o->s[off + i].e.a == s.e.a && o->s[off + i].idx == i; if (ok) { Val v; v.w = n * 8; v.e = s.e; if (w == n * 8) { Val t; return res(S, v, t); } if (w == 1) { Ex x(Z3_mk_extract(C, 0, 0, s.e.a)); return V(bv2b(x), 1); } return V(Ex(Z3_mk_extract(C, w - 1, 0, s.e.a)), w); } } }
    Ex acc; u32 i = 0; std::vector<Ex> parts;
    while (i < n) {
        if (o->st[off + i] == 1) { const SymB& s = o->s[off + i]; u32 j = i + 1; while (j < n && o->st[off + j] == 1 && o->s[off + j].e.a == s.e.a && o->s[off + j].idx == s.idx + (j - i)) j++; parts.push_back(Ex(Z3_mk_extract(C, (s.idx + (j - i)) * 8 - 1, s.idx * 8, s.e.a))); i = j; }
        else { u32 j = i; u64 c = 0; while (j < n && o->st[off + j] == 0 && j - i < 8) { c |= (u64)o->b[off + j] << (8 * (j - i)); j++; } parts.push_back(num((j - i) * 8, c)); i = j; }
    }
    acc = parts[0]; for (size_t k = 1; k < parts.size(); k++) acc = Ex(Z3_mk_concat(C, parts[k].a, acc.a));
    if (w == 1) { Ex x(Z3_mk_extract(C, 0, 0, acc.a)); return V(bv2b(x), 1); }
    if (w != n * 8) acc = Ex(Z3_mk_extract(C, w - 1, 0, acc.a));
    Val r = V(acc, w); Val t; return res(S, r, t);
}
static void storeC(State& S, u64 addr, u32 n, const Val& v0) {
    u64 id, off; Obj* o = access(S, addr, n, true, id, off); Val t; Val v = res(S, v0, t);
    if (!v.sym()) { if (n <= 8) { memcpy(o->b + off, &v.c, n); } else { memset(o->b + off, 0, n); memcpy(o->b + off, &v.c, 8); } if (o->s) for (u32 i = 0; i < n; i++) if (o->st[off + i] == 1) o->s[off + i].e = Ex(); memset(o->st + off, v.undef ? 2 : 0, n); return; }
    Ex e = v.e; if (v.w == 1) e = b2bv(e, n * 8); else if (v.w < n * 8) e = Ex(Z3_mk_zero_ext(C, n * 8 - v.w, e.a));
    ensureS(o); for (u32 i = 0; i < n; i++) { o->st[off + i] = 1; o->s[off + i] = {e, i, n}; }
}
// resolve a possibly symbolic address for an n-byte access; returns a concrete address after forking
static u64 resolveAddr(State& S, const Val& a0, u64 n, bool write) {
    Val t; const Val a = res(S, a0, t); if (!a.sym()) return a.c;
    if (optUninit && hasUninit(a.e.a)) violate(S, "uninitialised", "address depends on an uninitialised value");
    u64 x; if (!evalBV(S.model, a, x)) unsupported("address model");
    u64 id = (x >> 32) - FIRST_ID; Obj* o = x >= baseOf(0) - BASEOFF ? S.mem.get(id) : nullptr;
    if (!o || n > o->size) { u64 i2, of2; access(S, x, n, write, i2, of2); unsupported("address"); }
    Ex lo = num(64, baseOf(id)), hi = num(64, baseOf(id) + o->size - n);
    Ex l(Z3_mk_bvuge(C, a.e.a, lo.a)), h(Z3_mk_bvule(C, a.e.a, hi.a)); Z3_ast args[2] = {l.a, h.a}; Ex in = simp(Ex(Z3_mk_and(C, 2, args))), out = exnot(in);
    bool mi; if (!evalBool(S, in, mi)) unsupported("address model");
    if (!mi) { u64 i2, of2; access(S, x, n, write, i2, of2); }
    MRef m; if (check(S, {out}, &m)) { auto oth = cloneS(S); addPC(*oth, out); oth->model = m; work.push_back(std::move(oth)); addPC(S, in); }
    return concretize(S, a, "address");
}
// loads of a symbolic element of a small constant table become an if-then-else chain
static bool tableLoad(State& S, const Val& a, u32 n, u32 w, Val& out) {
    u64 x; if (!evalBV(S.model, a, x)) return false; if (x < baseOf(0) - BASEOFF) return false; u64 id = (x >> 32) - FIRST_ID; Obj* o = S.mem.get(id);
    if (!o || o->kind == K_EXTERN || o->size > 4096 || n > o->size || o->size / n > 300 || n > 8) return false;
    for (u64 i = 0; i < o->size; i++) if (o->st[i]) return false;
    if (!o->ro && !(o->kind == K_STACK)) return false;
    if (optUninit && hasUninit(a.e.a)) violate(S, "uninitialised", "address depends on an uninitialised value");
    Ex lo = num(64, baseOf(id)), hi = num(64, baseOf(id) + o->size - n);
    Ex l(Z3_mk_bvuge(C, a.e.a, lo.a)), h(Z3_mk_bvule(C, a.e.a, hi.a)); Z3_ast args[2] = {l.a, h.a}; Ex in = simp(Ex(Z3_mk_and(C, 2, args))), outE = exnot(in);
    bool mi; if (!evalBool(S, in, mi)) return false; if (!mi) { u64 i2, of2; access(S, x, n, false, i2, of2); return false; }
    Ex rem(Z3_mk_bvurem(C, Ex(Z3_mk_bvsub(C, a.e.a, lo.a)).a, num(64, n).a)); MRef m;
    if (check(S, {in, exnot(exeq(rem, num(64, 0)))}, nullptr)) return false;
    if (check(S, {outE}, &m)) { auto oth = cloneS(S); addPC(*oth, outE); oth->model = m; work.push_back(std::move(oth)); addPC(S, in); }
    Ex acc; for (u64 k = o->size / n; k-- > 0;) { u64 c = 0; memcpy(&c, o->b + k * n, n); Ex cv = num(w, w == 1 ? (c & 1) : c); if (!acc) { acc = cv; continue; } Ex cond = Ex(Z3_mk_eq(C, a.e.a, num(64, baseOf(id) + k * n).a)); acc = Ex(Z3_mk_ite(C, cond.a, cv.a, acc.a)); }
    out = V(acc, w); return true;
}
static std::string cstr(State& S, u64 p) { std::string s; for (;;) { Val v = loadC(S, p++, 1, 8); if (v.sym()) unsupported("symbolic C string"); if (!v.c) return s; s += (char)v.c; if (s.size() > 100000) unsupported("string"); } }

static void copyBytes(State& S, u64 d, u64 s, u64 n) {
    if (!n) return; u64 di, doff, si, soff; Obj* so = access(S, s, n, false, si, soff); Obj* dO = access(S, d, n, true, di, doff); so = S.mem.get(si);
    bool anyS = false; for (u64 i = 0; i < n; i++) if (so->st[soff + i] == 1) { anyS = true; break; }
    if (!anyS) { if (dO->s) for (u64 i = 0; i < n; i++) if (dO->st[doff + i] == 1) dO->s[doff + i].e = Ex(); memmove(dO->b + doff, so->b + soff, n); memmove(dO->st + doff, so->st + soff, n); return; }
    ensureS(dO);
    auto one = [&](u64 i) { uint8_t st = so->st[soff + i]; if (st == 1) { SymB t = so->s[soff + i]; dO->s[doff + i] = t; } dO->b[doff + i] = so->b[soff + i]; dO->st[doff + i] = st; };
    if (di == si && doff > soff) for (u64 i = n; i-- > 0;) one(i); else for (u64 i = 0; i < n; i++) one(i);
}

// ------------------------------------------------------------------ types and constants
static u32 widthOf(Type* T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; if (T->isX86_FP80Ty()) return 80; return 0;
}
static Val undefOf(Type* T);
static Val zeroOf(Type* T) {
    if (u32 w = widthOf(T)) { if (w <= 64) return mkc(w, 0); return V(num(w, 0), w); }
    Val v; v.agg = std::make_shared<Agg>();
    if (auto* st = dyn_cast<StructType>(T)) for (auto* e : st->elements()) v.agg->f.push_back(zeroOf(e));
    else if (auto* at = dyn_cast<ArrayType>(T)) for (u64 i = 0; i < at->getNumElements(); i++) v.agg->f.push_back(zeroOf(at->getElementType()));
    else unsupported("type in constant"); return v;
}
static Val undefOf(Type* T) { Val v = zeroOf(T); if (!v.agg) v.undef = true; else for (auto& f : v.agg->f) f.undef = true; return v; }
static u64 fnAddr(Function* F) { return fnOf[F]->addr; }
static Val binop(State* S, unsigned op, const Val& a, const Val& b);
static Val constVal(const Constant* K) {
    Type* T = K->getType();
    if (auto* ci = dyn_cast<ConstantInt>(K)) { u32 w = T->getIntegerBitWidth(); if (w <= 64) return mkc(w, ci->getZExtValue()); SmallString<64> s; ci->getValue().toStringUnsigned(s); return V(Ex(Z3_mk_numeral(C, s.c_str(), bvsort(w))), w); }
    if (auto* cf = dyn_cast<ConstantFP>(K)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return mkc(b.getBitWidth(), b.getZExtValue()); SmallString<64> s; b.toStringUnsigned(s); return V(Ex(Z3_mk_numeral(C, s.c_str(), bvsort(b.getBitWidth()))), b.getBitWidth()); }
    if (isa<ConstantPointerNull>(K)) return mkc(64, 0);
    if (isa<UndefValue>(K)) return undefOf(T);
    if (isa<ConstantAggregateZero>(K)) return zeroOf(T);
    if (auto* f = dyn_cast<Function>(K)) return mkc(64, fnAddr(const_cast<Function*>(f)));
    if (auto* g = dyn_cast<GlobalVariable>(K)) return mkc(64, gaddr[g]);
    if (auto* ga = dyn_cast<GlobalAlias>(K)) return constVal(ga->getAliasee());
    if (isa<ConstantAggregate>(K) || isa<ConstantDataSequential>(K)) {
        Val v; v.agg = std::make_shared<Agg>(); unsigned n = isa<ConstantDataSequential>(K) ? cast<ConstantDataSequential>(K)->getNumElements() : K->getNumOperands();
        for (unsigned i = 0; i < n; i++) v.agg->f.push_back(constVal(K->getAggregateElement(i))); return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(K)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("constant gep"); Val b = constVal(ce->getOperand(0)); return mkc(64, b.c + off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: { Val b = constVal(ce->getOperand(0)); return mkc(widthOf(T), b.c); }
        case Instruction::Trunc: { Val b = constVal(ce->getOperand(0)); return mkc(widthOf(T), b.c); }
        case Instruction::ICmp: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); if (ce->getPredicate() == CmpInst::ICMP_NE) return mkc(1, a.c != b.c); if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkc(1, a.c == b.c); break; }
        default: if (ce->getNumOperands() == 2) return binop(nullptr, ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
        }
    }
    std::string s; raw_string_ostream os(s); K->print(os); unsupported("constant " + os.str());
}
static Val loadT(State& S, u64 addr, Type* T) {
    if (u32 w = widthOf(T)) return loadC(S, addr, (w + 7) / 8, w);
    Val v; v.agg = std::make_shared<Agg>();
    if (auto* st = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->f.push_back(loadT(S, addr + L->getElementOffset(i), st->getElementType(i))); return v; }
    if (auto* at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) v.agg->f.push_back(loadT(S, addr + i * es, at->getElementType())); return v; }
    unsupported("load type");
}
static void storeT(State& S, u64 addr, Type* T, const Val& v) {
    if (u32 w = widthOf(T)) { storeC(S, addr, (w + 7) / 8, v); return; }
    if (auto* st = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(S, addr + L->getElementOffset(i), st->getElementType(i), v.agg->f[i]); return; }
    if (auto* at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeT(S, addr + i * es, at->getElementType(), v.agg->f[i]); return; }
    unsupported("store type");
}

// ------------------------------------------------------------------ arithmetic
static Ex fpOf(const Val& v) { Ex e = X(v); Z3_sort s = v.w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); return Ex(Z3_mk_fpa_to_fp_bv(C, e.a, s)); }
static Ex rne() { return Ex(Z3_mk_fpa_rne(C)); }
static double asD(const Val& v) { if (v.w == 64) { double d; memcpy(&d, &v.c, 8); return d; } float f; u32 b = (u32)v.c; memcpy(&f, &b, 4); return f; }
static Val ofD(double d, u32 w) { if (w == 64) { u64 b; memcpy(&b, &d, 8); return mkc(64, b); } float f = (float)d; u32 b; memcpy(&b, &f, 4); return mkc(32, b); }
static Val binop(State* S, unsigned op, const Val& a, const Val& b) {
    u32 w = a.w;
    if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv) {
        if (w > 64) unsupported("long double arithmetic");
        if (!a.sym() && !b.sym()) { double x = asD(a), y = asD(b), r; r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; return ofD(r, w); }
        Ex x = fpOf(a), y = fpOf(b), m = rne(); Ex r(op == Instruction::FAdd ? Z3_mk_fpa_add(C, m.a, x.a, y.a) : op == Instruction::FSub ? Z3_mk_fpa_sub(C, m.a, x.a, y.a) : op == Instruction::FMul ? Z3_mk_fpa_mul(C, m.a, x.a, y.a) : Z3_mk_fpa_div(C, m.a, x.a, y.a)); return V(Ex(Z3_mk_fpa_to_ieee_bv(C, r.a)), w);
    }
    if (!a.sym() && !b.sym() && w <= 64) {
        u64 x = a.c, y = b.c;
        switch (op) {
        case Instruction::Add: return mkc(w, x + y); case Instruction::Sub: return mkc(w, x - y); case Instruction::Mul: return mkc(w, x * y);
        case Instruction::And: return mkc(w, x & y); case Instruction::Or: return mkc(w, x | y); case Instruction::Xor: return mkc(w, x ^ y);
        case Instruction::Shl: return mkc(w, y >= w ? 0 : x << y); case Instruction::LShr: return mkc(w, y >= w ? 0 : x >> y); case Instruction::AShr: return mkc(w, (u64)(sx(x, w) >> (y >= w ? w - 1 : y)));
        case Instruction::UDiv: if (!y) break; return mkc(w, x / y); case Instruction::URem: if (!y) break; return mkc(w, x % y);
        case Instruction::SDiv: if (!y) break; if (sx(y, w) == -1) return mkc(w, -x); return mkc(w, (u64)(sx(x, w) / sx(y, w)));
        case Instruction::SRem: if (!y) break; if (sx(y, w) == -1) return mkc(w, 0); return mkc(w, (u64)(sx(x, w) % sx(y, w)));
        }
        if (S) violate(*S, "crash", "division by zero"); unsupported("constant division");
    }
    if (w > 1 && w <= 64 && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) {
        // cheap local rules; long accumulations (r |= a ^ b) are not worth a full simplification at every step
        if (a.sym() && b.sym()) {
            if (a.e.a == b.e.a) return op == Instruction::Xor ? mkc(w, 0) : a;
            return V(Ex(op == Instruction::And ? Z3_mk_bvand(C, a.e.a, b.e.a) : op == Instruction::Or ? Z3_mk_bvor(C, a.e.a, b.e.a) : Z3_mk_bvxor(C, a.e.a, b.e.a)), w, false);
        }
        const Val &k = a.sym() ? b : a, &v = a.sym() ? a : b;
        if (k.c == 0) return op == Instruction::And ? mkc(w, 0) : v;
        if (k.c == maskw(w) && op != Instruction::Xor) return op == Instruction::And ? v : mkc(w, k.c);
    }
    Ex x = X(a), y = X(b); Z3_ast args[2] = {x.a, y.a};
    if (w == 1) switch (op) {
        case Instruction::And: return V(Ex(Z3_mk_and(C, 2, args)), 1); case Instruction::Or: return V(Ex(Z3_mk_or(C, 2, args)), 1);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return V(Ex(Z3_mk_xor(C, x.a, y.a)), 1); case Instruction::Mul: return V(Ex(Z3_mk_and(C, 2, args)), 1); default: unsupported("i1 op"); }
    switch (op) {
    case Instruction::Add: return V(Ex(Z3_mk_bvadd(C, x.a, y.a)), w); case Instruction::Sub: return V(Ex(Z3_mk_bvsub(C, x.a, y.a)), w); case Instruction::Mul: return V(Ex(Z3_mk_bvmul(C, x.a, y.a)), w);
    case Instruction::And: return V(Ex(Z3_mk_bvand(C, x.a, y.a)), w); case Instruction::Or: return V(Ex(Z3_mk_bvor(C, x.a, y.a)), w); case Instruction::Xor: return V(Ex(Z3_mk_bvxor(C, x.a, y.a)), w);
    case Instruction::Shl: return V(Ex(Z3_mk_bvshl(C, x.a, y.a)), w); case Instruction::LShr: return V(Ex(Z3_mk_bvlshr(C, x.a, y.a)), w); case Instruction::AShr: return V(Ex(Z3_mk_bvashr(C, x.a, y.a)), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        if (S) { Val z = V(Ex(Z3_mk_eq(C, y.a, num(w, 0).a)), 1); Val t; z = res(*S, z, t); if (z.sym()) { MRef m; if (check(*S, {z.e}, &m)) { report(*S, "crash", "division by zero", {z.e}, m); Ex nz = exnot(z.e); MRef m2; if (!check(*S, {nz}, &m2)) throw Kill{"violation", false}; addPC(*S, nz); S->model = m2; } } else if (z.c) violate(*S, "crash", "division by zero"); }
        Z3_ast r = op == Instruction::UDiv ? Z3_mk_bvudiv(C, x.a, y.a) : op == Instruction::URem ? Z3_mk_bvurem(C, x.a, y.a) : op == Instruction::SDiv ? Z3_mk_bvsdiv(C, x.a, y.a) : Z3_mk_bvsrem(C, x.a, y.a); return V(Ex(r), w); }
    }
    unsupported("binary operator");
}
static Val icmp(unsigned p, const Val& a, const Val& b) {
    u32 w = a.w;
    if (!a.sym() && !b.sym() && w <= 64) {
        u64 x = a.c, y = b.c; i64 sxx = sx(x, w), sy = sx(y, w); bool r = false;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sxx > sy; break; case CmpInst::ICMP_SGE: r = sxx >= sy; break; case CmpInst::ICMP_SLT: r = sxx < sy; break; case CmpInst::ICMP_SLE: r = sxx <= sy; break; }
        return mkc(1, r);
    }
    Ex x = X(a), y = X(b);
    if (w == 1) { Ex e; if (p == CmpInst::ICMP_EQ) e = Ex(Z3_mk_eq(C, x.a, y.a)); else if (p == CmpInst::ICMP_NE) e = Ex(Z3_mk_xor(C, x.a, y.a)); else unsupported("i1 compare"); return V(e, 1); }
    Z3_ast r = nullptr;
    switch (p) { case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x.a, y.a); break; case CmpInst::ICMP_NE: { Ex q(Z3_mk_eq(C, x.a, y.a)); return V(Ex(Z3_mk_not(C, q.a)), 1); } case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x.a, y.a); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x.a, y.a); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x.a, y.a); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x.a, y.a); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x.a, y.a); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x.a, y.a); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x.a, y.a); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x.a, y.a); break; }
    return V(Ex(r), 1);
}
static Val fcmp(unsigned p, const Val& a, const Val& b) {
    if (a.w > 64) unsupported("long double");
    if (!a.sym() && !b.sym()) { double x = asD(a), y = asD(b); bool u = std::isnan(x) || std::isnan(y), r = false; unsigned q = p; bool lt = x < y, gt = x > y, eq = x == y;
        r = ((q & 1) && eq) || ((q & 2) && gt) || ((q & 4) && lt) || ((q & 8) && u); return mkc(1, r); }
    Ex x = fpOf(a), y = fpOf(b); std::vector<Ex> alts; if (p & 1) alts.push_back(Ex(Z3_mk_fpa_eq(C, x.a, y.a))); if (p & 2) alts.push_back(Ex(Z3_mk_fpa_gt(C, x.a, y.a))); if (p & 4) alts.push_back(Ex(Z3_mk_fpa_lt(C, x.a, y.a)));
    if (p & 8) { Ex n1(Z3_mk_fpa_is_nan(C, x.a)), n2(Z3_mk_fpa_is_nan(C, y.a)); alts.push_back(n1); alts.push_back(n2); }
    std::vector<Z3_ast> as; for (auto& e : alts) as.push_back(e.a); if (as.empty()) return mkc(1, 0); return V(Ex(Z3_mk_or(C, as.size(), as.data())), 1);
}
static Val castop(State& S, unsigned op, const Val& a, u32 w) {
    switch (op) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (a.w == w) return a; if (op == Instruction::BitCast) unsupported("bitcast"); return castop(S, a.w > w ? Instruction::Trunc : Instruction::ZExt, a, w);
    case Instruction::Trunc: if (!a.sym()) return mkc(w, a.c); if (w == 1) { Ex x(Z3_mk_extract(C, 0, 0, a.e.a)); return V(bv2b(x), 1); } return V(Ex(Z3_mk_extract(C, w - 1, 0, a.e.a)), w);
    case Instruction::ZExt: if (!a.sym()) { if (w <= 64) return mkc(w, a.c); return V(num(w, a.c), w); } if (a.w == 1) return V(b2bv(a.e, w), w); return V(Ex(Z3_mk_zero_ext(C, w - a.w, a.e.a)), w);
    case Instruction::SExt: if (!a.sym() && w <= 64) return mkc(w, (u64)sx(a.c, a.w)); { Ex e = X(a); if (a.w == 1) { Ex m1 = num(w, maskw(w)), z = num(w, 0); if (w > 64) unsupported("sext"); return V(Ex(Z3_mk_ite(C, e.a, m1.a, z.a)), w); } return V(Ex(Z3_mk_sign_ext(C, w - a.w, e.a)), w); }
    case Instruction::SIToFP: case Instruction::UIToFP: { if (w > 64) unsupported("long double"); bool s = op == Instruction::SIToFP; if (!a.sym()) return ofD(w == 32 ? (s ? (double)(float)sx(a.c, a.w) : (double)(float)a.c) : (s ? (double)sx(a.c, a.w) : (double)a.c), w); if (a.w == 1) return castop(S, op, castop(S, s ? Instruction::SExt : Instruction::ZExt, a, 8), w); Z3_sort so = w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, so)); Ex m = rne(); Ex f(s ? Z3_mk_fpa_to_fp_signed(C, m.a, a.e.a, so) : Z3_mk_fpa_to_fp_unsigned(C, m.a, a.e.a, so)); return V(Ex(Z3_mk_fpa_to_ieee_bv(C, f.a)), w); }
    case Instruction::FPToSI: case Instruction::FPToUI: { bool s = op == Instruction::FPToSI; if (a.w > 64) unsupported("long double"); if (!a.sym()) { double d = asD(a); if (!(d > -9.3e18 && d < 1.9e19)) return mkc(w, 0); return mkc(w, s || d < 0 ? (u64)(i64)d : (u64)d); } Ex f = fpOf(a); Ex m(Z3_mk_fpa_rtz(C)); return V(Ex(s ? Z3_mk_fpa_to_sbv(C, m.a, f.a, w) : Z3_mk_fpa_to_ubv(C, m.a, f.a, w)), w); }
    case Instruction::FPExt: case Instruction::FPTrunc: { if (w > 64 || a.w > 64) unsupported("long double"); if (!a.sym()) return ofD(asD(a), w); Ex f = fpOf(a); Ex m = rne(); Z3_sort so = w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, so)); Ex g(Z3_mk_fpa_to_fp_float(C, m.a, f.a, so)); return V(Ex(Z3_mk_fpa_to_ieee_bv(C, g.a)), w); }
    }
    unsupported("cast");
}

// ------------------------------------------------------------------ decoding
static FnInfo* info(Function* F) { return fnOf[F]; }
static int opnd(FnInfo* fi, const Value* v) {
    auto it = fi->slot.find(v); if (it != fi->slot.end()) return it->second;
    if (auto* k = dyn_cast<Constant>(v)) { fi->cpool.push_back(constVal(k)); int s = -(int)fi->cpool.size(); fi->slot[v] = s; return s; }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return -1000000;
    unsupported("operand");
}
static void decode(FnInfo* fi) {
    Function* F = fi->F; fi->decoded = true; u32 n = 0; for (auto& a : F->args()) fi->slot[&a] = n++;
    u32 b = 0; for (auto& B : *F) { fi->bbid[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) fi->slot[&I] = n++; }
    fi->nregs = n; fi->bbStart.resize(b); fi->phis.resize(b);
    for (auto& B : *F) {
        u32 id = fi->bbid[&B]; fi->bbStart[id] = fi->code.size();
        for (auto& I : B) {
            if (auto* p = dyn_cast<PHINode>(&I)) { std::vector<std::pair<u32, int>> in; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) in.push_back({fi->bbid[p->getIncomingBlock(i)], opnd(fi, p->getIncomingValue(i))}); fi->phis[id].push_back({fi->slot[&I], in}); continue; }
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DI d; d.I = &I; d.op = I.getOpcode(); if (!I.getType()->isVoidTy()) d.dst = fi->slot[&I]; d.w = widthOf(I.getType());
            switch (d.op) {
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I); d.ops.push_back(opnd(fi, g->getPointerOperand()));
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    if (auto* st = it.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
                    u64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto* c = dyn_cast<ConstantInt>(it.getOperand())) d.off += (u64)(c->getSExtValue() * (i64)sc); else d.gep.push_back({opnd(fi, it.getOperand()), sc, widthOf(it.getOperand()->getType())});
                } break; }
            case Instruction::Br: { auto* br = cast<BranchInst>(&I); d.t0 = fi->bbid[br->getSuccessor(0)]; if (br->isConditional()) { d.ops.push_back(opnd(fi, br->getCondition())); d.t1 = fi->bbid[br->getSuccessor(1)]; } break; }
            case Instruction::Switch: d.ops.push_back(opnd(fi, cast<SwitchInst>(I).getCondition())); break;
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&I); for (auto& a : cb->args()) d.ops.push_back(isa<MetadataAsValue>(a.get()) ? -1000000 : opnd(fi, a.get()));
                d.aux = d.ops.size(); if (cb->isInlineAsm()) { d.ops.push_back(-1000000); } else d.ops.push_back(opnd(fi, cb->getCalledOperand()));
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.t0 = fi->bbid[iv->getNormalDest()]; d.t1 = fi->bbid[iv->getUnwindDest()]; } break; }
            case Instruction::LandingPad: break;
            case Instruction::Load: d.ops.push_back(opnd(fi, cast<LoadInst>(I).getPointerOperand())); break;
            case Instruction::Alloca: d.ops.push_back(opnd(fi, cast<AllocaInst>(I).getArraySize())); d.off = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()); break;
            default: for (auto& o : I.operands()) d.ops.push_back(opnd(fi, o.get())); if (I.getNumOperands()) d.w2 = widthOf(I.getOperand(0)->getType());
            }
            fi->code.push_back(std::move(d));
        }
    }
}

// ------------------------------------------------------------------ exceptions
static u64 tiId(u64 addr) { static std::map<u64, u64> m; auto it = m.find(addr); if (it != m.end()) return it->second; u64 n = m.size() + 1; return m[addr] = n; }
static std::string gname(u64 addr) { auto it = gById.find((addr >> 32) - FIRST_ID); return it == gById.end() ? "" : it->second->getName().str(); }
static const std::map<std::string, std::string>& stdBases() {
    static std::map<std::string, std::string> m = {{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
    return m;
}
static std::vector<std::pair<std::string, i64>> basesOf(const std::string& n) {
    std::vector<std::pair<std::string, i64>> r; auto it = stdBases().find(n); if (it != stdBases().end()) { r.push_back({it->second, 0}); return r; }
    auto* g = M->getNamedGlobal(n); if (!g || !g->hasInitializer()) return r; auto* in = dyn_cast<ConstantStruct>(g->getInitializer()); if (!in) return r;
    if (in->getNumOperands() == 3) { if (auto* b = dyn_cast<GlobalVariable>(in->getOperand(2)->stripPointerCasts())) r.push_back({b->getName().str(), 0}); }
    else if (in->getNumOperands() > 4) for (unsigned i = 4; i + 1 < in->getNumOperands(); i += 2) if (auto* b = dyn_cast<GlobalVariable>(in->getOperand(i)->stripPointerCasts())) { i64 fl = cast<ConstantInt>(in->getOperand(i + 1))->getSExtValue(); r.push_back({b->getName().str(), fl >> 8}); }
    return r;
}
static bool derives(const std::string& t, const std::string& c, i64& off) { if (t == c) return true; for (auto& b : basesOf(t)) { i64 o = 0; if (derives(b.first, c, o)) { off += b.second + o; return true; } } return false; }

static void enterBB(State& S, Frame& f, u32 from, u32 to) {
    auto& ph = f.fn->phis[to];
    if (!ph.empty()) { std::vector<Val> vals; vals.reserve(ph.size()); for (auto& p : ph) { bool ok = false; for (auto& in : p.second) if (in.first == from) { vals.push_back(in.second >= 0 ? f.regs[in.second] : f.fn->cpool[-in.second - 1]); ok = true; break; } if (!ok) unsupported("phi"); } for (size_t i = 0; i < ph.size(); i++) f.regs[ph[i].first] = vals[i]; }
    f.bb = to; f.pc = f.fn->bbStart[to];
}
static void popFrame(State& S) { Frame& f = S.st.back(); for (u64 a : f.allocas) S.mem.kill(a); S.st.pop_back(); }
static const char* uncaughtMsg(const std::string& n) { static std::string s; s = "uncaught exception of type " + n; return s.c_str(); }
// transfer control to the handler for the exception in S.excObj/excTi; the current frame is the one below the throw
static void unwind(State& S) {
    while (!S.st.empty()) {
        Frame& f = S.st.back(); DI& d = f.fn->code[f.pc];
        if (d.op == Instruction::Invoke) {
            auto* lp = cast<InvokeInst>(d.I)->getUnwindDest()->getLandingPadInst(); bool match = lp->isCleanup(); std::string tn = gname(S.excTi);
            for (unsigned i = 0; i < lp->getNumClauses() && !match; i++) { if (lp->isFilter(i)) { match = true; break; } Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) match = true; else { i64 o = 0; if (derives(tn, c->stripPointerCasts()->getName().str(), o)) match = true; } }
            if (match) { u32 from = f.bb; enterBB(S, f, from, d.t1); return; }
        }
        popFrame(S);
    }
    std::string n = gname(S.excTi); report(S, "crash", uncaughtMsg(n), {}, S.model); throw Kill{"violation", false};
}
static void pushCall(State& S, FnInfo* fi, const std::vector<Val>& args, std::vector<Val> va = {}) {
    if (!fi->decoded) decode(fi); fi->executed = true; if (S.st.size() > 900) violate(S, "crash", "unbounded recursion");
    S.st.emplace_back(); Frame& f = S.st.back(); f.fn = fi; f.regs.resize(fi->nregs); for (size_t i = 0; i < args.size() && i < fi->F->arg_size(); i++) f.regs[i] = args[i]; f.varargs = std::move(va); f.bb = 0; f.pc = fi->bbStart[0];
}
static void finishCall(State& S, const Val& r) {  // the call instruction at the current pc completed with r
    Frame& f = S.st.back(); DI& d = f.fn->code[f.pc]; if (d.dst >= 0) f.regs[d.dst] = r; if (d.op == Instruction::Invoke) { u32 from = f.bb; enterBB(S, f, from, d.t0); } else f.pc++;
}
static FnInfo* byName(const char* n) { Function* F = M->getFunction(n); if (!F || F->isDeclaration()) return nullptr; return fnOf[F]; }

// ------------------------------------------------------------------ builtins
enum B { B_NONE, B_NEW, B_DELETE, B_MALLOC, B_CALLOC, B_FREE, B_REALLOC, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_MEMCHR, B_STRCMP, B_THROW, B_RETHROW, B_ALLOCEXC, B_FREEEXC, B_BEGINCATCH, B_ENDCATCH, B_NOP, B_GUARDACQ, B_GUARDREL, B_ABORT, B_ASSERTFAIL, B_EXIT, B_TYPEID, B_RET0, B_TRAP, B_OVF, B_MINMAX, B_EXPECT, B_ABS, B_CTZ, B_FABS, B_BSWAP, B_OBJSIZE, B_ISCONST, B_FSH,
    B_SYM, B_ASSUME, B_ASSERT, B_REACH, B_OBSERVE, B_CONC, B_ISSYM, B_SAME, B_IDENT, B_RESOLVE, B_HAVOC, B_APPROX, B_FMTD, B_STRTOD, B_ERROR, B_ROUND, B_NOTE, B_UNINITSCRUB, B_ERRNO, B_RET1, B_FAIL, B_BRANCHLESS, B_SATADD, B_VASTART, B_VACOPY, B_FPROUND, B_FPFUN, B_DYNCAST, B_CUREXC, B_RETHROWPTR };
static int builtinId(const std::string& n) {
    static std::map<std::string, int> m = {
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_MALLOC}, {"_ZnamRKSt9nothrow_t", B_MALLOC}, {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_REALLOC}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"strcmp", B_STRCMP}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_get_exception_ptr", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_atexit", B_RET0}, {"__cxa_thread_atexit", B_RET0}, {"pthread_mutex_lock", B_RET0}, {"pthread_mutex_unlock", B_RET0}, {"pthread_mutex_trylock", B_RET0}, {"__dynamic_cast", B_DYNCAST}, {"_ZSt17current_exceptionv", B_CUREXC}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", B_RETHROWPTR}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", B_NOP}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", B_NOP}, {"sqrt", B_FPFUN}, {"pow", B_FPFUN}, {"log10", B_FPFUN}, {"log2", B_FPFUN}, {"log", B_FPFUN}, {"fmod", B_FPFUN}, {"hypot", B_FPFUN}, {"nextafter", B_FPFUN}, {"atexit", B_RET0}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP}, {"abort", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_Exit", B_EXIT}, {"_exit", B_EXIT}, {"_ZSt18uncaught_exceptionv", B_RET0}, {"_ZSt19uncaught_exceptionsv", B_RET0}, {"__errno_location", B_ERRNO},
        {"vh_sym", B_SYM}, {"vh_assume", B_ASSUME}, {"vh_assert", B_ASSERT}, {"vh_reach", B_REACH}, {"vh_observe", B_OBSERVE}, {"vh_concretize", B_CONC}, {"vm_is_sym", B_ISSYM}, {"vm_same", B_SAME}, {"vm_ident", B_IDENT}, {"vm_resolve", B_RESOLVE}, {"vm_havoc", B_HAVOC}, {"vm_approx", B_APPROX}, {"vm_fmt_double", B_FMTD}, {"vm_strtod", B_STRTOD}, {"vm_error", B_ERROR}, {"vm_round", B_ROUND}, {"vh_note", B_NOTE}, {"vh_fail", B_FAIL}, {"vh_symbolic_mode", B_RET1}};
    auto it = m.find(n); if (it != m.end()) return it->second;
    auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY; if (pre("llvm.memset")) return B_MEMSET; if (pre("llvm.dbg") || pre("llvm.lifetime") || pre("llvm.experimental.noalias") || pre("llvm.assume") || pre("llvm.stackrestore") || pre("llvm.prefetch") || pre("llvm.donothing") || pre("llvm.va_end")) return B_NOP;
    if (pre("llvm.eh.typeid.for")) return B_TYPEID; if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return B_TRAP; if (n.find(".with.overflow.") != std::string::npos) return B_OVF; if (pre("llvm.umin") || pre("llvm.umax") || pre("llvm.smin") || pre("llvm.smax")) return B_MINMAX; if (pre("llvm.expect")) return B_EXPECT; if (pre("llvm.abs")) return B_ABS; if (pre("llvm.ctlz") || pre("llvm.cttz") || pre("llvm.ctpop")) return B_CTZ; if (pre("llvm.fabs")) return B_FABS; if (pre("llvm.objectsize")) return B_OBJSIZE; if (pre("llvm.is.constant")) return B_ISCONST; if (pre("llvm.stacksave")) return B_RET0; if (pre("llvm.bswap")) return B_BSWAP; if (pre("llvm.va_start")) return B_VASTART; if (pre("llvm.va_copy")) return B_VACOPY; if (pre("llvm.threadlocal.address") || pre("llvm.launder") || pre("llvm.strip.invariant")) return B_EXPECT; if (pre("llvm.floor") || pre("llvm.ceil") || pre("llvm.trunc.f") || pre("llvm.rint") || pre("llvm.nearbyint") || pre("llvm.round.f")) return B_FPROUND; if (pre("llvm.sqrt") || pre("llvm.copysign") || pre("llvm.maxnum") || pre("llvm.minnum") || pre("llvm.pow")) return B_FPFUN;
    return B_NONE;
}
static u64 allocObj(State& S, u64 size, uint8_t kind, uint8_t init) { return baseOf(S.mem.alloc(size, kind, init)); }
static u64 heapAlloc(State& S, const Val& sz, bool& fail, uint8_t init) {
    Val t; const Val s = res(S, sz, t); fail = false;
    if (s.sym()) { Val big = icmp(CmpInst::ICMP_UGT, s, mkc(64, optMaxAlloc)); if (decide(S, big)) { fail = true; return 0; } }
    u64 n = concretize(S, s, "allocation size"); if (n > optMaxAlloc) { fail = true; return 0; } return allocObj(S, n, K_HEAP, init);
}
static void freeObj(State& S, u64 p, const char* what) {
    if (!p) return; u64 id = (p >> 32) - FIRST_ID; Obj* o = p >= baseOf(0) ? S.mem.get(id) : nullptr;
    if (!o) violate(S, "memory", std::string("double free or wild ") + what); if (o->kind != K_HEAP || (p & 0xffffffff) != BASEOFF) violate(S, "memory", std::string("invalid ") + what); S.mem.kill(id);
}
static Ex byteEq(const Val& a, const Val& b) { return exeq(X(a), X(b)); }
struct BRes { Val v; bool handled = true; };  // handled=false: control already transferred

static BRes doBuiltin(State& S, int b, const std::vector<Val>& A0, DI& d, FnInfo* callee) {
    std::vector<Val> A = A0; for (auto& a : A) { Val t; a = res(S, a, t); }
    BRes R; auto ret = [&](const Val& v) { R.v = v; return R; };
    switch (b) {
    case B_NEW: { bool f; u64 p = heapAlloc(S, A[0], f, 2); if (f) { FnInfo* t = byName("_ZSt17__throw_bad_allocv"); if (!t) unsupported("bad_alloc"); pushCall(S, t, {}); R.handled = false; return R; } return ret(mkc(64, p)); }
    case B_MALLOC: { bool f; u64 p = heapAlloc(S, A[0], f, 2); return ret(mkc(64, f ? 0 : p)); }
    case B_CALLOC: { bool f; u64 p = heapAlloc(S, binop(&S, Instruction::Mul, A[0], A[1]), f, 0); return ret(mkc(64, f ? 0 : p)); }
    case B_DELETE: case B_FREE: freeObj(S, concretize(S, A[0], "pointer"), "free"); return R;
    case B_REALLOC: { u64 old = concretize(S, A[0], "pointer"); bool f; u64 p = heapAlloc(S, A[1], f, 2); if (f) return ret(mkc(64, 0)); if (old) { u64 id, off; Obj* o = access(S, old, 0, false, id, off); u64 n = std::min<u64>(o->size, S.mem.get((p >> 32) - FIRST_ID)->size); if (n) copyBytes(S, p, old, n); freeObj(S, old, "realloc"); } return ret(mkc(64, p)); }
    case B_VASTART: { Frame& f = S.st.back(); auto& va = f.varargs; u64 id = S.mem.alloc(va.size() * 8 + 8, K_STACK, 2); f.allocas.push_back(id); u64 b = baseOf(id);  // every argument in the overflow area of the System V va_list
        for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (v.w > 64) unsupported("variadic long double"); if (v.w < 64) v = castop(S, Instruction::ZExt, v, 64); storeC(S, b + 8 * i, 8, v); }
        storeC(S, A[0].c, 4, mkc(32, 48)); storeC(S, A[0].c + 4, 4, mkc(32, 176)); storeC(S, A[0].c + 8, 8, mkc(64, b)); storeC(S, A[0].c + 16, 8, mkc(64, 0)); return R; }
    case B_VACOPY: copyBytes(S, A[0].c, A[1].c, 24); return R;
    case B_FPROUND: { const std::string& n = callee->name; if (A[0].w != 64) unsupported("rounding of " + n); if (!A[0].sym()) { double x = asD(A[0]); x = n[5] == 'f' ? std::floor(x) : n[5] == 'c' ? std::ceil(x) : n[5] == 't' ? std::trunc(x) : n.compare(5, 5, "round") == 0 ? std::round(x) : std::rint(x); return ret(ofD(x, 64)); }
        Ex f = fpOf(A[0]); Ex m(n[5] == 'f' ? Z3_mk_fpa_rtn(C) : n[5] == 'c' ? Z3_mk_fpa_rtp(C) : n[5] == 't' ? Z3_mk_fpa_rtz(C) : n.compare(5, 5, "round") == 0 ? Z3_mk_fpa_rna(C) : Z3_mk_fpa_rne(C)); Ex r(Z3_mk_fpa_round_to_integral(C, m.a, f.a)); return ret(V(Ex(Z3_mk_fpa_to_ieee_bv(C, r.a)), 64)); }
    case B_FPFUN: { std::string n = callee->name; for (auto& a : A) if (a.w != 64 || a.sym()) unsupported("floating-point function " + n + " of a symbolic value"); if (n.compare(0, 5, "llvm.") == 0) n = n.substr(5, n.find('.', 5) - 5); double x = asD(A[0]), y = A.size() > 1 ? asD(A[1]) : 0; double r = n == "sqrt" ? std::sqrt(x) : n == "pow" ? std::pow(x, y) : n == "log10" ? std::log10(x) : n == "log2" ? std::log2(x) : n == "log" ? std::log(x) : n == "fmod" ? std::fmod(x, y) : n == "hypot" ? std::hypot(x, y) : n == "nextafter" ? std::nextafter(x, y) : n == "copysign" ? std::copysign(x, y) : n == "maxnum" ? std::fmax(x, y) : std::fmin(x, y); return ret(ofD(r, 64)); }
    case B_DYNCAST: { u64 p = concretize(S, A[0], "pointer"); if (!p) return ret(mkc(64, 0)); u64 vt = loadC(S, p, 8, 64).c; u64 ti = loadC(S, vt - 8, 8, 64).c; i64 top = (i64)loadC(S, vt - 16, 8, 64).c, o = 0; return ret(mkc(64, derives(gname(ti), gname(A[2].c), o) ? p + top + o : 0)); }
    case B_CUREXC: storeC(S, A[0].c, 8, mkc(64, S.caught.empty() ? 0 : S.caught.back().obj)); return R;
    case B_RETHROWPTR: { u64 o = loadC(S, A[0].c, 8, 64).c; auto it = S.excInfo.find(o); if (it == S.excInfo.end()) violate(S, "crash", "rethrow of no exception"); S.excObj = o; S.excTi = it->second; unwind(S); R.handled = false; return R; }
    case B_MEMCPY: { u64 n = concretize(S, A[2], "copy length"); if (n) { u64 s = resolveAddr(S, A[1], n, false); u64 dd = resolveAddr(S, A[0], n, true); copyBytes(S, dd, s, n); return ret(A[0]); } return ret(A[0]); }
    case B_MEMSET: { u64 n = concretize(S, A[2], "set length"); if (n) { u64 p = resolveAddr(S, A[0], n, true); u64 id, off; Obj* o = access(S, p, n, true, id, off); Val bv = castop(S, A[1].w == 8 ? Instruction::BitCast : Instruction::Trunc, A[1], 8); if (!bv.sym()) { if (o->s) for (u64 i = 0; i < n; i++) o->s[off + i].e = Ex(); memset(o->b + off, (int)bv.c, n); memset(o->st + off, 0, n); } else for (u64 i = 0; i < n; i++) storeC(S, p + i, 1, bv); } return ret(A[0]); }
    case B_MEMCMP: { u64 n = concretize(S, A[2], "compare length"); Val r = mkc(32, 0); if (!n) return ret(r); u64 p = resolveAddr(S, A[0], n, false), q = resolveAddr(S, A[1], n, false);
        for (u64 i = n; i-- > 0;) { Val x = loadC(S, p + i, 1, 8), y = loadC(S, q + i, 1, 8); Val eq = icmp(CmpInst::ICMP_EQ, x, y); if (!eq.sym() && eq.c) continue; Val lt = icmp(CmpInst::ICMP_ULT, x, y); Val dv = lt.sym() ? V(Ex(Z3_mk_ite(C, lt.e.a, num(32, 0xffffffff).a, num(32, 1).a)), 32) : mkc(32, lt.c ? 0xffffffff : 1); if (!eq.sym()) r = dv; else r = V(Ex(Z3_mk_ite(C, eq.e.a, X(r).a, X(dv).a)), 32); } return ret(r); }
    case B_STRLEN: { u64 p = concretize(S, A[0], "pointer"), n = 0; for (;; n++) { Val v = loadC(S, p + n, 1, 8); if (decide(S, icmp(CmpInst::ICMP_EQ, v, mkc(8, 0)))) break; } return ret(mkc(64, n)); }
    case B_MEMCHR: { u64 n = concretize(S, A[2], "length"), p = concretize(S, A[0], "pointer"); Val c = castop(S, Instruction::Trunc, A[1], 8); for (u64 i = 0; i < n; i++) { Val v = loadC(S, p + i, 1, 8); if (decide(S, icmp(CmpInst::ICMP_EQ, v, c))) return ret(mkc(64, p + i)); } return ret(mkc(64, 0)); }
    case B_STRCMP: { u64 p = concretize(S, A[0], "pointer"), q = concretize(S, A[1], "pointer"); for (u64 i = 0;; i++) { Val x = loadC(S, p + i, 1, 8), y = loadC(S, q + i, 1, 8); if (!decide(S, icmp(CmpInst::ICMP_EQ, x, y))) return ret(decide(S, icmp(CmpInst::ICMP_ULT, x, y)) ? mkc(32, 0xffffffff) : mkc(32, 1)); if (decide(S, icmp(CmpInst::ICMP_EQ, x, mkc(8, 0)))) return ret(mkc(32, 0)); } }
    case B_ALLOCEXC: { u64 n = concretize(S, A[0], "size"); return ret(mkc(64, allocObj(S, n, K_HEAP, 2))); }
    case B_FREEEXC: freeObj(S, A[0].c, "exception free"); return R;
    case B_THROW: S.excObj = A[0].c; S.excTi = A[1].c; S.excInfo[A[0].c] = A[1].c; unwind(S); R.handled = false; return R;
    case B_RETHROW: if (S.caught.empty()) violate(S, "crash", "rethrow without exception"); S.excObj = S.caught.back().obj; S.excTi = S.caught.back().ti; unwind(S); R.handled = false; return R;
    case B_BEGINCATCH: { u64 p = A[0].c; if (callee->name == "__cxa_begin_catch") { u64 ti = 0, ob = p; auto it = S.excInfo.find(p); if (it == S.excInfo.end()) { it = S.excInfo.upper_bound(p); if (it != S.excInfo.begin()) --it; } if (it != S.excInfo.end()) { ti = it->second; ob = it->first; } S.caught.push_back({ob, ti}); } return ret(mkc(64, p)); }
    case B_ENDCATCH: if (!S.caught.empty()) S.caught.pop_back(); return R;
    case B_NOP: return R;
    case B_RET0: return ret(mkc(d.w ? d.w : 32, 0)); case B_RET1: return ret(mkc(d.w, 1));
    case B_ERRNO: { static u64 id = 0; auto* g = M->getNamedGlobal("vm_errno"); if (!g) unsupported("errno"); (void)id; return ret(mkc(64, gaddr[g])); }
    case B_GUARDACQ: { Val v = loadC(S, A[0].c, 1, 8); return ret(mkc(32, v.c == 0)); }
    case B_GUARDREL: storeC(S, A[0].c, 1, mkc(8, 1)); return R;
    case B_ABORT: violate(S, "crash", "abort/terminate called");
    case B_ASSERTFAIL: violate(S, "crash", "assertion failed: " + cstr(S, A[0].c));
    case B_EXIT: violate(S, "crash", "exit called");
    case B_TRAP: violate(S, "crash", "trap");
    case B_TYPEID: return ret(mkc(32, tiId(A[0].c)));
    case B_EXPECT: return ret(A[0]);
    case B_OBJSIZE: return ret(mkc(d.w, maskw(d.w)));
    case B_ISCONST: return ret(mkc(1, A[0].sym() ? 0 : 1));
    case B_ABS: { Val neg = binop(&S, Instruction::Sub, mkc(A[0].w, 0), A[0]); Val lt = icmp(CmpInst::ICMP_SLT, A[0], mkc(A[0].w, 0)); if (!lt.sym()) return ret(lt.c ? neg : A[0]); return ret(V(Ex(Z3_mk_ite(C, lt.e.a, X(neg).a, X(A[0]).a)), A[0].w)); }
    case B_FABS: if (!A[0].sym()) return ret(mkc(A[0].w, A[0].c & (maskw(A[0].w) >> 1))); return ret(binop(&S, Instruction::And, A[0], mkc(A[0].w, maskw(A[0].w) >> 1)));
    case B_MINMAX: { const std::string& n = callee->name; unsigned p = n.find("llvm.umin") == 0 ? CmpInst::ICMP_ULT : n.find("llvm.umax") == 0 ? CmpInst::ICMP_UGT : n.find("llvm.smin") == 0 ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; Val c = icmp(p, A[0], A[1]); if (!c.sym()) return ret(c.c ? A[0] : A[1]); return ret(V(Ex(Z3_mk_ite(C, c.e.a, X(A[0]).a, X(A[1]).a)), A[0].w)); }
    case B_CTZ: { if (A[0].sym()) { u64 v = concretize(S, A[0], "bit count"); A[0] = mkc(A[0].w, v); } u32 w = A[0].w; u64 v = A[0].c, r; if (callee->name.find("llvm.ctpop") == 0) r = __builtin_popcountll(v); else if (callee->name.find("llvm.ctlz") == 0) r = v ? __builtin_clzll(v) - (64 - w) : w; else r = v ? __builtin_ctzll(v) : w; return ret(mkc(w, r)); }
    case B_BSWAP: { u32 w = A[0].w, n = w / 8; if (!A[0].sym()) { u64 r = 0; for (u32 i = 0; i < n; i++) r |= ((A[0].c >> (8 * i)) & 255) << (8 * (n - 1 - i)); return ret(mkc(w, r)); } Ex acc; for (u32 i = 0; i < n; i++) { Ex by(Z3_mk_extract(C, i * 8 + 7, i * 8, A[0].e.a)); acc = acc ? Ex(Z3_mk_concat(C, acc.a, by.a)) : by; } return ret(V(acc, w)); }
    case B_OVF: {
        const std::string& n = callee->name; u32 w = A[0].w; bool sg = n.find("llvm.s") == 0; char k = n[6]; unsigned op = k == 'a' ? Instruction::Add : k == 's' ? Instruction::Sub : Instruction::Mul; Val r = binop(&S, op, A[0], A[1]), o;
        if (!A[0].sym() && !A[1].sym() && w <= 64) { __int128 x = sg ? (__int128)sx(A[0].c, w) : (__int128)A[0].c, y = sg ? (__int128)sx(A[1].c, w) : (__int128)A[1].c, z; bool ov; if (k == 'm' && !sg) { unsigned __int128 zz = (unsigned __int128)A[0].c * A[1].c; ov = (zz >> w) != 0; } else { z = k == 'a' ? x + y : k == 's' ? x - y : x * y; ov = z != (sg ? (__int128)sx(r.c, w) : (__int128)r.c); } o = mkc(1, ov); }
        else { Ex x = X(A[0]), y = X(A[1]); Ex ok; if (k == 'a') { ok = Ex(Z3_mk_bvadd_no_overflow(C, x.a, y.a, sg)); if (sg) { Ex u(Z3_mk_bvadd_no_underflow(C, x.a, y.a)); Z3_ast aa[2] = {ok.a, u.a}; ok = Ex(Z3_mk_and(C, 2, aa)); } } else if (k == 's') { if (sg) { ok = Ex(Z3_mk_bvsub_no_overflow(C, x.a, y.a)); Ex u(Z3_mk_bvsub_no_underflow(C, x.a, y.a, true)); Z3_ast aa[2] = {ok.a, u.a}; ok = Ex(Z3_mk_and(C, 2, aa)); } else ok = Ex(Z3_mk_bvsub_no_underflow(C, x.a, y.a, false)); } else { ok = Ex(Z3_mk_bvmul_no_overflow(C, x.a, y.a, sg)); if (sg) { Ex u(Z3_mk_bvmul_no_underflow(C, x.a, y.a)); Z3_ast aa[2] = {ok.a, u.a}; ok = Ex(Z3_mk_and(C, 2, aa)); } } o = V(Ex(Z3_mk_not(C, ok.a)), 1); }
        Val v; v.agg = std::make_shared<Agg>(); v.agg->f = {r, o}; return ret(v); }
    // ---- harness interface
    case B_SYM: {
        u64 p = A[0].c, n = concretize(S, A[1], "size"); std::string nm = cstr(S, A[2].c); if (n > 8 || !n) unsupported("vh_sym size"); std::string un = nm + "#" + std::to_string(S.nsym++);
        Val v; v.w = n * 8; v.e = freshBV(un, n * 8); storeC(S, p, n, v); S.ins.push_back({un, (u32)n, v}); return R; }
    case B_ASSUME: { Val c = A[0]; if (c.w != 1) c = icmp(CmpInst::ICMP_NE, c, mkc(c.w, 0)); Val t; c = res(S, c, t); if (!c.sym()) { if (!c.c) throw Kill{"assume", false}; return R; } bool mv; if (evalBool(S, c.e, mv) && mv) { addPC(S, c.e); learn(S, c.e, 1, 1); return R; } MRef m; if (!check(S, {c.e}, &m)) throw Kill{"assume", false}; addPC(S, c.e); learn(S, c.e, 1, 1); S.model = m; return R; }
    case B_ASSERT: { stAsserts++; Val c = A[0]; if (c.w != 1) c = icmp(CmpInst::ICMP_NE, c, mkc(c.w, 0)); Val t; c = res(S, c, t); if (!c.sym()) { if (!c.c) violate(S, "assertion", cstr(S, A[1].c)); return R; }
        if (optUninit && hasUninit(c.e.a)) violate(S, "uninitialised", "result depends on an uninitialised value: " + cstr(S, A[1].c));
        stAssertQ++; Ex nc = exnot(c.e); MRef m; if (check(S, {nc}, &m)) { report(S, "assertion", cstr(S, A[1].c), {nc}, m); MRef m2; if (!check(S, {c.e}, &m2)) throw Kill{"violation", false}; addPC(S, c.e); S.model = m2; } learn(S, c.e, 1, 1); return R; }
    case B_FAIL: violate(S, "assertion", cstr(S, A[0].c));
    case B_REACH: reached.insert(cstr(S, A[0].c)); return R;
    case B_NOTE: S.notes.push_back(cstr(S, A[0].c)); return R;
    case B_OBSERVE: S.obs.push_back(A[0]); return R;
    case B_CONC: return ret(mkc(A[0].w, concretize(S, A[0], "choice")));
    case B_ISSYM: return ret(mkc(32, A[0].sym()));
    case B_RESOLVE: { if (!A[0].sym()) return ret(A[0]); u32 bw = A[0].w; std::vector<Z3_ast> from, to; std::vector<Ex> keep; for (auto& k : S.known) { Z3_sort so = Z3_get_sort(C, k.first.a); if (Z3_get_sort_kind(C, so) != Z3_BV_SORT) continue; Ex c(Z3_mk_unsigned_int64(C, k.second, so)); keep.push_back(c); from.push_back(k.first.a); to.push_back(c.a); } if (from.empty()) return ret(A[0]); Ex e(Z3_substitute(C, A[0].e.a, (unsigned)from.size(), from.data(), to.data())); e = simp(e); u64 c; if (isNum(e.a, bw, c)) return ret(mkc(bw, c)); return ret(A[0]); }
    case B_IDENT: return ret(mkc(32, A[0].sym() == A[1].sym() && (A[0].sym() ? A[0].e.a == A[1].e.a : A[0].c == A[1].c)));
    case B_SAME: { if (A[0].sym() && A[1].sym() && disjointLeaves(A[0].e, A[1].e)) return ret(mkc(32, 0)); Val e = icmp(CmpInst::ICMP_EQ, A[0], A[1]); Val t; e = res(S, e, t); if (!e.sym()) return ret(mkc(32, e.c)); bool mv; if (evalBool(S, e.e, mv) && !mv) return ret(mkc(32, 0)); return ret(mkc(32, check(S, {exnot(e.e)}, nullptr) ? 0 : 1)); }
    case B_HAVOC: { Val v; v.w = 64; v.e = freshBV("havoc!" + std::to_string(havocCtr++), 64); return ret(v); }
    case B_APPROX: S.approx = true; return R;
    case B_ROUND: { std::string key = "round!" + std::to_string(concretize(S, A[1], "precision")) + "_" + std::to_string(concretize(S, A[2], "flags")); Z3_sort s64 = bvsort(64); Z3_symbol sy = Z3_mk_string_symbol(C, key.c_str()); Z3_func_decl f = Z3_mk_func_decl(C, sy, 1, &s64, s64); Z3_inc_ref(C, Z3_func_decl_to_ast(C, f)); Ex x = X(A[0]); Ex r(Z3_mk_app(C, f, 1, &x.a)); S.rounds.push_back({x, r}); Val v; v.w = 64; v.e = r; return ret(v); }
    case B_FMTD: { // (char* buf, size_t cap, u64 bits, int prec, int mode 0=g 1=f 2=e 3=a) -> length
        if (A[2].sym() || A[3].sym() || A[4].sym()) unsupported("vm_fmt_double on symbolic value"); double x; memcpy(&x, &A[2].c, 8); char buf[512]; int pr = (int)sx(A[3].c, 32), n = 0; switch (A[4].c) { case 0: n = snprintf(buf, 512, "%.*g", pr, x); break; case 1: n = snprintf(buf, 512, "%.*f", pr, x); break; case 2: n = snprintf(buf, 512, "%.*e", pr, x); break; default: n = snprintf(buf, 512, "%a", x); }
        if ((u64)n >= A[1].c) unsupported("vm_fmt_double buffer"); for (int i = 0; i <= n; i++) storeC(S, A[0].c + i, 1, mkc(8, (uint8_t)buf[i])); return ret(mkc(32, n)); }
    case B_STRTOD: { std::string s = cstr(S, A[0].c); char* e; errno = 0; double x = strtod(s.c_str(), &e); bool ok = e != s.c_str() && !*e; int st = 0; if (!ok) { x = 0; st = 1; } else if (std::isinf(x)) { x = x > 0 ? 1.7976931348623157e308 : -1.7976931348623157e308; st = 1; } u64 bts; memcpy(&bts, &x, 8); storeC(S, A[1].c, 8, mkc(64, bts)); return ret(mkc(32, st)); }
    case B_ERROR: unsupported("model: " + cstr(S, A[0].c));
    }
    unsupported("builtin " + callee->name);
}

// ------------------------------------------------------------------ one step
static Val getv(State& S, Frame& f, int s) {
    if (s >= 0) { const Val& v = f.regs[s]; if (v.undef) { if (v.agg) return v; Val u; u.w = v.w; if (v.w == 1) { Ex b = freshBV("uninit!" + std::to_string(uninitCtr++), 8); u.e = exeq(b, num(8, 1)); } else u.e = freshBV("uninit!" + std::to_string(uninitCtr++), v.w); return u; } if (!v.sym()) return v; Val t; return res(S, v, t); }
    if (s == -1000000) return mkc(64, 0);
    const Val& v = f.fn->cpool[-s - 1]; if (v.undef && !v.agg) { Val u; u.w = v.w; if (v.w == 1) { Ex b = freshBV("uninit!" + std::to_string(uninitCtr++), 8); u.e = exeq(b, num(8, 1)); } else u.e = freshBV("uninit!" + std::to_string(uninitCtr++), v.w); return u; } return v;
}
static void step(State& S) {
    Frame& f = S.st.back(); DI& d = f.fn->code[f.pc]; S.steps++; stSteps++; f.fn->steps++;
    if (S.steps > optSteps) violate(S, "nontermination", "step budget exhausted (no termination within " + std::to_string(optSteps) + " instructions)");
    if ((stSteps & 0xffff) == 0 && now() - T0 > optTime) throw Kill{"time budget exhausted", true};
    auto O = [&](unsigned i) { return getv(S, f, d.ops[i]); };
    switch (d.op) {
    case Instruction::Alloca: { u64 n = concretize(S, O(0), "alloca count"); u64 id = S.mem.alloc(n * d.off, K_STACK, 2); f.allocas.push_back(id); f.regs[d.dst] = mkc(64, baseOf(id)); f.pc++; return; }
    case Instruction::Load: {
        Val a = O(0); Type* T = d.I->getType();
        if (a.sym()) { Val r; if (d.w && tableLoad(S, a, (d.w + 7) / 8, d.w, r)) { f.regs[d.dst] = r; f.pc++; return; } }
        u64 p = resolveAddr(S, a, DL->getTypeStoreSize(T), false); f.regs[d.dst] = loadT(S, p, T); f.pc++; return; }
    case Instruction::Store: { Type* T = d.I->getOperand(0)->getType(); u64 p = resolveAddr(S, O(1), DL->getTypeStoreSize(T), true);
        const Val& raw = d.ops[0] >= 0 ? f.regs[d.ops[0]] : f.fn->cpool[-d.ops[0] - 1]; if (raw.undef && !raw.agg) storeT(S, p, T, raw); else storeT(S, p, T, O(0)); f.pc++; return; }
    case Instruction::GetElementPtr: { Val b = O(0); Val r = d.off ? binop(&S, Instruction::Add, b, mkc(64, d.off)) : b; for (auto& g : d.gep) { Val i = getv(S, f, g.s); if (g.w < 64) i = castop(S, Instruction::SExt, i, 64); if (g.scale != 1) i = binop(&S, Instruction::Mul, i, mkc(64, g.scale)); r = binop(&S, Instruction::Add, r, i); } f.regs[d.dst] = r; f.pc++; return; }
    case Instruction::ICmp: f.regs[d.dst] = icmp(cast<ICmpInst>(d.I)->getPredicate(), O(0), O(1)); f.pc++; return;
    case Instruction::FCmp: f.regs[d.dst] = fcmp(cast<FCmpInst>(d.I)->getPredicate(), O(0), O(1)); f.pc++; return;
    case Instruction::Br: if (d.ops.empty()) { enterBB(S, f, f.bb, d.t0); return; } { Val c = O(0); bool t = decide(S, c); u32 from = f.bb; enterBB(S, f, from, t ? d.t0 : d.t1); return; }
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(d.I); Val c = O(0); u32 from = f.bb; for (auto& cs : sw->cases()) { if (decide(S, icmp(CmpInst::ICMP_EQ, c, mkc(c.w, cs.getCaseValue()->getZExtValue())))) { enterBB(S, f, from, f.fn->bbid[cs.getCaseSuccessor()]); return; } } enterBB(S, f, from, f.fn->bbid[sw->getDefaultDest()]); return; }
    case Instruction::Select: { Val c = O(0), a = O(1), b = O(2); if (!c.sym()) { f.regs[d.dst] = c.c ? a : b; f.pc++; return; } if (a.agg || b.agg || d.w == 0) { f.regs[d.dst] = decide(S, c) ? a : b; f.pc++; return; } f.regs[d.dst] = V(Ex(Z3_mk_ite(C, c.e.a, X(a).a, X(b).a)), d.w); f.pc++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: f.regs[d.dst] = castop(S, d.op, O(0), d.w); f.pc++; return;
    case Instruction::FNeg: { Val a = O(0); f.regs[d.dst] = binop(&S, Instruction::Xor, a, mkc(a.w, 1ull << (a.w - 1))); f.pc++; return; }
    case Instruction::Freeze: f.regs[d.dst] = O(0); f.pc++; return;
    case Instruction::ExtractValue: { Val a = O(0); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = a.agg->f[i]; a = t; } f.regs[d.dst] = a; f.pc++; return; }
    case Instruction::InsertValue: { Val a = O(0); auto ix = cast<InsertValueInst>(d.I)->getIndices(); Val v = O(1); Val r = a; r.undef = false; r.agg = std::make_shared<Agg>(*a.agg); Val* cur = &r; for (size_t k = 0; k + 1 < ix.size(); k++) { cur = &cur->agg->f[ix[k]]; cur->agg = std::make_shared<Agg>(*cur->agg); } cur->agg->f[ix.back()] = v; f.regs[d.dst] = r; f.pc++; return; }
    case Instruction::LandingPad: {
        auto* lp = cast<LandingPadInst>(d.I); std::string tn = gname(S.excTi); u64 sel = 0; i64 adj = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isFilter(i)) { sel = (u64)-1; break; } Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = tiId(0); break; } i64 o = 0; if (derives(tn, c->stripPointerCasts()->getName().str(), o)) { sel = tiId(constVal(c).c); adj = o; break; } }
        Val v; v.agg = std::make_shared<Agg>(); v.agg->f = {mkc(64, S.excObj + adj), mkc(32, sel)}; f.regs[d.dst] = v; f.pc++; return; }
    case Instruction::Resume: popFrame(S); unwind(S); return;
    case Instruction::Unreachable: violate(S, "crash", "unreachable code reached");
    case Instruction::Ret: {
        Val r; bool has = !d.ops.empty(); if (has) { const Val& raw = d.ops[0] >= 0 ? f.regs[d.ops[0]] : f.fn->cpool[-d.ops[0] - 1]; r = raw; if (!raw.undef && !raw.agg) r = O(0); } bool keep = f.keepRet; popFrame(S); if (S.st.empty()) return; (void)keep; finishCall(S, r); return; }
    case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(d.I); if (cb->isInlineAsm()) { finishCall(S, zeroOf(d.I->getType()->isVoidTy() ? Type::getInt32Ty(LC) : d.I->getType())); return; }
        Val cv = O(d.aux); u64 ca = concretize(S, cv, "callee"); if ((ca >> 32) != 1 || ((ca & 0xffffffff) >> 4) >= fnByIdx.size()) { if (ca == 0) violate(S, "memory", "call through null pointer"); violate(S, "memory", "call through wild pointer"); }
        FnInfo* fi = fnByIdx[(ca & 0xffffffff) >> 4];
        if (!fi->resolved) { fi->resolved = true; fi->builtin = builtinId(fi->name); if (fi->builtin == B_NONE) { std::string on = "vm$" + fi->name; if (Function* o = M->getFunction(on)) fi->over = fnOf[o]; } }
        std::vector<Val> args; args.reserve(d.aux);
        for (unsigned i = 0; i < d.aux; i++) { int s = d.ops[i]; const Val* raw = s >= 0 ? &f.regs[s] : s == -1000000 ? nullptr : &f.fn->cpool[-s - 1]; if (raw && raw->undef && !fi->builtin) args.push_back(*raw); else args.push_back(O(i));
            if (cb->isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 id = S.mem.alloc(sz, K_STACK, 2); f.allocas.push_back(id); copyBytes(S, baseOf(id), args[i].c, sz); args[i] = mkc(64, baseOf(id)); } }
        if (fi->builtin != B_NONE) { fi->executed = true; BRes r = doBuiltin(S, fi->builtin, args, d, fi); if (r.handled) finishCall(S, r.v); return; }
        FnInfo* t = fi->over ? fi->over : fi; if (t->F->isDeclaration()) unsupported("call to undefined function " + fi->name);
        if (optTrace) fprintf(stderr, "%*scall %s\n", (int)S.st.size(), "", t->name.c_str());
        std::vector<Val> va; if (t->F->isVarArg()) { for (size_t i = t->F->arg_size(); i < args.size(); i++) va.push_back(args[i]); }
        pushCall(S, t, args, va); return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: { auto* rmw = cast<AtomicRMWInst>(d.I); Type* T = rmw->getValOperand()->getType(); u64 p = resolveAddr(S, O(0), DL->getTypeStoreSize(T), true); Val old = loadT(S, p, T), v = O(1), r;
        switch (rmw->getOperation()) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(&S, Instruction::Add, old, v); break; case AtomicRMWInst::Sub: r = binop(&S, Instruction::Sub, old, v); break; case AtomicRMWInst::And: r = binop(&S, Instruction::And, old, v); break; case AtomicRMWInst::Or: r = binop(&S, Instruction::Or, old, v); break; case AtomicRMWInst::Xor: r = binop(&S, Instruction::Xor, old, v); break; default: unsupported("atomic operation"); }
        storeT(S, p, T, r); f.regs[d.dst] = old; f.pc++; return; }
    case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(d.I); Type* T = cx->getCompareOperand()->getType(); u64 p = resolveAddr(S, O(0), DL->getTypeStoreSize(T), true); Val old = loadT(S, p, T); bool eq = decide(S, icmp(CmpInst::ICMP_EQ, old, O(1))); if (eq) storeT(S, p, T, O(2)); Val v; v.agg = std::make_shared<Agg>(); v.agg->f = {old, mkc(1, eq)}; f.regs[d.dst] = v; f.pc++; return; }
    default:
        if (d.I->isBinaryOp()) {
            Val a = O(0), b = O(1);
            if (optNsw && d.w > 1 && d.w <= 64) if (auto* ob = dyn_cast<OverflowingBinaryOperator>(d.I)) if (ob->hasNoSignedWrap() && (d.op == Instruction::Add || d.op == Instruction::Sub || d.op == Instruction::Mul)) {
                Val o; u32 w = d.w; if (!a.sym() && !b.sym()) { __int128 x = sx(a.c, w), y = sx(b.c, w), z = d.op == Instruction::Add ? x + y : d.op == Instruction::Sub ? x - y : x * y; o = mkc(1, z != (__int128)sx((u64)z, w)); }
                else { Ex x = X(a), y = X(b); Ex p, q; if (d.op == Instruction::Add) { p = Ex(Z3_mk_bvadd_no_overflow(C, x.a, y.a, true)); q = Ex(Z3_mk_bvadd_no_underflow(C, x.a, y.a)); } else if (d.op == Instruction::Sub) { p = Ex(Z3_mk_bvsub_no_overflow(C, x.a, y.a)); q = Ex(Z3_mk_bvsub_no_underflow(C, x.a, y.a, true)); } else { p = Ex(Z3_mk_bvmul_no_overflow(C, x.a, y.a, true)); q = Ex(Z3_mk_bvmul_no_underflow(C, x.a, y.a)); } Z3_ast aa[2] = {p.a, q.a}; Ex ok(Z3_mk_and(C, 2, aa)); o = V(Ex(Z3_mk_not(C, ok.a)), 1); }
                if (!o.sym()) { if (o.c) violate(S, "overflow", "signed integer overflow"); } else { MRef m; if (check(S, {o.e}, &m)) { report(S, "overflow", "signed integer overflow", {o.e}, m); Ex no = exnot(o.e); MRef m2; if (!check(S, {no}, &m2)) throw Kill{"violation", false}; addPC(S, no); S.model = m2; } }
            }
            f.regs[d.dst] = binop(&S, d.op, a, b); f.pc++; return;
        }
        { std::string s; raw_string_ostream os(s); d.I->print(os); unsupported("instruction " + os.str()); }
    }
}

// ------------------------------------------------------------------ driver
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
static void initGlobals(State& S) {
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(g.getValueType()); bool ext = !g.hasInitializer(); u64 id = S.mem.alloc(ext ? std::max<u64>(sz, 256) : sz, ext ? K_EXTERN : K_GLOBAL, 0); gaddr[&g] = baseOf(id); gById[id] = &g; Obj* o = S.mem.get(id); o->name = strdup(g.getName().str().c_str());
    }
    for (auto& g : M->globals()) { if (!gaddr.count(&g) || !g.hasInitializer()) continue; if (isa<ConstantAggregateZero>(g.getInitializer())) continue; storeT(S, gaddr[&g], g.getValueType(), constVal(g.getInitializer())); }
    for (auto& g : M->globals()) if (gaddr.count(&g) && g.isConstant() && g.hasInitializer()) { u64 id = (gaddr[&g] >> 32) - FIRST_ID; S.mem.get(id)->ro = true; }
}
static void runState(std::unique_ptr<State> S, const char* entryDone) {
    try {
        while (!S->st.empty()) step(*S);
        stPaths++;
        // reservoir of completed paths for native validation
        static u64 seen = 0; seen++; bool keep = samples.size() < optSamples; size_t slot = samples.size(); if (!keep && optSamples) { u64 r = (seen * 2654435761u) % seen; if (r < optSamples) { keep = true; slot = r; } }
        if (keep && !S->approx) { Sample s; MRef m = S->model; if (!m.m) { if (!check(*S, {}, &m)) throw Kill{"infeasible final state", true}; } m = diversify(*S, m); s.inputs = inputsOf(*S, m); for (auto& o : S->obs) { u64 x = 0; evalBV(m, o, x); s.obs.push_back(x); } s.approx = S->approx; if (slot < samples.size()) samples[slot] = s; else samples.push_back(s); }
    } catch (Kill& k) {
        if (k.engineError) { std::string w = S->st.empty() ? "" : where(*S, true); if (engineErrors.size() < 20) engineErrors.push_back(k.why + " @ " + w.substr(0, 700)); fprintf(stderr, "[symex] %s @ %s\n", k.why.c_str(), w.substr(0, 1500).c_str()); }
        else { stKilled++; killedWhy[k.why]++; }
    }
    (void)entryDone;
}
int main(int argc, char** argv) {
    std::vector<std::string> files; std::string entry = "harness", emit;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--uninit") optUninit = true; else if (a == "--nsw") optNsw = true; else if (a == "--steps") optSteps = std::stoull(nx()); else if (a == "--time") optTime = std::stod(nx()); else if (a == "--maxalloc") optMaxAlloc = std::stoull(nx()); else if (a == "--enum") optEnum = std::stoul(nx()); else if (a == "--samples") optSamples = std::stoul(nx()); else if (a == "--dump") { optDump = std::stoul(nx()); optDumpDir = nx(); } else if (a == "--maxviol") optMaxViol = std::stoul(nx()); else if (a == "--trace") optTrace = true; else if (a == "--emit") emit = nx(); else if (a == "--arg") optArg = std::stoll(nx()); else files.push_back(a);
    }
    T0 = now(); SMDiagnostic err;
    for (auto& fn : files) { auto m = parseIRFile(fn, err, LC); if (!m) { err.print("symex", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link error %s\n", fn.c_str()); return 3; } }
    DL = &M->getDataLayout();
    { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM); ModulePassManager MPM; FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*M, MAM); }
    if (!emit.empty()) { std::error_code ec; raw_fd_ostream os(emit, ec); WriteBitcodeToFile(*M, os); return 0; }
    Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, nullptr); SOL = Z3_mk_solver(C); Z3_solver_inc_ref(C, SOL); { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 120000); Z3_solver_set_params(C, SOL, p); }
    for (auto& F : *M) { auto* fi = new FnInfo; fi->F = &F; fi->name = F.getName().str(); fi->addr = (1ull << 32) + fnByIdx.size() * 16; fnByIdx.push_back(fi); fnOf[&F] = fi; }
    auto S = std::make_unique<State>();
    try {
        { MRef m; check(*S, {}, &m); S->model = m; stQueries = stSat = 0; }
        initGlobals(*S); optSteps += 0;
        std::vector<std::pair<unsigned, Function*>> ctors; if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : a->operands()) { auto* s = cast<ConstantStruct>(o.get()); ctors.push_back({(unsigned)cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        if (FnInfo* vi = byName("vm_init")) { pushCall(*S, vi, {}); while (!S->st.empty()) step(*S); }
        for (auto& c : ctors) { pushCall(*S, info(c.second), {}); while (!S->st.empty()) step(*S); }
        FnInfo* e = byName(entry.c_str()); if (!e) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
        S->steps = 0; std::vector<Val> ea; if (e->F->arg_size() == 1) ea.push_back(mkc(widthOf(e->F->getArg(0)->getType()), (u64)optArg)); pushCall(*S, e, ea);
    } catch (Kill& k) { fprintf(stderr, "[symex] initialisation failed: %s @ %s\n", k.why.c_str(), S->st.empty() ? "" : where(*S, true).c_str()); return 3; }
    for (auto* f : fnByIdx) { f->executed = false; f->steps = 0; }
    info(M->getFunction(entry))->executed = true;
    u64 initSteps = stSteps; work.push_back(std::move(S)); double tv = 0;
    while (!work.empty()) {
        auto s = std::move(work.back()); work.pop_back(); runState(std::move(s), "");
        if (!viols.empty() && tv == 0) tv = now(); if (viols.size() >= optMaxViol || (tv && now() - tv > 15)) break; if (now() - T0 > optTime) break; if (engineErrors.size() >= 20) break;
    }
    engineErrors.insert(engineErrors.end(), softErrors.begin(), softErrors.end());
    bool complete = work.empty() && engineErrors.empty(); double wall = now() - T0;
    std::string o = "{\n"; o += "\"entry\": " + js(entry) + ",\n\"complete\": " + (complete ? "true" : "false") + ",\n\"pending_states\": " + std::to_string(work.size()) + ",\n";
    o += "\"paths\": " + std::to_string(stPaths) + ", \"killed\": " + std::to_string(stKilled) + ", \"forks\": " + std::to_string(stForks) + ", \"steps\": " + std::to_string(stSteps - initSteps) + ", \"queries\": " + std::to_string(stQueries) + ", \"sat\": " + std::to_string(stSat) + ", \"unsat\": " + std::to_string(stUnsat) + ", \"unknown\": " + std::to_string(stUnknown) + ", \"asserts\": " + std::to_string(stAsserts) + ", \"assert_queries\": " + std::to_string(stAssertQ) + ", \"max_pc_depth\": " + std::to_string(stMaxDepth) + ", \"solver_s\": " + std::to_string(stSolver) + ", \"wall_s\": " + std::to_string(wall) + ",\n";
    o += "\"killed_why\": {"; { bool f = true; for (auto& k : killedWhy) { o += (f ? "" : ", ") + js(k.first) + ": " + std::to_string(k.second); f = false; } } o += "},\n\"reached\": ["; { bool f = true; for (auto& r : reached) { o += (f ? "" : ", ") + js(r); f = false; } } o += "],\n\"engine_errors\": ["; { bool f = true; for (auto& r : engineErrors) { o += (f ? "" : ", ") + js(r); f = false; } } o += "],\n";
    auto inp = [&](const std::vector<std::pair<std::string, std::string>>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + ("[" + js(v[i].first) + ", " + js(v[i].second) + "]"); return s + "]"; };
    o += "\"violations\": ["; for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; o += (i ? ",\n" : "\n") + ("{\"kind\": " + js(v.kind) + ", \"msg\": " + js(v.msg) + ", \"where\": " + js(v.where) + ", \"trace\": " + js(v.trace) + ", \"approx\": " + (v.approx ? "true" : "false") + ", \"inputs\": " + inp(v.inputs) + "}"); } o += "],\n";
    o += "\"samples\": ["; for (size_t i = 0; i < samples.size(); i++) { o += (i ? ",\n" : "\n") + ("{\"inputs\": " + inp(samples[i].inputs) + ", \"obs\": ["); for (size_t k = 0; k < samples[i].obs.size(); k++) o += (k ? "," : "") + std::to_string(samples[i].obs[k]); o += "]}"; } o += "],\n";
    o += "\"functions\": ["; { bool f = true; for (auto* fi : fnByIdx) if (fi->executed && !fi->F->isDeclaration()) { std::string file; if (auto* sp = fi->F->getSubprogram()) file = sp->getFilename().str(); if (file.find("/repo/") == std::string::npos && file.find("repo") != 0) continue; o += (f ? "" : ", ") + ("[" + js(fi->name) + ", " + js(file) + ", " + std::to_string(fi->steps) + "]"); f = false; } } o += "],\n\"other_functions\": "; { u64 n = 0; for (auto* fi : fnByIdx) if (fi->executed && !fi->F->isDeclaration()) n++; o += std::to_string(n); } o += "\n}\n";
    if (!optOut.empty()) { std::ofstream f(optOut); f << o; } else fputs(o.c_str(), stdout);
    fprintf(stderr, "[symex] %s: paths=%llu killed=%llu steps=%llu queries=%llu solver=%.1fs wall=%.1fs viol=%zu complete=%d\n", entry.c_str(), (unsigned long long)stPaths, (unsigned long long)stKilled, (unsigned long long)(stSteps - initSteps), (unsigned long long)stQueries, stSolver, wall, viols.size(), complete);
    fflush(stdout); fflush(stderr); _Exit(!viols.empty() ? 1 : complete ? 0 : 2);
}
