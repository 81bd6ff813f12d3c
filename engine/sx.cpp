// sx: symbolic executor for LLVM bitcode, deciding path conditions with Z3.
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <list>
using namespace llvm;

Object* const FREED = (Object*)16;

struct Shared {
    std::atomic<int> active, stop;
    std::atomic<u64> paths, done, infeasible, errors, steps, forks, violations, maxdepth, steplimit, unsupported, timeouts, unknown, truncated;
    std::atomic<u64> queries, z3, dom, cache, reuse, sat, unsat, z3us, z3maxus, exprs, asserts, assertsProved, xchecks, xfail;
    double t0;
};
static Shared* G;
static u8* COV; // shared per-BB coverage

// ---------------- options ----------------
static std::string optEntry = "harness", optOut = "sx.out", optRepo = "/repo/", optDump;
static int optProcs = 1, optMaxViol = 8, optVerbose = 0, optDumpN = 0, optChild = 0;
static double optTime = 60; static u64 optStep = 20000000; static int optMaxFrames = 3000; static u64 optPaths = ~0ULL;
static long optEnum = 3000; static u64 optRlimit = 60000000; static std::vector<std::pair<std::string,u64>> optParams;

// ---------------- compiled code ----------------
struct Opd { int r; u64 c; };
enum K : u8 { KNop, KBin, KCmp, KSel, KZext, KSext, KTrunc, KCopy, KGep, KLoad, KStore, KAlloca, KBr, KCond, KSwitch, KCall, KRet, KUnreach, KMove, KVec, KUnsup, KRmw, KXchg };
struct Edge { u32 pc; u32 bb; std::vector<std::pair<int, Opd>> phi; };
struct GepI { std::vector<std::pair<Opd, i64>> idx; std::vector<u8> w; };
struct Leaf { u64 off; u8 w; };
struct CallI { struct Func* callee = nullptr; Opd fp{-1, 0}; std::vector<Opd> args; std::vector<u8> aw; std::vector<u64> byval; int nret = 0; std::vector<u8> rw; int intr = 0; std::string name; bool invoke = false; };
struct Ins { K k; u8 w; u8 op; u8 w2; int dst; Opd a, b, c; u32 t0, t1; void* aux; u32 line; };
struct SwI { std::vector<std::pair<u64, u32>> cases; u32 def; std::vector<u32> order; };
struct LdI { std::vector<Leaf> l; std::vector<Opd> v; };
struct Func {
    Function* F = nullptr; std::string name; bool defined = false, compiled = false; bool repo = false; std::string file;
    int nregs = 0; std::vector<Ins> code; std::vector<Edge> edges; std::vector<int> argreg; std::vector<u8> argw; u32 bb0 = 0, nbb = 0; bool va = false;
    int handler = 0; u64 addr = 0; std::vector<u32> bbLine; bool called = false;
};
static std::unique_ptr<Module> M; static LLVMContext* LC; static const DataLayout* DL;
static ExprCtx X; static Solver SO(X);
static std::unordered_map<const Function*, Func*> funcs; static std::vector<Func*> funcByIdx;
static std::unordered_map<const GlobalValue*, u64> gaddr; static u32 totalBB = 0;
static const u32 MAXBB = 400000;

// ---------------- state ----------------
struct Frame { Func* f; u32 pc; std::vector<Val> r; u32 stackMark; int retDst; const Ins* call; std::vector<Val> va; };
struct SymSt { const Mask256* dom = nullptr; u8 fl = 0; u64 fv = 0; }; // fl: 1 fixed, 2 in multi constraint
struct Input { u32 sym; };
struct State {
    std::vector<Frame> st; ObjTab heap, stack; u32 nextHeap = 1, stackTop = 0;
    std::vector<Expr*> multi; std::vector<SymSt> ss; ModelP model;
    std::vector<u32> inputs; std::unordered_map<std::string, u32>* dummy = nullptr;
    std::map<std::string, u32> nameCnt; u64 steps = 0; u32 depth = 0; std::vector<u32> reach; bool dead = false; u64 allocated = 0; u32 live = 0;
    std::vector<std::pair<u32, Val>> obs;
    u32 brk = 0; bool fixDirty = false;
};
static std::vector<State*> pending; static State* cur;
static u64 nForkHere = 0;
static FILE* outF;
static std::vector<std::string> reachNames; 
static std::map<std::string, u64> reachCount; static std::set<std::string> violSeen; static std::map<std::string, u64> unsupCount;
static std::map<std::string, std::pair<u64,u64>> assertCount;

static void outLine(const std::string& s) { std::string t = s + "\n"; ssize_t n = write(fileno(outF), t.data(), t.size()); (void)n; }
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; sprintf(b, "\\u%04x", c); r += b; } else r += c; } return r; }

static std::map<std::array<u64,4>, Mask256*> maskTab;
static const Mask256* internMask(const Mask256& m) { std::array<u64,4> k{m.m[0], m.m[1], m.m[2], m.m[3]}; auto& p = maskTab[k]; if (!p) p = new Mask256(m); return p; }
static SymSt& ss(State& s, u32 id) { if (id >= s.ss.size()) s.ss.resize(std::max<size_t>(id + 1, X.syms.size())); return s.ss[id]; }
static u32 newEpoch() { return ++X.evalEpoch; }
static u64 evalM(State& s, Expr* e) { return X.eval(e, s.model->v, s.model->epoch); }

static Expr* maskExpr(Expr* sym, const Mask256& m) {
    static std::map<std::pair<u32, const Mask256*>, Expr*> memo; auto key = std::make_pair(sym->id, internMask(m)); auto& r = memo[key]; if (r) return r;
    Expr* o = X.F(); int i = 0;
    while (i < 256) { if (!m.has(i)) { i++; continue; } int j = i; while (j < 255 && m.has(j + 1)) j++;
        Expr* t = i == j ? X.eq(sym, X.C(i, 8)) : X.and_(X.ule(X.C(i, 8), sym), X.ule(sym, X.C(j, 8))); o = X.or_(o, t); i = j + 1; }
    return r = o;
}
static bool allFixed(State& s, const SymSet* q) { for (u32 id : q->ids) if (id >= s.ss.size() || !(s.ss[id].fl & 1)) return false; return true; }
static Expr* simp(State& s, Expr* e) { if (e->isC()) return e; if (allFixed(s, e->syms)) return X.C(evalM(s, e), e->w); return e; }

static void addC(State& s, Expr* c);
static Expr* substFixed(State& s, Expr* c) {
    bool any = false; for (u32 id : c->syms->ids) if (id < s.ss.size() && (s.ss[id].fl & 1)) { any = true; break; }
    if (!any) return c;
    std::unordered_map<Expr*, Expr*> memo; return X.subst(c, [&](u32 id, u64& v) { if (id < s.ss.size() && (s.ss[id].fl & 1)) { v = s.ss[id].fv; return true; } return false; }, memo);
}
// symbols that became fixed are substituted into the remaining constraints
static void normalise(State& s) {
    while (s.fixDirty) { s.fixDirty = false;
        std::vector<Expr*> old; old.swap(s.multi); for (auto& q : s.ss) q.fl &= ~2; std::vector<Expr*> changed;
        for (Expr* e : old) { Expr* n = substFixed(s, e); if (n == e) { s.multi.push_back(e); for (u32 id : e->syms->ids) ss(s, id).fl |= 2; } else changed.push_back(n); }
        for (Expr* n : changed) addC(s, n);
    }
}
static u64 optXcheck = 0, xcheckN = 0;
static void xcheck(const std::vector<Expr*>& cs, int res, const char* what) {
    if (!optXcheck || (++xcheckN % optXcheck)) return; std::vector<std::pair<u32,u64>> m; int r = SO.z3check(cs, m); G->xchecks++;
    if (r >= 0 && r != res) { G->xfail++; fprintf(stderr, "XCHECK MISMATCH %s ours=%d z3=%d\n", what, res, r); for (Expr* e : cs) fprintf(stderr, "  %s\n", X.str(e, 12).c_str()); }
}
// feasibility of c in state s; on sat optionally returns a model. 1 yes / 0 no / -1 unknown
static std::string where(State& s, std::string* fn = nullptr);
static int feasible(State& s, Expr* c, ModelP* out) {
    SO.st.queries++;
    if (c->isC()) { if (c->c && out) *out = s.model; return c->c != 0; }
    if (evalM(s, c)) { if (out) *out = s.model; return 1; }
    if (s.fixDirty) normalise(s);
    c = substFixed(s, c); if (c->isC()) { if (c->c && out) *out = s.model; return c->c != 0; }
    auto setM = [&](u32 id, u64 v) { if (!out) return; ModelP n(new Model(*s.model)); if (n->v.size() <= id) n->v.resize(id + 1); n->v[id] = v; n->epoch = newEpoch(); *out = n; };
    if (c->syms->ids.size() == 1) {
        u32 id = c->syms->ids[0]; SymSt& q = ss(s, id);
        if (X.syms[id].w == 8) {
            Mask256 m = X.tt(c); if (q.dom) for (int i = 0; i < 4; i++) m.m[i] &= q.dom->m[i];
            if (!m.any()) { SO.st.dom++; xcheck(q.dom ? std::vector<Expr*>{c, maskExpr(X.symExpr[id], *q.dom)} : std::vector<Expr*>{c}, 0, "dom"); return 0; }
            if (!(q.fl & 2)) { SO.st.dom++; xcheck(q.dom ? std::vector<Expr*>{c, maskExpr(X.symExpr[id], *q.dom)} : std::vector<Expr*>{c}, 1, "dom"); setM(id, m.first()); return 1; }
        }
    }
    // slice
    std::vector<Expr*> cs; cs.push_back(c);
    std::vector<char> used(s.multi.size(), 0);
    const SymSet* cover = c->syms; bool ch = true;
    auto active = [&](const SymSet* a, const SymSet* b) { size_t i = 0, j = 0; while (i < a->ids.size() && j < b->ids.size()) { if (a->ids[i] < b->ids[j]) i++; else if (a->ids[i] > b->ids[j]) j++; else return true; } return false; };
    while (ch) { ch = false; for (size_t i = 0; i < s.multi.size(); i++) if (!used[i] && active(s.multi[i]->syms, cover)) { used[i] = 1; cover = X.unite(cover, s.multi[i]->syms); cs.push_back(s.multi[i]); ch = true; } }
    size_t nrel = cs.size();
    for (u32 id : cover->ids) { SymSt& q = ss(s, id); if (q.dom) cs.push_back(maskExpr(X.symExpr[id], *q.dom)); }
    std::string key; { std::vector<u32> ids; for (Expr* e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end()); key.assign((const char*)ids.data(), ids.size() * 4); }
    auto apply = [&](const std::vector<std::pair<u32,u64>>& mv) { if (!out) return; ModelP n(new Model(*s.model)); for (auto& p : mv) { if (n->v.size() <= p.first) n->v.resize(p.first + 1); n->v[p.first] = p.second; } n->epoch = newEpoch(); *out = n; };
    auto it = SO.cache.find(key);
    if (it != SO.cache.end()) { SO.st.cache++; if (it->second.res == 1) apply(it->second.model); return it->second.res; }
    // small finite domains: complete case split over the assignments of the slice's symbols (depth first; a constraint is
    // decided as soon as its last symbol has a value); gives up after a fixed number of evaluations
    { double prod = 1; bool small = cover->ids.size() <= 24; for (u32 id : cover->ids) { if (!small) break; if (X.syms[id].w != 8) { small = false; break; } SymSt& q = ss(s, id); prod *= q.dom ? q.dom->count() : 256; if (prod > (1 << 20)) small = false; }
      if (small) { size_t k = cover->ids.size(); long budget = optEnum; std::vector<std::vector<u8>> vals(k); for (size_t i = 0; i < k; i++) { SymSt& q = ss(s, cover->ids[i]); for (int v = 0; v < 256; v++) if (!q.dom || q.dom->has(v)) vals[i].push_back(v); }
        std::vector<std::vector<Expr*>> at(k); for (size_t i = 0; i < nrel; i++) { u32 last = cs[i]->syms->ids.back(); size_t d = std::lower_bound(cover->ids.begin(), cover->ids.end(), last) - cover->ids.begin(); at[d].push_back(cs[i]); }
        std::vector<size_t> ix(k, 0); std::vector<u64> m(cover->ids.back() + 1, 0); Solver::CacheEnt ce; ce.res = 0; size_t d = 0; bool done = false;
        while (!done && budget > 0) {
            if (ix[d] >= vals[d].size()) { ix[d] = 0; if (d == 0) { done = true; break; } d--; ix[d]++; continue; }
            m[cover->ids[d]] = vals[d][ix[d]]; bool ok = true; u32 ep = newEpoch(); for (Expr* e : at[d]) { budget--; if (!X.eval(e, m, ep)) { ok = false; break; } } budget--;
            if (!ok) { ix[d]++; continue; }
            if (d + 1 == k) { ce.res = 1; for (size_t i = 0; i < k; i++) ce.model.push_back({cover->ids[i], vals[i][ix[i]]}); done = true; break; }
            d++; ix[d] = 0;
        }
        if (done) { SO.st.dom++; xcheck(cs, ce.res, "enum"); if (ce.res) apply(ce.model); if (SO.cache.size() > 200000) SO.cache.clear(); SO.cache[key] = ce; return ce.res; } } }
    // try recent models
    { for (auto& rm : SO.recent) { ModelP n(new Model(*s.model)); for (auto& p : rm) { if (n->v.size() <= p.first) n->v.resize(p.first + 1); n->v[p.first] = p.second; } u32 ep = newEpoch(); bool ok = true; for (Expr* e : cs) if (!X.eval(e, n->v, ep)) { ok = false; break; }
        if (ok) { SO.st.reuse++; n->epoch = ep; if (out) { // restrict to slice symbols
                ModelP q(new Model(*s.model)); for (auto& p : rm) { if (std::binary_search(cover->ids.begin(), cover->ids.end(), p.first)) { if (q->v.size() <= p.first) q->v.resize(p.first + 1); q->v[p.first] = p.second; } } q->epoch = newEpoch(); *out = q; } return 1; } } }
    Solver::CacheEnt ce; double tq = optVerbose ? nowS() : 0; ce.res = SO.z3check(cs, ce.model);
    if (optVerbose && nowS() - tq > 0.2) fprintf(stderr, "[slow %.2f] %s\n   %s\n", nowS() - tq, where(s).c_str(), X.str(c).substr(0, 400).c_str());
    if (ce.res == 1) { apply(ce.model); SO.recent.push_front(ce.model); if (SO.recent.size() > 6) SO.recent.pop_back(); }
    if (SO.cache.size() > 200000) SO.cache.clear();
    SO.cache[key] = ce; return ce.res;
}
// add a constraint that the state's model satisfies
static void addC(State& s, Expr* c) {
    if (c->isC()) return;
    c = substFixed(s, c); if (c->isC()) return;
    if (c->op == OAnd && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
    if (c->syms->ids.size() == 1) {
        u32 id = c->syms->ids[0]; SymSt& q = ss(s, id);
        if (X.syms[id].w == 8) {
            Mask256 m = X.tt(c); if (q.dom) for (int i = 0; i < 4; i++) m.m[i] &= q.dom->m[i];
            q.dom = internMask(m); if (m.count() == 1) { q.fl |= 1; q.fv = m.first(); if (q.fl & 2) s.fixDirty = true; } return;
        }
        if (c->op == OEq && c->k[0]->op == OSym && c->k[1]->isC()) { q.fl |= 1; q.fv = c->k[1]->c; if (q.fl & 2) s.fixDirty = true; return; }
    }
    for (Expr* e : s.multi) if (e == c) return;
    s.multi.push_back(c); for (u32 id : c->syms->ids) ss(s, id).fl |= 2;
}
static void pathEnd(State* s) { s->dead = true; }
static void truncate(State* s, const char* why) { G->truncated++; unsupCount[why]++; pathEnd(s); }

static State* cloneState(State& s) { State* n = new State(s); n->depth++; n->brk = 0; return n; }
static void flushNames();

// Decide a condition: constrains the current state to one side and pushes the other side (restarting the current instruction).
static bool decide(State& s, Expr* c) {
    c = simp(s, c); if (c->isC()) return c->c;
    bool v = evalM(s, c) != 0; ModelP om; Expr* nc = X.not_(c);
    int r = feasible(s, v ? nc : c, &om);
    if (r == 1) { State* o = cloneState(s); o->model = om; addC(*o, v ? nc : c); pending.push_back(o); G->forks++; nForkHere++; }
    else if (r < 0) { G->unknown++; }
    addC(s, v ? c : nc); return v;
}
// may c be true? (no state change)
static bool may(State& s, Expr* c, ModelP* m = nullptr) { c = simp(s, c); int r = feasible(s, c, m); if (r < 0) { G->unknown++; return false; } return r == 1; }
static u64 concretize(State& s, Val v, unsigned w) {
    if (!v.e) return v.c; Expr* e = simp(s, v.e); if (e->isC()) return e->c;
    u64 x = evalM(s, e); Expr* c = X.eq(e, X.C(x, e->w));
    decide(s, c); return x; // model keeps c true in the current state
}

static u64 optForkRead = 1u << 30;
// ---------------- violations ----------------
static std::string where(State& s, std::string* fn) {
    std::string r, first; int n = 0;
    for (int i = (int)s.st.size() - 1; i >= 0 && n < 12; i--) {
        Frame& f = s.st[i]; u32 pc = f.pc ? f.pc - 1 : 0; u32 ln = pc < f.f->code.size() ? f.f->code[pc].line : 0;
        std::string file = f.f->file; size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1);
        if (f.f->repo && first.empty()) first = f.f->name;
        r += (n++ ? " < " : "") + f.f->name + "(" + file + ":" + std::to_string(ln) + ")";
    }
    if (fn) *fn = first.empty() ? "harness" : first; return r;
}
static void violation(State& s, const std::string& kind, const std::string& label, ModelP m) {
    std::string fn; std::string w = where(s, &fn);
    std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : fn);
    G->violations++;
    if (!violSeen.insert(key).second) return;
    std::string j = "{\"t\":\"violation\",\"kind\":\"" + esc(kind) + "\",\"label\":\"" + esc(label) + "\",\"func\":\"" + esc(fn) + "\",\"where\":\"" + esc(w) + "\",\"inputs\":[";
    bool first = true;
    for (u32 id : s.inputs) { u64 v = id < m->v.size() ? m->v[id] & maskw(X.syms[id].w) : 0; if (!first) j += ","; first = false; j += "[\"" + esc(X.syms[id].name) + "\"," + std::to_string(X.syms[id].w) + "," + std::to_string(v) + "]"; }
    j += "]}"; outLine(j);
}
static std::vector<std::string> obsNames; static u64 localDone = 0, localSamples = 0; static u64 optSamples = 4;
static std::string inputsJson(State& s, const Model& m) { std::string j; bool first = true; for (u32 id : s.inputs) { u64 v = id < m.v.size() ? m.v[id] & maskw(X.syms[id].w) : 0; if (!first) j += ","; first = false; j += "[\"" + esc(X.syms[id].name) + "\"," + std::to_string(X.syms[id].w) + "," + std::to_string(v) + "]"; } return j; }
static void pathDone(State& s) {
    G->done++; localDone++;
    if ((localDone & (localDone - 1)) == 0 && (__builtin_ctzll(localDone) & 1) == 0 && localSamples < optSamples) { localSamples++;
        std::string j = "{\"t\":\"sample\",\"inputs\":[" + inputsJson(s, *s.model) + "],\"obs\":["; bool f = true;
        for (auto& o : s.obs) { u64 v = o.second.e ? evalM(s, o.second.e) : o.second.c; j += std::string(f ? "" : ",") + "[\"" + esc(obsNames[o.first]) + "\"," + std::to_string(v) + "]"; f = false; }
        outLine(j + "]}"); }
}
static void memError(State& s, const std::string& kind, const std::string& label, ModelP m) { violation(s, kind, label, m ? m : s.model); }

// ---------------- memory access ----------------
static Object* objOf(State& s, u64 a, u32* idOut) { u32 id = (u32)(a >> SLOT); *idOut = id; if (id & STACKBIT && id < FNID) return s.stack.get(id & ~STACKBIT); if (id >= FNID) return nullptr; return s.heap.get(id); }
static Object* objWr(State& s, u32 id) { if (id & STACKBIT) return s.stack.wr(id & ~STACKBIT); return s.heap.wr(id); }
static u64 baseOf(u32 id) { return ((u64)id << SLOT) + BASEOFF; }
static const char* badKind(State& s, u64 a) { u32 id; Object* o = objOf(s, a, &id); if (a < 65536) return "null-deref"; if (o == FREED) return (id & STACKBIT) ? "use-after-return" : "use-after-free"; if (!o) return "wild-pointer"; return "out-of-bounds"; }

// resolve an address for an n-byte access. Returns object id or 0 when the path ended.
static u32 resolve(State& s, Val a, u64 n, Object*& ob, Val& off, bool wr) {
    if (a.e) { Expr* e = simp(s, a.e); a = Val(e, 0); }
    for (int guard = 0; guard < 64; guard++) {
        u64 av = a.e ? evalM(s, a.e) : a.c; u32 id; ob = objOf(s, av, &id);
        bool okobj = ob && ob != FREED;
        if (!okobj) { memError(s, badKind(s, av), wr ? "write" : "read", nullptr);
            if (a.e) { // continue elsewhere if the pointer may point to other objects
                Expr* same = X.eq(X.extract(a.e, SLOT, 64 - SLOT), X.C(id, 64 - SLOT)); ModelP m; if (may(s, X.not_(same), &m)) { s.model = m; addC(s, X.not_(same)); continue; } }
            pathEnd(&s); return 0; }
        u64 b = baseOf(id);
        if (!a.e) {
            u64 o = a.c - b;
            if (ob->ssize) { Expr* bad = X.or_(X.ult(ob->ssize, X.C(n, 64)), X.ult(X.sub(ob->ssize, X.C(n, 64)), X.C(o, 64))); bad = X.or_(bad, X.C(o > ob->size, 1)); ModelP m; 
                if (may(s, bad, &m)) { memError(s, "out-of-bounds", wr ? "write" : "read", m); Expr* good = X.not_(bad); ModelP g; if (!may(s, good, &g)) { pathEnd(&s); return 0; } s.model = g; addC(s, good); } }
            else if (o > ob->size || ob->size - o < n) { memError(s, "out-of-bounds", wr ? "write" : "read", nullptr); pathEnd(&s); return 0; }
            if (wr && ob->ro) { memError(s, "write-readonly", "write", nullptr); pathEnd(&s); return 0; }
            off = Val(o); return id;
        }
        Expr* o = X.sub(a.e, X.C(b, 64));
        Expr* sz = ob->ssize ? ob->ssize : X.C(ob->size, 64);
        // in bounds: o <= sz - n and sz >= n
        Expr* good = X.and_(X.ule(X.C(n, 64), sz), X.ule(o, X.sub(sz, X.C(n, 64))));
        ModelP m; Expr* bad = X.not_(good);
        if (may(s, bad, &m)) {
            u64 bv = X.eval(a.e, m->v, m->epoch); u32 id2; Object* o2 = objOf(s, bv, &id2);
            if (id2 != id && o2 && o2 != FREED && bv - baseOf(id2) < o2->size) { // another object: fork on it
                Expr* here = X.eq(X.extract(a.e, SLOT, 64 - SLOT), X.C(id, 64 - SLOT));
                decide(s, here); continue; }
            memError(s, id2 == id ? "out-of-bounds" : badKind(s, bv), wr ? "write" : "read", m);
            ModelP g; if (!may(s, good, &g)) { pathEnd(&s); return 0; } s.model = g; addC(s, good);
        }
        if (wr && ob->ro) { memError(s, "write-readonly", "write", nullptr); pathEnd(&s); return 0; }
        o = simp(s, o); off = Val(o, 0); return id;
    }
    truncate(&s, "resolve-loop"); return 0;
}
static Val byteAt(State& s, const Object* o, u64 off) { Expr* e; u8 b = o->rdc(off, e); if (!e) return Val(b); if (e->op == OSym) { SymSt& q = ss(s, e->c); if (q.fl & 1) return Val(q.fv & 0xff); } return Val(e, 0); }
static Val readAt(State& s, const Object* o, u64 off, unsigned n) {
    u64 ci = off >> 6, co = off & 63;
    if (co + n <= 64) { Chunk* c = o->get(ci); if (!c) { u64 v = 0; memset(&v, o->fill, n); return Val(v); } if (!c->s) { u64 v = 0; memcpy(&v, c->d + co, n); return Val(v); } }
    bool anyS = false; Val b[8]; for (unsigned i = 0; i < n; i++) { b[i] = byteAt(s, o, off + i); if (b[i].e) anyS = true; }
    if (!anyS) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= b[i].c << (8 * i); return Val(v); }
    std::vector<Expr*> sg; for (unsigned i = 0; i < n; i++) { Expr* e = b[i].e ? b[i].e : X.C(b[i].c, 8); X.segs(e, sg); }
    return Val(X.fromSegs(sg), 0);
}
static unsigned ctzOf(Expr* e) { if (e->isC()) return e->c ? __builtin_ctzll(e->c) : 64; if (e->op == OConcat) { std::vector<Expr*> sg; X.segs(e, sg); unsigned n = 0; for (Expr* x : sg) { if (x->isC() && x->c == 0) n += x->w; else { n += ctzOf(x); break; } } return n; }
    if (e->op == OAdd) return std::min(ctzOf(e->k[0]), ctzOf(e->k[1])); if (e->op == OMul && e->k[1]->isC()) return ctzOf(e->k[1]); if (e->op == OIte) return std::min(ctzOf(e->k[1]), ctzOf(e->k[2])); return 0; }
// tighten [lo,hi] of e in s using the solver
static void tighten(State& s, Expr* e, u64& lo, u64& hi) {
    u64 v = evalM(s, e); u64 a = lo, b = v; // min in [lo, v]
    while (a < b) { u64 m = a + (b - a) / 2; ModelP mm; if (may(s, X.and_(X.ule(X.C(lo, e->w), e), X.ule(e, X.C(m, e->w))), &mm)) { b = std::min(m, X.eval(e, mm->v, mm->epoch)); } else a = m + 1; }
    lo = b; a = v; b = hi;
    while (a < b) { u64 m = a + (b - a + 1) / 2; ModelP mm; if (may(s, X.and_(X.ule(X.C(m, e->w), e), X.ule(e, X.C(hi, e->w))), &mm)) { a = std::max(m, X.eval(e, mm->v, mm->epoch)); } else b = m - 1; }
    hi = a;
}
static bool candidates(State& s, const Object* o, Expr* off, unsigned n, u64& lo, u64& hi, u64& step, u64 lim) {
    lo = off->lo; hi = std::min(off->hi, o->size - n); step = 1ULL << std::min(ctzOf(off), 12u);
    if (hi < lo) { lo = 0; }
    if ((hi - lo) / step > 48) tighten(s, off, lo, hi);
    lo = (lo + step - 1) / step * step; return (hi - lo) / step <= lim;
}
static Val readSym(State& s, const Object* o, Val off, unsigned n, bool& ok) {
    ok = true; if (!off.e) return readAt(s, o, off.c, n);
    u64 lo, hi, step;
    if (!candidates(s, o, off.e, n, lo, hi, step, 6000)) { u64 c = concretize(s, off, 64); return readAt(s, o, c, n); }
    std::vector<std::pair<u64, Expr*>> c; for (u64 p = lo; p <= hi; p += step) { Val v = readAt(s, o, p, n); Expr* e = v.e ? v.e : X.C(v.c, n * 8); if (!c.empty() && c.back().second == e) continue; c.push_back({p, e}); }
    if (c.size() > optForkRead) { // fork over the runs of equal contents instead of building a deep selection
        u64 x = evalM(s, off.e); size_t r = 0; while (r + 1 < c.size() && c[r + 1].first <= x) r++;
        Expr* in = X.ule(X.C(c[r].first, 64), off.e); if (r + 1 < c.size()) in = X.and_(in, X.ult(off.e, X.C(c[r + 1].first, 64)));
        decide(s, in); return Val(c[r].second, 0); }
    struct B { static Expr* go(std::vector<std::pair<u64, Expr*>>& c, size_t l, size_t r, Expr* off) { if (l == r) return c[l].second; size_t m = (l + r + 1) / 2; Expr* a = go(c, l, m - 1, off); Expr* b = go(c, m, r, off); return X.ite(X.ult(off, X.C(c[m].first, 64)), a, b); } };
    return Val(B::go(c, 0, c.size() - 1, off.e), 0);
}
static Val loadV(State& s, Val a, unsigned w, bool& ok) {
    unsigned n = (w + 7) / 8; Object* ob; Val off; u32 id = resolve(s, a, n, ob, off, false); if (!id) { ok = false; return Val(0); }
    Val v = readSym(s, ob, off, n, ok);
    if (n * 8 != w) { if (v.e) v = Val(X.extract(v.e, 0, w), 0); else v.c &= maskw(w); }
    return v;
}
static void writeAt(State& s, Object* o, u64 off, Val v, unsigned n) {
    if (!v.e) { u64 ci = off >> 6, co = off & 63; if (co + n <= 64) { Chunk* c = o->wr(ci); memcpy(c->d + co, &v.c, n); if (c->s) for (unsigned i = 0; i < n; i++) c->s[co + i] = nullptr; return; }
        for (unsigned i = 0; i < n; i++) o->wrb(off + i, nullptr, (u8)(v.c >> (8 * i))); return; }
    for (unsigned i = 0; i < n; i++) o->wrb(off + i, X.extract(v.e, 8 * i, 8), 0);
}
static bool storeV(State& s, Val a, Val v, unsigned w) {
    unsigned n = (w + 7) / 8; Object* ob; Val off; u32 id = resolve(s, a, n, ob, off, true); if (!id) return false;
    if (v.e && n * 8 != w) v = Val(X.zext(v.e, n * 8), 0);
    if (off.e) { u64 lo, hi, step; 
        if (!candidates(s, ob, off.e, n, lo, hi, step, 1500)) { u64 c = concretize(s, off, 64); off = Val(c); }
        else { ob = objWr(s, id); for (u64 p = lo; p <= hi; p += step) { Expr* c = X.eq(off.e, X.C(p, 64)); for (unsigned i = 0; i < n; i++) { Val old = byteAt(s, ob, p + i); Expr* oe = old.e ? old.e : X.C(old.c, 8); Expr* ne = v.e ? X.extract(v.e, 8 * i, 8) : X.C(v.c >> (8 * i), 8); ob->wrb(p + i, X.ite(c, ne, oe), 0); } } return true; } }
    ob = objWr(s, id); if (v.e) v = Val(simp(s, v.e), 0); writeAt(s, ob, off.c, v, n); return true;
}
static u64 newObj(State& s, u64 size, char kind, const char* tag) {
    Object* o = new Object; o->init(size); o->kind = kind; o->tag = tag; u32 id;
    if (kind == 'S') { id = STACKBIT | s.stackTop; s.stack.set(s.stackTop++, o); } else { id = s.nextHeap++; s.heap.set(id, o); }
    return baseOf(id);
}
static void popStack(State& s, u32 mark) { while (s.stackTop > mark) { s.stackTop--; s.stack.set(s.stackTop, FREED); } }

// ---------------- compile ----------------
static unsigned leafW(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static void leaves(Type* t, u64 off, std::vector<Leaf>& out) {
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i).getFixedValue(), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()).getFixedValue(); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()).getFixedValue(); for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + i * es, out); return; }
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { unsigned n = t->getIntegerBitWidth(); for (unsigned i = 0; i < n; i += 64) out.push_back({off + i / 8, (u8)std::min(64u, n - i)}); return; }
    unsigned w = leafW(t); if (!w) { out.push_back({off, 0}); return; } out.push_back({off, (u8)w});
}
static int nslots(Type* t) { std::vector<Leaf> l; leaves(t, 0, l); return (int)l.size(); }
static void constSlots(const Constant* c, std::vector<u64>& out);
static u64 addrOf(const GlobalValue* g) { auto it = gaddr.find(g); if (it != gaddr.end()) return it->second; if (auto* a = dyn_cast<GlobalAlias>(g)) { std::vector<u64> o; constSlots(a->getAliasee(), o); return o[0]; } fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); abort(); }
static u64 constInt(const Constant* c) { std::vector<u64> o; constSlots(c, o); return o[0]; }
static void constSlots(const Constant* c, std::vector<u64>& out) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { for (unsigned i = 0; i < ci->getBitWidth(); i += 64) out.push_back(ci->getValue().extractBits(std::min(64u, ci->getBitWidth() - i), i).getZExtValue()); return; } out.push_back(ci->getZExtValue()); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(0); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = nslots(t); for (int i = 0; i < n; i++) out.push_back(0); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(addrOf(g)); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < a->getNumOperands(); i++) constSlots(a->getOperand(i), out); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) constSlots(d->getElementAsConstant(i), out); return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { out.push_back(f->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue(std::min(64u, f->getValueAPF().bitcastToAPInt().getBitWidth()), 0)); return; }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(e); APInt o(64, 0); if (!g->accumulateConstantOffset(*DL, o)) { fprintf(stderr, "gep const\n"); abort(); } out.push_back(constInt(cast<Constant>(g->getPointerOperand())) + o.getSExtValue()); return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: { u64 v = constInt(e->getOperand(0)); out.push_back(v & maskw(leafW(t))); return; }
        case Instruction::Add: out.push_back((constInt(e->getOperand(0)) + constInt(e->getOperand(1))) & maskw(leafW(t))); return;
        case Instruction::Sub: out.push_back((constInt(e->getOperand(0)) - constInt(e->getOperand(1))) & maskw(leafW(t))); return;
        case Instruction::ICmp: { u64 a = constInt(e->getOperand(0)), b = constInt(e->getOperand(1)); out.push_back(e->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); return; }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str()); abort();
}

enum Hn { H_NONE, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_MEMCPY, H_MEMMOVE, H_MEMSET, H_MEMCMP, H_STRNCMP, H_ASSERTFAIL, H_ABORT, H_EXIT,
    H_SXASSUME, H_SXASSERT, H_SXSYM8, H_SXSYM16, H_SXSYM32, H_SXSYM64, H_SXBYTES, H_SXCHOOSE, H_SXCONC, H_SXREACH, H_SXDEAD, H_SXPRINT, H_SXISSYM, H_SXPARAM, H_SXREGION, H_SXITE, H_SXFAIL, H_SXMODEL,
    H_SXOBS, H_NOP0, H_MEMCHR, H_PUREVIRT, H_THROW, H_STRLEN, H_MALLOCSZ, H_SXHEAP, H_SXSP };
static std::unordered_map<std::string, int> handlers = {
    {"malloc", H_MALLOC}, {"_Znwm", H_MALLOC}, {"_Znam", H_MALLOC}, {"_ZnwmRKSt9nothrow_t", H_MALLOC}, {"_ZnamRKSt9nothrow_t", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"_ZdlPv", H_FREE}, {"_ZdaPv", H_FREE}, {"_ZdlPvm", H_FREE}, {"_ZdaPvm", H_FREE},
    {"memcpy", H_MEMCPY}, {"memmove", H_MEMMOVE}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_MEMCMP}, {"strncmp", H_STRNCMP},
    {"__assert_fail", H_ASSERTFAIL}, {"abort", H_ABORT}, {"exit", H_EXIT}, {"_exit", H_EXIT}, {"__cxa_pure_virtual", H_PUREVIRT}, {"_ZSt9terminatev", H_ABORT},
    {"sx_assume", H_SXASSUME}, {"sx_assert", H_SXASSERT}, {"sx_u8", H_SXSYM8}, {"sx_u16", H_SXSYM16}, {"sx_u32", H_SXSYM32}, {"sx_u64", H_SXSYM64}, {"sx_bytes", H_SXBYTES}, {"sx_choose", H_SXCHOOSE}, {"sx_conc", H_SXCONC}, {"sx_reach", H_SXREACH}, {"sx_end", H_SXDEAD}, {"sx_print", H_SXPRINT}, {"sx_is_symbolic", H_SXISSYM}, {"sx_param", H_SXPARAM}, {"sx_ite", H_SXITE}, {"sx_fail", H_SXFAIL}, {"sx_obs", H_SXOBS}, {"sx_heap", H_SXHEAP}, {"sx_sp", H_SXSP},
    {"__cxa_atexit", H_NOP0}, {"memchr", H_MEMCHR}, {"__cxa_throw", H_THROW}, {"__cxa_rethrow", H_THROW}, {"malloc_usable_size", H_MALLOCSZ},
};
enum In { I_NONE = 0, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_NOP, I_EXPECT, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSHL, I_FSHR, I_UADDO, I_SADDO, I_USUBO, I_SSUBO, I_UMULO, I_SMULO, I_USUBS, I_UADDS, I_SSUBS, I_SADDS, I_OBJSZ, I_FALSE, I_TRAP, I_VASTART, I_VACOPY, I_ID, I_ASSUME, I_STACKSAVE, I_UNSUP };

struct Compiler {
    Func& f; std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, u32> bbpc; std::unordered_map<const BasicBlock*, u32> bbid;
    std::vector<std::pair<size_t, std::pair<const BasicBlock*, const BasicBlock*>>> fix;
    Compiler(Func& x) : f(x) {}
    Opd opd(const Value* v, int slot = 0) { if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> o; constSlots(c, o); return {-1, o.at(slot)}; } if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return {-1, 0}; auto it = reg.find(v); if (it == reg.end()) { fprintf(stderr, "no reg in %s\n", f.name.c_str()); abort(); } return {it->second + slot, 0}; }
    u32 edge(const BasicBlock* from, const BasicBlock* to) { Edge e; e.pc = 0; e.bb = bbid[to]; for (auto& phi : to->phis()) { int n = nslots(phi.getType()); const Value* v = phi.getIncomingValueForBlock(from); for (int i = 0; i < n; i++) e.phi.push_back({reg[&phi] + i, opd(v, i)}); } f.edges.push_back(e); fix.push_back({f.edges.size() - 1, {from, to}}); return f.edges.size() - 1; }
    Ins& emit(K k, const Instruction* I) { Ins i; memset(&i, 0, sizeof i); i.k = k; i.a.r = i.b.r = i.c.r = -1; i.dst = -1; if (I) { auto it = reg.find(I); if (it != reg.end()) i.dst = it->second; if (auto& dl = I->getDebugLoc()) i.line = dl.getLine(); } f.code.push_back(i); return f.code.back(); }
    void unsup(const Instruction* I, const char* why) { Ins& i = emit(KUnsup, I); std::string s; raw_string_ostream os(s); I->print(os); i.aux = new std::string(std::string(why) + ": " + os.str()); }
    void run() {
        Function* F = f.F; f.compiled = true; int n = 0;
        for (auto& a : F->args()) { reg[&a] = n; std::vector<Leaf> l; leaves(a.getType(), 0, l); for (auto& x : l) { f.argreg.push_back(n++); f.argw.push_back(x.w); } }
        f.bb0 = totalBB; f.nbb = 0;
        for (auto& B : *F) { bbid[&B] = totalBB++; f.nbb++; u32 line = 0; for (auto& I : B) { if (!line && I.getDebugLoc()) line = I.getDebugLoc().getLine(); if (!I.getType()->isVoidTy()) { reg[&I] = n; n += nslots(I.getType()); } } f.bbLine.push_back(line); }
        f.nregs = n;
        if (totalBB >= MAXBB) { fprintf(stderr, "too many BBs\n"); abort(); }
        for (auto& B : *F) { bbpc[&B] = f.code.size(); for (auto& I : B) ins(&I); }
        for (auto& p : fix) f.edges[p.first].pc = bbpc[p.second.second];
    }
    void ins(const Instruction* I) {
        Type* T = I->getType();
        if (isa<PHINode>(I)) return;
        if (auto* b = dyn_cast<BinaryOperator>(I)) {
            if (T->isVectorTy()) { unsigned nn = cast<FixedVectorType>(T)->getNumElements(); unsigned w = T->getScalarSizeInBits(); if (!T->isIntOrIntVectorTy() || w > 64) { unsup(I, "vec"); return; }
                for (unsigned i = 0; i < nn; i++) { Ins& x = emit(KBin, I); x.dst += i; x.w = w; x.op = b->getOpcode(); x.a = opd(b->getOperand(0), i); x.b = opd(b->getOperand(1), i); } return; }
            if (!T->isIntegerTy()) { unsup(I, "fp"); return; }
            if (T->getIntegerBitWidth() > 64) { unsup(I, "wide"); return; }
            Ins& x = emit(KBin, I); x.w = T->getIntegerBitWidth(); x.op = b->getOpcode(); x.a = opd(b->getOperand(0)); x.b = opd(b->getOperand(1)); return;
        }
        if (auto* c = dyn_cast<ICmpInst>(I)) {
            Type* ot = c->getOperand(0)->getType(); if (ot->getScalarSizeInBits() > 64) { unsup(I, "icmp wide"); return; }
            if (ot->isVectorTy()) { unsigned nn = cast<FixedVectorType>(ot)->getNumElements(); for (unsigned i = 0; i < nn; i++) { Ins& x = emit(KCmp, I); x.dst += i; x.w = leafW(ot->getScalarType()); x.op = c->getPredicate(); x.a = opd(c->getOperand(0), i); x.b = opd(c->getOperand(1), i); } return; }
            Ins& x = emit(KCmp, I); x.w = leafW(ot); x.op = c->getPredicate(); x.a = opd(c->getOperand(0)); x.b = opd(c->getOperand(1)); return;
        }
        if (auto* c = dyn_cast<SelectInst>(I)) {
            std::vector<Leaf> l; leaves(T, 0, l); bool vc = c->getCondition()->getType()->isVectorTy();
            for (size_t i = 0; i < l.size(); i++) { Ins& x = emit(KSel, I); x.dst += i; x.w = l[i].w; x.a = opd(c->getCondition(), vc ? i : 0); x.b = opd(c->getTrueValue(), i); x.c = opd(c->getFalseValue(), i); } return;
        }
        if (auto* c = dyn_cast<CastInst>(I)) {
            Type* st = c->getSrcTy(); 
            if (st->isVectorTy() || T->isVectorTy()) {
                if (c->getOpcode() == Instruction::BitCast && nslots(st) == nslots(T)) { for (int i = 0; i < nslots(T); i++) { Ins& x = emit(KCopy, I); x.dst += i; x.a = opd(c->getOperand(0), i); } return; }
                if ((c->getOpcode() == Instruction::ZExt || c->getOpcode() == Instruction::SExt || c->getOpcode() == Instruction::Trunc)) { for (int i = 0; i < nslots(T); i++) { Ins& x = emit(c->getOpcode() == Instruction::ZExt ? KZext : c->getOpcode() == Instruction::SExt ? KSext : KTrunc, I); x.dst += i; x.a = opd(c->getOperand(0), i); x.w = T->getScalarSizeInBits(); x.w2 = st->getScalarSizeInBits(); } return; }
                unsup(I, "veccast"); return; }
            unsigned sw = leafW(st), dw = leafW(T); 
            if (st->isIntegerTy() && sw > 64 && dw <= 64 && c->getOpcode() == Instruction::Trunc) { Ins& x = emit(KTrunc, I); x.a = opd(c->getOperand(0), 0); x.w = dw; x.w2 = 64; return; }
            if (dw > 64 || sw > 64) { unsup(I, "widecast"); return; }
            switch (c->getOpcode()) {
            case Instruction::ZExt: { Ins& x = emit(KZext, I); x.a = opd(c->getOperand(0)); x.w = dw; x.w2 = sw; return; }
            case Instruction::SExt: { Ins& x = emit(KSext, I); x.a = opd(c->getOperand(0)); x.w = dw; x.w2 = sw; return; }
            case Instruction::Trunc: { Ins& x = emit(KTrunc, I); x.a = opd(c->getOperand(0)); x.w = dw; x.w2 = sw; return; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: { Ins& x = emit(dw < sw ? KTrunc : KZext, I); x.a = opd(c->getOperand(0)); x.w = dw; x.w2 = sw; return; }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: { Ins& x = emit(KCopy, I); x.a = opd(c->getOperand(0)); return; }
            default: unsup(I, "cast"); return;
            }
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
            if (T->isVectorTy()) { unsup(I, "gep"); return; }
            Ins& x = emit(KGep, I); x.a = opd(g->getPointerOperand()); GepI* gi = new GepI; u64 cst = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                const Value* v = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()).getFixedValue(); continue; }
                i64 es = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                if (auto* ci = dyn_cast<ConstantInt>(v)) { cst += es * ci->getSExtValue(); continue; }
                gi->idx.push_back({opd(v), es}); gi->w.push_back(leafW(v->getType()));
            }
            x.b.c = cst; x.aux = gi; return;
        }
        if (auto* l = dyn_cast<LoadInst>(I)) {
            std::vector<Leaf> lv; leaves(T, 0, lv); for (auto& q : lv) if (!q.w) { unsup(I, "load"); return; }
            if (lv.size() == 1) { Ins& x = emit(KLoad, I); x.w = lv[0].w; x.a = opd(l->getPointerOperand()); x.aux = nullptr; return; }
            Ins& x = emit(KLoad, I); x.a = opd(l->getPointerOperand()); LdI* li = new LdI; li->l = lv; x.aux = li; return;
        }
        if (auto* st = dyn_cast<StoreInst>(I)) {
            Type* vt = st->getValueOperand()->getType(); std::vector<Leaf> lv; leaves(vt, 0, lv); for (auto& q : lv) if (!q.w) { unsup(I, "store"); return; }
            if (lv.size() == 1) { Ins& x = emit(KStore, I); x.w = lv[0].w; x.a = opd(st->getPointerOperand()); x.b = opd(st->getValueOperand()); return; }
            LdI* li = new LdI; li->l = lv; for (size_t i = 0; i < lv.size(); i++) li->v.push_back(opd(st->getValueOperand(), i));
            Ins& x = emit(KStore, I); x.a = opd(st->getPointerOperand()); x.aux = li; return;
        }
        if (auto* a = dyn_cast<AllocaInst>(I)) { Ins& x = emit(KAlloca, I); x.a = opd(a->getArraySize()); x.w = leafW(a->getArraySize()->getType()); x.b.c = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); return; }
        if (auto* b = dyn_cast<BranchInst>(I)) {
            if (b->isUnconditional()) { u32 e = edge(I->getParent(), b->getSuccessor(0)); Ins& x = emit(KBr, I); x.t0 = e; return; }
            u32 e0 = edge(I->getParent(), b->getSuccessor(0)), e1 = edge(I->getParent(), b->getSuccessor(1)); Ins& x = emit(KCond, I); x.a = opd(b->getCondition()); x.t0 = e0; x.t1 = e1; return;
        }
        if (auto* sw = dyn_cast<SwitchInst>(I)) {
            SwI* si = new SwI; for (auto& c : sw->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(I->getParent(), c.getCaseSuccessor())}); si->def = edge(I->getParent(), sw->getDefaultDest());
            Ins& x = emit(KSwitch, I); x.a = opd(sw->getCondition()); x.w = leafW(sw->getCondition()->getType()); x.aux = si; return;
        }
        if (auto* r = dyn_cast<ReturnInst>(I)) { Ins& x = emit(KRet, I); LdI* li = new LdI; if (r->getReturnValue()) { int n = nslots(r->getReturnValue()->getType()); for (int i = 0; i < n; i++) li->v.push_back(opd(r->getReturnValue(), i)); } x.aux = li; return; }
        if (isa<UnreachableInst>(I)) { emit(KUnreach, I); return; }
        if (auto* e = dyn_cast<ExtractValueInst>(I)) { int o = aggOff(e->getAggregateOperand()->getType(), e->getIndices()); int n = nslots(T); for (int i = 0; i < n; i++) { Ins& x = emit(KCopy, I); x.dst += i; x.a = opd(e->getAggregateOperand(), o + i); } return; }
        if (auto* e = dyn_cast<InsertValueInst>(I)) { int o = aggOff(T, e->getIndices()); int n = nslots(T), m = nslots(e->getInsertedValueOperand()->getType()); for (int i = 0; i < n; i++) { Ins& x = emit(KCopy, I); x.dst += i; x.a = (i >= o && i < o + m) ? opd(e->getInsertedValueOperand(), i - o) : opd(e->getAggregateOperand(), i); } return; }
        if (auto* e = dyn_cast<FreezeInst>(I)) { int n = nslots(T); for (int i = 0; i < n; i++) { Ins& x = emit(KCopy, I); x.dst += i; x.a = opd(e->getOperand(0), i); } return; }
        if (auto* e = dyn_cast<ExtractElementInst>(I)) { if (auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { Ins& x = emit(KCopy, I); x.a = opd(e->getVectorOperand(), ci->getZExtValue()); return; } unsup(I, "extractelement"); return; }
        if (auto* e = dyn_cast<InsertElementInst>(I)) { if (auto* ci = dyn_cast<ConstantInt>(e->getOperand(2))) { int n = nslots(T), o = ci->getZExtValue(); for (int i = 0; i < n; i++) { Ins& x = emit(KCopy, I); x.dst += i; x.a = i == o ? opd(e->getOperand(1)) : opd(e->getOperand(0), i); } return; } unsup(I, "insertelement"); return; }
        if (auto* e = dyn_cast<ShuffleVectorInst>(I)) { int n = nslots(T), m = nslots(e->getOperand(0)->getType()); for (int i = 0; i < n; i++) { Ins& x = emit(KCopy, I); x.dst += i; int q = e->getMaskValue(i); x.a = q < 0 ? Opd{-1, 0} : q < m ? opd(e->getOperand(0), q) : opd(e->getOperand(1), q - m); } return; }
        if (auto* c = dyn_cast<CallBase>(I)) { call(c); return; }
        if (isa<FenceInst>(I)) return;
        if (auto* r = dyn_cast<AtomicRMWInst>(I)) { Ins& x = emit(KRmw, I); x.w = leafW(T); x.op = r->getOperation(); x.a = opd(r->getPointerOperand()); x.b = opd(r->getValOperand()); return; }
        if (auto* r = dyn_cast<AtomicCmpXchgInst>(I)) { Ins& x = emit(KXchg, I); x.w = leafW(r->getNewValOperand()->getType()); x.a = opd(r->getPointerOperand()); x.b = opd(r->getCompareOperand()); x.c = opd(r->getNewValOperand()); return; }
        if (isa<LandingPadInst>(I) || isa<ResumeInst>(I)) { emit(KUnreach, I); return; }
        unsup(I, "instruction");
    }
    int aggOff(Type* t, ArrayRef<unsigned> idx) { int o = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += nslots(st->getElementType(j)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); o += i * nslots(at->getElementType()); t = at->getElementType(); } } return o; }
    void call(const CallBase* c) {
        const Function* cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (auto* al = dyn_cast<GlobalAlias>(c->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
        if (isa<InlineAsm>(c->getCalledOperand())) { // empty asm barriers
            if (c->getType()->isVoidTy()) return; unsup(c, "asm"); return; }
        CallI* ci = new CallI; ci->invoke = isa<InvokeInst>(c);
        if (cf && cf->isIntrinsic()) {
            int in = I_UNSUP;
            switch (cf->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memcpy_inline: in = I_MEMCPY; break; case Intrinsic::memmove: in = I_MEMMOVE; break; case Intrinsic::memset: case Intrinsic::memset_inline: in = I_MEMSET; break;
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vaend: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::dbg_assign: case Intrinsic::sideeffect: return;
            case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: in = I_ID; break;
            case Intrinsic::umin: in = I_UMIN; break; case Intrinsic::umax: in = I_UMAX; break; case Intrinsic::smin: in = I_SMIN; break; case Intrinsic::smax: in = I_SMAX; break; case Intrinsic::abs: in = I_ABS; break;
            case Intrinsic::ctpop: in = I_CTPOP; break; case Intrinsic::ctlz: in = I_CTLZ; break; case Intrinsic::cttz: in = I_CTTZ; break; case Intrinsic::bswap: in = I_BSWAP; break; case Intrinsic::fshl: in = I_FSHL; break; case Intrinsic::fshr: in = I_FSHR; break;
            case Intrinsic::uadd_with_overflow: in = I_UADDO; break; case Intrinsic::sadd_with_overflow: in = I_SADDO; break; case Intrinsic::usub_with_overflow: in = I_USUBO; break; case Intrinsic::ssub_with_overflow: in = I_SSUBO; break; case Intrinsic::umul_with_overflow: in = I_UMULO; break; case Intrinsic::smul_with_overflow: in = I_SMULO; break;
            case Intrinsic::usub_sat: in = I_USUBS; break; case Intrinsic::uadd_sat: in = I_UADDS; break; case Intrinsic::ssub_sat: in = I_SSUBS; break; case Intrinsic::sadd_sat: in = I_SADDS; break;
            case Intrinsic::objectsize: in = I_OBJSZ; break; case Intrinsic::is_constant: in = I_FALSE; break; case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: in = I_TRAP; break;
            case Intrinsic::vastart: in = I_VASTART; break; case Intrinsic::vacopy: in = I_VACOPY; break; case Intrinsic::stacksave: in = I_FALSE; break;
            default: break;
            }
            if (in == I_UNSUP || (c->getType()->isVectorTy())) {
                if (in != I_UNSUP && c->getType()->isVectorTy()) { unsigned nn = cast<FixedVectorType>(c->getType())->getNumElements(); for (unsigned k = 0; k < nn; k++) { CallI* cv = new CallI; cv->intr = in; for (auto& a : c->args()) { cv->args.push_back(opd(a, a->getType()->isVectorTy() ? k : 0)); cv->aw.push_back(leafW(a->getType()->getScalarType())); } cv->nret = 1; cv->rw = {(u8)c->getType()->getScalarSizeInBits()}; Ins& x = emit(KCall, c); x.dst += k; x.aux = cv; } return; }
                unsup(c, "intrinsic"); return; }
            ci->intr = in;
        }
        const FunctionType* ft = c->getFunctionType(); (void)ft;
        for (unsigned i = 0; i < c->arg_size(); i++) { const Value* a = c->getArgOperand(i); if (isa<MetadataAsValue>(a)) { ci->args.push_back({-1, 0}); ci->aw.push_back(64); ci->byval.push_back(0); continue; } std::vector<Leaf> l; leaves(a->getType(), 0, l); for (size_t k = 0; k < l.size(); k++) { ci->args.push_back(opd(a, k)); ci->aw.push_back(l[k].w); ci->byval.push_back(c->isByValArgument(i) ? DL->getTypeAllocSize(c->getParamByValType(i)).getFixedValue() : 0); } }
        { std::vector<Leaf> l; leaves(c->getType(), 0, l); ci->nret = l.size(); for (auto& x : l) ci->rw.push_back(x.w); }
        if (cf && !ci->intr) { ci->callee = funcs[cf]; ci->name = cf->getName().str(); } else if (!ci->intr) ci->fp = opd(c->getCalledOperand());
        Ins& x = emit(KCall, c); x.aux = ci;
        if (auto* iv = dyn_cast<InvokeInst>(c)) { u32 e = edge(c->getParent(), iv->getNormalDest()); Ins& b = emit(KBr, nullptr); b.t0 = e; }
    }
};
static void ensure(Func* f) { if (!f->compiled) { Compiler c(*f); c.run(); } }

// ---------------- interpreter ----------------
static inline Val get(Frame& f, const Opd& o) { return o.r >= 0 ? f.r[o.r] : Val(o.c); }
static inline Expr* E(Val v, unsigned w) { return v.e ? v.e : X.C(v.c, w); }
static void jump(State& s, Frame& f, u32 ei) {
    Edge& e = f.f->edges[ei]; COV[e.bb] = 1;
    if (e.phi.size() == 1) f.r[e.phi[0].first] = get(f, e.phi[0].second);
    else if (!e.phi.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.phi.size() > 64) { big.resize(e.phi.size()); t = big.data(); } for (size_t i = 0; i < e.phi.size(); i++) t[i] = get(f, e.phi[i].second); for (size_t i = 0; i < e.phi.size(); i++) f.r[e.phi[i].first] = t[i]; }
    f.pc = e.pc;
}
static Val binop(State& s, unsigned op, unsigned w, Val a, Val b, bool& ok) {
    ok = true; u64 M = maskw(w);
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        switch (op) {
        case Instruction::Add: return Val((x + y) & M); case Instruction::Sub: return Val((x - y) & M); case Instruction::Mul: return Val((x * y) & M);
        case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: return Val(ExprCtx::binop(OShl, x, y, w)); case Instruction::LShr: return Val(ExprCtx::binop(OLShr, x, y, w)); case Instruction::AShr: return Val(ExprCtx::binop(OAShr, x, y, w));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            if (!y) { violation(s, "div-by-zero", "division", s.model); pathEnd(&s); ok = false; return Val(0); }
            return Val(ExprCtx::binop(op == Instruction::UDiv ? OUDiv : op == Instruction::URem ? OURem : op == Instruction::SDiv ? OSDiv : OSRem, x, y, w));
        }
    }
    Expr *x = E(a, w), *y = E(b, w), *r = nullptr;
    switch (op) {
    case Instruction::Add: r = X.add(x, y); break; case Instruction::Sub: r = X.sub(x, y); break; case Instruction::Mul: r = X.mul(x, y); break;
    case Instruction::And: r = X.and_(x, y); break; case Instruction::Or: r = X.or_(x, y); break; case Instruction::Xor: r = X.xor_(x, y); break;
    case Instruction::Shl: r = X.shl(x, y); break; case Instruction::LShr: r = X.lshr(x, y); break; case Instruction::AShr: r = X.ashr(x, y); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        if (!y->isC()) { Expr* z = X.eq(y, X.C(0, w)); ModelP m; if (may(s, z, &m)) { violation(s, "div-by-zero", "division", m); ModelP g; if (!may(s, X.not_(z), &g)) { pathEnd(&s); ok = false; return Val(0); } s.model = g; addC(s, X.not_(z)); } }
        else if (!y->c) { violation(s, "div-by-zero", "division", s.model); pathEnd(&s); ok = false; return Val(0); }
        r = op == Instruction::UDiv ? X.udiv(x, y) : op == Instruction::URem ? X.urem(x, y) : op == Instruction::SDiv ? X.sdiv(x, y) : X.srem(x, y); break; }
    default: abort();
    }
    return Val(r, 0);
}
static Val cmpop(unsigned p, unsigned w, Val a, Val b) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c; i64 sx = sextw(x, w), sy = sextw(y, w);
        switch (p) { case CmpInst::ICMP_EQ: return Val(x == y); case CmpInst::ICMP_NE: return Val(x != y); case CmpInst::ICMP_ULT: return Val(x < y); case CmpInst::ICMP_ULE: return Val(x <= y); case CmpInst::ICMP_UGT: return Val(x > y); case CmpInst::ICMP_UGE: return Val(x >= y);
        case CmpInst::ICMP_SLT: return Val(sx < sy); case CmpInst::ICMP_SLE: return Val(sx <= sy); case CmpInst::ICMP_SGT: return Val(sx > sy); case CmpInst::ICMP_SGE: return Val(sx >= sy); }
    }
    Expr *x = E(a, w), *y = E(b, w), *r = nullptr;
    switch (p) { case CmpInst::ICMP_EQ: r = X.eq(x, y); break; case CmpInst::ICMP_NE: r = X.ne(x, y); break; case CmpInst::ICMP_ULT: r = X.ult(x, y); break; case CmpInst::ICMP_ULE: r = X.ule(x, y); break; case CmpInst::ICMP_UGT: r = X.ult(y, x); break; case CmpInst::ICMP_UGE: r = X.ule(y, x); break;
    case CmpInst::ICMP_SLT: r = X.slt(x, y); break; case CmpInst::ICMP_SLE: r = X.sle(x, y); break; case CmpInst::ICMP_SGT: r = X.slt(y, x); break; case CmpInst::ICMP_SGE: r = X.sle(y, x); break; default: abort(); }
    return Val(r, 0);
}
static std::string cstr(State& s, u64 a, size_t lim = 400) { std::string r; u32 id; Object* o = objOf(s, a, &id); if (!o || o == FREED) return "?"; u64 off = a - baseOf(id); while (off < o->size && r.size() < lim) { Val v = byteAt(s, o, off++); u64 c = v.e ? evalM(s, v.e) : v.c; if (!c) break; r += (char)c; } return r; }

// copy n concrete bytes between resolved places
static void copyBytes(State& s, u32 di, u64 doff, u32 si, u64 soff, u64 n) {
    if (!n) return; Object* d = objWr(s, di); Object* so = si & STACKBIT ? s.stack.get(si & ~STACKBIT) : s.heap.get(si);
    if (d == so && doff > soff) { for (u64 i = n; i-- > 0;) { Expr* e; u8 b = so->rdc(soff + i, e); d->wrb(doff + i, e, b); } return; }
    u64 i = 0;
    while (i < n) { u64 so_ = soff + i, do_ = doff + i; u64 run = std::min({n - i, 64 - (so_ & 63), 64 - (do_ & 63)}); Chunk* c = so->get(so_ >> 6); Chunk* t = nullptr;
        if (!c && !d->get(do_ >> 6) && d->fill == so->fill) { i += run; continue; }
        t = d->wr(do_ >> 6); c = so->get(so_ >> 6);
        if (!c) { memset(t->d + (do_ & 63), so->fill, run); if (t->s) for (u64 k = 0; k < run; k++) t->s[(do_ & 63) + k] = nullptr; }
        else { memmove(t->d + (do_ & 63), c->d + (so_ & 63), run); if (c->s) { if (!t->s) { t->s = new Expr*[64]; memset(t->s, 0, 64 * sizeof(Expr*)); } memmove(t->s + (do_ & 63), c->s + (so_ & 63), run * sizeof(Expr*)); } else if (t->s) for (u64 k = 0; k < run; k++) t->s[(do_ & 63) + k] = nullptr; }
        i += run; }
}
static Val offAsConc(State& s, Val a) { return Val(concretize(s, a, 64)); }
static bool memCopy(State& s, Val d, Val sr, Val n, bool mv) {
    if (n.e) n = Val(simp(s, n.e), 0);
    if (!n.e) {
        if (!n.c) return true;
        if (d.e) d = offAsConc(s, d); if (sr.e) sr = offAsConc(s, sr);
        Object *a, *b; Val ao, bo; u32 si = resolve(s, sr, n.c, b, bo, false); if (!si) return false; u32 di = resolve(s, d, n.c, a, ao, true); if (!di) return false;
        if (n.c > 64 << 20) { truncate(&s, "huge-copy"); return false; }
        copyBytes(s, di, ao.c, si, bo.c, n.c); return true;
    }
    if (d.e) d = offAsConc(s, d); if (sr.e) sr = offAsConc(s, sr);
    u64 lo = n.e->lo, hi = n.e->hi; if (hi - lo > 16) tighten(s, n.e, lo, hi);
    u32 did, sid; Object* dob = objOf(s, d.c, &did); Object* sob = objOf(s, sr.c, &sid);
    auto avail = [&](Object* o, u32 id, u64 a) -> u64 { if (!o || o == FREED) return 0; u64 off = a - baseOf(id); return off > o->size ? 0 : o->size - off; };
    u64 da = avail(dob, did, d.c), sa = avail(sob, sid, sr.c); u64 lim = std::min(da, sa);
    bool symsz = (dob && dob != FREED && dob->ssize) || (sob && sob != FREED && sob->ssize);
    if (hi > lim || symsz) { // bounds
        Expr* bad = X.F();
        auto chk = [&](Object* o, u32 id, u64 a, bool w) -> bool { u64 off = a - baseOf(id); Expr* sz = o && o != FREED ? (o->ssize ? o->ssize : X.C(o->size, 64)) : X.C(0, 64); Expr* b = X.or_(X.ult(sz, X.C(off, 64)), X.ult(X.sub(sz, X.C(off, 64)), n.e)); b = X.and_(b, X.ne(n.e, X.C(0, 64))); ModelP m; if (may(s, b, &m)) { const char* k = (!o || o == FREED) ? badKind(s, a) : "out-of-bounds"; memError(s, k, w ? "write" : "read", m); ModelP g; Expr* good = X.not_(b); if (!may(s, good, &g)) { pathEnd(&s); return false; } s.model = g; addC(s, good); } return true; };
        if (!chk(sob, sid, sr.c, false)) return false; if (!chk(dob, did, d.c, true)) return false;
        lo = n.e->lo; hi = std::min(n.e->hi, lim); tighten(s, n.e, lo, hi);
    }
    if (hi == 0) return true;
    if (hi - lo > 192) { u64 c = concretize(s, n, 64); return memCopy(s, d, sr, Val(c), mv); }
    u64 doff = d.c - baseOf(did), soff = sr.c - baseOf(sid);
    std::vector<Val> src; for (u64 i = 0; i < hi; i++) src.push_back(byteAt(s, sob, soff + i));
    Object* w = objWr(s, did);
    for (u64 i = 0; i < hi; i++) { Expr* e = src[i].e; if (i < lo) { w->wrb(doff + i, e, src[i].c); continue; } Val old = byteAt(s, w, doff + i); Expr* r = X.ite(X.ult(X.C(i, 64), n.e), E(src[i], 8), E(old, 8)); w->wrb(doff + i, r, 0); }
    return true;
}
static bool memSet(State& s, Val d, Val b, Val n) {
    if (n.e) n = Val(simp(s, n.e), 0); if (n.e) n = Val(concretize(s, n, 64)); if (!n.c) return true; if (d.e) d = offAsConc(s, d);
    Object* a; Val ao; u32 di = resolve(s, d, n.c, a, ao, true); if (!di) return false; if (n.c > 64 << 20) { truncate(&s, "huge-set"); return false; }
    Object* w = objWr(s, di); Expr* e = b.e ? X.extract(b.e, 0, 8) : nullptr; for (u64 i = 0; i < n.c; i++) w->wrb(ao.c + i, e, (u8)b.c); return true;
}
static Val memCmp(State& s, Val p, Val q, Val n, bool strn, bool& ok) {
    ok = true; if (p.e) p = offAsConc(s, p); if (q.e) q = offAsConc(s, q); u64 len = concretize(s, n, 64); if (!len) return Val(0);
    Object *a, *b; Val ao, bo;
    if (!strn) { if (!resolve(s, p, len, a, ao, false)) { ok = false; return Val(0); } if (!resolve(s, q, len, b, bo, false)) { ok = false; return Val(0); } }
    else { // need at least one byte; strings end at NUL, bounds handled while walking
        if (!resolve(s, p, 1, a, ao, false)) { ok = false; return Val(0); } if (!resolve(s, q, 1, b, bo, false)) { ok = false; return Val(0); } }
    // walk until a certain difference
    struct St { Expr *x, *y; }; std::vector<St> v; 
    Expr* reach = X.T();
    for (u64 i = 0; i < len; i++) {
        if (strn && i) { // may we still be comparing here?
            if (ao.c + i >= a->size || bo.c + i >= b->size || a->ssize || b->ssize) { ModelP m; Expr* oob = X.C(ao.c + i >= a->size || bo.c + i >= b->size, 1); if (a->ssize) oob = X.or_(oob, X.ule(a->ssize, X.C(ao.c + i, 64))); if (b->ssize) oob = X.or_(oob, X.ule(b->ssize, X.C(bo.c + i, 64))); 
                Expr* bad = X.and_(reach, oob); if (may(s, bad, &m)) { memError(s, "out-of-bounds", "read", m); ModelP g; Expr* good = X.not_(bad); if (!may(s, good, &g)) { pathEnd(&s); ok = false; return Val(0); } s.model = g; addC(s, good); } if (ao.c + i >= a->size || bo.c + i >= b->size) break; } }
        Val x = byteAt(s, a, ao.c + i), y = byteAt(s, b, bo.c + i); Expr *ex = E(x, 8), *ey = E(y, 8); v.push_back({ex, ey});
        Expr* same = X.eq(ex, ey); if (strn) same = X.and_(same, X.ne(ex, X.C(0, 8))); 
        reach = X.and_(reach, same); if (reach->isC() && !reach->c) break;
    }
    Expr* r = X.C(0, 32);
    for (size_t i = v.size(); i-- > 0;) { Expr* d = X.sub(X.zext(v[i].x, 32), X.zext(v[i].y, 32)); Expr* eq = X.eq(v[i].x, v[i].y); if (strn) { Expr* z = X.eq(v[i].x, X.C(0, 8)); r = X.ite(eq, X.ite(z, X.C(0, 32), r), X.ite(X.ult(v[i].x, v[i].y), X.C(0xffffffff, 32), X.C(1, 32))); } else r = X.ite(eq, r, X.ite(X.ult(v[i].x, v[i].y), X.C(0xffffffff, 32), X.C(1, 32))); (void)d; }
    return Val(r, 0);
}
static Val doMalloc(State& s, Val n, bool& ok, bool zero) {
    ok = true; if (n.e) n = Val(simp(s, n.e), 0);
    u64 cap; Expr* sy = nullptr;
    if (!n.e) { cap = n.c; if (cap > MAXOBJ - 4096) { violation(s, "alloc-too-big", "allocation", s.model); pathEnd(&s); ok = false; return Val(0); } }
    else {
        Expr* big = X.ult(X.C(MAXOBJ - 4096, 64), n.e); ModelP m; if (may(s, big, &m)) { violation(s, "alloc-too-big", "allocation", m); ModelP g; if (!may(s, X.not_(big), &g)) { pathEnd(&s); ok = false; return Val(0); } s.model = g; addC(s, X.not_(big)); }
        u64 lo = n.e->lo, hi = std::min<u64>(n.e->hi, MAXOBJ - 4096); if (hi - lo > 4) tighten(s, n.e, lo, hi); cap = hi; if (lo != hi) sy = n.e; }
    u64 b = newObj(s, cap, 'H', "heap"); Object* o = s.heap.wr(b >> SLOT); o->ssize = sy; if (zero) o->fill = 0; s.live++; return Val(b);
}
static std::vector<u32> varGlobals;
// heap blocks that cannot be reached from a global variable
static u64 unreachableBlocks(State& s) {
    if (!s.live) return 0;
    std::vector<u32> work(varGlobals); std::set<u32> seen; u64 kept = 0;
    while (!work.empty()) { u32 id = work.back(); work.pop_back(); Object* o = s.heap.get(id); if (!o || o == FREED) continue;
        for (u64 off = 0; off + 8 <= o->size; off += 8) { Chunk* c = o->get(off >> 6); if (!c) { off = (off | 63) - 7; continue; } Val v = readAt(s, o, off, 8); u64 a = v.e ? evalM(s, v.e) : v.c; if (!(a >> SLOT)) continue; u32 t; Object* q = objOf(s, a, &t); if (!q || q == FREED || q->kind != 'H' || !seen.insert(t).second) continue; kept++; work.push_back(t); } }
    return s.live - kept;
}
static bool doFree(State& s, Val p) {
    u64 a = concretize(s, p, 64); if (!a) return true; u32 id; Object* o = objOf(s, a, &id);
    if (!o || o == FREED || o->kind != 'H' || a != baseOf(id)) { memError(s, o == FREED ? "double-free" : "invalid-free", "free", nullptr); pathEnd(&s); return false; }
    s.heap.set(id, FREED); s.live--; return true;
}
static Expr* newSym(State& s, const std::string& nm, unsigned w) {
    u32 k = s.nameCnt[nm]++; std::string full = nm + "#" + std::to_string(k) + ":" + std::to_string(w); Expr* e = X.sym(full, w); s.inputs.push_back(e->c); return e;
}
static void setRet(State& s, Frame& f, const Ins& in, Val v) { if (in.dst >= 0) f.r[in.dst] = v; (void)s; }

static bool pushFrame(State& s, Func* cf, const std::vector<Val>& args, const Ins* call, int dst, CallI* ci) {
    ensure(cf); if ((int)s.st.size() >= optMaxFrames) { violation(s, "stack-overflow", "recursion", s.model); G->truncated++; unsupCount["maxframes"]++; pathEnd(&s); return false; }
    cf->called = true; Frame nf; nf.f = cf; nf.pc = 0; nf.r.resize(cf->nregs); nf.stackMark = s.stackTop; nf.retDst = dst; nf.call = call;
    size_t na = cf->argreg.size();
    for (size_t i = 0; i < na && i < args.size(); i++) { Val v = args[i]; 
        if (ci && i < ci->byval.size() && ci->byval[i]) { u64 b = newObj(s, ci->byval[i], 'S', "byval"); Object* o; Val off; u32 si = resolve(s, v, ci->byval[i], o, off, false); if (!si || off.e) { return false; } copyBytes(s, b >> SLOT, 0, si, off.c, ci->byval[i]); v = Val(b); }
        nf.r[cf->argreg[i]] = v; }
    if (args.size() > na) nf.va.assign(args.begin() + na, args.end());
    COV[cf->bb0] = 1; s.st.push_back(std::move(nf)); return true;
}
static u64 paramVal(const std::string& n, u64 d) { for (auto& p : optParams) if (p.first == n) return p.second; return d; }

// returns false if the path ended or a frame switch happened
static void doCall(State& s, Frame& f, const Ins& in) {
    CallI* ci = (CallI*)in.aux; std::vector<Val> a; a.reserve(ci->args.size()); for (auto& o : ci->args) a.push_back(get(f, o));
    bool ok = true;
    if (ci->intr) {
        unsigned w = ci->rw.empty() ? 0 : ci->rw[0];
        switch (ci->intr) {
        case I_MEMCPY: case I_MEMMOVE: memCopy(s, a[0], a[1], a[2], true); return;
        case I_MEMSET: memSet(s, a[0], a[1], a[2]); return;
        case I_ID: f.r[in.dst] = a[0]; return;
        case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: { Val c = cmpop(ci->intr == I_UMIN ? CmpInst::ICMP_ULT : ci->intr == I_UMAX ? CmpInst::ICMP_UGT : ci->intr == I_SMIN ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT, w, a[0], a[1]); f.r[in.dst] = c.e ? Val(X.ite(c.e, E(a[0], w), E(a[1], w)), 0) : (c.c ? a[0] : a[1]); return; }
        case I_ABS: { Expr* x = E(a[0], w); f.r[in.dst] = Val(X.ite(X.slt(x, X.C(0, w)), X.sub(X.C(0, w), x), x), 0); return; }
        case I_BSWAP: { Expr* x = E(a[0], w); std::vector<Expr*> sg; for (unsigned i = w; i > 0; i -= 8) X.segs(X.extract(x, i - 8, 8), sg); f.r[in.dst] = Val(X.fromSegs(sg), 0); return; }
        case I_FSHL: case I_FSHR: { u64 n = concretize(s, a[2], w) % w; if (ci->intr == I_FSHR) n = (w - n) % w; if (ci->intr == I_FSHR && n == 0) { f.r[in.dst] = a[1]; return; } if (n == 0) { f.r[in.dst] = a[0]; return; } f.r[in.dst] = Val(X.or_(X.shl(E(a[0], w), X.C(n, w)), X.lshr(E(a[1], w), X.C(w - n, w))), 0); return; }
        case I_CTPOP: { Expr* x = E(a[0], w); Expr* r = X.C(0, w); for (unsigned i = 0; i < w; i++) r = X.add(r, X.zext(X.extract(x, i, 1), w)); f.r[in.dst] = Val(r, 0); return; }
        case I_CTLZ: { Expr* x = E(a[0], w); Expr* r = X.C(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.eq(X.extract(x, i, 1), X.C(1, 1)), X.C(w - 1 - i, w), r); f.r[in.dst] = Val(r, 0); return; }
        case I_CTTZ: { Expr* x = E(a[0], w); Expr* r = X.C(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.eq(X.extract(x, i, 1), X.C(1, 1)), X.C(i, w), r); f.r[in.dst] = Val(r, 0); return; }
        case I_UADDO: case I_USUBO: case I_SADDO: case I_SSUBO: { Expr *x = E(a[0], w), *y = E(a[1], w); bool add = ci->intr == I_UADDO || ci->intr == I_SADDO; Expr* r = add ? X.add(x, y) : X.sub(x, y); Expr* o;
            if (ci->intr == I_UADDO) o = X.ult(r, x); else if (ci->intr == I_USUBO) o = X.ult(x, y); else { Expr* z = X.C(0, w); Expr *sx = X.slt(x, z), *sy = X.slt(y, z), *sr = X.slt(r, z); o = add ? X.and_(X.eq(sx, sy), X.ne(sx, sr)) : X.and_(X.ne(sx, sy), X.ne(sx, sr)); } f.r[in.dst] = Val(r, 0); f.r[in.dst + 1] = Val(o, 0); return; }
        case I_UMULO: { if (!a[0].e && !a[1].e && w == 64) { u64 r; bool o = __builtin_mul_overflow(a[0].c, a[1].c, &r); f.r[in.dst] = Val(r); f.r[in.dst + 1] = Val(o); return; }
            Expr *x = E(a[0], w), *y = E(a[1], w); if (x->isC()) std::swap(x, y); if (!y->isC()) { u64 v = concretize(s, Val(y, 0), w); y = X.C(v, w); } f.r[in.dst] = Val(X.mul(x, y), 0); f.r[in.dst + 1] = y->c ? Val(X.ult(X.C(maskw(w) / y->c, w), x), 0) : Val(0); return; }
        case I_SMULO: { if (w > 32) { truncate(&s, "smulo"); return; } Expr *x = X.sext(E(a[0], w), 64), *y = X.sext(E(a[1], w), 64); Expr* r = X.mul(x, y); Expr* t = X.trunc(r, w); f.r[in.dst] = Val(t, 0); f.r[in.dst + 1] = Val(X.ne(X.sext(t, 64), r), 0); return; }
        case I_USUBS: { Expr *x = E(a[0], w), *y = E(a[1], w); f.r[in.dst] = Val(X.ite(X.ult(x, y), X.C(0, w), X.sub(x, y)), 0); return; }
        case I_UADDS: { Expr *x = E(a[0], w), *y = E(a[1], w); Expr* r = X.add(x, y); f.r[in.dst] = Val(X.ite(X.ult(r, x), X.C(~0ULL, w), r), 0); return; }
        case I_OBJSZ: f.r[in.dst] = Val(a[1].c ? 0 : maskw(w)); return;
        case I_FALSE: f.r[in.dst] = Val(0); return;
        case I_TRAP: violation(s, "trap", "trap", s.model); pathEnd(&s); return;
        case I_VASTART: { u64 n = f.va.size(); u64 b = newObj(s, n * 8 + 8, 'S', "va"); Object* o = s.stack.wr((u32)(b >> SLOT) & ~STACKBIT); for (u64 i = 0; i < n; i++) writeAt(s, o, i * 8, f.va[i].e ? Val(X.zext(f.va[i].e, 64), 0) : f.va[i], 8);
            storeV(s, a[0], Val(48), 32); storeV(s, Val(a[0].c + 4), Val(304), 32); storeV(s, Val(a[0].c + 8), Val(b), 64); storeV(s, Val(a[0].c + 16), Val(0), 64); return; }
        case I_VACOPY: memCopy(s, a[0], a[1], Val(24), true); return;
        default: truncate(&s, "intrinsic"); return;
        }
    }
    Func* cf = ci->callee;
    if (!cf) {
        Val fp = get(f, ci->fp); u64 p = concretize(s, fp, 64); u32 id = p >> SLOT; u64 idx = (p - baseOf(FNID)) / 16;
        if (id != FNID || (p - baseOf(FNID)) % 16 || idx >= funcByIdx.size()) { memError(s, "bad-call", p < 65536 ? "call through null" : "call through bad pointer", nullptr); pathEnd(&s); return; }
        cf = funcByIdx[idx];
    }
    if (cf->handler == H_NONE && cf->defined) { // arguments of width <64 already canonical
        pushFrame(s, cf, a, &in, in.dst, ci); return; }
    switch (cf->handler) {
    case H_MALLOC: { Val r = doMalloc(s, a[0], ok, false); if (ok) setRet(s, f, in, r); return; }
    case H_CALLOC: { bool k; Val n = binop(s, Instruction::Mul, 64, a[0], a[1], k); Val r = doMalloc(s, n, ok, true); if (ok) setRet(s, f, in, r); return; }
    case H_REALLOC: { u64 p = concretize(s, a[0], 64); if (!p) { Val r = doMalloc(s, a[1], ok, false); if (ok) setRet(s, f, in, r); return; }
        u32 id; Object* o = objOf(s, p, &id); if (!o || o == FREED || o->kind != 'H' || p != baseOf(id)) { memError(s, o == FREED ? "use-after-free" : "invalid-free", "realloc", nullptr); pathEnd(&s); return; }
        Val n = a[1]; if (n.e) n = Val(simp(s, n.e), 0);
        if (!n.e && n.c == 0) { s.heap.set(id, FREED); s.live--; setRet(s, f, in, Val(0)); return; }
        if (n.e) { if (decide(s, X.eq(n.e, X.C(0, 64)))) { s.heap.set(id, FREED); s.live--; setRet(s, f, in, Val(0)); return; } }
        Val r = doMalloc(s, n, ok, false); if (!ok) return; o = objOf(s, p, &id); u32 nid = r.c >> SLOT; Object* no = s.heap.wr(nid); u64 lim = std::min(no->size, o->size); copyBytes(s, nid, 0, id, 0, lim);
        s.heap.set(id, FREED); s.live--; setRet(s, f, in, r); return; }
    case H_FREE: doFree(s, a[0]); return;
    case H_MEMCPY: case H_MEMMOVE: if (memCopy(s, a[0], a[1], a[2], true)) setRet(s, f, in, a[0]); return;
    case H_MEMSET: if (memSet(s, a[0], a[1], a[2])) setRet(s, f, in, a[0]); return;
    case H_MEMCMP: { Val r = memCmp(s, a[0], a[1], a[2], false, ok); if (ok) setRet(s, f, in, r); return; }
    case H_STRNCMP: { Val r = memCmp(s, a[0], a[1], a[2], true, ok); if (ok) setRet(s, f, in, r); return; }
    case H_MALLOCSZ: setRet(s, f, in, Val(0)); return;
    case H_MEMCHR: { u64 n = concretize(s, a[2], 64); Val p = offAsConc(s, a[0]); if (!n) { setRet(s, f, in, Val(0)); return; } Object* o; Val off; 
        // glibc semantics: only bytes up to the first match are examined
        Expr* ch = a[1].e ? X.extract(a[1].e, 0, 8) : X.C(a[1].c, 8); if (!resolve(s, p, 1, o, off, false)) return; Expr* r = X.C(0, 64); std::vector<Expr*> eqs; Expr* reach = X.T();
        for (u64 i = 0; i < n; i++) { if (off.c + i >= o->size) { ModelP m; if (may(s, reach, &m)) { memError(s, "out-of-bounds", "read", m); ModelP g; if (!may(s, X.not_(reach), &g)) { pathEnd(&s); return; } s.model = g; addC(s, X.not_(reach)); } break; }
            Val b = byteAt(s, o, off.c + i); Expr* q = X.eq(E(b, 8), ch); eqs.push_back(q); reach = X.and_(reach, X.not_(q)); if (reach->isC() && !reach->c) break; }
        // fork on the position
        for (size_t i = 0; i < eqs.size(); i++) { if (decide(s, eqs[i])) { setRet(s, f, in, Val(p.c + i)); return; } }
        (void)r; setRet(s, f, in, Val(0)); return; }
    case H_ASSERTFAIL: { std::string w = cstr(s, a[0].c); violation(s, "abort", "assert: " + w, s.model); pathEnd(&s); return; }
    case H_ABORT: case H_PUREVIRT: case H_THROW: violation(s, "abort", cf->name, s.model); pathEnd(&s); return;
    case H_EXIT: pathDone(s); pathEnd(&s); return;
    case H_SXASSUME: { Expr* c = a[0].e ? X.ne(a[0].e, X.C(0, 32)) : X.C(a[0].c != 0, 1); c = simp(s, c); ModelP m; int r = feasible(s, c, &m); if (r != 1) { if (r < 0) { G->unknown++; G->truncated++; } else G->infeasible++; pathEnd(&s); return; } s.model = m; addC(s, c); return; }
    case H_SXASSERT: { Expr* c = a[0].e ? X.ne(a[0].e, X.C(0, 32)) : X.C(a[0].c != 0, 1); c = simp(s, c); std::string lab = cstr(s, a[1].c); G->asserts++; auto& ac = assertCount[lab]; ac.first++;
        if (c->isC()) { if (c->c) { ac.second++; return; } violation(s, "assert", lab, s.model); pathEnd(&s); return; }
        ModelP m; int r = feasible(s, X.not_(c), &m); if (r == 0) { ac.second++; return; }
        if (r < 0) { G->unknown++; G->truncated++; unsupCount["assert-unknown:" + lab]++; } else violation(s, "assert", lab, m);
        ModelP g; if (feasible(s, c, &g) != 1) { pathEnd(&s); return; } s.model = g; addC(s, c); return; }
    case H_SXFAIL: violation(s, "assert", cstr(s, a[0].c), s.model); pathEnd(&s); return;
    case H_SXSYM8: case H_SXSYM16: case H_SXSYM32: case H_SXSYM64: { unsigned w = cf->handler == H_SXSYM8 ? 8 : cf->handler == H_SXSYM16 ? 16 : cf->handler == H_SXSYM32 ? 32 : 64; setRet(s, f, in, Val(newSym(s, cstr(s, a[0].c), w), 0)); return; }
    case H_SXBYTES: { u64 n = concretize(s, a[1], 64); std::string nm = cstr(s, a[2].c); Object* o; Val off; if (!n) return; u32 id = resolve(s, a[0], n, o, off, true); if (!id) return; o = objWr(s, id); for (u64 i = 0; i < n; i++) o->wrb(off.c + i, newSym(s, nm, 8), 0); return; }
    case H_SXCHOOSE: { u64 n = concretize(s, a[0], 32); if (n <= 1) { setRet(s, f, in, Val(0)); return; }
        // forks over the values of a fresh symbol
        std::string nm = cstr(s, a[1].c); bool again = s.brk; (void)again; Expr* e;
        { e = newSym(s, nm, 32); Expr* c = X.ult(e, X.C(n, 32)); ModelP m; feasible(s, c, &m); s.model = m; addC(s, c);
          // eager split: clone for each value
          for (u64 v = n; v-- > 1;) { Expr* q = X.eq(e, X.C(v, 32)); ModelP mv; if (feasible(s, q, &mv) == 1) { State* o = cloneState(s); o->model = mv; addC(*o, q); Frame& of = o->st.back(); of.pc++; if (in.dst >= 0) of.r[in.dst] = Val(v); pending.push_back(o); G->forks++; nForkHere++; } }
          Expr* q = X.eq(e, X.C(0, 32)); ModelP mv; if (feasible(s, q, &mv) != 1) { pathEnd(&s); return; } s.model = mv; addC(s, q); setRet(s, f, in, Val(0)); } return; }
    case H_SXCONC: { u64 v = concretize(s, a[0], 64); setRet(s, f, in, Val(v)); return; }
    case H_SXISSYM: { Val v = a[0]; if (v.e) v = Val(simp(s, v.e), 0); setRet(s, f, in, Val(v.e != nullptr)); return; }
    case H_SXITE: { Expr* c = a[0].e ? X.ne(a[0].e, X.C(0, 32)) : X.C(a[0].c != 0, 1); setRet(s, f, in, Val(X.ite(c, E(a[1], 64), E(a[2], 64)), 0)); return; }
    case H_SXREACH: { reachCount[cstr(s, a[0].c)]++; return; }
    case H_SXSP: setRet(s, f, in, Val((1ULL << 40) - 256 * (u64)s.st.size())); return;
    case H_SXHEAP: setRet(s, f, in, Val(unreachableBlocks(s))); return;
    case H_SXOBS: { std::string nm = cstr(s, a[0].c); static std::unordered_map<std::string, u32> ids; auto it = ids.find(nm); u32 id; if (it == ids.end()) { id = obsNames.size(); obsNames.push_back(nm); ids[nm] = id; } else id = it->second; s.obs.push_back({id, a[1]}); return; }
    case H_SXDEAD: pathDone(s); pathEnd(&s); return;
    case H_SXPRINT: { if (optVerbose) { std::string t = cstr(s, a[0].c); if (a.size() > 1) fprintf(stderr, "[sx] %s %s\n", t.c_str(), a[1].e ? X.str(a[1].e).c_str() : std::to_string((i64)a[1].c).c_str()); } return; }
    case H_SXPARAM: { std::string nm = cstr(s, a[0].c); setRet(s, f, in, Val(paramVal(nm, a[1].c))); return; }
    case H_NOP0: setRet(s, f, in, Val(0)); return;
    }
    G->unsupported++; unsupCount["external:" + cf->name]++; if (optVerbose) fprintf(stderr, "unsupported external %s at %s\n", cf->name.c_str(), where(s).c_str()); G->truncated++; pathEnd(&s);
}

static u64 optMem = 3000; static double lastRss = 0; static bool memHit = false;
static bool rssOver() { double t = nowS(); if (t - lastRss < 0.5) return memHit; lastRss = t; FILE* f = fopen("/proc/self/statm", "r"); if (!f) return false; unsigned long a, r; int k = fscanf(f, "%lu %lu", &a, &r); fclose(f); if (k == 2 && (r * 4096) >> 20 > optMem) { if (!memHit) unsupCount["memory-limit"]++; memHit = true; } return memHit; }
static double deadline; static bool timedOut() { if (rssOver()) return true; return G->stop.load() || nowS() > deadline; }
static void maybeSpawn();
static double lastSpawn = 0;

static void runState(State* sp) {
    State& s = *sp; cur = sp; u64 cnt = 0;
    while (!s.dead) {
        if (s.st.empty()) { pathDone(s); pathEnd(&s); break; }
        Frame& f = s.st.back();
        const Ins& in = f.f->code[f.pc];
        s.steps++; cnt++;
        if ((cnt & 0xfff) == 0) { if (s.steps > optStep) { G->steplimit++; violation(s, "no-termination", "step limit", s.model); G->truncated++; unsupCount["steplimit"]++; pathEnd(&s); break; } if ((cnt & 0x3fff) == 0) { if (timedOut()) { G->timeouts++; pathEnd(&s); break; } maybeSpawn(); } }
        u32 pc0 = f.pc; 
        switch (in.k) {
        case KNop: f.pc++; break;
        case KBin: { bool ok; Val v = binop(s, in.op, in.w, get(f, in.a), get(f, in.b), ok); if (ok) { f.r[in.dst] = v; f.pc++; } break; }
        case KCmp: f.r[in.dst] = cmpop(in.op, in.w, get(f, in.a), get(f, in.b)); f.pc++; break;
        case KSel: { Val c = get(f, in.a); if (!c.e) f.r[in.dst] = c.c ? get(f, in.b) : get(f, in.c); else { Val x = get(f, in.b), y = get(f, in.c); f.r[in.dst] = Val(X.ite(c.e, E(x, in.w), E(y, in.w)), 0); } f.pc++; break; }
        case KZext: { Val v = get(f, in.a); f.r[in.dst] = v.e ? Val(X.zext(v.e, in.w), 0) : v; f.pc++; break; }
        case KSext: { Val v = get(f, in.a); f.r[in.dst] = v.e ? Val(X.sext(v.e, in.w), 0) : Val((u64)sextw(v.c, in.w2) & maskw(in.w)); f.pc++; break; }
        case KTrunc: { Val v = get(f, in.a); f.r[in.dst] = v.e ? Val(X.trunc(v.e, in.w), 0) : Val(v.c & maskw(in.w)); f.pc++; break; }
        case KCopy: f.r[in.dst] = get(f, in.a); f.pc++; break;
        case KGep: { GepI* g = (GepI*)in.aux; Val p = get(f, in.a); 
            if (!p.e) p.c += in.b.c; else if (in.b.c) p = Val(X.add(p.e, X.C(in.b.c, 64)), 0);
            for (size_t i = 0; i < g->idx.size(); i++) { Val v = get(f, g->idx[i].first); unsigned w = g->w[i]; if (!v.e) { u64 d = (u64)sextw(v.c, w) * (u64)g->idx[i].second; if (!p.e) p.c += d; else p = Val(X.add(p.e, X.C(d, 64)), 0); } else { Expr* e = X.mul(X.sext(v.e, 64), X.C((u64)g->idx[i].second, 64)); p = Val(X.add(E(p, 64), e), 0); } }
            f.r[in.dst] = p; f.pc++; break; }
        case KLoad: { bool ok = true; Val a = get(f, in.a);
            if (!in.aux) { Val v = loadV(s, a, in.w, ok); if (ok && !s.dead) { Frame& ff = s.st.back(); ff.r[in.dst] = v; ff.pc++; } }
            else { LdI* li = (LdI*)in.aux; if (a.e) a = offAsConc(s, a); for (size_t i = 0; i < li->l.size() && ok; i++) { Val v = loadV(s, Val(a.c + li->l[i].off), li->l[i].w, ok); if (ok) f.r[in.dst + i] = v; } if (ok) f.pc++; }
            break; }
        case KStore: { Val a = get(f, in.a); 
            if (!in.aux) { if (storeV(s, a, get(f, in.b), in.w)) f.pc++; }
            else { LdI* li = (LdI*)in.aux; if (a.e) a = offAsConc(s, a); bool ok = true; for (size_t i = 0; i < li->l.size() && ok; i++) ok = storeV(s, Val(a.c + li->l[i].off), get(f, li->v[i]), li->l[i].w); if (ok) f.pc++; }
            break; }
        case KAlloca: { u64 n = concretize(s, get(f, in.a), in.w); u64 b = newObj(s, n * in.b.c, 'S', "stack"); f.r[in.dst] = Val(b); f.pc++; break; }
        case KBr: jump(s, f, in.t0); break;
        case KCond: { Val c = get(f, in.a); bool t; if (!c.e) t = c.c; else t = decide(s, c.e); jump(s, f, t ? in.t0 : in.t1); break; }
        case KSwitch: { SwI* sw = (SwI*)in.aux; Val v = get(f, in.a); if (v.e) v = Val(simp(s, v.e), 0);
            if (!v.e) { u32 e = sw->def; for (auto& p : sw->cases) if (p.first == v.c) { e = p.second; break; } jump(s, f, e); break; }
            // group by edge target block
            std::vector<std::pair<u32, Expr*>> g; Expr* other = X.T(); for (auto& p : sw->cases) { Expr* q = X.eq(v.e, X.C(p.first, in.w)); other = X.and_(other, X.not_(q)); bool hit = false; for (auto& x : g) if (f.f->edges[x.first].bb == f.f->edges[p.second].bb) { bool same = f.f->edges[x.first].phi.size() == f.f->edges[p.second].phi.size(); if (same) for (size_t i = 0; i < f.f->edges[x.first].phi.size(); i++) { auto &A = f.f->edges[x.first].phi[i], &B = f.f->edges[p.second].phi[i]; if (A.second.r != B.second.r || A.second.c != B.second.c) same = false; } if (same) { x.second = X.or_(x.second, q); hit = true; break; } } if (!hit) g.push_back({p.second, q}); }
            bool done = false; for (auto& x : g) { if (decide(s, x.second)) { jump(s, f, x.first); done = true; break; } } if (!done) jump(s, f, sw->def); break; }
        case KRet: { LdI* li = (LdI*)in.aux; std::vector<Val> rv; for (auto& o : li->v) rv.push_back(get(f, o)); int dst = f.retDst; u32 mark = f.stackMark; popStack(s, mark); s.st.pop_back(); if (!s.st.empty()) { Frame& c = s.st.back(); if (dst >= 0) for (size_t i = 0; i < rv.size(); i++) c.r[dst + i] = rv[i]; } break; }
        case KCall: { size_t depth = s.st.size(); size_t np = pending.size(); (void)np; u32 save = f.pc; f.pc = save + 1; // handlers that restart reset pc
            // forked restarts must re-execute this instruction: run with pc at the call
            f.pc = save; const Ins* ip = &in; doCall(s, f, *ip); if (s.dead) break;
            if (s.st.size() > depth) s.st[depth - 1].pc = save + 1; else s.st.back().pc = save + 1; break; }
        case KUnreach: violation(s, "unreachable", "unreachable code reached", s.model); pathEnd(&s); break;
        case KRmw: { bool ok; Val a = get(f, in.a); Val o = loadV(s, a, in.w, ok); if (!ok) break; Val b = get(f, in.b), n; bool k = true; switch (in.op) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = binop(s, Instruction::Add, in.w, o, b, k); break; case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, in.w, o, b, k); break; case AtomicRMWInst::And: n = binop(s, Instruction::And, in.w, o, b, k); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, in.w, o, b, k); break; default: truncate(&s, "rmw"); } if (s.dead) break; if (storeV(s, a, n, in.w)) { f.r[in.dst] = o; f.pc++; } break; }
        case KXchg: { bool ok; Val a = get(f, in.a); Val o = loadV(s, a, in.w, ok); if (!ok) break; Val c = cmpop(CmpInst::ICMP_EQ, in.w, o, get(f, in.b)); bool t = c.e ? decide(s, c.e) : c.c; if (t && !storeV(s, a, get(f, in.c), in.w)) break; f.r[in.dst] = o; f.r[in.dst + 1] = Val(t); f.pc++; break; }
        case KUnsup: if (optVerbose) fprintf(stderr, "unsupported %s\n", ((std::string*)in.aux)->c_str()); unsupCount["instr:" + ((std::string*)in.aux)->substr(0, 60)]++; G->unsupported++; G->truncated++; pathEnd(&s); break;
        default: abort();
        }
        (void)pc0;
    }
    G->steps += s.steps; G->paths++; cur = nullptr;
}

static std::vector<pid_t> kids;
static void report() {
    SolverStats& t = SO.st; G->queries += t.queries; G->z3 += t.z3; G->dom += t.dom; G->cache += t.cache; G->reuse += t.reuse; G->sat += t.sat; G->unsat += t.unsat; G->z3us += (u64)(t.z3time * 1e6); u64 mx = t.z3max * 1e6; if (mx > G->z3maxus.load()) G->z3maxus = mx; G->exprs += X.nExprs;
    std::string j = "{\"t\":\"proc\",\"reach\":{"; bool fst = true; for (auto& p : reachCount) { j += std::string(fst ? "" : ",") + "\"" + esc(p.first) + "\":" + std::to_string(p.second); fst = false; }
    j += "},\"asserts\":{"; fst = true; for (auto& p : assertCount) { j += std::string(fst ? "" : ",") + "\"" + esc(p.first) + "\":[" + std::to_string(p.second.first) + "," + std::to_string(p.second.second) + "]"; fst = false; }
    j += "},\"cut\":{"; fst = true; for (auto& p : unsupCount) { j += std::string(fst ? "" : ",") + "\"" + esc(p.first) + "\":" + std::to_string(p.second); fst = false; }
    j += "}}"; outLine(j);
}
static void maybeSpawn() {
    if (pending.size() < 2 || G->active.load() >= optProcs) return; double t = nowS(); if (t - lastSpawn < 0.02) return;
    int a = G->active.load(); while (a < optProcs) { if (G->active.compare_exchange_weak(a, a + 1)) break; } if (a >= optProcs) return;
    lastSpawn = t; pid_t p = fork();
    if (p < 0) { G->active--; return; }
    size_t half = pending.size() / 2; if (!half) half = 1;
    if (p == 0) { // child: oldest half; abandon the current path
        kids.clear(); SO.st = SolverStats(); localDone = localSamples = 0; reachCount.clear(); assertCount.clear(); unsupCount.clear(); X.nExprs = 0; optChild++;
        pending.resize(half); if (cur) { cur->dead = true; cur->steps = 0; G->paths--; /* the abandoned current path is not counted */ } return; }
    kids.push_back(p); pending.erase(pending.begin(), pending.begin() + half);
}
static bool mainLoop() {
    while (!pending.empty()) {
        if (timedOut() || G->paths.load() > optPaths) { G->timeouts += pending.size(); break; }
        State* s = pending.back(); pending.pop_back(); runState(s); delete s; maybeSpawn();
    }
    return true;
}

static void buildGlobals(State& s) {
    u32 fi = 0;
    for (auto& F : *M) {
        if (F.isIntrinsic()) continue;
        Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->defined = !F.isDeclaration();
        auto h = handlers.find(f->name); if (h != handlers.end()) f->handler = h->second;
        if (!f->defined && !f->handler && (StringRef(f->name).starts_with("_ZSt") && StringRef(f->name).contains("__throw_"))) f->handler = H_THROW;
        f->va = F.isVarArg(); if (auto* sp = F.getSubprogram()) { std::string file = sp->getFilename().str(); if (file.empty() || file[0] != '/') file = (sp->getDirectory() + "/" + file).str(); f->file = file; f->repo = file.compare(0, optRepo.size(), optRepo) == 0; }
        f->addr = baseOf(FNID) + 16ULL * fi++; gaddr[&F] = f->addr; funcs[&F] = f; funcByIdx.push_back(f);
    }
    for (Func* f : funcByIdx) if (f->name.compare(0, 7, "__wrap_") == 0 && f->defined) { Function* o = M->getFunction(f->name.substr(7)); if (o) { funcs[o] = f; gaddr[o] = f->addr; } }
    for (Func* f : funcByIdx) if (f->name.compare(0, 7, "__real_") == 0 && !f->defined) for (Func* g : funcByIdx) if (g->name == f->name.substr(7)) { funcs[f->F] = g; }
    for (auto& gv : M->globals()) { u64 sz = gv.getValueType()->isSized() ? DL->getTypeAllocSize(gv.getValueType()).getFixedValue() : 0; if (gv.isDeclaration()) sz = std::max<u64>(sz, 512); u64 b = newObj(s, sz, 'G', "global"); gaddr[&gv] = b; Object* o = s.heap.wr(b >> SLOT); o->fill = 0; if (!gv.isConstant()) varGlobals.push_back(b >> SLOT); }
    for (auto& gv : M->globals()) {
        if (gv.isDeclaration()) continue; Object* o = s.heap.wr(gaddr[&gv] >> SLOT); std::vector<Leaf> l; leaves(gv.getValueType(), 0, l);
        if (!isa<ConstantAggregateZero>(gv.getInitializer())) { std::vector<u64> v; constSlots(gv.getInitializer(), v); for (size_t i = 0; i < l.size(); i++) if (l[i].w) { if (v[i]) writeAt(s, o, l[i].off, Val(v[i]), (l[i].w + 7) / 8); } }
        if (gv.isConstant()) o->ro = true;
    }
}

int main(int argc, char** argv) {
    std::string file;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--procs") optProcs = atoi(nx().c_str()); else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--steps") optStep = strtoull(nx().c_str(), 0, 10); else if (a == "--frames") optMaxFrames = atoi(nx().c_str()); else if (a == "--repo") optRepo = nx(); else if (a == "-v") optVerbose++; else if (a == "--forkread") optForkRead = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit") optRlimit = strtoull(nx().c_str(), 0, 10); else if (a == "--paths") optPaths = strtoull(nx().c_str(), 0, 10);
        else if (a == "--mem") optMem = atoi(nx().c_str()); else if (a == "--xcheck") optXcheck = atoi(nx().c_str()); else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "--dump") optDump = nx(); else if (a == "--dumpn") optDumpN = atoi(nx().c_str());
        else if (a == "-p") { std::string p = nx(); size_t e = p.find('='); optParams.push_back({p.substr(0, e), strtoull(p.c_str() + e + 1, 0, 0)}); } else file = a; }
    // big stack for recursive evaluation
    rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ULL << 30) && !getenv("SX_STACK")) { rlim_t want = 1ULL << 30; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < want) want = rl.rlim_max; rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl); setenv("SX_STACK", "1", 1); execv("/proc/self/exe", argv); }
    G = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)G, 0, sizeof *G); COV = (u8*)mmap(0, MAXBB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    LC = new LLVMContext; SMDiagnostic err; M = parseIRFile(file, err, *LC); if (!M) { err.print("sx", errs()); return 2; }
    DL = &M->getDataLayout(); outF = fopen(optOut.c_str(), "a"); if (!outF) return 2; SO.rlimit = optRlimit; 
    if (!optDump.empty()) { SO.dump = fopen(optDump.c_str(), "w"); SO.dumpLeft = optDumpN; }
    State* s = new State; s->model = ModelP(new Model); s->model->epoch = newEpoch();
    buildGlobals(*s);
    // compile everything reachable eagerly so that block ids are stable across forked workers
    for (Func* f : funcByIdx) if (f->defined && !f->handler) ensure(f);
    Function* ef = M->getFunction(optEntry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
    deadline = nowS() + optTime; G->t0 = nowS(); G->active = 1;
    std::vector<Func*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Func*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); u64 pr = cast<ConstantInt>(cs->getOperand(0))->getZExtValue(); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({pr, funcs[fn]}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
    // frames: entry last executed; constructors pushed on top so that they run first
    pushFrame(*s, funcs[ef], {}, nullptr, -1, nullptr); for (size_t i = ctors.size(); i-- > 0;) pushFrame(*s, ctors[i], {}, nullptr, -1, nullptr);
    pending.push_back(s); mainLoop(); report();
    G->active--; 
    for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) G->errors++; }
    if (optChild) { fclose(outF); _exit(0); }
    // summary
    double wall = nowS() - G->t0; u64 rb = 0, rbc = 0; std::string fl; int nf = 0; std::string unc;
    for (Func* f : funcByIdx) if (f->compiled && f->repo) { u64 c = 0; for (u32 i = 0; i < f->nbb; i++) c += COV[f->bb0 + i]; if (!c) continue; rb += f->nbb; rbc += c; fl += std::string(nf++ ? "," : "") + "\"" + esc(f->name) + "\""; for (u32 i = 0; i < f->nbb; i++) if (!COV[f->bb0 + i]) { std::string ff = f->file; size_t p = ff.rfind('/'); unc += (unc.empty() ? "\"" : ",\"") + ff.substr(p + 1) + ":" + std::to_string(f->bbLine[i]) + "\""; } }
    if (const char* cf = getenv("SX_COVFILE")) if (FILE* o = fopen(cf, "a")) { for (Func* f : funcByIdx) if (f->defined && f->compiled && f->repo) { std::string ff = f->file; size_t p = ff.rfind('/'); for (u32 i = 0; i < f->nbb; i++) fprintf(o, "%s:%d %d %s\n", ff.substr(p + 1).c_str(), (int)f->bbLine[i], (int)COV[f->bb0 + i], f->name.c_str()); } fclose(o); }
    char buf[2048]; snprintf(buf, sizeof buf, "{\"t\":\"summary\",\"wall\":%.2f,\"paths\":%lu,\"completed\":%lu,\"forks\":%lu,\"steps\":%lu,\"infeasible\":%lu,\"violations\":%lu,\"truncated\":%lu,\"unsupported\":%lu,\"timeouts\":%lu,\"unknown\":%lu,\"steplimit\":%lu,\"errors\":%lu,\"queries\":%lu,\"z3\":%lu,\"domain\":%lu,\"cache\":%lu,\"reuse\":%lu,\"sat\":%lu,\"unsat\":%lu,\"z3_s\":%.3f,\"z3_max_s\":%.3f,\"asserts\":%lu,\"xchecks\":%lu,\"xfail\":%lu,\"exprs\":%lu,\"bb_total\":%lu,\"bb_covered\":%lu,\"functions\":[",
        wall, G->paths.load(), G->done.load(), G->forks.load(), G->steps.load(), G->infeasible.load(), G->violations.load(), G->truncated.load(), G->unsupported.load(), G->timeouts.load(), G->unknown.load(), G->steplimit.load(), G->errors.load(), G->queries.load(), G->z3.load(), G->dom.load(), G->cache.load(), G->reuse.load(), G->sat.load(), G->unsat.load(), G->z3us.load() / 1e6, G->z3maxus.load() / 1e6, G->asserts.load(), G->xchecks.load(), G->xfail.load(), G->exprs.load(), rb, rbc);
    outLine(std::string(buf) + fl + "],\"uncovered\":[" + unc + "]}"); fclose(outF);
    return 0;
}
