// Decision procedure front end: slicing, caching, single-byte domains, Z3.
#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>
#include <time.h>
#include <set>
#include <map>
#include <deque>

static inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Model { std::vector<u64> v; u32 epoch; };
typedef std::shared_ptr<Model> ModelP;

struct SolverStats { u64 queries = 0, z3 = 0, dom = 0, cache = 0, reuse = 0, sat = 0, unsat = 0, unknown = 0; double z3time = 0; double z3max = 0; };

struct Solver {
    ExprCtx& X; SolverStats st;
    Z3_context ctx = nullptr; Z3_solver inc = nullptr; u32 zEpoch = 0;
    std::vector<Z3_ast> zrefs;
    std::vector<Z3_ast> symAst;
    std::unordered_map<u32, Z3_ast> lit; // expr id -> indicator literal
    unsigned rlimit = 60000000; u64 zq = 0;
    struct CacheEnt { int res; std::vector<std::pair<u32,u64>> model; };
    std::unordered_map<std::string, CacheEnt> cache;
    std::deque<std::vector<std::pair<u32,u64>>> recent;
    FILE* dump = nullptr; int dumpLeft = 0;

    Solver(ExprCtx& x) : X(x) { }
    static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
    void reset() {
        if (ctx) { Z3_del_context(ctx); }
        Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, onErr);
        inc = nullptr; zEpoch++; symAst.clear(); lit.clear();
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bv(w)); }
    Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }
    bool isBoolOp(Expr* e) { if (e->w != 1) return false; switch (e->op) { case OEq: case OUlt: case OUle: case OSlt: case OSle: case OAnd: case OOr: case OXor: case OConst: return true; case OIte: return true; default: return false; } }
    // term as Z3 Bool (width 1) -- memo only for bv; bool memo separate
    std::unordered_map<u32, Z3_ast> bmemo; u32 bmemoEpoch = 0;
    Z3_ast tb(Expr* e) {
        if (bmemoEpoch != zEpoch) { bmemo.clear(); bmemoEpoch = zEpoch; }
        auto it = bmemo.find(e->id); if (it != bmemo.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case OConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case OEq: r = e->k[0]->w == 1 ? Z3_mk_iff(ctx, tb(e->k[0]), tb(e->k[1])) : Z3_mk_eq(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OUlt: r = Z3_mk_bvult(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OUle: r = Z3_mk_bvule(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OSlt: r = Z3_mk_bvslt(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OSle: r = Z3_mk_bvsle(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OAnd: { Z3_ast a[2] = {tb(e->k[0]), tb(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
        case OOr: { Z3_ast a[2] = {tb(e->k[0]), tb(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
        case OXor: if (e->k[1]->isC()) r = Z3_mk_not(ctx, tb(e->k[0])); else r = Z3_mk_xor(ctx, tb(e->k[0]), tb(e->k[1])); break;
        case OIte: r = Z3_mk_ite(ctx, tb(e->k[0]), tb(e->k[1]), tb(e->k[2])); break;
        default: r = Z3_mk_eq(ctx, tv(e), num(1, 1)); break;
        }
        keep(r); bmemo[e->id] = r; return r;
    }
    Z3_ast tv(Expr* e) {
        if (e->zE == zEpoch) return (Z3_ast)e->z;
        Z3_ast r;
        if (isBoolOp(e) && e->op != OConst) r = b2bv(tb(e));
        else switch (e->op) {
        case OConst: r = num(e->c, e->w); break;
        case OSym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), bv(e->w)); break;
        case OConcat: r = Z3_mk_concat(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OExtract: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, tv(e->k[0])); break;
        case OSExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, tv(e->k[0])); break;
        case OAdd: { // a + (-1)*b  => sub
            Expr *a = e->k[0], *b = e->k[1];
            if (b->op == OMul && b->k[1]->isC() && b->k[1]->c == maskw(b->w)) r = Z3_mk_bvsub(ctx, tv(a), tv(b->k[0]));
            else if (a->op == OMul && a->k[1]->isC() && a->k[1]->c == maskw(a->w)) r = Z3_mk_bvsub(ctx, tv(b), tv(a->k[0]));
            else r = Z3_mk_bvadd(ctx, tv(a), tv(b)); break; }
        case OMul: if (e->k[1]->isC() && e->k[1]->c == maskw(e->w)) r = Z3_mk_bvneg(ctx, tv(e->k[0])); else r = Z3_mk_bvmul(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OUDiv: r = Z3_mk_bvudiv(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OSDiv: r = Z3_mk_bvsdiv(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OURem: r = Z3_mk_bvurem(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OSRem: r = Z3_mk_bvsrem(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OAnd: r = Z3_mk_bvand(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OOr: r = Z3_mk_bvor(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OXor: r = Z3_mk_bvxor(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OShl: r = Z3_mk_bvshl(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OLShr: r = Z3_mk_bvlshr(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OAShr: r = Z3_mk_bvashr(ctx, tv(e->k[0]), tv(e->k[1])); break;
        case OIte: r = Z3_mk_ite(ctx, tb(e->k[0]), tv(e->k[1]), tv(e->k[2])); break;
        default: abort();
        }
        keep(r); e->z = r; e->zE = zEpoch; return r;
    }
    // Solve conjunction cs. 1 sat (model filled for symbols), 0 unsat, -1 unknown
    int z3check(const std::vector<Expr*>& cs, std::vector<std::pair<u32,u64>>& model) {
        if (!ctx || zq++ % 4000 == 3999) reset();
        double t0 = nowS();
        if (!inc) {
            inc = getenv("SX_SIMPLE") ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, inc);
            Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
            Z3_solver_set_params(ctx, inc, p); Z3_params_dec_ref(ctx, p);
        }
        Z3_solver s = inc;
        Z3_solver_push(ctx, s);
        const SymSet* ss = X.emptySet;
        for (Expr* e : cs) { Z3_solver_assert(ctx, s, tb(e)); ss = X.unite(ss, e->syms); }
        if (dump && dumpLeft > 0) { dumpLeft--; fprintf(dump, "; query\n(push)\n%s(check-sat)\n(pop)\n", Z3_solver_to_string(ctx, s)); }
        Z3_lbool r = Z3_solver_check(ctx, s);
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1) {
            Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
            for (u32 id : ss->ids) {
                Z3_ast v; Z3_ast c = tv(X.symExpr[id]);
                u64 val = 0;
                if (Z3_model_eval(ctx, m, c, true, &v)) { Z3_inc_ref(ctx, v); uint64_t t = 0; Z3_get_numeral_uint64(ctx, v, &t); val = t; Z3_dec_ref(ctx, v); }
                model.push_back({id, val});
            }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_pop(ctx, s, 1);
        double dt = nowS() - t0; st.z3time += dt; if (dt > st.z3max) st.z3max = dt; st.z3++;
        if (dump && false) fprintf(dump, "; result %d\n", res);
        if (res == 1) st.sat++; else if (res == 0) st.unsat++; else st.unknown++;
        return res;
    }
};
