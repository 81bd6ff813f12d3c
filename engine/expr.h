// Hash-consed bit-vector expressions (width 1..64) with a canonicalising simplifier.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { OConst, OSym, OConcat, OExtract, OSExt, OAdd, OMul, OUDiv, OSDiv, OURem, OSRem,
               OAnd, OOr, OXor, OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OIte };

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w-1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct SymSet { std::vector<u32> ids; u32 uid; };

struct Expr {
    Op op; u8 w; u8 nk; u8 flags;
    u32 id;
    Expr* k[3];
    u64 c;            // const value / symbol index / extract low bit
    u64 lo, hi;       // unsigned range
    const SymSet* syms;
    u64 evalV; u32 evalE; u32 zE;
    void* z;          // Z3_ast
    bool isC() const { return op == OConst; }
};

struct Mask256 { u64 m[4]; bool any() const { return m[0]|m[1]|m[2]|m[3]; }
    int count() const { int n=0; for (int i=0;i<4;i++) n+=__builtin_popcountll(m[i]); return n; }
    bool has(unsigned v) const { return (m[v>>6]>>(v&63))&1; }
    int first() const { for (int i=0;i<4;i++) if (m[i]) return i*64+__builtin_ctzll(m[i]); return -1; } };

struct SymInfo { std::string name; u8 w; };

struct ExprCtx {
    std::vector<SymInfo> syms;             // global symbol table; symbol index is (name-unique) global
    std::unordered_map<std::string, u32> symByName;
    std::vector<Expr*> symExpr;
    std::unordered_map<u64, std::vector<Expr*>> tab;
    std::unordered_map<u64, Expr*> consts[65];
    std::vector<char*> arena; size_t arenaOff = 0; static const size_t ARENA = 1 << 22;
    u32 nextId = 1; u64 nExprs = 0;
    std::unordered_map<std::string, const SymSet*> setTab;
    std::unordered_map<u64, const SymSet*> unionCache;
    const SymSet* emptySet; u32 nextSet = 0;
    std::unordered_map<u32, Mask256> ttCache;   // truth tables of single-byte-symbol bools
    u32 evalEpoch = 1;

    ExprCtx() { emptySet = internSet({}); }
    const SymSet* internSet(std::vector<u32> v) {
        std::string key((const char*)v.data(), v.size()*4);
        auto it = setTab.find(key); if (it != setTab.end()) return it->second;
        SymSet* s = new SymSet; s->ids = std::move(v); s->uid = nextSet++;
        setTab[key] = s; return s;
    }
    const SymSet* unite(const SymSet* a, const SymSet* b) {
        if (a == b || b->ids.empty()) return a; if (a->ids.empty()) return b;
        if (a->uid > b->uid) std::swap(a, b);
        u64 key = ((u64)a->uid << 32) | b->uid;
        auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
        std::vector<u32> r; r.reserve(a->ids.size()+b->ids.size());
        std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
        const SymSet* s = internSet(std::move(r)); unionCache[key] = s; return s;
    }
    Expr* alloc() {
        if (arena.empty() || arenaOff + sizeof(Expr) > ARENA) { arena.push_back((char*)malloc(ARENA)); arenaOff = 0; }
        Expr* e = (Expr*)(arena.back() + arenaOff); arenaOff += sizeof(Expr);
        memset(e, 0, sizeof *e); e->id = nextId++; nExprs++; return e;
    }
    Expr* C(u64 v, unsigned w) {
        v &= maskw(w);
        auto& slot = consts[w][v];
        if (!slot) { Expr* e = alloc(); e->op = OConst; e->w = w; e->c = v; e->lo = e->hi = v; e->syms = emptySet; slot = e; }
        return slot;
    }
    Expr* sym(const std::string& name, unsigned w) {
        auto it = symByName.find(name);
        if (it != symByName.end()) { Expr* e = symExpr[it->second]; if (e->w != w) { fprintf(stderr, "sym width clash %s\n", name.c_str()); abort(); } return e; }
        Expr* e = alloc(); e->op = OSym; e->w = w; e->c = syms.size(); e->lo = 0; e->hi = maskw(w);
        symByName[name] = syms.size(); e->syms = internSet({(u32)syms.size()});
        syms.push_back({name, (u8)w}); symExpr.push_back(e); return e;
    }
    // raw hash-consing constructor
    Expr* raw(Op op, unsigned w, Expr* a, Expr* b = nullptr, Expr* d = nullptr, u64 c = 0) {
        u64 h = op * 0x9E3779B97F4A7C15ULL + w; 
        h = (h ^ a->id) * 0xff51afd7ed558ccdULL; h ^= h >> 32; if (b) { h = (h ^ b->id) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29; }
        if (d) { h = (h ^ d->id) * 0xff51afd7ed558ccdULL; h ^= h >> 31; } h = (h ^ c) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
        auto& bucket = tab[h];
        for (Expr* e : bucket) if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == d && e->c == c) return e;
        Expr* e = alloc(); e->op = op; e->w = w; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->c = c; e->nk = 1 + (b != 0) + (d != 0);
        e->syms = a->syms; if (b) e->syms = unite(e->syms, b->syms); if (d) e->syms = unite(e->syms, d->syms);
        range(e); bucket.push_back(e); return e;
    }
    void range(Expr* e) {
        u64 M = maskw(e->w); e->lo = 0; e->hi = M;
        Expr *a = e->k[0], *b = e->k[1];
        switch (e->op) {
        case OConcat: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
        case OExtract: if (e->c == 0 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; }
            else if (e->c + e->w == a->w) { e->lo = a->lo >> e->c; e->hi = a->hi >> e->c; } break;
        case OSExt: { u64 half = 1ULL << (a->w-1); if (a->hi < half) { e->lo = a->lo; e->hi = a->hi; }
            else if (a->lo >= half) { e->lo = (u64)sextw(a->lo, a->w) & M; e->hi = (u64)sextw(a->hi, a->w) & M; } break; }
        case OAdd: { u64 s; 
            // handle adding constant with wrap
            if (b->isC()) { u64 l = (a->lo + b->c) & M, h = (a->hi + b->c) & M; if (l <= h && (a->hi - a->lo) == ((h - l))) { e->lo = l; e->hi = h; } }
            else if (!__builtin_add_overflow(a->hi, b->hi, &s) && s <= M) { e->lo = a->lo + b->lo; e->hi = s; } break; }
        case OMul: { u64 s; if (!__builtin_mul_overflow(a->hi, b->hi, &s) && s <= M) { e->lo = a->lo * b->lo; e->hi = s; } break; }
        case OUDiv: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
        case OURem: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } else e->hi = M; break;
        case OAnd: e->hi = std::min(a->hi, b->hi); break;
        case OOr: case OXor: { u64 m = a->hi | b->hi; int hb = m ? 63 - __builtin_clzll(m) : -1; e->hi = hb < 0 ? 0 : (hb == 63 ? ~0ULL : ((1ULL << (hb+1)) - 1)); if (e->hi > M) e->hi = M;
            if (e->op == OOr) e->lo = std::max(a->lo, b->lo); break; }
        case OLShr: e->hi = a->hi >> std::min<u64>(b->lo, 63); if (b->lo >= e->w) e->hi = 0; break;
        case OIte: e->lo = std::min(b->lo, e->k[2]->lo); e->hi = std::max(b->hi, e->k[2]->hi); break;
        default: break;
        }
    }
    // ---- segments ----
    struct Seg { Expr* e; };
    void segs(Expr* e, std::vector<Expr*>& out) { // low to high
        while (e->op == OConcat) { Expr* hi = e->k[0]; segs(e->k[1], out); e = hi; }
        out.push_back(e);
    }
    Expr* fromSegs(const std::vector<Expr*>& in) {
        std::vector<Expr*> s; s.reserve(in.size());
        for (Expr* e : in) {
            if (!s.empty()) {
                Expr*& l = s.back();
                if (l->isC() && e->isC()) { l = C(l->c | (e->c << l->w), l->w + e->w); continue; }
                // contiguous extracts
                Expr* lb = l; u64 lo1 = 0; if (l->op == OExtract) { lb = l->k[0]; lo1 = l->c; }
                if (e->op == OExtract && e->k[0] == lb && e->c == lo1 + l->w) { l = extract(lb, lo1, l->w + e->w); continue; }
            }
            s.push_back(e);
        }
        Expr* r = s[0];
        for (size_t i = 1; i < s.size(); i++) {
            // keep nesting in the high direction: Concat(hi, lo)
            r = nullptr; break;
        }
        if (s.size() == 1) return s[0];
        // build Concat(s[n-1], Concat(s[n-2], ... s[0])) : nested in k[1]
        r = s[0];
        for (size_t i = 1; i < s.size(); i++) r = raw(OConcat, r->w + s[i]->w, s[i], r);
        return r;
    }
    Expr* concat(Expr* hi, Expr* lo) {
        if (hi->isC() && lo->isC()) return C((hi->c << lo->w) | lo->c, hi->w + lo->w);
        std::vector<Expr*> s; segs(lo, s); segs(hi, s); return fromSegs(s);
    }
    Expr* zext(Expr* e, unsigned w) { if (w == e->w) return e; if (e->isC()) return C(e->c, w);
        if (e->op == OIte && e->k[1]->isC() && e->k[2]->isC()) return ite(e->k[0], C(e->k[1]->c, w), C(e->k[2]->c, w));
        return concat(C(0, w - e->w), e); }
    Expr* sext(Expr* e, unsigned w) { if (w == e->w) return e; if (e->isC()) return C((u64)sextw(e->c, e->w), w);
        if (e->hi < (1ULL << (e->w - 1))) return zext(e, w);
        if (e->op == OSExt) return sext(e->k[0], w);
        if (e->op == OIte && (e->k[1]->isC() || e->k[2]->isC())) return ite(e->k[0], sext(e->k[1], w), sext(e->k[2], w));
        if (e->w == 1) return ite(e, C(~0ULL, w), C(0, w));
        return raw(OSExt, w, e); }
    Expr* extract(Expr* e, u64 lo, unsigned w) {
        if (lo == 0 && w == e->w) return e;
        switch (e->op) {
        case OConst: return C(e->c >> lo, w);
        case OExtract: return extract(e->k[0], e->c + lo, w);
        case OConcat: {
            std::vector<Expr*> s, r; segs(e, s); u64 p = 0;
            for (Expr* x : s) { u64 b = p, t = p + x->w; p = t; if (t <= lo || b >= lo + w) continue;
                u64 l = lo > b ? lo - b : 0; u64 h = std::min<u64>(x->w, lo + w - b); r.push_back(extract(x, l, h - l)); }
            return fromSegs(r); }
        case OSExt: { Expr* x = e->k[0]; if (lo + w <= x->w) return extract(x, lo, w);
            if (lo < x->w) return sext(extract(x, lo, x->w - lo), w);
            // all sign bits
            return sext(extract(x, x->w - 1, 1), w); }
        case OIte: if (e->k[1]->isC() || e->k[2]->isC()) return ite(e->k[0], extract(e->k[1], lo, w), extract(e->k[2], lo, w)); break;
        case OAdd: if (lo == 0) return add(extract(e->k[0], 0, w), extract(e->k[1], 0, w)); break;
        case OMul: if (lo == 0) return mul(extract(e->k[0], 0, w), extract(e->k[1], 0, w)); break;
        case OAnd: return and_(extract(e->k[0], lo, w), extract(e->k[1], lo, w));
        case OOr: return or_(extract(e->k[0], lo, w), extract(e->k[1], lo, w));
        case OXor: return xor_(extract(e->k[0], lo, w), extract(e->k[1], lo, w));
        default: break;
        }
        if (lo < 64 && (e->hi >> lo) == 0) return C(0, w);
        return raw(OExtract, w, e, nullptr, nullptr, lo);
    }
    Expr* trunc(Expr* e, unsigned w) { return extract(e, 0, w); }
    // ---- arithmetic: linear normal form ----
    struct Lin { std::vector<std::pair<Expr*, u64>> t; u64 c = 0; };
    void lin(Expr* e, u64 k, Lin& L, int depth = 0) {
        u64 M = maskw(e->w);
        if (e->isC()) { L.c = (L.c + e->c * k) & M; return; }
        if (depth < 24) {
            if (e->op == OAdd) { lin(e->k[0], k, L, depth+1); lin(e->k[1], k, L, depth+1); return; }
            if (e->op == OMul && e->k[1]->isC()) { lin(e->k[0], (k * e->k[1]->c) & M, L, depth+1); return; }
        }
        for (auto& p : L.t) if (p.first == e) { p.second = (p.second + k) & M; return; }
        L.t.push_back({e, k & M});
    }
    Expr* fromLin(Lin& L, unsigned w) {
        std::vector<std::pair<Expr*, u64>> t;
        for (auto& p : L.t) if (p.second) t.push_back(p);
        if (t.empty()) return C(L.c, w);
        std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
        Expr* r = nullptr;
        for (auto& p : t) {
            Expr* x = p.second == 1 ? p.first : mulc(p.first, p.second);
            r = r ? raw(OAdd, w, r, x) : x;
        }
        L.c &= maskw(w);
        if (L.c) r = raw(OAdd, w, r, C(L.c, w));
        return r;
    }
    Expr* mulc(Expr* x, u64 k) { k &= maskw(x->w); if (k == 0) return C(0, x->w); if (k == 1) return x;
        return raw(OMul, x->w, x, C(k, x->w)); }
    bool disjointConcat(Expr* a, Expr* b) { // both decomposed, no overlapping nonzero segments
        if (a->op != OConcat && b->op != OConcat) return false;
        std::vector<Expr*> s, t; segs(a, s); segs(b, t);
        u64 za = zeroMask(s), zb = zeroMask(t);
        return ((za | zb) & maskw(a->w)) == maskw(a->w);
    }
    u64 zeroMask(const std::vector<Expr*>& s) { u64 z = 0, p = 0; for (Expr* x : s) { if (x->isC()) z |= ((~x->c) & maskw(x->w)) << p; p += x->w; } return z; }
    Expr* add(Expr* a, Expr* b) {
        unsigned w = a->w;
        if (a->isC() && b->isC()) return C(a->c + b->c, w);
        if (a->isC() && a->c == 0) return b; if (b->isC() && b->c == 0) return a;
        if (w == 1) return xor_(a, b);
        if (!a->isC() && !b->isC() && disjointConcat(a, b)) return or_(a, b);
        if (a->isC()) std::swap(a, b);
        if (b->isC() && a->op == OIte && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], C(a->k[1]->c + b->c, w), C(a->k[2]->c + b->c, w));
        Lin L; lin(a, 1, L); lin(b, 1, L); return fromLin(L, w);
    }
    Expr* sub(Expr* a, Expr* b) {
        unsigned w = a->w; if (a == b) return C(0, w);
        if (a->isC() && b->isC()) return C(a->c - b->c, w);
        if (w == 1) return xor_(a, b);
        if (b->isC()) return add(a, C(-b->c, w));
        Lin L; lin(a, 1, L); lin(b, ~0ULL, L); return fromLin(L, w);
    }
    Expr* mul(Expr* a, Expr* b) {
        unsigned w = a->w;
        if (a->isC() && b->isC()) return C(a->c * b->c, w);
        if (a->isC()) std::swap(a, b);
        if (w == 1) return and_(a, b);
        if (b->isC()) {
            if (b->c == 0) return b; if (b->c == 1) return a;
            if (a->op == OIte && a->k[1]->isC() && a->k[2]->isC()) return ite(a->k[0], C(a->k[1]->c * b->c, w), C(a->k[2]->c * b->c, w));
            if ((b->c & (b->c - 1)) == 0 && a->op != OAdd && a->op != OMul) return shl(a, C(__builtin_ctzll(b->c), w));
            Lin L; lin(a, b->c, L); return fromLin(L, w); }
        if (a->id > b->id) std::swap(a, b);
        return raw(OMul, w, a, b);
    }
    Expr* udiv(Expr* a, Expr* b) { unsigned w = a->w;
        if (b->isC() && b->c) { if (a->isC()) return C(a->c / b->c, w); if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) return lshr(a, C(__builtin_ctzll(b->c), w)); if (a->hi < b->c) return C(0, w); }
        return raw(OUDiv, w, a, b); }
    Expr* urem(Expr* a, Expr* b) { unsigned w = a->w;
        if (b->isC() && b->c) { if (a->isC()) return C(a->c % b->c, w); if (a->hi < b->c) return a;
            if ((b->c & (b->c - 1)) == 0) return and_(a, C(b->c - 1, w)); }
        return raw(OURem, w, a, b); }
    Expr* sdiv(Expr* a, Expr* b) { unsigned w = a->w;
        if (a->isC() && b->isC() && b->c) { i64 x = sextw(a->c, w), y = sextw(b->c, w); if (y == -1) return C((u64)-(u64)x, w); return C((u64)(x / y), w); }
        u64 half = 1ULL << (w-1); if (a->hi < half && b->hi < half) return udiv(a, b);
        return raw(OSDiv, w, a, b); }
    Expr* srem(Expr* a, Expr* b) { unsigned w = a->w;
        if (a->isC() && b->isC() && b->c) { i64 x = sextw(a->c, w), y = sextw(b->c, w); if (y == -1) return C(0, w); return C((u64)(x % y), w); }
        u64 half = 1ULL << (w-1); if (a->hi < half && b->hi < half) return urem(a, b);
        return raw(OSRem, w, a, b); }
    // bitwise by segments
    bool hasConstSeg(Expr* e) { while (e->op == OConcat) { if (e->k[0]->isC() || e->k[1]->isC()) return true; e = e->k[1]; } return e->isC(); }
    Expr* bitw(Op op, Expr* a, Expr* b) {
        std::vector<Expr*> s, t, r; segs(a, s); segs(b, t);
        size_t i = 0, j = 0; u64 oi = 0, oj = 0;
        while (i < s.size()) {
            u64 n = std::min<u64>(s[i]->w - oi, t[j]->w - oj);
            // split constants by runs when the other side is symbolic
            Expr* x = extract(s[i], oi, n); Expr* y = extract(t[j], oj, n);
            if (x->isC() && !y->isC() && n > 1) {
                u64 v = x->c; u64 bit = v & 1; u64 run = 1; while (run < n && ((v >> run) & 1) == bit) run++;
                if (op != OXor && run < n) { n = run; x = extract(s[i], oi, n); y = extract(t[j], oj, n); }
            } else if (y->isC() && !x->isC() && n > 1) {
                u64 v = y->c; u64 bit = v & 1; u64 run = 1; while (run < n && ((v >> run) & 1) == bit) run++;
                if (op != OXor && run < n) { n = run; x = extract(s[i], oi, n); y = extract(t[j], oj, n); }
            }
            r.push_back(bit1(op, x, y));
            oi += n; oj += n; if (oi == s[i]->w) { i++; oi = 0; } if (oj == t[j]->w) { j++; oj = 0; }
        }
        return fromSegs(r);
    }
    Expr* bit1(Op op, Expr* x, Expr* y) {
        unsigned w = x->w; u64 M = maskw(w);
        if (x->isC() && y->isC()) return C(op == OAnd ? x->c & y->c : op == OOr ? x->c | y->c : x->c ^ y->c, w);
        if (x->isC()) std::swap(x, y);
        if (y->isC()) {
            if (op == OAnd) { if (y->c == 0) return y; if (y->c == M) return x; }
            if (op == OOr) { if (y->c == 0) return x; if (y->c == M) return y; }
            if (op == OXor) { if (y->c == 0) return x;
                if (w == 1) return not_(x);
                if (x->op == OXor && x->k[1]->isC()) return bit1(OXor, x->k[0], C(x->k[1]->c ^ y->c, w)); }
            if (x->op == OIte && x->k[1]->isC() && x->k[2]->isC()) return ite(x->k[0], bit1(op, x->k[1], y), bit1(op, x->k[2], y));
            return raw(op, w, x, y);
        }
        if (x == y) return op == OXor ? C(0, w) : x;
        if (w == 1) {
            if (isNot(x, y)) return op == OAnd ? C(0, 1) : C(1, 1);
            // absorption on small and/or nests
            if (op == OAnd) { if (x->op == OAnd && (x->k[0] == y || x->k[1] == y)) return x; if (y->op == OAnd && (y->k[0] == x || y->k[1] == x)) return y;
                if (x->op == OOr && (x->k[0] == y || x->k[1] == y)) return y; if (y->op == OOr && (y->k[0] == x || y->k[1] == x)) return x; }
            if (op == OOr) { if (x->op == OOr && (x->k[0] == y || x->k[1] == y)) return x; if (y->op == OOr && (y->k[0] == x || y->k[1] == x)) return y;
                if (x->op == OAnd && (x->k[0] == y || x->k[1] == y)) return y; if (y->op == OAnd && (y->k[0] == x || y->k[1] == x)) return x; }
        }
        if (x->id > y->id) std::swap(x, y);
        return raw(op, w, x, y);
    }
    bool isNot(Expr* a, Expr* b) { return not_(a) == b; }
    Expr* bwop(Op op, Expr* a, Expr* b) {
        if (a->w > 1 && (a->op == OConcat || b->op == OConcat || a->isC() || b->isC())) return bitw(op, a, b);
        return bit1(op, a, b);
    }
    Expr* and_(Expr* a, Expr* b) { return bwop(OAnd, a, b); }
    Expr* or_(Expr* a, Expr* b) { return bwop(OOr, a, b); }
    Expr* xor_(Expr* a, Expr* b) { return bwop(OXor, a, b); }
    Expr* not_(Expr* x) { // width 1
        if (x->isC()) return C(!x->c, 1);
        if (x->op == OXor && x->k[1]->isC()) return x->k[0];
        if (x->op == OUlt) return ule(x->k[1], x->k[0]);
        if (x->op == OUle) return ult(x->k[1], x->k[0]);
        if (x->op == OSlt && !(x->k[1]->isC() && x->k[1]->c == 0)) return sle(x->k[1], x->k[0]);
        if (x->op == OSle) return slt(x->k[1], x->k[0]);
        if (x->op == OIte && x->k[1]->isC() && x->k[2]->isC()) return ite(x->k[0], not_(x->k[1]), not_(x->k[2]));
        return raw(OXor, 1, x, C(1, 1));
    }
    Expr* shl(Expr* a, Expr* b) { unsigned w = a->w;
        if (b->isC()) { if (b->c >= w) return C(0, w); if (b->c == 0) return a; if (a->isC()) return C(a->c << b->c, w);
            return concat(extract(a, 0, w - b->c), C(0, b->c)); }
        return raw(OShl, w, a, b); }
    Expr* lshr(Expr* a, Expr* b) { unsigned w = a->w;
        if (b->isC()) { if (b->c >= w) return C(0, w); if (b->c == 0) return a; if (a->isC()) return C(a->c >> b->c, w);
            return zext(extract(a, b->c, w - b->c), w); }
        return raw(OLShr, w, a, b); }
    Expr* ashr(Expr* a, Expr* b) { unsigned w = a->w;
        if (b->isC()) { u64 n = b->c >= w ? w - 1 : b->c; if (n == 0) return a; if (a->isC()) return C((u64)(sextw(a->c, w) >> n), w);
            return sext(extract(a, n, w - n), w); }
        return raw(OAShr, w, a, b); }
    // ---- comparisons ----
    Expr* T() { return C(1, 1); } Expr* F() { return C(0, 1); }
    Expr* eq(Expr* a, Expr* b) {
        if (a == b) return T();
        if (a->isC() && b->isC()) return C(a->c == b->c, 1);
        if (a->isC()) std::swap(a, b);
        if (a->hi < b->lo || b->hi < a->lo) return F();
        unsigned w = a->w;
        if (w == 1) { if (b->isC()) return b->c ? a : not_(a); return not_(xor_(a, b)); }
        if (b->isC()) {
            switch (a->op) {
            case OConcat: { // conjunction by segments
                std::vector<Expr*> s; segs(a, s); u64 p = 0; bool anyc = false; for (Expr* x : s) if (x->isC()) anyc = true;
                if (anyc || s.size() >= 2) { Expr* r = T(); 
                    for (Expr* x : s) { Expr* q = eq(x, C(b->c >> p, x->w)); p += x->w; if (q->isC() && !q->c) return F(); r = and_(r, q); }
                    return r; } break; }
            case OSExt: { u64 t = b->c & maskw(a->k[0]->w); if (((u64)sextw(t, a->k[0]->w) & maskw(w)) != b->c) return F(); return eq(a->k[0], C(t, a->k[0]->w)); }
            case OIte: if (a->k[1]->isC() || a->k[2]->isC()) { return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b)); } break;
            case OAdd: if (a->k[1]->isC()) return eq(a->k[0], C(b->c - a->k[1]->c, w)); break;
            case OXor: if (a->k[1]->isC()) return eq(a->k[0], C(b->c ^ a->k[1]->c, w)); break;
            case OMul: if (a->k[1]->isC() && (a->k[1]->c & 1)) { u64 k = a->k[1]->c, inv = k; for (int i = 0; i < 6; i++) inv *= 2 - k * inv; return eq(a->k[0], C(b->c * inv, w)); } break;
            default: break;
            }
        } else {
            // both symbolic: compare concat with the same shape, or linear difference
            if (a->op == OAdd || b->op == OAdd || (a->op == OMul) || (b->op == OMul)) {
                Lin L; lin(a, 1, L); lin(b, ~0ULL, L);
                int n = 0; for (auto& p : L.t) if (p.second) n++;
                if (n == 0) return C((L.c & maskw(w)) == 0, 1);
                if (n == 1) { Expr* d = fromLin(L, w); if (d->op == OAdd || d->op == OMul) return eq(d, C(0, w)); return eq(d, C(0,w)); }
            }
            if (a->op == OConcat && b->op == OConcat) {
                std::vector<Expr*> s, t; segs(a, s); segs(b, t);
                bool same = s.size() == t.size(); if (same) for (size_t i = 0; i < s.size(); i++) if (s[i]->w != t[i]->w) same = false;
                if (same) { Expr* r = T(); for (size_t i = 0; i < s.size(); i++) r = and_(r, eq(s[i], t[i])); return r; }
            }
            if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
        }
        if (!b->isC() && a->id > b->id) std::swap(a, b);
        return raw(OEq, 1, a, b);
    }
    Expr* ne(Expr* a, Expr* b) { return not_(eq(a, b)); }
    // strip common zero-extension
    unsigned zwidth(Expr* a) { unsigned w = a->w; if (a->isC()) { unsigned n = 64 - (a->c ? __builtin_clzll(a->c) : 64); return n ? n : 1; }
        if (a->op == OConcat && a->k[0]->isC()) { Expr* t = a; // top segment is k[0]
            if (t->k[0]->isC()) { u64 hc = t->k[0]->c; unsigned n = hc ? 64 - __builtin_clzll(hc) : 0; return t->k[1]->w + n; } }
        return w; }
    Expr* ult(Expr* a, Expr* b) {
        if (a == b) return F();
        if (a->hi < b->lo) return T(); if (a->lo >= b->hi) return F();
        unsigned w = a->w;
        if (w == 1) return and_(not_(a), b);
        unsigned n = std::max(zwidth(a), zwidth(b)); if (n < w && n >= 1) return ult(extract(a, 0, n), extract(b, 0, n));
        if (b->isC() && b->c == 1) return eq(a, C(0, w));
        if (a->isC() && a->c == maskw(w) - 1) return eq(b, C(maskw(w), w));
        if (a->isC() && a->c == 0) return ne(b, C(0, w));
        if (b->isC() && b->c == maskw(w)) return ne(a, b);
        if (b->isC() && a->op == OIte && (a->k[1]->isC() || a->k[2]->isC())) return ite(a->k[0], ult(a->k[1], b), ult(a->k[2], b));
        if (a->isC() && b->op == OIte && (b->k[1]->isC() || b->k[2]->isC())) return ite(b->k[0], ult(a, b->k[1]), ult(a, b->k[2]));
        // x + c < d without wrap
        if (b->isC() && a->op == OAdd && a->k[1]->isC()) { u64 c = a->k[1]->c; u64 s; Expr* x = a->k[0];
            if (!__builtin_add_overflow(x->hi, c, &s) && s <= maskw(w)) { if (b->c <= c) return F(); return ult(x, C(b->c - c, w)); }
            // c acts as -d and x >= d always
            u64 d = (-c) & maskw(w); if (x->lo >= d) { u64 t; if (!__builtin_add_overflow(b->c, d, &t) && t <= maskw(w)) return ult(x, C(t, w)); else return T(); } }
        if (a->isC() && b->op == OAdd && b->k[1]->isC()) { u64 c = b->k[1]->c; u64 s; Expr* x = b->k[0];
            if (!__builtin_add_overflow(x->hi, c, &s) && s <= maskw(w)) { if (a->c < c) return T(); return ult(C(a->c - c, w), x); }
            u64 d = (-c) & maskw(w); if (x->lo >= d) { u64 t; if (!__builtin_add_overflow(a->c, d, &t) && t <= maskw(w)) return ult(C(t, w), x); else return F(); } }
        return raw(OUlt, 1, a, b);
    }
    Expr* ule(Expr* a, Expr* b) {
        if (a == b) return T();
        if (a->hi <= b->lo) return T(); if (a->lo > b->hi) return F();
        unsigned w = a->w;
        // canonicalise through constants to strict comparison
        if (b->isC()) { if (b->c == maskw(w)) return T(); return ult(a, C(b->c + 1, w)); }
        if (a->isC()) { if (a->c == 0) return T(); return ult(C(a->c - 1, w), b); }
        if (w == 1) return or_(not_(a), b);
        unsigned n = std::max(zwidth(a), zwidth(b)); if (n < w && n >= 1) return ule(extract(a, 0, n), extract(b, 0, n));
        return raw(OUle, 1, a, b);
    }
    bool nonneg(Expr* a) { return a->hi < (1ULL << (a->w - 1)); }
    bool neg(Expr* a) { return a->lo >= (1ULL << (a->w - 1)); }
    Expr* slt(Expr* a, Expr* b) {
        if (a == b) return F(); unsigned w = a->w;
        if (a->isC() && b->isC()) return C(sextw(a->c, w) < sextw(b->c, w), 1);
        if (w == 1) return and_(a, not_(b));
        if ((nonneg(a) && nonneg(b)) || (neg(a) && neg(b))) return ult(a, b);
        if (nonneg(a) && neg(b)) return F(); if (neg(a) && nonneg(b)) return T();
        if (b->isC() && b->c == 0) { return signbit(a); }
        if (a->isC() && a->c == maskw(w)) { return not_(signbit(b)); } // -1 < b
        Expr* r = scmp(a, b, true); if (r) return r;
        if (b->isC() && a->op == OIte && (a->k[1]->isC() || a->k[2]->isC())) return ite(a->k[0], slt(a->k[1], b), slt(a->k[2], b));
        if (a->isC() && b->op == OIte && (b->k[1]->isC() || b->k[2]->isC())) return ite(b->k[0], slt(a, b->k[1]), slt(a, b->k[2]));
        return raw(OSlt, 1, a, b);
    }
    Expr* signbit(Expr* a) { if (nonneg(a)) return F(); if (neg(a)) return T();
        if (a->op == OSExt) return signbit(a->k[0]);
        if (a->op == OConcat) return extract(a, a->w - 1, 1);
        if (a->op == OIte && (a->k[1]->isC() || a->k[2]->isC())) return ite(a->k[0], signbit(a->k[1]), signbit(a->k[2]));
        return raw(OSlt, 1, a, C(0, a->w)); }
    Expr* scmp(Expr* a, Expr* b, bool strict) { // narrow sign-extended operands
        auto sw = [&](Expr* x) -> unsigned { if (x->op == OSExt) return x->k[0]->w; if (x->isC()) { for (unsigned n = 1; n < x->w; n++) if (((u64)sextw(x->c, n) & maskw(x->w)) == x->c) return n; return x->w; }
            if (x->op == OConcat && x->k[0]->isC() && x->k[0]->c == 0) return x->k[1]->w + 1; return x->w; };
        unsigned w = a->w, na = sw(a), nb = sw(b);
        unsigned n = std::max(na, nb);
        if (n < w) { if (a->isC() && na < nb) n = std::max(n, nb); if (strict) return slt(extract(a, 0, n), extract(b, 0, n)); return sle(extract(a, 0, n), extract(b, 0, n)); }
        // constants outside the narrow range
        if (b->isC() && na < w) { i64 v = sextw(b->c, w); i64 mx = (i64)(maskw(na) >> 1), mn = -mx - 1; if (v > mx) return T(); if (v < mn) return F(); }
        if (a->isC() && nb < w) { i64 v = sextw(a->c, w); i64 mx = (i64)(maskw(nb) >> 1), mn = -mx - 1; if (v > mx) return F(); if (v < mn) return T(); }
        return nullptr;
    }
    Expr* sle(Expr* a, Expr* b) {
        if (a == b) return T(); unsigned w = a->w;
        if (a->isC() && b->isC()) return C(sextw(a->c, w) <= sextw(b->c, w), 1);
        if (b->isC()) { if (b->c == maskw(w) >> 1) return T(); return slt(a, C(b->c + 1, w)); }
        if (a->isC()) { if (a->c == 1ULL << (w-1)) return T(); return slt(C(a->c - 1, w), b); }
        if (w == 1) return or_(a, not_(b));
        if ((nonneg(a) && nonneg(b)) || (neg(a) && neg(b))) return ule(a, b);
        if (nonneg(a) && neg(b)) return F(); if (neg(a) && nonneg(b)) return T();
        Expr* r = scmp(a, b, false); if (r) return r;
        return raw(OSle, 1, a, b);
    }
    Expr* ite(Expr* c, Expr* a, Expr* b) {
        if (c->isC()) return c->c ? a : b;
        if (a == b) return a;
        if (c->op == OXor && c->k[1]->isC() && c->w == 1) { c = c->k[0]; std::swap(a, b); }
        if (a->w == 1) {
            if (a->isC() && b->isC()) return a->c ? c : not_(c);
            if (a->isC()) return a->c ? or_(c, b) : and_(not_(c), b);
            if (b->isC()) return b->c ? or_(not_(c), a) : and_(c, a);
        }
        if (a->op == OIte && a->k[0] == c) a = a->k[1];
        if (b->op == OIte && b->k[0] == c) b = b->k[2];
        if (b->op == OIte && b->k[1] == a) return ite(or_(c, b->k[0]), a, b->k[2]);
        if (a->op == OIte && a->k[2] == b) return ite(and_(c, a->k[0]), a->k[1], b);
        if (a == b) return a;
        return raw(OIte, a->w, c, a, b);
    }
    // ---- evaluation under a model (vector of symbol values) ----
    u64 eval(Expr* e, const std::vector<u64>& m, u32 epoch) {
        if (e->op == OConst) return e->c;
        if (e->op == OSym) return e->c < m.size() ? (m[e->c] & maskw(e->w)) : 0;
        if (e->evalE == epoch) return e->evalV;
        u64 r = 0; unsigned w = e->w;
        if (e->op == OIte) { r = eval(e->k[0], m, epoch) ? eval(e->k[1], m, epoch) : eval(e->k[2], m, epoch); }
        else {
            u64 a = eval(e->k[0], m, epoch), b = e->k[1] ? eval(e->k[1], m, epoch) : 0; unsigned kw = e->k[0]->w;
            switch (e->op) {
            case OConcat: r = (a << e->k[1]->w) | b; break;
            case OExtract: r = a >> e->c; break;
            case OSExt: r = (u64)sextw(a, kw); break;
            default: r = binop(e->op, a, b, kw); break;
            }
            r &= maskw(w);
        }
        e->evalV = r; e->evalE = epoch; return r;
    }
    Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* c) {
        switch (e->op) {
        case OConcat: return concat(a, b); case OExtract: return extract(a, e->c, e->w); case OSExt: return sext(a, e->w);
        case OAdd: return add(a, b); case OMul: return mul(a, b); case OUDiv: return udiv(a, b); case OURem: return urem(a, b); case OSDiv: return sdiv(a, b); case OSRem: return srem(a, b);
        case OAnd: return and_(a, b); case OOr: return or_(a, b); case OXor: return xor_(a, b); case OShl: return shl(a, b); case OLShr: return lshr(a, b); case OAShr: return ashr(a, b);
        case OEq: return eq(a, b); case OUlt: return ult(a, b); case OUle: return ule(a, b); case OSlt: return slt(a, b); case OSle: return sle(a, b);
        case OIte: return ite(a, b, c); default: abort();
        }
    }
    // replaces the symbols for which fix() gives a value
    template <class F> Expr* subst(Expr* e, const F& fix, std::unordered_map<Expr*, Expr*>& memo) {
        if (e->op == OConst) return e;
        bool any = false; for (u32 id : e->syms->ids) { u64 v; if (fix(id, v)) { any = true; break; } }
        if (!any) return e;
        if (e->op == OSym) { u64 v; fix((u32)e->c, v); return C(v, e->w); }
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        Expr* r;
        if (e->op == OIte) { Expr* c = subst(e->k[0], fix, memo); if (c->isC()) r = subst(c->c ? e->k[1] : e->k[2], fix, memo); else r = ite(c, subst(e->k[1], fix, memo), subst(e->k[2], fix, memo)); }
        else { Expr* k[3]; for (int i = 0; i < 3; i++) k[i] = e->k[i] ? subst(e->k[i], fix, memo) : nullptr; r = rebuild(e, k[0], k[1], k[2]); }
        memo[e] = r; return r;
    }
    static u64 binop(Op op, u64 a, u64 b, unsigned w) {
        u64 M = maskw(w);
        switch (op) {
        case OAdd: return (a + b) & M; case OMul: return (a * b) & M;
        case OUDiv: return b ? a / b : M; case OURem: return b ? a % b : a;
        case OSDiv: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (-(u64)x) & M; return (u64)(x / y) & M; }
        case OSRem: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
        case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
        case OShl: return b >= w ? 0 : (a << b) & M; case OLShr: return b >= w ? 0 : a >> b;
        case OAShr: return (u64)(sextw(a, w) >> (b >= w ? w - 1 : b)) & M;
        case OEq: return a == b; case OUlt: return a < b; case OUle: return a <= b;
        case OSlt: return sextw(a, w) < sextw(b, w); case OSle: return sextw(a, w) <= sextw(b, w);
        default: abort();
        }
    }
    // truth table of a bool over its single 8-bit symbol
    const Mask256& tt(Expr* e) {
        auto it = ttCache.find(e->id); if (it != ttCache.end()) return it->second;
        Mask256 r{}; u32 s = e->syms->ids[0]; 
        std::vector<u64> m(s + 1, 0);
        for (unsigned v = 0; v < 256; v++) { m[s] = v; if (eval(e, m, ++evalEpoch)) r.m[v>>6] |= 1ULL << (v & 63); }
        return ttCache[e->id] = r;
    }
    std::string str(Expr* e, int d = 6) {
        static const char* n[] = {"const","sym","concat","extract","sext","add","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","ule","slt","sle","ite"};
        if (e->isC()) return std::to_string(e->c) + ":" + std::to_string(e->w);
        if (e->op == OSym) return syms[e->c].name;
        if (d == 0) return "...";
        std::string r = std::string("(") + n[e->op]; if (e->op == OExtract) r += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
        for (int i = 0; i < 3; i++) if (e->k[i]) r += " " + str(e->k[i], d - 1);
        return r + ")";
    }
};
