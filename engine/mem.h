// Copy-on-write symbolic memory with one address-space slot per object.
#pragma once
#include "expr.h"

static const u64 SLOT = 36;                 // address bits inside an object slot
static const u64 BASEOFF = 1ULL << 34;      // objects start here in their slot
static const u64 MAXOBJ = 1ULL << 34;       // largest object
static const u32 STACKBIT = 1u << 26;
static const u32 FNID = (1u << 27) - 2;     // function addresses

struct Val { Expr* e; u64 c; Val() : e(nullptr), c(0) {} Val(u64 x) : e(nullptr), c(x) {} Val(Expr* x, int) : e(x), c(0) { if (x->isC()) { c = x->c; e = nullptr; } } };

struct Chunk { int rc; u8 d[64]; Expr** s; };
static const u8 FILL = 0xBE;

struct Object {
    int rc = 1; u64 size = 0; Expr* ssize = nullptr; char kind = 'H'; bool ro = false; const char* tag = ""; u8 fill = FILL;
    std::vector<Chunk*> v; std::unordered_map<u64, Chunk*>* m = nullptr;
    static const u64 VMAX = 256;
    void init(u64 sz) { size = sz; u64 n = (sz + 63) / 64; if (n <= VMAX) v.assign(n, nullptr); else m = new std::unordered_map<u64, Chunk*>; }
    Chunk* get(u64 i) const { if (!m) return i < v.size() ? v[i] : nullptr; auto it = m->find(i); return it == m->end() ? nullptr : it->second; }
    void set(u64 i, Chunk* c) { if (!m) v[i] = c; else (*m)[i] = c; }
    static void unref(Chunk* c) { if (c && --c->rc == 0) { delete[] c->s; delete c; } }
    Chunk* wr(u64 i) {
        Chunk* c = get(i);
        if (!c) { c = new Chunk; c->rc = 1; memset(c->d, fill, 64); c->s = nullptr; set(i, c); return c; }
        if (c->rc > 1) { Chunk* n = new Chunk; n->rc = 1; memcpy(n->d, c->d, 64); n->s = nullptr; if (c->s) { n->s = new Expr*[64]; memcpy(n->s, c->s, 64 * sizeof(Expr*)); } c->rc--; set(i, n); return n; }
        return c;
    }
    Object* clone() const { Object* o = new Object; o->size = size; o->ssize = ssize; o->kind = kind; o->ro = ro; o->tag = tag; o->fill = fill; o->v = v; for (Chunk* c : o->v) if (c) c->rc++;
        if (m) { o->m = new std::unordered_map<u64, Chunk*>(*m); for (auto& p : *o->m) p.second->rc++; } return o; }
    ~Object() { for (Chunk* c : v) unref(c); if (m) { for (auto& p : *m) unref(p.second); delete m; } }
    void ref() { rc++; }
    // byte access
    u8 rdc(u64 o, Expr*& e) const { Chunk* c = get(o >> 6); if (!c) { e = nullptr; return fill; } e = c->s ? c->s[o & 63] : nullptr; return c->d[o & 63]; }
    void wrb(u64 o, Expr* e, u8 b) { Chunk* c = wr(o >> 6); if (e && e->isC()) { b = e->c; e = nullptr; }
        if (e) { if (!c->s) { c->s = new Expr*[64]; memset(c->s, 0, 64 * sizeof(Expr*)); } c->s[o & 63] = e; } else { if (c->s) c->s[o & 63] = nullptr; c->d[o & 63] = b; } }
};
extern Object* const FREED;

struct ObjTab {
    struct Page { int rc; Object* o[64]; };
    std::vector<Page*> pg;
    ObjTab() {}
    ObjTab(const ObjTab& t) : pg(t.pg) { for (Page* p : pg) if (p) p->rc++; }
    ObjTab& operator=(const ObjTab&) = delete;
    static void drop(Object* o) { if (o && o != FREED && --o->rc == 0) delete o; }
    static void unref(Page* p) { if (p && --p->rc == 0) { for (int i = 0; i < 64; i++) drop(p->o[i]); delete p; } }
    ~ObjTab() { for (Page* p : pg) unref(p); }
    Object* get(u32 i) const { u32 a = i >> 6; if (a >= pg.size() || !pg[a]) return nullptr; return pg[a]->o[i & 63]; }
    Page* wrp(u32 a) {
        if (a >= pg.size()) pg.resize(a + 1, nullptr);
        Page*& p = pg[a];
        if (!p) { p = new Page; p->rc = 1; memset(p->o, 0, sizeof p->o); }
        else if (p->rc > 1) { Page* n = new Page; n->rc = 1; memcpy(n->o, p->o, sizeof n->o); for (int i = 0; i < 64; i++) if (n->o[i] && n->o[i] != FREED) n->o[i]->ref(); p->rc--; p = n; }
        return p;
    }
    void set(u32 i, Object* o) { Page* p = wrp(i >> 6); drop(p->o[i & 63]); p->o[i & 63] = o; }
    Object* wr(u32 i) { Page* p = wrp(i >> 6); Object*& o = p->o[i & 63]; if (o && o != FREED && o->rc > 1) { Object* n = o->clone(); o->rc--; o = n; } return o; }
};
