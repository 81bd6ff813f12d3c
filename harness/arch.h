// Common oracle for containers: the entries expected, and a user who reads everything, a little or nothing of each.
#pragma once
#include "common.h"
#include <strigi/substreamprovider.h>
#include <string>
#include <vector>
using std::string;
struct Ent { string name, data; int64_t size; uint64_t mtime; int type; bool checkMtime; Ent() : size(-2), mtime(0), type(-1), checkMtime(false) {} };
static inline bool same(const string& a, const string& b) { return a.size() == b.size() && sameBytes(a.data(), b.data(), a.size()); }
// reads e to its end: the data must be d
static inline void readAll(InputStream* e, const string& d, int max = 0) {
    size_t pos = 0; const char* p = 0; int32_t r;
    while ((r = (int32_t)sx_conc((uint64_t)(int64_t)e->read(p, 1, max))) > 0) { sx_assert(pos + r <= d.size(), "no data is invented"); if (pos + r > d.size()) sx_end(); sx_assert(sameBytes(p, d.data() + pos, r), "the entry delivers its data"); pos += r; }
    sx_assert(r == -1 && pos == d.size(), "the entry delivers all its data"); sx_assert(e->status() == Eof, "the entry ends after its data"); sx_assert(e->size() == (int64_t)d.size(), "the size of a finished entry is that of its data"); sx_obs("n", pos);
}
static inline void useEntry(InputStream* e, const string& d, int how) {
    const char* p;
    if (how == 0) readAll(e, d);
    else if (how == 1) { int32_t r = e->read(p, 1, 1); sx_assert(d.empty() ? r == -1 : (r == 1 && *p == d[0]), "the entry delivers its data"); }
    else if (how == 3) { int64_t k = e->skip(1); sx_assert(d.empty() ? k <= 0 : k == 1, "the entry can be skipped over"); }
    else if (how == 4) { int32_t r = e->read(p, 1, 0); sx_assert(d.empty() ? r == -1 : (r >= 1 && r <= (int)d.size() && sameBytes(p, d.data(), r)), "the entry delivers its data"); if (r > 0) { e->reset(0); sx_assert(e->position() == 0, "an entry can be rewound"); } }
}
static inline void checkEntries(SubStreamProvider& a, const std::vector<Ent>& es, int hows) {
    for (size_t k = 0; k < es.size(); k++) {
        InputStream* e = a.nextEntry(); const Ent& x = es[k];
        sx_assert(e != 0, "every entry is delivered"); if (!e) sx_end();
        sx_assert(a.status() == Ok, "no error without a cause"); sx_assert(a.currentEntry() == e, "the entry is the current entry"); sx_assert(e->position() == 0 && e->status() != Error, "the entry can be read from its start");
        const EntryInfo& i = a.entryInfo(); sx_assert(same(i.filename, x.name), "the entry has its name");
        if (x.size != -2) { sx_assert(i.size == x.size, "the entry has its size"); if (x.size >= 0) sx_assert(e->size() == x.size, "the stream has the entry's size"); }
        if (x.checkMtime) sx_assert((uint64_t)i.mtime == x.mtime, "the entry has its modification time");
        if (x.type >= 0) sx_assert(i.type == x.type, "the entry has its type");
        useEntry(e, x.data, hows > 1 ? sx_choose(hows, "consume") : 0);
    }
    sx_assert(a.nextEntry() == 0, "no entry is invented"); sx_assert(a.status() == Eof, "the archive ends"); sx_assert(a.nextEntry() == 0, "the archive stays ended"); sx_assert(a.status() == Eof, "the archive stays ended");
}
// any archive: iteration ends, entries deliver no more than the input holds
static inline int walk(SubStreamProvider& a, int64_t total, int maxEntries, bool consume, const char* whole = 0) {
    int n = 0; InputStream* e; const char* p = 0; bool bad = false;
    while ((e = a.nextEntry())) {
        sx_assert(++n <= maxEntries, "iteration ends"); if (n > maxEntries) sx_end(); int64_t tot = 0; int32_t r = 0; unsigned char x = 0;
        if (consume) { while ((r = e->read(p, 1, 0)) > 0) { tot += r; if (whole) for (int i = 0; i < r; i++) x ^= p[i]; sx_assert(tot <= total, "no data is invented"); if (tot > total) sx_end(); }
            sx_assert(r == -1 ? e->status() == Eof : (r == -2 && e->status() == Error), "the entry ends or reports an error"); if (r == -2) { bad = true; sx_assert(e->error() && e->error()[0], "an error has a message"); } else { const int64_t s = a.entryInfo().size; sx_assert(s < 0 || tot == s, "an entry that ends has its announced size"); } }
        sx_obs("tot", tot); sx_obs("x", x);
    }
    sx_assert(a.status() != Ok, "iteration ends with the end or an error"); sx_assert(a.nextEntry() == 0, "the archive stays ended"); sx_obs("entries", n); return bad || a.status() == Error ? 1 : 0;
}
// records how deep the stack is when the input is read
struct DepthStream : public SymStream { uint64_t lo, hi; DepthStream(const string& s) : SymStream(s.data(), s.size(), CH_MAX), lo(~0ULL), hi(0) {} int32_t read(const char*& p, int32_t mn, int32_t mx) { uint64_t sp = sx_sp(); if (sp < lo) lo = sp; if (sp > hi) hi = sp; return SymStream::read(p, mn, mx); } };
// A stream whose data need not be in memory: given bytes, and holes of any (also symbolic) length that hold 'x'.
struct HoleStream : public InputStream {
    struct Seg { const char* d; uint64_t n; }; Seg seg[10]; int ns, at; uint64_t off, pieceStart; char *piece, *fill; static const uint64_t CAP = 70000;
    HoleStream() : ns(0), at(0), off(0), pieceStart(0), piece(0) { fill = (char*)malloc(CAP); memset(fill, 'x', CAP); m_size = 0; }
    ~HoleStream() { free(piece); free(fill); }
    void add(const char* d, uint64_t n) { seg[ns].d = d; seg[ns++].n = n; m_size += n; }
    void add(const string& s) { add(s.data(), s.size()); }
    void hole(uint64_t n) { add(0, n); }
    void fit() { while (at < ns && off >= seg[at].n) { off -= seg[at].n; at++; } m_status = at == ns ? Eof : Ok; }
    int32_t read(const char*& p, int32_t mn, int32_t mx) {
        free(piece); piece = 0; fit(); pieceStart = m_position; if (at == ns) return -1; if (mn < 1) mn = 1; uint64_t left = seg[at].n - off, n;
        if ((uint64_t)mn > left) { // from several pieces
            int k = (int)sx_conc((uint64_t)mn), got = 0; piece = (char*)malloc(k); while (got < k && at < ns) { left = seg[at].n - off; n = left < (uint64_t)(k - got) ? sx_conc(left) : k - got; if (seg[at].d) memcpy(piece + got, seg[at].d + sx_conc(off), n); else memset(piece + got, 'x', n); got += (int)n; m_position += n; off += n; fit(); } p = piece; return got; }
        n = seg[at].d ? left : (uint64_t)mn; if (mx >= mn && n > (uint64_t)mx) n = mx;
        if (seg[at].d) { n = sx_conc(n); piece = (char*)malloc(n); memcpy(piece, seg[at].d + sx_conc(off), n); p = piece; } else { if (n > CAP) sx_end(); p = fill; }
        off += n; m_position += n; fit(); return (int32_t)n;
    }
    int64_t skip(int64_t k) { free(piece); piece = 0; pieceStart = m_position; fit(); if (at == ns) return -1; if (k <= 0) return 0; uint64_t left = m_size - m_position; if ((uint64_t)k > left) k = left; off += k; m_position += k; fit(); return k; }
    int64_t reset(int64_t p) { if (p < 0 || p > m_size) return m_position; if (p < (int64_t)pieceStart || p > m_position) { free(piece); piece = 0; pieceStart = p; } at = 0; off = p; m_position = p; fit(); return p; }
};
