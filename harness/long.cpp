// Long data: sizes, amounts, terminators, queries and texts around and beyond the sizes of buffers, tables and counters.
// Properties C01, C02, C04, C07, C08.
#include "client.h"
#include "skippingbufferedstream.h"
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/kmpsearcher.h>
using std::string;
#define PICK(A, n) A[sx_choose(sizeof A / sizeof *A, n)]
// ---- C01, C02: buffered streams whose sources deliver pieces of many sizes
template <class Base, class T> struct LongSrc : public Base {
    T* data; int32_t len, at, piece, turn; bool again;
    LongSrc(int32_t l, int32_t p, bool known) : data((T*)keepMem(l * sizeof(T))), len(l), at(0), piece(p), turn(0), again(false) { for (int i = 0; i < l; i++) data[i] = (T)(i * 7 + i / 256); data[0] = (T)sx_u8("d"); data[l / 2] = (T)sx_u8("d"); data[l - 1] = (T)sx_u8("d"); if (known) this->m_size = l; }
    void minbuf(int n) { this->setMinBufSize(n); }
    int32_t fillBuffer(T* start, int32_t space) { sx_assert(space > 0, "fillBuffer is asked for at least one item"); int32_t n = len - at; if (n == 0) return -1; if (n > piece) n = piece; if (n > space) n = space; if (turn++ % 5 == 3) return 0; memcpy(start, data + at, n * sizeof(T)); at += n; return n; }
};
static const int L_MIN[] = { 1, 255, 257, 1024, 1500 }, L_MAX[] = { 0, 256, 2000 }, L_SK[] = { 1, 255, 256, 1025, 1 << 20 };
template <class S, class T> static void bufLong(int kinds) {
    static const int N[] = { 256, 1300, 2049 }, P[] = { 1, 100, 255, 1024, 5000 }, MB[] = { 0, 255, 1000 }; int len = PICK(N, "len"), piece = PICK(P, "piece"), mb = PICK(MB, "minbuf"); S s(len, piece, sx_choose(2, "known")); if (mb) s.minbuf(mb);
    int64_t pos = 0, segA = -1, segB = 0; const T* seg = 0; int ops = (int)sx_param("ops", 3);
    for (int k = 0; k < ops; k++) { int op = sx_choose(kinds, "op"); int64_t left = len - pos;
        if (op == 0) { int mn = PICK(L_MIN, "min"), mx = PICK(L_MAX, "max"); const T* p = 0; int32_t n = s.read(p, mn, mx); if (left == 0) { sx_assert(n == -1 && s.status() == Eof, "at the end read returns -1"); continue; }
            sx_assert(n >= 1 && n <= left, "read delivers available data only"); if (n < 1 || n > left) sx_end(); sx_assert(n >= mn || n == left, "read delivers at least min unless the end is reached"); sx_assert(mx < mn || n <= mx, "read delivers at most max"); sx_assert(n >= mn || s.status() == Eof, "a short read announces the end"); sx_assert(sameBytes(p, s.data + pos, n), "read delivers the source data at the position"); seg = p; segA = pos; pos += n; segB = pos; }
        else if (op == 1) { int64_t q = PICK(L_SK, "nskip"), r = s.skip(q); if (left == 0) sx_assert(r <= 0, "nothing is skipped at the end"); else sx_assert(r == (q < left ? q : left), "skip passes over exactly min(n, rest)"); if (r > 0) pos += r; segA = -1; }
        else { int64_t t; if (segA >= 0 && sx_choose(2, "near")) { int64_t A[] = { segA, segA + 1, (segA + segB) / 2, segB }; t = PICK(A, "target"); } else { static const int A[] = { 0, 1, 255, 1000, 2048 }; t = PICK(A, "target"); } int64_t r = s.reset(t); sx_assert(r == s.position(), "reset returns the new position");
            if (segA >= 0 && t >= segA && t <= segB) { sx_assert(r == t, "reset into the data last read succeeds"); sx_assert(sameBytes(seg, s.data + segA, segB - segA), "reset into the data last read keeps the pointer valid"); } else { sx_assert(r == t || r == pos, "reset goes to the target or stays"); segA = -1; } sx_assert(r >= 0 && r <= len, "the position stays within the stream"); if (r < 0 || r > len) sx_end(); pos = r; }
        sx_assert(s.position() == pos, "position equals the items consumed"); sx_assert(s.status() != Error, "no error without a failing source"); sx_assert(s.status() != Eof || (pos == len && s.size() == len), "Eof is reported only at the end, with the size known"); sx_assert(s.size() == -1 || s.size() == len, "the size is unknown or right"); }
    sx_reach("end");
}
// whole streams with many reads of one size
template <class S, class T> static void bufMany() {
    static const int N[] = { 255, 3000 }, P[] = { 1, 7, 256, 999 }, RD[] = { 1, 3, 250, 600 }; int len = PICK(N, "len"), piece = PICK(P, "piece"), mn = PICK(RD, "min"), mx = sx_choose(3, "max") * mn, back = sx_choose(3, "back"); S s(len, piece, false); int64_t pos = 0; int k = 0; int32_t n; const T* p;
    while ((n = s.read(p, mn, mx)) > 0) { sx_assert(n <= len - pos, "read delivers available data only"); if (n > len - pos) sx_end(); sx_assert(n >= mn || n == len - pos, "read delivers at least min unless the end is reached"); sx_assert(mx < mn || n <= mx, "read delivers at most max"); sx_assert(sameBytes(p, s.data + pos, n), "read delivers the source data at the position"); pos += n;
        if (back && ++k % 7 == 3) { int64_t t = pos - (back == 1 ? 1 : n); sx_assert(s.reset(t) == t, "reset into the data last read succeeds"); pos = t; } if (back == 2 && k % 7 == 5) { int64_t r = s.skip(5), left = len - pos; sx_assert(r == (left < 5 ? left : 5) || (left == 0 && r <= 0), "skip passes over exactly min(n, rest)"); if (r > 0) pos += r; } sx_assert(s.position() == pos, "position equals the items consumed"); }
    sx_assert(n == -1 && s.status() == Eof && pos == len && s.size() == len, "all data is delivered"); sx_reach("end");
}
extern "C" {
void h_buf_long() { NoLeak noLeak; bufLong<LongSrc<BufferedStream<char>, char>, char>(2); }
void h_wbuf_long() { NoLeak noLeak; bufLong<LongSrc<BufferedStream<wchar_t>, wchar_t>, wchar_t>(3); }
void h_buf_long_reset() { NoLeak noLeak; bufLong<LongSrc<BufferedStream<char>, char>, char>(3); }
void h_sbuf_long() { NoLeak noLeak; bufLong<LongSrc<SkippingBufferedStream<char>, char>, char>(3); }
void h_buf_many() { NoLeak noLeak; int w = sx_choose(3, "which"); if (w == 0) bufMany<LongSrc<BufferedStream<char>, char>, char>(); else if (w == 1) bufMany<LongSrc<BufferedStream<wchar_t>, wchar_t>, wchar_t>(); else bufMany<LongSrc<SkippingBufferedStream<char>, char>, char>(); }
}
// ---- C07: long queries
// a query of m letters: all the same, a period, or all different as far as possible; one or two odd letters anywhere special
static string query(int m, bool some = false) { static const int P[] = { 1, 5, 2 }; int p = P[sx_choose(some ? 2 : 3, "period")]; string q; for (int i = 0; i < m; i++) q += (char)('a' + i % p); int odd = sx_choose(some ? 2 : 3, "odd"); if (odd == 1) q[m - 1] = 'z'; if (odd == 2) q[m / 2] = 'z'; return q; }
static const int QL[] = { 31, 128, 257, 16, 100, 127, 129, 255, 256, 500 };
// the symbolic byte is one of the letters of the query, or one of three other bytes
static void odd(char* p, const string& q) { string seen; for (size_t i = 0; i < q.size(); i++) if (seen.find(q[i]) == string::npos) { seen += q[i]; if (sx_conc(*p == q[i])) { *p = q[i]; return; } } static const unsigned char O[] = { 0, 0x80, 0xff }; unsigned char o = O[sx_choose(3, "other")]; sx_assume((unsigned char)*p == o); *p = (char)o; }
static int64_t first(const char* b, int n, const string& q) { int m = (int)q.size(); for (int i = 0; i + m <= n; i++) { int j = 0; while (j < m && b[i + j] == q[j]) j++; if (j == m) return i; } return -1; }
extern "C" void h_search_long() { NoLeak noLeak;
    bool full = sx_param("full", 0); int m = QL[sx_choose(full ? 10 : 3, "m")]; string q = query(m); KmpSearcher s; if (m & 1) s.setQuery(string(600, 'a')); s.setQuery(q); sx_assert(s.queryLength() == m, "query length");
    static const int AT[] = { 1, 300, 0, 127 }; int at = AT[sx_choose(full ? 4 : 2, "at")], kind = at < 2 ? sx_choose(2, "kind") : sx_choose(4, "kind"); string h; // what precedes: letters of the query, parts of the query, other letters
    if (kind == 0) h = string(at, 'a'); else if (kind == 1) h = string(at, '\xff'); else { while ((int)h.size() < at) h += kind == 2 ? q.substr(0, m - 1) : q.substr(0, m - m / 2); h.resize(at); }
    h += q; int tail = sx_choose(2, "tail") * 2; h += tail == 0 ? "" : tail == 1 ? "b" : q; size_t where[] = { (size_t)(at + m - 1), (size_t)(at + m / 2), (size_t)at / 2 }; int w = sx_choose(3, "where"); char* b = keepMem(h.size()); memcpy(b, h.data(), h.size()); int n = (int)h.size(); b[where[w]] = (char)sx_u8("c");
    odd(b + where[w], q); int64_t found = first(b, n, q); const char* r = s.search(b, n);
    if (r == 0) { sx_assert(found == -1, "an occurrence is found"); sx_reach("none"); } else { sx_assert(found == (int64_t)(r - b), "the first occurrence is returned"); sx_reach("found"); } sx_obs("found", r ? r - b : 9999);
}
// ---- C04: long terminators and long data
extern "C" void h_term_long() { NoLeak noLeak;
    bool full = sx_param("full", 0); static const int T[] = { 1, 70, 129, 256, 4 }; int m = T[sx_choose(full ? 5 : 3, "m")]; string q = query(m, !full); static const int AT[] = { 0, 1025, 255, 1, 3000 }; int at = AT[sx_choose(full ? 5 : 2, "at")], kind = at ? 1 + sx_choose(full ? 3 : 2, "kind") : 0, tail = full ? sx_choose(2, "tail") * 20 : 20; bool none = sx_choose(2, "none"); string h;
    if (kind == 3) h = string(at, '\xee'); else { while ((int)h.size() < at) { h += q.substr(0, kind == 1 ? m - 1 : m - m / 2); h += kind == 1 ? '\0' : '\x7f'; } h.resize(at); } h += q; if (none) h.resize(h.size() - 1); h += string(tail, 't'); int n = (int)h.size(); char* b = keepMem(n); memcpy(b, h.data(), n); if (at) { b[at / 2] = (char)sx_u8("c"); odd(b + at / 2, q); }
    int64_t found = first(b, n, q);
    SymStream par(b, n, at < 256 && m <= 70 && sx_choose(2, "split") ? CH_MIN : CH_MAX, tail, true); StringTerminatedSubStream s(&par, q); Client c(s, b, found < 0 ? n : found); static const int MN[] = { 1, 257, 4000, 0, 1024 }, MX[] = { 0, 300 }; c.mins = MN; c.nmins = full ? 5 : 3; c.maxs = MX; c.nmaxs = 2; static const int SK[] = { 1, 257, 1 << 20 }; c.skips = SK; c.nskips = 3; c.run((int)sx_param("ops", 2), 2);
    if (s.status() == Eof) { sx_assert(par.position() == (found < 0 ? n : found + m), "at the end the parent is just past the terminator"); sx_reach("eof"); } sx_reach("end");
}
// ---- C08: long data passed to a handler
struct Seen : public DataEventHandler { const char* d; int64_t len, got; int ends; Seen(const char* x, int64_t l) : d(x), len(l), got(0), ends(0) {}
    bool handleData(const char* p, uint32_t n) { sx_assert(!ends, "no data after the end"); sx_assert(got + n <= len, "no more data than the input has"); if (got + n > len) sx_end(); sx_assert(sameBytes(p, d + got, n), "the handler gets the bytes in order"); got += n; return true; }
    void handleEnd() { ends++; sx_assert(ends == 1 && got == len, "the end is reported once, after all bytes"); } };
extern "C" void h_event_long() { NoLeak noLeak;
    static const int N[] = { 255, 1024, 1025, 3000, 5000, 70000 }; int n = PICK(N, "len"); char* b = keepMem(n); for (int i = 0; i < n; i++) b[i] = (char)(i * 3 + i / 256); b[0] = (char)sx_u8("d"); b[n - 1] = (char)sx_u8("d"); b[n / 2] = (char)sx_u8("d"); SymStream par(b, n, sx_choose(2, "split") ? CH_MIN : CH_MAX, sx_choose(2, "known"), sx_choose(2, "lazy")); Seen e(b, n); DataEventInputStream s(&par, e); Client c(s, b, n); c.mins = L_MIN; c.nmins = 5; c.maxs = L_MAX; c.nmaxs = 3; static const int SK[] = { 1, 256, 1024, 1025, 2000, 1 << 20 }; c.skips = SK; c.nskips = 6; int ops = (int)sx_param("ops", 2);
    for (int k = 0; k < ops; k++) { int op = sx_choose(3, "op"); if (op == 0) c.read(); else if (op == 1) c.skip(); else { static const int T[] = { 0, 1, 300, 1024, 2500, 69999, 80000 }; int64_t t = PICK(T, "target"), r = s.reset(t); sx_assert(r == s.position(), "reset returns the new position"); if (c.segA >= 0 && t >= c.segA && t <= c.segB) sx_assert(r == t, "reset into the data last read succeeds"); sx_assert(r == t || r == c.pos || (t > n && r == n), "reset goes to the target, stays, or stops at the end"); c.segA = -1; if (r < 0 || r > n) sx_end(); c.pos = r; } c.check(); sx_assert(e.got == c.far, "every byte passed to the reader was passed to the handler"); }
    const char* p; while (s.read(p, 1, 0) > 0) {} sx_assert(e.ends == 1 && e.got == n && s.status() == Eof, "the handler gets all bytes and the end"); sx_reach("end");
}
