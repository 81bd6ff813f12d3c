// C03 SubInputStream, C04 StringTerminatedSubStream, C05 StringStream, C08 DataEventInputStream
#include "client.h"
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/stringstream.h>
#include <strigi/dataeventinputstream.h>

// ---------- C05 ----------
template <class T> static void stringStream() {
    int N = (int)sx_param("len", 4), ops = (int)sx_param("ops", 2); int L = sx_choose(N + 1, "len"); int mode = sx_choose(3, "mode");
    T* d = (T*)malloc((L + 1) * sizeof(T)); sx_bytes(d, L * sizeof(T), "d"); d[L] = 0; T keep[8]; memcpy(keep, d, L * sizeof(T));
    if (mode == 2) for (int i = 0; i < L; i++) sx_assume(d[i] != 0);
    StringStream<T> s(d, mode == 2 ? -1 : L, mode != 1);
    if (mode != 1) { memset(d, 0x55, L * sizeof(T)); free(d); d = 0; } // a copy was made
    sx_assert(s.size() == L, "size is the length given");
    int64_t pos = 0;
    for (int k = 0; k < ops; k++) {
        int op = sx_choose(3, "op"); int64_t left = L - pos;
        if (op == 0) {
            int32_t min = (int32_t)sx_u32("min"), max = (int32_t)sx_u32("max"); sx_assume(min >= 1);
            const T* p = 0; int32_t n = s.read(p, min, max);
            if (left == 0) { sx_assert(n == -1 && s.status() == Eof, "at the end read returns -1 and Eof"); }
            else {
                sx_assert(n == (max < min || max > left ? left : max), "read delivers min(max, rest), all when there is no limit");
                n = (int32_t)sx_conc(n); if (n < 0) n = 0;
                sx_assert(sameBytes(p, keep + pos, n), "read delivers the data at the position"); pos += n;
            }
        } else if (op == 1) {
            int64_t q = (int64_t)sx_u64("nskip"); sx_assume(q >= 1); int64_t r = s.skip(q);
            if (left == 0) sx_assert(r <= 0, "at the end nothing is skipped");
            else sx_assert(r == (q < left ? q : left), "skip passes over min(n, rest)");
            pos = sx_conc(s.position()); sx_assert(pos == L - left + (q < left ? q : left), "skip moves the position");
        } else {
            int64_t t = (int64_t)sx_u64("target"); int64_t r = s.reset(t);
            sx_assert(r == s.position() && r >= 0 && r <= L, "reset returns the new position");
            sx_assert(t < 0 || t > L || r == t, "reset to any position in the data succeeds"); pos = sx_conc(r);
        }
        sx_assert(s.position() == pos, "position equals the items consumed"); sx_assert(s.size() == L, "the size stays known");
        sx_assert(s.status() != Error, "no error"); sx_assert(s.status() != Eof || pos == L, "Eof is reported only at the end"); sx_assert(L == 0 || pos < L || s.status() == Eof, "the end is reported");
        sx_obs("pos", pos); sx_obs("status", s.status());
    }
    sx_reach("end"); if (d) free(d);
}
extern "C" void h_sstream_char() { NoLeak noLeak; stringStream<char>(); }
extern "C" void h_sstream_wchar() { NoLeak noLeak; stringStream<wchar_t>(); }

// ---------- C03 ----------
static void sub(int kinds) {
    int N = (int)sx_param("len", 4), ops = (int)sx_param("ops", 3);
    int P = sx_choose(N + 1, "plen"); char* d = symData(P, "d");
    bool known = sx_choose(2, "known"), lazy = sx_choose(2, "lazy"); int err = -1; if (sx_param("err", 0)) { err = sx_choose(P + 1, "errat"); }
    SymStream par(d, P, (int)sx_param("chunk", CH_SYM), known, lazy, err); 
    int lim = err >= 0 && err < P ? err : P;
    int o = sx_choose(lim + 1, "offset"); if (o) par.skip(o);
    int64_t size = (int64_t)sx_choose(N + 2, "size") - 1;
    if (err >= 0) sx_assume(size <= P - o);
    SubInputStream s(&par, size);
    sx_assert(s.size() == size, "the size is the one given");
    int64_t avail = lim - o; int64_t E = size >= 0 && size < avail ? size : avail;
    Client c(s, d + o, E); c.mayFail = (size >= 0 && size > avail) || (err >= 0 && err < P && (size < 0 || size > avail)); c.resetBeyond = true;
    c.run(ops, kinds);
    sx_assert(par.position() >= o && (size < 0 || par.position() <= o + size || c.far > size), "the parent is not read past the window");
    sx_reach("end"); if (c.failed) sx_reach("premature"); if (s.status() == Eof) sx_reach("eof");
}
extern "C" void h_sub_seq() { NoLeak noLeak; sub(2); }
extern "C" void h_sub_reset() { NoLeak noLeak; sub(3); }
// ---------- C04 ----------
static void terminated(int kinds) {
    int N = (int)sx_param("len", 4), ops = (int)sx_param("ops", 3);
    int P = sx_choose(N + 1, "plen"); char* d = symData(P, "d"); int m = 1 + sx_choose((int)sx_param("term", 2), "tl"); char* t = symData(m, "t");
    if (sx_param("ab", 0)) { for (int i = 0; i < P; i++) sx_assume((unsigned char)d[i] <= 1); for (int i = 0; i < m; i++) { sx_assume((unsigned char)t[i] <= 1); t[i] = (char)sx_conc((unsigned char)t[i]); } } // two-letter alphabet
    bool known = sx_choose(2, "known"), lazy = sx_choose(2, "lazy");
    int err = P; if (sx_param("err", 0)) { if (P == 0) sx_end(); err = sx_choose(P, "errat"); } int o = err ? sx_choose(2, "offset") : 0;
    SymStream par(d, P, (int)sx_param("chunk", CH_SYM), known, lazy, err < P ? err : -1); if (o) par.skip(o);
    int f = err, all = P; P = err; bool found = false; for (int i = o; i + m <= P && !found; i++) { int eq = 1; for (int j = 0; j < m; j++) eq &= d[i + j] == t[j]; if (sx_conc(eq)) { f = i; found = true; } }
    StringTerminatedSubStream s(&par, std::string(t, m)); sx_assert(s.offset() == o, "offset");
    Client c(s, d + o, f - o); c.minLo = 0; c.resetBeyond = false; c.mayFail = c.faulty = err < all; c.run(ops, kinds); if (err < all && !found) sx_assert(s.status() != Eof, "an error of the parent is not the end"); if (c.failed) sx_reach("error");
    if (kinds == 2 && !c.failed && s.status() == Eof && c.pos == c.E) { sx_assert(par.position() == (found ? f + m : P), "at the end the parent is just past the terminator"); }
    if (s.status() == Eof) sx_reach(found ? "terminated" : "eof");
    sx_reach("end");
}
extern "C" void h_term_seq() { NoLeak noLeak; terminated(2); }
extern "C" void h_term_ab() { NoLeak noLeak; terminated(2); }
extern "C" void h_term_err() { NoLeak noLeak; terminated(3); }
extern "C" void h_term_reset() { NoLeak noLeak; terminated(3); }
// ---------- C08 ----------
struct Rec : public DataEventHandler { const char* d; int64_t len, got; int ends; bool stop; Rec(const char* x, int64_t l) : d(x), len(l), got(0), ends(0), stop(false) {}
    bool handleData(const char* p, uint32_t n) { sx_assert(!stop, "no data after the handler declined"); sx_assert(!ends, "no data after the end"); sx_assert(got + n <= len, "no more data than the input has"); if (got + n > len) sx_end(); sx_assert(sameBytes(p, d + got, n), "the handler gets the bytes in order"); got += n; if (sx_param("decline", 0) && sx_choose(2, "stop")) { stop = true; return false; } return true; }
    void handleEnd() { ends++; sx_assert(ends == 1, "the end is reported once"); sx_assert(stop || got == len, "the end is reported after all bytes"); } };
static void dataEvent(int kinds) {
    int N = (int)sx_param("len", 4), ops = (int)sx_param("ops", 3);
    int P = sx_choose(N + 1, "plen"); char* d = symData(P, "d"); bool known = sx_choose(2, "known"), lazy = sx_choose(2, "lazy"); int err = -1; if (sx_param("err", 0)) err = sx_choose(P, "errat");
    int lim = err >= 0 && err < P ? err : P;
    SymStream par(d, P, (int)sx_param("chunk", CH_SYM), known, lazy, err); Rec r(d, P); DataEventInputStream s(&par, r);
    Client c(s, d, lim); c.resetBeyond = true; c.mayFail = lim < P;
    for (int k = 0; k < ops; k++) { int op = sx_choose(kinds, "op"); if (op == 0) c.read(); else if (op == 1) c.skip(); else c.reset(); c.check();
        if (!r.stop) sx_assert(r.got == (c.failed && c.far < lim ? r.got : c.far), "every byte passed to the reader was passed to the handler"); 
        if (!c.failed && s.status() == Eof && c.pos == P) { const char* p; if (sx_choose(2, "atend")) { c.segA = -1; sx_assert(s.read(p, 1, 0) == -1, "at the end read returns -1"); sx_assert(r.ends == 1, "the end was reported"); sx_reach("eof"); } } }
    if (c.failed) sx_assert(r.ends == 0, "no end is reported after an error");
    sx_reach("end");
}
extern "C" void h_event_seq() { NoLeak noLeak; dataEvent(2); }
extern "C" void h_event_reset() { NoLeak noLeak; dataEvent(3); }
extern "C" { void h_sub_err() { NoLeak noLeak; sub(3); } void h_event_decline() { NoLeak noLeak; dataEvent(3); } void h_event_err() { NoLeak noLeak; dataEvent(2); } }
