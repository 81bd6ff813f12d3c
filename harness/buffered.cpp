// C01/C02: BufferedStream and SkippingBufferedStream over an arbitrary fillBuffer.
#include "common.h"
#include "skippingbufferedstream.h"

static const int MAXLEN = 16;
template <class Base, class T> struct Src : public Base {
    T data[MAXLEN]; int32_t len, at; int errAt; bool failed;
    Src(int32_t l, bool known, int err) : len(l), at(0), errAt(err), failed(false) {
        sx_bytes(data, l * sizeof(T), "data"); if (known) this->m_size = l;
    }
    void again(bool known) { this->resetBuffer(); at = 0; failed = false; zero = 0; if (known) this->m_size = len; }
    void announce(int n) { this->m_size = n; }
    void minbuf(int n) { this->setMinBufSize(n); }
    int32_t fillBuffer(T* start, int32_t space) {
        sx_assert(space > 0, "fillBuffer is asked for at least one item");
        if (errAt >= 0 && at >= errAt) { this->m_status = Error; this->m_error = "source error"; failed = true; return -1; }
        space = (int32_t)sx_conc((uint64_t)space); int32_t left = len - at; if (left == 0) return -1;
        int32_t hi = left < space ? left : space;
        int32_t n = (int32_t)sx_choose(hi + 1, "fill");   // 0..hi
        if (n == 0) { if (zero++ > 0) sx_end(); return 0; }   // bound: one empty piece
        for (int32_t i = 0; i < n; i++) start[i] = data[at + i];
        at += n; return n;
    }
    int zero = 0;
};
template <class S, class T> static void run(S& s, int32_t L, int ops, int mode, bool known = false) {
    int64_t pos = 0, segA = -1, segB = -1; const T* seg = 0; bool err = false;
    for (int k = 0; k < ops; k++) {
        int op = sx_choose(mode == 0 ? 2 : mode == 1 ? 3 : 4, "op");
        if (op == 3) { s.again(known); pos = 0; segA = -1; err = false; sx_assert(s.status() == Ok && s.position() == 0 && !s.error()[0] && s.size() == (known ? L : -1), "a stream that was reset is like new"); mode = 1; continue; }
        int64_t left = L - pos;
        if (op == 0) {
            int32_t min = sx_range("min", 1, 4), max = sx_range("max", 0, 5); max = (int32_t)sx_ite(max == 5, 0x7fffffff, (uint64_t)max);
            const T* p = 0; int32_t n = (int32_t)sx_conc((uint64_t)s.read(p, min, max));
            if (err || n == -2) { sx_assert(n == -2, "errors are sticky"); sx_assert(s.failed && s.status() == Error, "an error is only reported when the source failed"); err = true; segA = -1; continue; }
            if (left == 0) { sx_assert(n == -1, "at the end read returns -1"); sx_assert(s.status() == Eof, "status is Eof after read returned -1"); seg = 0; segA = -1; }
            else {
                sx_assert(n >= 1 && n <= left, "read delivers available data only");
                sx_assert(n >= min || n == left, "read delivers at least min unless the end is reached");
                sx_assert(max < min || n <= max, "read delivers at most max");
                sx_assert(sameBytes(p, s.data + pos, n), "read delivers the source data at the position");
                sx_assert(n >= min || s.status() == Eof, "a short read announces the end");
                segA = pos; seg = p; pos += n; segB = pos;
                sx_obs("read", n); sx_obs("data", (uint64_t)p[n - 1]);
            }
        } else if (op == 1) {
            int64_t q = sx_range("nskip", 1, 7); q = (int64_t)sx_ite(q == 6, 0x80000000LL, sx_ite(q == 7, 0x100000001LL, (uint64_t)q)); int64_t r = (int64_t)sx_conc((uint64_t)s.skip(q));
            if (err || s.status() == Error) { sx_assert(s.failed, "an error is only reported when the source failed"); err = true; segA = -1; continue; }
            sx_assert(r == (q < left ? q : left), "skip passes over exactly min(n, rest)");
            pos += r; segA = -1; sx_obs("skip", r);
        } else {
            int64_t t = sx_range("target", 0, L + 2); t = (int64_t)sx_ite(t == L + 2, 0x100000000LL, (uint64_t)t);
            int64_t r = (int64_t)sx_conc((uint64_t)s.reset(t));
            if (err) { sx_assert(r < 0, "reset after an error fails"); continue; }
            sx_assert(r == s.position(), "reset returns the new position");
            if (segA >= 0 && t >= segA && t <= segB) {
                sx_assert(r == t, "reset into the data last read succeeds");
                sx_assert(sameBytes(seg, s.data + segA, segB - segA), "reset into the data last read keeps the pointer valid");
            } else { sx_assert(r == t || r == pos, "reset goes to the target or stays"); segA = -1; }
            pos = r; sx_obs("reset", r);
        }
        sx_assert(s.position() == pos, "position equals the items consumed");
        sx_assert(s.status() != Error, "no error without a failing source");
        sx_assert(s.status() != Eof || (pos == L && s.size() == L), "Eof is reported only at the end, with the size known");
        sx_assert(s.size() == -1 || s.size() == L, "the size is unknown or right");
    }
    sx_reach("end");
}
template <class S, class T> static void top(int mode) {
    int L = (int)sx_param("len", 5), ops = (int)sx_param("ops", 2); bool e = sx_param("err", 0);
    L = sx_choose(L + 1, "len");
    int err = -1; if (e) err = sx_choose(L + 1, "errat");
    bool known = L > 0 && sx_choose(2, "known");
    S s(L, known, err);
    int mb = sx_choose(2, "minbuf"); if (mb) s.minbuf((int)sx_param("minbuf", 3));
    run<S, T>(s, L, ops, mode, known);
}
extern "C" {
void h_buf_seq() { NoLeak noLeak; top<Src<BufferedStream<char>, char>, char>(0); }
void h_wbuf_seq() { NoLeak noLeak; top<Src<BufferedStream<wchar_t>, wchar_t>, wchar_t>(0); }
void h_buf_reset() { NoLeak noLeak; top<Src<BufferedStream<char>, char>, char>(1); }
void h_wbuf_reset() { NoLeak noLeak; top<Src<BufferedStream<wchar_t>, wchar_t>, wchar_t>(1); }
void h_sbuf_seq() { NoLeak noLeak; top<Src<SkippingBufferedStream<char>, char>, char>(0); }
void h_sbuf_reset() { NoLeak noLeak; top<Src<SkippingBufferedStream<char>, char>, char>(1); }
}
extern "C" {
void h_buf_err() { NoLeak noLeak; top<Src<BufferedStream<char>, char>, char>(1); }
void h_buf_again() { NoLeak noLeak; top<Src<BufferedStream<char>, char>, char>(2); }
void h_sbuf_err() { NoLeak noLeak; top<Src<SkippingBufferedStream<char>, char>, char>(1); }
}

template <class S> static void longer() { // the source holds more than was announced
    int N = (int)sx_param("len", 3), L = 2 + sx_choose(N - 1, "len"); S s(L, false, -1); int size = 1 + sx_choose(L - 1, "size"); s.announce(size); const char* p; int pos = 0; int32_t r;
    for (;;) { if (sx_choose(2, "skip")) { r = (int32_t)sx_conc((uint64_t)(int64_t)s.skip(1)); sx_assert(r <= 1, "skip passes over exactly min(n, rest)"); if (r == 1) { pos++; continue; } break; } int min = 1 + sx_choose(2, "min"), max = sx_choose(3, "max"); r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, min, max)); if (r <= 0) break;
        sx_assert(pos + r <= size, "no more is delivered than announced"); if (pos + r > size) sx_end(); sx_assert(sameBytes(p, s.data + pos, r), "read delivers the source data at the position"); pos += r; }
    sx_assert(r <= 0 && s.status() == Error && s.error()[0], "more data than announced is an error"); sx_reach("end"); }
extern "C" { void h_buf_longer() { NoLeak noLeak; longer<Src<BufferedStream<char>, char>>(); } void h_sbuf_longer() { NoLeak noLeak; longer<Src<SkippingBufferedStream<char>, char>>(); } }
