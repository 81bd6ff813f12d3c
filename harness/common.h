// Shared harness environment: adversarial but contract-conforming input streams.
#pragma once
#include "sx.h"
#include <strigi/streambase.h>
#include <strigi/bufferedstream.h>
#include <string.h>
#include <stdlib.h>
using namespace Strigi;

// memory of the harness, and the first local of an entry: when all other locals are gone, everything allocated has been released
static void* keptMem[64]; static int keptN;
static inline char* keepMem(size_t n) { char* p = (char*)malloc(n ? n : 1); if (keptN < 64) keptMem[keptN++] = p; return p; }
struct NoLeak { uint64_t b; NoLeak() : b(sx_heap()) {} ~NoLeak() { while (keptN) free(keptMem[--keptN]); if (sx_param("leak", 0)) sx_assert(sx_heap() == b, "released: all memory is released"); } };

// Chunking policies of the stub
enum { CH_SYM = 0, CH_MAX = 1, CH_MIN = 2 };

// An InputStream that obeys the documented contract and nothing more:
// a read returns any amount allowed by (min,max) in a fresh heap block of exactly that size, which is freed as soon as
// the contract says the pointer is invalid; the end may be announced with the last data or only by the next read;
// the size may be unknown until the end; an error may occur at a given position.
template <class T> struct SymStreamT : public StreamBase<T> {
    const T* src; int64_t len; int chunk; bool lazyEof; bool anyReset; int64_t errAt;
    T* seg; int64_t segStart, segEnd; int nreads;
    SymStreamT(const T* s, int64_t l, int chunkPolicy = CH_SYM, bool sizeKnown = true, bool lazy = false, int64_t err = -1)
        : src(s), len(l), chunk(chunkPolicy), lazyEof(lazy), anyReset(true), errAt(err), seg(0), segStart(0), segEnd(0), nreads(0) {
        StreamBase<T>::m_size = sizeKnown ? l : -1;
    }
    ~SymStreamT() { free(seg); }
    void drop() { free(seg); seg = 0; segStart = segEnd = -1; }
    int32_t read(const T*& start, int32_t min, int32_t max) {
        if (StreamBase<T>::m_status == Error) return -2;
        int64_t& pos = StreamBase<T>::m_position;
        drop(); nreads++;
        int64_t limit = errAt >= 0 && errAt < len ? errAt : len;
        int64_t left = limit - pos;
        bool mustFail = limit < len && (left == 0 || left < min);
        if (mustFail) { StreamBase<T>::m_status = Error; StreamBase<T>::m_error = "stub error"; return -2; }
        if (left == 0) { StreamBase<T>::m_status = Eof; StreamBase<T>::m_size = len; return -1; }
        if (min < 1) min = 1;
        int64_t hi = (max < min || max > left) ? left : max;
        int64_t lo = min > hi ? hi : min;
        int64_t n = hi;
        if (chunk == CH_MIN) n = lo;
        else if (chunk > 2) n = chunk < lo ? lo : chunk < hi ? chunk : hi; // pieces of a given size
        else if (chunk == CH_SYM && lo < hi) n = lo + sx_choose((uint32_t)(hi - lo + 1), "chunk");
        n = (int64_t)sx_conc((uint64_t)n);
        seg = (T*)malloc(n * sizeof(T)); memcpy(seg, src + pos, n * sizeof(T));
        segStart = pos; segEnd = pos + n; pos += n; start = seg;
        if (pos == len && (!lazyEof || n < min)) { StreamBase<T>::m_status = Eof; StreamBase<T>::m_size = len; }
        return (int32_t)n;
    }
    int64_t skip(int64_t k) {
        if (StreamBase<T>::m_status == Error) return -2;
        int64_t& pos = StreamBase<T>::m_position; drop();
        int64_t limit = errAt >= 0 && errAt < len ? errAt : len;
        int64_t left = limit - pos;
        if (k > left && limit < len) { StreamBase<T>::m_status = Error; StreamBase<T>::m_error = "stub error"; return -2; }
        if (k < 0) k = 0;
        if (k > left) k = left;
        k = (int64_t)sx_conc((uint64_t)k); pos += k;
        if (pos == len && (!lazyEof || k == 0)) { StreamBase<T>::m_status = Eof; StreamBase<T>::m_size = len; }
        return k;
    }
    int64_t reset(int64_t p) { p = (int64_t)sx_conc((uint64_t)p);
        if (StreamBase<T>::m_status == Error) return -2;
        if (p < 0 || p > len || (errAt >= 0 && p > errAt)) return StreamBase<T>::m_position;
        if (seg && p >= segStart && p <= segEnd) { }
        else if (anyReset) drop();
        else return StreamBase<T>::m_position;
        StreamBase<T>::m_position = p;
        StreamBase<T>::m_status = (p == len && !lazyEof) ? Eof : Ok;
        return p;
    }
};
typedef SymStreamT<char> SymStream;

static inline char* symData(size_t n, const char* name) { char* p = keepMem(n); sx_bytes(p, n, name); return p; }
// branch-free comparison: one assertion for a whole block
template <class T> static inline int sameBytes(const T* a, const T* b, int64_t n) { int ok = 1; for (int64_t i = 0; i < n; i++) ok &= (a[i] == b[i]); return ok; }
