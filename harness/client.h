#pragma once
#include "common.h"
// A generic client: read/skip/reset history on stream s that must behave like a stream over d[0,E).
// The harness decides what happens at the end through endOk.
struct Client {
    InputStream& s; const char* d; int64_t E; int64_t pos, segA, segB, far; const char* seg; bool mayFail; bool failed; int64_t minNeed;
    Client(InputStream& st, const char* data, int64_t e) : s(st), d(data), E(e), pos(0), segA(-1), segB(-1), far(0), seg(0), mayFail(false), failed(false), minNeed(0) {}
    const int *mins = 0, *maxs = 0, *skips = 0; int nmins = 0, nmaxs = 0, nskips = 0; bool sizeCheck = true, faulty = false; int minLo = 1; bool resetBeyond = false;
    void read() {
        int64_t left = E - pos; int32_t min = nmins ? mins[sx_choose(nmins, "min")] : sx_range("min", minLo, 3), max = nmaxs ? maxs[sx_choose(nmaxs, "max")] : sx_range("max", 0, 5); if (!nmaxs) max = (int32_t)sx_ite(max == 5, 0x7fffffff, (uint64_t)max);
        const char* p = 0; int32_t n = (int32_t)sx_conc(s.read(p, min, max));
        if (failed) { sx_assert(n < 0, "no data after an error"); return; }
        if (n == -2 || s.status() == Error) {
            sx_assert(mayFail, "no error without a cause"); sx_assert(n == -2, "an error is returned as -2"); sx_assert(s.status() == Error, "an error sets the status"); sx_assert(s.error()[0] != 0, "an error has a message");
            sx_assert(faulty || min > left || left == 0, "an error is reported only when the data cannot be delivered"); failed = true; segA = -1; return; }
        if (left == 0) { sx_assert(!mayFail || faulty, "a premature end is an error"); sx_assert(n == -1, "at the end read returns -1"); sx_assert(s.status() == Eof, "status is Eof after read returned -1"); segA = -1; }
        else {
            sx_assert(n >= 1 && n <= left, "read delivers only data of the stream");
            sx_assert(n >= min || n == left, "read delivers at least min unless the end is reached");
            sx_assert(max < min || max < 1 || n <= max, "read delivers at most max");
            if (n < 1 || n > left) sx_end();
            sx_assert(sameBytes(p, d + pos, n), "read delivers the data at the position");
            sx_assert(n >= min || !mayFail || faulty, "a premature end is an error");
            sx_assert(n >= min || s.status() == Eof, "a short read announces the end");
            segA = pos; seg = p; pos += n; segB = pos; sx_obs("read", n);
        }
    }
    void skip() {
        int64_t left = E - pos; int64_t q = nskips ? skips[sx_choose(nskips, "nskip")] : sx_range("nskip", 1, 7); if (!nskips) q = (int64_t)sx_ite(q == 6, 0x80000000LL, sx_ite(q == 7, 0x100000001LL, (uint64_t)q)); // also amounts that do not fit in 32 bits
        int64_t r = (int64_t)sx_conc(s.skip(q));
        if (failed) { sx_assert(r <= 0, "nothing is skipped after an error"); return; }
        if (s.status() == Error || r == -2) { sx_assert(mayFail && (faulty || q > left), "no error without a cause"); sx_assert(s.status() == Error, "an error sets the status"); sx_assert(s.error()[0] != 0, "an error has a message"); failed = true; segA = -1; return; }
        sx_assert(!mayFail || faulty || left > 0, "a premature end is an error");
        if (left == 0) { sx_assert(r <= 0, "at the end nothing is skipped"); sx_assert(s.status() == Eof, "status is Eof after a skip at the end"); } else sx_assert(r == (q < left ? q : left), "skip passes over exactly min(n, rest)");
        if (r > 0) pos += r; segA = -1; sx_obs("skip", r);
    }
    void reset() {
        int64_t t = sx_range("target", 0, (int)(resetBeyond ? E + 4 : far)); t = (int64_t)sx_ite(t == E + 3, 0x100000000LL, sx_ite(t == E + 4, 0x100000001LL, (uint64_t)t)); int64_t r = s.reset(t);
        if (failed) { if (s.status() == Error) return; failed = false; segA = -1; } // a stream that was moved back may be usable again
        if (faulty && s.status() == Error) { failed = true; segA = -1; return; }
        sx_assert(r == s.position(), "reset returns the new position");
        if (segA >= 0 && t >= segA && t <= segB) { sx_assert(r == t, "reset into the data last read succeeds"); sx_assert(sameBytes(seg, d + segA, segB - segA), "reset into the data last read keeps the pointer valid"); }
        else { sx_assert(r == t || r == pos || (t > E && r == E), "reset goes to the target, stays, or stops at the end"); segA = -1; }
        sx_assert(r >= 0 && r <= E, "the position stays within the stream"); pos = sx_conc(r); sx_obs("reset", r);
    }
    void check() {
        if (pos > far) far = pos; if (failed) return;
        sx_assert(s.position() == pos, "position equals the items consumed");
        sx_assert(s.status() != Error, "no error without a cause");
        sx_assert(s.status() != Eof || pos == E, "Eof is reported only at the end");
        if (sizeCheck) { sx_assert(s.status() != Eof || mayFail || s.size() == E, "the size is known at the end"); sx_assert(s.size() == -1 || mayFail || s.size() == E, "the size is unknown or right"); }
    }
    void run(int ops, int kinds) { for (int k = 0; k < ops; k++) { int op = sx_choose(kinds, "op"); if (op == 0) read(); else if (op == 1) skip(); else reset(); check(); } }
};
