// C30: compressing streams, over a model of zlib's deflate that holds back, shrinks or expands data
#include "arch.h"
#include "gzipcompressstream.h"
#include <zlib.h>
static int mode, initFail, zLive; // how the model encodes; make initialisation fail
struct DM { int magic, head, n; bool trailer, done; char q[64]; };
enum { DMAGIC = 0x4443 };
static string encode(const string& d) { string o; for (size_t i = 0; i < d.size(); i++) { if (mode == 1) { o += (char)('a' + ((unsigned char)d[i] >> 4)); o += (char)('a' + (d[i] & 15)); } else if (mode == 2) { if (i & 1) o += (char)(d[i] ^ d[i - 1]); } else o += d[i]; } if (mode == 2 && (d.size() & 1)) o += d[d.size() - 1]; return o + "\x04\x05\x06"; }
static DM* dm(z_streamp s) { DM* z = (DM*)s->state; sx_assert(z && z->magic == DMAGIC, "only an initialised codec is used"); if (!z || z->magic != DMAGIC) sx_end(); return z; }
struct Hold { string in; size_t sent, pend; };
static Hold hold;
extern "C" {
int __wrap_deflateInit_(z_streamp s, int level, const char*, int) { sx_assert(level >= -1 && level <= 9, "the compression level is valid"); sx_assert(s->zalloc == 0 && s->zfree == 0, "the stream is initialised"); if (initFail) return initFail == 1 ? Z_MEM_ERROR : Z_STREAM_ERROR; DM* z = (DM*)malloc(sizeof(DM)); memset(z, 0, sizeof *z); z->magic = DMAGIC; s->state = (struct internal_state*)z; s->msg = 0; zLive++; hold.in.clear(); hold.sent = hold.pend = 0; return Z_OK; }
static int longDeflate(z_streamp s, int flush, DM* z, size_t block) { // passes data on in blocks
    bool progress = false; for (;;) {
        size_t k = hold.pend < s->avail_out ? hold.pend : s->avail_out; if (k) { memcpy(s->next_out, hold.in.data() + hold.sent, k); hold.sent += k; hold.pend -= k; s->next_out += k; s->avail_out -= k; s->total_out += k; progress = true; }
        if (hold.pend || !s->avail_out) { if (!s->avail_out && !hold.pend && z->trailer && flush == Z_FINISH) { z->done = true; return Z_STREAM_END; } return Z_OK; }
        if (s->avail_in) { size_t n = s->avail_in < 1000 ? s->avail_in : 1000; hold.in.append((const char*)s->next_in, n); s->next_in += n; s->avail_in -= n; s->total_in += n; progress = true; if (hold.in.size() - hold.sent >= block) hold.pend = hold.in.size() - hold.sent; continue; }
        if (flush != Z_FINISH) return progress ? Z_OK : Z_BUF_ERROR;
        if (!z->trailer) { z->trailer = true; hold.in += "\x04\x05\x06"; hold.pend = hold.in.size() - hold.sent; continue; }
        z->done = true; return Z_STREAM_END; } }
int __wrap_deflateEnd(z_streamp s) { if (!s->state) return Z_STREAM_ERROR; DM* z = dm(s); z->magic = 0; free(z); s->state = 0; zLive--; return Z_OK; }
int __wrap_deflate(z_streamp s, int flush) {
    DM* z = dm(s); sx_assert(s->next_out != 0, "there is room for output"); if (!s->avail_out) return Z_BUF_ERROR; if (z->done) return flush == Z_FINISH ? Z_STREAM_END : Z_STREAM_ERROR; sx_assert(!z->trailer || s->avail_in == 0, "no input after the end"); bool progress = false; if (mode >= 3) return longDeflate(s, flush, z, mode == 3 ? 1 : mode == 4 ? 5000 : 100000);
    for (;;) {
        while (z->n && s->avail_out) { *s->next_out++ = z->q[z->head]; z->head = (z->head + 1) & 63; z->n--; s->avail_out--; s->total_out++; progress = true; }
        if (!s->avail_out && (z->n || flush != Z_FINISH || !z->trailer)) return Z_OK;
        if (s->avail_in) { char c = *s->next_in++; s->avail_in--; s->total_in++; progress = true; size_t before = 0; string o = encode(hold.in); before = mode == 2 ? (hold.in.size() & ~(size_t)1) / 2 : o.size() - 3; hold.in += c; o = encode(hold.in); size_t after = mode == 2 ? (hold.in.size() & ~(size_t)1) / 2 : o.size() - 3; for (size_t i = before; i < after; i++) { z->q[(z->head + z->n) & 63] = o[i]; z->n++; } continue; }
        if (flush != Z_FINISH) return progress ? Z_OK : Z_BUF_ERROR;
        if (!z->trailer) { z->trailer = true; string o = encode(hold.in); for (size_t i = mode == 2 ? (hold.in.size() & ~(size_t)1) / 2 : o.size() - 3; i < o.size(); i++) { z->q[(z->head + z->n) & 63] = o[i]; z->n++; } continue; }
        z->done = true; return Z_STREAM_END;
    }
}
}
static string bytes(int n) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8("d"); return s; }
static void comp(bool faults) {
    mode = sx_choose(3, "mode"); int n = sx_choose((uint32_t)sx_param("len", 3) + 1, "n"); string d = bytes(n), want = encode(d); int err = faults ? (int)sx_choose(n + 1, "errat") : -1; bool fails = err >= 0 && err < n;
    SymStream in(d.data(), n, (int)sx_param("chunk", CH_SYM), true, sx_choose(2, "lazy"), err); int ops = (int)sx_param("ops", 2); size_t pos = 0; const char* p = 0; int32_t r; int64_t segA = -1, segB = 0;
    { GZipCompressInputStream s(&in, sx_choose(2, "level") ? 42 : 5); sx_assert(s.status() == Ok, "compression starts");
      for (;;) {
        int op = ops-- > 0 ? sx_choose(3, "op") : 0;
        if (op == 2) { if (segA < 0) continue; int64_t t = segA + sx_choose((uint32_t)(segB - segA + 1), "to"); sx_assert(s.reset(t) == t && s.position() == t, "the stream can be rewound over the data last read"); pos = t; segA = -1; continue; }
        if (op == 1) { int64_t k = s.skip(1); if (k == 1) { sx_assert(pos < want.size(), "no data is invented"); if (pos >= want.size()) sx_end(); pos++; segA = -1; sx_assert(s.position() == (int64_t)pos, "position equals the bytes consumed"); continue; } sx_assert(k <= 0, "no more is skipped than asked"); r = s.status() == Error ? -2 : -1; break; }
        int min = 1 + (ops >= 0 ? (int)sx_choose(2, "min") : 0), max = ops >= 0 ? (int)sx_choose(3, "max") : 0; r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, min, max)); if (r <= 0) break;
        if (!fails) { sx_assert(pos + r <= want.size(), "no data is invented"); if (pos + r > want.size()) sx_end(); } else if (pos + r > want.size()) sx_end();
        sx_assert(sameBytes(p, want.data() + pos, r), "the data is the compressed input"); segA = pos; pos += r; segB = pos; sx_obs("r", r); sx_assert(s.position() == (int64_t)pos, "position equals the bytes consumed"); sx_assert(r >= min || s.status() == Eof, "a short read announces the end"); sx_assert(max < min || r <= max, "read delivers at most max");
      }
      if (fails) { sx_assert(r == -2 && s.status() == Error && s.error() && s.error()[0], "an error of the input is an error with a message"); sx_reach("error"); }
      else { sx_assert(r == -1 && s.status() == Eof, "the compressed data ends"); sx_assert(pos == want.size() && s.size() == (int64_t)pos, "all the compressed data is delivered"); sx_assert(s.read(p, 1, 0) == -1, "the stream stays ended"); sx_reach("end"); } }
    sx_assert(zLive == 0, "the compressor is released");
}
struct Forget { ~Forget() { string().swap(hold.in); } };
extern "C" {
void h_comp() { NoLeak noLeak; Forget f; comp(false); }
void h_comp_err() { NoLeak noLeak; Forget f; comp(true); }
void h_comp_init() { NoLeak noLeak; Forget f; initFail = 1 + sx_choose(2, "initfail"); string d = bytes(1); SymStream in(d.data(), 1, CH_MAX); { GZipCompressInputStream s(&in); sx_assert(s.status() == Error && s.error()[0], "a failing start is an error with a message"); const char* p; sx_assert(s.read(p, 1, 0) == -2, "no data after an error"); } sx_reach("end"); }
void h_comp_long() { NoLeak noLeak; Forget f; // long data, pieces and amounts around the sizes of the buffers
    mode = 3 + sx_choose(3, "mode"); static const int N[] = { 255, 1024, 5000, 70000 }, PC[] = { CH_MAX, 100, 1024, 3000 }, MIN[] = { 1, 1025, 6000 }, MAX[] = { 0, 1000, 8000 }, SK[] = { 1, 1500, 100000 }; int n = N[sx_choose(4, "len")]; string d; for (int i = 0; i < n; i++) d += (char)(i * 7 + i / 256); d[n / 2] = (char)sx_u8("d"); string want = d + "\x04\x05\x06"; bool err = n < 70000 && sx_choose(2, "fails");
    SymStream in(d.data(), n, PC[sx_choose(4, "piece")], true, sx_choose(2, "lazy"), err ? n - 1 : -1); int ops = (int)sx_param("ops", 1); int64_t pos = 0, E = (int64_t)want.size(), segA = -1, segB = 0; const char *p = 0, *seg = 0; int32_t r = 0; bool bad = false;
    { GZipCompressInputStream s(&in, 5); for (;;) { int op = ops-- > 0 ? sx_choose(3, "op") : 0; int64_t left = E - pos;
        if (op == 1) { int64_t q = SK[sx_choose(3, "nskip")], k = s.skip(q); if (s.status() == Error) { bad = true; break; } sx_assert(k == (q < left ? q : left) || (left == 0 && k <= 0), "skip passes over exactly min(n, rest)"); if (k > 0) pos += k; segA = -1; if (pos > E) sx_end(); if (s.status() == Eof) break; continue; }
        if (op == 2) { if (segA < 0) sx_end(); int64_t T[] = { segA, segA + 1, segB }, t = T[sx_choose(3, "to")]; sx_assert(s.reset(t) == t, "the stream can be rewound over the data last read"); sx_assert(sameBytes(seg, want.data() + segA, segB - segA), "and the data stays valid"); pos = t; segA = -1; continue; }
        int mn = ops >= 0 ? MIN[sx_choose(3, "min")] : 1, mx = ops >= 0 ? MAX[sx_choose(3, "max")] : 0; r = s.read(p, mn, mx); if (r == -2) { bad = true; break; } if (r <= 0) break; sx_assert(r <= left, "no data is invented"); if (r > left) sx_end(); sx_assert(sameBytes(p, want.data() + pos, r), "the data is the compressed input"); segA = pos; seg = p; pos += r; segB = pos; sx_assert(s.position() == pos && (r >= mn || s.status() == Eof) && (mx < mn || r <= mx), "read delivers what was asked for"); sx_assert(s.status() != Eof || pos == E, "the end is reported only at the end"); }
      if (err) { sx_assert(bad && s.status() == Error && s.error()[0], "an error of the input is an error with a message"); sx_reach("error"); } else { sx_assert(!bad && pos == E && s.status() == Eof && s.size() == E, "all the compressed data is delivered"); sx_reach("end"); } }
    sx_assert(zLive == 0, "the compressor is released"); }
}
