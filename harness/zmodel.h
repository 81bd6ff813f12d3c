// Model of the codec libraries (zlib inflate/deflate, libbz2, the bundled LzmaDec): a toy format with the interfaces' exact
// calling conventions. Compressed bytes: 0x00-0x7f literal; 0x80-0xdf 1+(c&3) copies of 'r' (output may outrun input);
// 0xfd needs a dictionary (zlib) / error; 0xfe data error; 0xff end of stream. gzip format: header 1f 8b; bz2: BZh91AY&SY.
#pragma once
#include "arch.h"
#include <zlib.h>
#include <bzlib.h>
extern "C" {
#include "lzma/LzmaDec.h"
}
static int zLive, zInitFail; // streams initialised and not ended; make initialisation fail
static int zEsc; // 0xf0 makes the next byte a literal
struct ZM { int magic, hdr, rep, done, bad, esc; };
enum { ZMAGIC = 0x5a4d, M_MORE = 0, M_END = 1, M_BAD = 2, M_DICT = 3 };
// one decompression step: consumes input and produces output until one of them is used up
static int zmRun(ZM* z, const unsigned char*& in, unsigned& il, unsigned char*& out, unsigned& ol, bool& progress) {
    progress = false;
    for (;;) {
        if (z->bad) return z->bad;
        if (z->rep) { if (!ol) return M_MORE; *out++ = 'r'; ol--; z->rep--; progress = true; continue; }
        if (z->done) return M_END;
        if (!il) return M_MORE;
        unsigned char c = *in;
        if (z->hdr) { static const unsigned char H[] = { 0x8b, 0x1f }; if (c != H[z->hdr - 1]) { z->bad = M_BAD; continue; } z->hdr--; in++; il--; progress = true; continue; }
        if (zEsc && !z->esc && sx_conc(c == 0xf0)) { z->esc = 1; in++; il--; progress = true; continue; }
        int k = z->esc ? 0 : (int)sx_conc(sx_ite(c < 0x80, 0, sx_ite(c < 0xe0, 1 + (c & 3), sx_ite(c == 0xff, 5, sx_ite(c == 0xfd, 6, 7)))));
        if (k == 0) { if (!ol) return M_MORE; *out++ = c; ol--; z->esc = 0; }
        in++; il--; progress = true;
        if (k >= 1 && k <= 4) z->rep = k; else if (k == 5) z->done = 1; else if (k == 6) z->bad = M_DICT; else if (k == 7) z->bad = M_BAD;
    }
}
// what a whole compressed stream denotes; returns bytes consumed, kind: M_END, M_BAD, M_DICT or M_MORE (premature end)
static int zmSpec(const string& c, size_t at, string& out, int& kind) {
    size_t i = at; out.clear();
    for (; i < c.size(); i++) { unsigned char b = c[i]; int k = (int)sx_conc(sx_ite(b < 0x80, 0, sx_ite(b < 0xe0, 1 + (b & 3), sx_ite(b == 0xff, 5, sx_ite(b == 0xfd, 6, 7)))));
        if (k == 0) out += (char)b; else if (k <= 4) out += string(k, 'r'); else { kind = k == 5 ? M_END : k == 6 ? M_DICT : M_BAD; return (int)(i + 1 - at); } }
    kind = M_MORE; return (int)(i - at);
}
static ZM* zm(void* p) { ZM* z = (ZM*)p; sx_assert(z && z->magic == ZMAGIC, "only an initialised codec is used"); if (!z || z->magic != ZMAGIC) sx_end(); return z; }
static ZM* zmNew(int hdr) { ZM* z = (ZM*)malloc(sizeof(ZM)); z->magic = ZMAGIC; z->hdr = hdr; z->rep = z->done = z->bad = z->esc = 0; zLive++; return z; }
static void zmFree(void* p) { ZM* z = zm(p); z->magic = 0; free(z); zLive--; }
extern "C" {
int __wrap_inflateInit2_(z_streamp s, int wbits, const char* v, int sz) { sx_assert(v && v[0] == '1' && sz == (int)sizeof(z_stream), "zlib is initialised for this version"); if (zInitFail) { s->state = 0; return Z_MEM_ERROR; } s->state = (struct internal_state*)zmNew(wbits > 15 ? 2 : 0); s->msg = 0; return Z_OK; }
int __wrap_inflateInit_(z_streamp s, const char* v, int sz) { return __wrap_inflateInit2_(s, 15, v, sz); }
int __wrap_inflateEnd(z_streamp s) { if (!s || !s->state) return Z_STREAM_ERROR; zmFree(s->state); s->state = 0; return Z_OK; }
int __wrap_inflateReset(z_streamp s) { ZM* z = zm(s->state); z->hdr = z->rep = z->done = z->bad = z->esc = 0; return Z_OK; }
int __wrap_inflate(z_streamp s, int) {
    if (!s || !s->state) return Z_STREAM_ERROR; ZM* z = zm(s->state); if (!s->next_out || (!s->next_in && s->avail_in)) return Z_STREAM_ERROR;
    const unsigned char* in = s->next_in; unsigned il = (unsigned)sx_conc(s->avail_in), ol = (unsigned)sx_conc(s->avail_out); unsigned char* out = s->next_out; bool pr; int r = zmRun(z, in, il, out, ol, pr);
    s->total_in += s->avail_in - il; s->total_out += s->avail_out - ol; s->next_in = (Bytef*)in; s->avail_in = il; s->next_out = out; s->avail_out = ol;
    return r == M_END ? Z_STREAM_END : r == M_BAD ? Z_DATA_ERROR : r == M_DICT ? Z_NEED_DICT : pr ? Z_OK : Z_BUF_ERROR;
}
int __wrap_BZ2_bzDecompressInit(bz_stream* s, int, int) { if (zInitFail) return BZ_MEM_ERROR; ZM* z = zmNew(0); z->hdr = 0; s->state = z; return BZ_OK; }
int __wrap_BZ2_bzDecompressEnd(bz_stream* s) { if (!s || !s->state) return BZ_PARAM_ERROR; zmFree(s->state); s->state = 0; return BZ_OK; }
static int bzSkip; // bytes of the bz2 magic still to be consumed by the model
int __wrap_BZ2_bzDecompress(bz_stream* s) {
    if (!s || !s->state) return BZ_PARAM_ERROR; ZM* z = zm(s->state); unsigned il = (unsigned)sx_conc(s->avail_in), ol = (unsigned)sx_conc(s->avail_out); const unsigned char* in = (const unsigned char*)s->next_in; unsigned char* out = (unsigned char*)s->next_out; bool pr;
    while (bzSkip && il) { static const unsigned char H[] = "YS&YA19hZB"; if (*in != H[bzSkip - 1] && bzSkip != 7) return BZ_DATA_ERROR_MAGIC; in++; il--; bzSkip--; }
    int r = zmRun(z, in, il, out, ol, pr); s->next_in = (char*)in; s->avail_in = il; s->next_out = (char*)out; s->avail_out = ol;
    return r == M_END ? BZ_STREAM_END : r == M_BAD ? BZ_DATA_ERROR : r == M_DICT ? BZ_MEM_ERROR : BZ_OK;
}
}
#ifdef ZM_LZMA
static int zNoMark; // the stream has no end mark: code is 0 after the last symbol
extern "C" {
SRes __wrap_LzmaDec_Allocate(CLzmaDec* p, const Byte* props, unsigned n, ISzAlloc* a) { sx_assert(n == 5 && a && p->probs == 0, "the decoder is set up from the header"); if (zInitFail) return SZ_ERROR_MEM; p->probs = (CLzmaProb*)zmNew(0); p->dic = 0; return SZ_OK; }
void __wrap_LzmaDec_Free(CLzmaDec* p, ISzAlloc*) { if (p->probs) zmFree(p->probs); p->probs = 0; }
void __wrap_LzmaDec_Init(CLzmaDec* p) { ZM* z = zm(p->probs); z->rep = z->done = z->bad = z->esc = 0; }
SRes __wrap_LzmaDec_DecodeToBuf(CLzmaDec* p, Byte* dest, SizeT* dl, const Byte* src, SizeT* sl, ELzmaFinishMode fm, ELzmaStatus* st) {
    ZM* z = zm(p->probs); const unsigned char* in = src; unsigned il = (unsigned)sx_conc(*sl), ol = (unsigned)sx_conc(*dl), i0 = il, o0 = ol; sx_assert(il == *sl && ol == *dl, "buffer sizes are positive"); bool pr; unsigned char* out = dest;
    int r = zmRun(z, in, il, out, ol, pr);
    if (r == M_MORE && !ol && fm == LZMA_FINISH_END) { // the block must end here
        if (z->rep) r = M_BAD; else if (zNoMark) { *dl = o0; *sl = i0 - il; *st = LZMA_STATUS_MAYBE_FINISHED_WITHOUT_MARK; return SZ_OK; } else if (il) { int k = sx_conc(*in == 0xff); if (k) { in++; il--; z->done = 1; r = M_END; } else r = M_BAD; } }
    *dl = o0 - ol; *sl = i0 - il; *st = LZMA_STATUS_NOT_SPECIFIED; if (r == M_BAD || r == M_DICT) return SZ_ERROR_DATA;
    *st = r == M_END ? LZMA_STATUS_FINISHED_WITH_MARK : il || z->rep ? LZMA_STATUS_NOT_FINISHED : LZMA_STATUS_NEEDS_MORE_INPUT; return SZ_OK;
}
}
#endif
