// C22 gzip/zlib/raw deflate streams, C23 bzip2 streams
#define ZM_LZMA
#include "zmodel.h"
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
static string bytes(int n, const char* name) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8(name); return s; }
// reads all of s; want: the data denoted, kind how it ends
static void consume(InputStream& s, const string& want, int kind, bool inputFails) {
    size_t pos = 0; const char* p = 0; int32_t r; int ops = (int)sx_param("ops", 2); int64_t segA = -1, segB = 0;
    for (;;) {
        int op = ops-- > 0 ? sx_choose(3, "op") : 0; 
        if (op == 2) { if (segA < 0) continue; int64_t t = segA + sx_choose((uint32_t)(segB - segA + 1), "to"); sx_assert(s.reset(t) == t && s.position() == t, "the stream can be rewound over the data last read"); pos = t; segA = -1; continue; }
        if (op == 1) { int64_t k = s.skip(1); if (k == 1) { sx_assert(pos < want.size(), "no data is invented"); if (pos >= want.size()) sx_end(); pos++; segA = -1; sx_assert(s.position() == (int64_t)pos, "position equals the bytes consumed"); continue; } r = s.status() == Error ? -2 : -1; sx_assert(k <= 0, "no more is skipped than asked"); if (r == -1) sx_assert(s.status() == Eof, "skip stops only at the end"); break; }
        int min = 1 + (ops >= 0 ? (int)sx_choose(2, "min") : 0), max = ops >= 0 ? (int)sx_choose(3, "max") : 0; r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, min, max)); if (r <= 0) break;
        sx_assert(pos + r <= want.size(), "no data is invented"); if (pos + r > want.size()) sx_end(); sx_assert(sameBytes(p, want.data() + pos, r), "the data is the decompressed data"); segA = pos; pos += r; segB = pos; sx_obs("r", r); sx_assert(s.position() == (int64_t)pos, "position equals the bytes consumed");
        sx_assert(s.status() != Eof || (pos == want.size() && kind == M_END), "the end is reported only at the end"); sx_assert(r >= min || s.status() == Eof, "a short read announces the end"); sx_assert(max < min || r <= max, "read delivers at most max");
    }
    sx_assert(r == -1 || r == -2, "read ends with the end or an error");
    if (kind == M_END && !inputFails) { sx_assert(r == -1 && s.status() == Eof, "intact data ends normally"); sx_assert(pos == want.size() && s.size() == (int64_t)pos, "all data is delivered"); sx_reach("end"); }
    else if (kind != M_END || r == -2) { sx_assert(r == -2 && s.status() == Error, "damaged or truncated data is an error"); sx_assert(s.error() && s.error()[0], "an error has a message"); sx_reach("error"); }
    else sx_assert(pos == want.size(), "all data is delivered");
}
extern "C" {
static void gz(int format) {
    int n = sx_choose((uint32_t)sx_param("len", 4) + 1, "n"), tail = sx_choose(2, "tail"); string c = format == 1 ? string("\x1f\x8b") : string(); size_t h = c.size(); c += bytes(n, "c"); string want; int kind, used = zmSpec(c, h, want, kind); 
    int err = sx_param("err", 0) ? (int)sx_choose((uint32_t)c.size() + 1, "errat") : -1; int64_t E = h + used; if (kind == M_END && tail) { c += bytes(1, "t"); }
    SymStream in(c.data(), c.size(), (int)sx_param("chunk", CH_SYM), true, sx_choose(2, "lazy"), err); bool fails = err >= 0 && err < E; if (err >= 0 && kind == M_END && !fails) fails = false;
    { GZipInputStream s(&in, format == 0 ? GZipInputStream::ZLIBFORMAT : format == 1 ? GZipInputStream::GZIPFORMAT : GZipInputStream::ZIPFORMAT);
      if (format == 1 && fails && err < 2) { sx_assert(s.status() == Error, "a header that cannot be read is an error"); const char* p; sx_assert(s.read(p, 1, 0) == -2, "no data after an error"); }
      else { sx_assert(s.status() == Ok, "a stream with the right magic is accepted"); consume(s, want, kind == M_END && fails ? M_MORE : kind, fails);
        if (s.status() == Eof) sx_assert(in.position() == E, "the input is positioned just past the compressed data"); } }
    sx_assert(zLive == 0, "the decompressor is released"); sx_reach("done");
}
void h_gz_raw() { NoLeak noLeak; gz(2); }
void h_gz_gzip() { NoLeak noLeak; gz(1); }
void h_gz_zlib() { NoLeak noLeak; gz(0); }
void h_gz_err() { NoLeak noLeak; gz(1 + sx_choose(2, "fmt")); }
void h_gz_magic() { NoLeak noLeak; // other data is not accepted
    int n = sx_choose(4, "n"); string c = bytes(n, "c"); SymStream in(c.data(), n, CH_SYM, true, sx_choose(2, "lazy")); zInitFail = sx_choose(2, "initfail"); bool ok = n >= 2 && ((unsigned char)c[0] == 0x1f) & ((unsigned char)c[1] == 0x8b);
    { GZipInputStream s(&in); sx_assert((s.status() == Ok) == (ok && !zInitFail), "exactly gzip data is accepted"); sx_assert(GZipInputStream::checkHeader(c.data(), n) == (ok && n > 2), "exactly gzip data is recognised"); const char* p; if (s.status() == Error) { sx_assert(s.read(p, 1, 0) == -2 && s.skip(1) <= 0 && s.error()[0], "no data after an error"); sx_reach("rejected"); } else sx_reach("accepted"); if (!ok) sx_assert(in.position() == 0 || in.status() == Error, "the input stays at its position"); }
    sx_assert(zLive == 0, "the decompressor is released"); 
}
static const char BM[] = "BZh91AY&SY";
static void bz(bool err_) {
    int n = sx_choose((uint32_t)sx_param("len", 4) + 1, "n"), tail = sx_choose(2, "tail"); string c(BM, 10); c += bytes(n, "c"); string want; int kind, used = zmSpec(c, 10, want, kind); int err = err_ ? (int)sx_choose((uint32_t)c.size() + 1, "errat") : -1; int64_t E = 10 + used; if (kind == M_END && tail) c += bytes(1, "t");
    SymStream in(c.data(), c.size(), sx_choose(2, "split") ? CH_MIN : CH_MAX, true, sx_choose(2, "lazy"), err); bool fails = err >= 0 && err < E; bzSkip = 10;
    { BZ2InputStream s(&in); if (fails && err < 10) { sx_assert(s.status() == Error, "a header that cannot be read is an error"); const char* p; sx_assert(s.read(p, 1, 0) == -2, "no data after an error"); sx_reach("error"); }
      else { sx_assert(s.status() == Ok, "a stream with the right magic is accepted"); consume(s, want, kind == M_END && fails ? M_MORE : kind, fails); if (s.status() == Eof) sx_assert(in.position() == E, "the input is positioned just past the compressed data"); } }
    sx_assert(zLive == 0, "the decompressor is released"); sx_reach("done");
}
void h_bz() { NoLeak noLeak; bz(false); }
void h_bz_err() { NoLeak noLeak; bz(true); }
void h_bz_magic() { NoLeak noLeak;
    int n = sx_choose(12, "n"); string c = string(BM, 10) + "a"; c.resize(n, '\0'); int at = sx_choose(12, "at"); if (at < n) c[at] = (char)sx_u8("c"); SymStream in(c.data(), n, CH_SYM, true, sx_choose(2, "lazy")); zInitFail = sx_choose(2, "initfail"); int ok = n >= 10; if (ok) { ok = sameBytes(c.data(), BM, 2) & sameBytes(c.data() + 4, BM + 4, 6) & ((c[2] == 'h') | (c[2] == '0')); } 
    { BZ2InputStream s(&in); sx_assert((s.status() == Ok) == (ok && !zInitFail), "exactly bzip2 data is accepted"); sx_assert(BZ2InputStream::checkHeader(c.data(), n) == !!ok, "exactly bzip2 data is recognised"); const char* p; if (s.status() == Error) { sx_assert(s.read(p, 1, 0) == -2 && s.skip(1) <= 0 && s.error()[0], "no data after an error"); sx_reach("rejected"); } else sx_reach("accepted"); }
    sx_assert(zLive == 0, "the decompressor is released");
}
}
// ---- lzma (with the modelled decoder)
static string lzHeader(uint64_t size) { string h = "\x5d"; h += string(4, '\0'); for (int i = 0; i < 8; i++) { h += (char)(size & 255); size >>= 8; } return h; }
static void lz(bool err_) {
    int n = sx_choose((uint32_t)sx_param("len", 3) + 1, "n"); string want, c = bytes(n, "c"); int kind; bool known = sx_choose(2, "known"); 
    uint64_t size = ~0ULL; 
    if (known) { size = 5000; c = string(1, '\xe1') + c; } // announced sizes exceed the dictionary's
    string lead; if (known) { c = c.substr(1); for (int i = 0; i < 1250; i++) lead += '\x83'; } // 5000 bytes
    int extra = known ? (int)sx_choose(3, "extra") : 0; size += known ? extra : 0; zNoMark = known ? (int)sx_choose(2, "nomark") : 0;
    string all = lzHeader(size) + lead + c; int used = zmSpec(lead + c, 0, want, kind); size_t total = want.size();
    bool ok, bad; if (!known) bad = !(ok = kind == M_END); else { ok = total == size && (kind == M_END || kind == M_MORE); bad = total < size; if (total > size) { want.resize(size); total = size; } } // surplus data may be noticed or not
    (void)used; int err = err_ ? (int)sx_choose(13 + 1 + (uint32_t)n, "errat") : -1; if (err > 13) err += (int)lead.size(); 
    SymStream in(all.data(), all.size(), known || sx_choose(2, "split") ? CH_MAX : CH_MIN, true, sx_choose(2, "lazy"), err);
    { LZMAInputStream s(&in); const char* p; size_t pos = 0; int32_t r;
      if (err >= 0 && err < 13) { sx_assert(s.status() == Error, "a header that cannot be read is an error"); sx_assert(s.read(p, 1, 0) == -2, "no data after an error"); sx_reach("error"); }
      else { sx_assert(s.status() == Ok, "a stream with a supported header is accepted"); sx_assert(s.size() == (known ? (int64_t)size : -1), "the size is that of the header"); int ops = (int)sx_param("ops", 1);
        for (;;) { int max = ops-- > 0 ? (int)sx_choose(3, "max") : 0; r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, 1, max)); if (r <= 0) break; sx_assert(pos + r <= want.size(), "no data is invented"); if (pos + r > want.size()) sx_end(); sx_assert(sameBytes(p, want.data() + pos, r), "the data is the decompressed data"); pos += r; }
        if (err < 0) sx_assert(!(ok && r != -1), "intact data is delivered and ends normally"), sx_assert(!(bad && r != -2), "damaged or truncated data is an error");
        if (r == -1) { sx_assert(r == -1 && s.status() == Eof && !bad && pos == total && s.size() == (int64_t)total, "intact data is delivered and ends normally"); sx_reach("end"); }
        else { sx_assert(r == -2 && s.status() == Error && s.error() && s.error()[0], "damaged or truncated data is an error with a message"); sx_reach("error"); } } }
    sx_assert(zLive == 0, "the decompressor is released"); sx_reach("done");
}
extern "C" {
void h_lz() { NoLeak noLeak; lz(false); }
void h_lz_err() { NoLeak noLeak; lz(true); }
void h_lz_magic() { NoLeak noLeak;
    int n = sx_choose(15, "n"); string c = bytes(n, "h"); SymStream in(c.data(), n, CH_SYM, true, false); in.chunk = CH_MAX; zInitFail = sx_choose(2, "initfail"); int ok = n >= 13; uint32_t dic = 0; uint64_t size = 0;
    if (ok) { const unsigned char* u = (const unsigned char*)c.data(); dic = u[1] | u[2] << 8 | u[3] << 16 | (uint32_t)u[4] << 24; if (dic < 4096) dic = 4096; for (int i = 7; i >= 0; i--) size = size << 8 | u[5 + i]; ok = (u[0] == 0x5d) & (u[1] == 0) & (dic <= 0x2000000) & ((size == ~0ULL) | ((size > dic) & ((int64_t)size > 0) & (size < 1099511627776ULL))); }
    { LZMAInputStream s(&in); sx_assert((s.status() == Ok) == (ok && !zInitFail), "exactly supported LZMA data is accepted"); sx_assert(LZMAInputStream::checkHeader(c.data(), n) == !!ok, "exactly supported LZMA data is recognised"); const char* p; if (s.status() == Error) { sx_assert(s.read(p, 1, 0) == -2 && s.skip(1) <= 0 && s.error()[0], "no data after an error"); sx_reach("rejected"); } else { sx_assert(s.size() == (int64_t)size, "the size is that of the header"); sx_reach("accepted"); } }
    sx_assert(zLive == 0, "the decompressor is released");
}
}

// ---- long data, pieces and amounts around the sizes of the buffers
static string toy(int n, int kind, int fill) { string c; for (int i = 0; i < n; i++) c += fill == 0 ? (char)((i * 7 + i / 100) & 127) : fill == 1 ? (char)(0x80 + i % 0x60) : (char)(i % 5 == 1 ? 0x83 : (i * 3 + i / 200) & 127); if (n > 2) { unsigned char x = sx_u8("c"); sx_assume(x < 0x80); c[n / 2] = (char)x; } if (kind == M_END) c += '\xff'; if (kind == M_BAD) c += '\xfe'; return c; }
static void longRead(InputStream& s, const string& want, int kind) {
    static const int MIN[] = { 1, 2048, 300000 }, MAX[] = { 0, 1000, 400000 }, SK[] = { 1, 5000, 300000 }; int ops = (int)sx_param("ops", 1); int64_t pos = 0, E = (int64_t)want.size(), segA = -1, segB = 0; const char* seg = 0; const char* p = 0; int32_t r; bool err = false;
    for (;;) { int op = ops-- > 0 ? sx_choose(3, "op") : 0; int64_t left = E - pos;
        if (op == 1) { int64_t q = SK[sx_choose(3, "nskip")], k = s.skip(q); if (s.status() == Error) { err = true; break; } sx_assert(k == (q < left ? q : left) || (left == 0 && k <= 0), "skip passes over exactly min(n, rest)"); if (k > 0) pos += k; segA = -1; if (pos > E) sx_end(); if (s.status() == Eof) break; continue; }
        if (op == 2) { if (segA < 0) sx_end(); int64_t T[] = { segA, segA + 1, segB, (segA + segB) / 2 }, t = T[sx_choose(4, "to")]; sx_assert(s.reset(t) == t && s.position() == t, "the stream can be rewound over the data last read"); sx_assert(sameBytes(seg, want.data() + segA, segB - segA), "and the data stays valid"); pos = t; segA = -1; continue; }
        int mn = ops >= 0 ? MIN[sx_choose(3, "min")] : 1, mx = ops >= 0 ? MAX[sx_choose(3, "max")] : 0; r = s.read(p, mn, mx); if (r == -2) { err = true; break; } if (r <= 0) { sx_assert(r == -1 && s.status() == Eof, "the end is reported"); break; }
        sx_assert(r <= left, "no data is invented"); if (r > left) sx_end(); sx_assert(sameBytes(p, want.data() + pos, r), "the data is the decompressed data"); segA = pos; seg = p; pos += r; segB = pos; sx_assert(s.position() == pos, "position equals the bytes consumed"); sx_assert(r >= mn || s.status() == Eof, "a short read announces the end"); sx_assert(mx < mn || r <= mx, "read delivers at most max"); sx_assert(s.status() != Eof || (pos == E && kind == M_END), "the end is reported only at the end"); }
    if (kind == M_END) { sx_assert(!err && pos == E && s.size() == E && s.status() == Eof, "intact data is delivered completely"); sx_reach("end"); } else { sx_assert(err && s.status() == Error && s.error()[0], "damaged or truncated data is an error"); sx_reach("error"); }
}
static const int KN[] = { M_END, M_MORE, M_BAD };
extern "C" {
void h_gz_long() { NoLeak noLeak;
    static const int N[] = { 255, 1025, 5000, 66000 }, PC[] = { CH_MAX, 100, 1024, 1025 }; int format = sx_choose(3, "format"), kind = KN[sx_choose(3, "kind")], n = N[sx_choose(4, "len")]; string c = format == 1 ? "\x1f\x8b" : "", want; int k, h = (int)c.size(); c += toy(n, kind, n > 9999 ? 1 : sx_choose(3, "fill")); int used = zmSpec(c, h, want, k); if (kind == M_END && n < 9999) c += string(sx_choose(2, "tail") * 2000, 't');
    SymStream in(c.data(), c.size(), n > 9999 ? CH_MAX : PC[sx_choose(4, "piece")], true, n < 1100 && sx_choose(2, "lazy")); { GZipInputStream s(&in, format == 0 ? GZipInputStream::ZLIBFORMAT : format == 1 ? GZipInputStream::GZIPFORMAT : GZipInputStream::ZIPFORMAT); sx_assert(s.status() == Ok, "a stream with the right magic is accepted"); longRead(s, want, kind); if (kind == M_END) sx_assert(in.position() == h + used, "the input is positioned just past the compressed data"); } sx_assert(zLive == 0, "the decompressor is released"); sx_reach("done"); }
void h_bz_long() { NoLeak noLeak;
    static const int N[] = { 255, 5000, 66000, 262200 }, PC[] = { CH_MAX, 100, 1024, 70000 }; int kind = KN[sx_choose(3, "kind")], n = N[sx_choose((int)sx_param("lens", 3), "len")]; string c(BM, 10), want; int k; c += toy(n, kind, n > 9999 ? 1 : sx_choose(3, "fill")); int used = zmSpec(c, 10, want, k); if (kind == M_END && n < 9999) c += string(sx_choose(2, "tail") * 2000, 't'); bzSkip = 10;
    SymStream in(c.data(), c.size(), PC[n > 9999 ? 0 : sx_choose(4, "piece")], true, n < 1100 && sx_choose(2, "lazy")); { BZ2InputStream s(&in); sx_assert(s.status() == Ok, "a stream with the right magic is accepted"); longRead(s, want, kind); if (kind == M_END) sx_assert(in.position() == 10 + used, "the input is positioned just past the compressed data"); } sx_assert(zLive == 0, "the decompressor is released"); sx_reach("done"); }
void h_lz_long() { NoLeak noLeak;
    static const int N[] = { 255, 5000, 66000 }, PC[] = { CH_MAX, 100, 1024, 70000 }; int kind = KN[sx_choose(3, "kind")], n = N[sx_choose(3, "len")]; string c, want; int k; c += toy(n, kind, n > 9999 ? 1 : sx_choose(3, "fill")); zmSpec(c, 0, want, k); bool known = want.size() > 4096 && (n > 9999 || sx_choose(2, "known")); string all = lzHeader(known ? want.size() + (kind == M_END ? 0 : 1) : ~0ULL) + c;
    SymStream in(all.data(), all.size(), PC[n > 9999 ? 0 : sx_choose(4, "piece")], true, n < 1100 && sx_choose(2, "lazy")); { LZMAInputStream s(&in); sx_assert(s.status() == Ok, "a stream with a supported header is accepted"); longRead(s, want, kind); } sx_assert(zLive == 0, "the decompressor is released"); sx_reach("done"); }
}
