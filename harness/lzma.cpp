// C24: the bundled LZMA decoder as it is. h_lzma_packets: data encoded by a reference encoder from every sequence of packets;
// h_lzma_bits: arbitrary compressed bits against a reference decoder.
#include "arch.h"
#include <strigi/lzmainputstream.h>
// reference range coder and LZMA model (lc=3, lp=0, pb=2) from the LZMA specification; encodes, or decodes from in[at..n)
struct Lz {
    bool dec; string out; uint64_t low; uint32_t range, code; int cache; uint64_t cacheSize; const unsigned char* in; int at, n; bool eof;
    uint16_t isMatch[12][4], isRep[12], isRepG0[12], isRepG1[12], isRepG2[12], isRep0Long[12][4], posSlot[4][64], posSpec[128], posAlign[16], lit[8][0x300];
    struct Len { uint16_t choice, choice2, low[4][8], mid[4][8], high[256]; } len, repLen;
    int state; uint32_t rep[4]; string data;
    Lz() { dec = false; low = 0; range = 0xFFFFFFFFu; code = 0; cache = 0; cacheSize = 1; eof = false; state = 0; for (int i = 0; i < 4; i++) rep[i] = 0; uint16_t* p = &isMatch[0][0]; uint16_t* e = (uint16_t*)(&repLen + 1); while (p < e) *p++ = 1024; }
    unsigned next() { if (at >= n) { eof = true; return 0; } return in[at++]; }
    void startDec(const unsigned char* i, int k) { dec = true; in = i; n = k; at = 0; next(); for (int j = 0; j < 4; j++) code = (code << 8) | next(); }
    void shiftLow() { if ((uint32_t)low < 0xFF000000u || (low >> 32)) { int c = cache; do { out += (char)(c + (int)(low >> 32)); c = 0xFF; } while (--cacheSize); cache = (int)((low >> 24) & 0xFF); } cacheSize++; low = (low & 0x00FFFFFF) << 8; }
    void norm() { while (range < (1u << 24)) { range <<= 8; if (dec) code = (code << 8) | next(); else shiftLow(); } }
    int bit(uint16_t& p, int b) { norm(); uint32_t bound = (range >> 11) * p; if (dec) { if (code < bound) b = 0; else b = 1; } if (!b) { range = bound; p += (2048 - p) >> 5; } else { if (dec) code -= bound; else low += bound; range -= bound; p -= p >> 5; } return b; }
    uint32_t direct(uint32_t v, int k) { uint32_t r = 0; while (k-- > 0) { norm(); range >>= 1; if (dec) { code -= range; uint32_t t = 0 - (code >> 31); code += range & t; r = (r << 1) + t + 1; } else if ((v >> k) & 1) low += range; } return r; }
    int tree(uint16_t* p, int k, int v) { int m = 1; for (int i = k - 1; i >= 0; i--) m = (m << 1) | bit(p[m], (v >> i) & 1); return m - (1 << k); }
    int rtree(uint16_t* p, int k, int v) { int m = 1, r = 0; for (int i = 0; i < k; i++) { int b = bit(p[m], (v >> i) & 1); m = (m << 1) | b; r |= b << i; } return r; }
    int ps() { return (int)data.size() & 3; }
    void literal(int c) {
        uint16_t* p = lit[data.size() ? (unsigned char)data[data.size() - 1] >> 5 : 0]; int m = 1;
        if (state >= 7) { int mb = (unsigned char)data[data.size() - rep[0] - 1], i = 7; for (; i >= 0; i--) { int want = (mb >> i) & 1, b = bit(p[((1 + want) << 8) + m], (c >> i) & 1); m = (m << 1) | b; if (b != want) { i--; break; } } for (; i >= 0; i--) m = (m << 1) | bit(p[m], (c >> i) & 1); }
        else for (int i = 7; i >= 0; i--) m = (m << 1) | bit(p[m], (c >> i) & 1);
        data += (char)m; state = state < 4 ? 0 : state < 10 ? state - 3 : state - 6; }
    int length(Len& l, int v) { v -= 2; if (!bit(l.choice, v >= 8)) return 2 + tree(l.low[ps()], 3, v); if (!bit(l.choice2, v >= 16)) return 10 + tree(l.mid[ps()], 3, v - 8); return 18 + tree(l.high, 8, v - 16); }
    void copy(int n) { for (int i = 0; i < n; i++) data += data[data.size() - rep[0] - 1]; }
    // distance - 1; 0xFFFFFFFF is the end mark
    uint32_t dist(int l, uint32_t d) { int slot = 0, ls = l < 6 ? l - 2 : 3; if (!dec) { if (d < 4) slot = (int)d; else { int h = 31; while (!((d >> h) & 1)) h--; slot = h * 2 + ((d >> (h - 1)) & 1); } }
        slot = tree(posSlot[ls], 6, slot); if (slot < 4) return slot; int k = (slot >> 1) - 1; uint32_t base = (uint32_t)(2 | (slot & 1)) << k;
        if (slot < 14) return base + rtree(posSpec + base - slot, k, (int)(d - base)); uint32_t hi = direct((d - base) >> 4, k - 4); return base + (hi << 4) + rtree(posAlign, 4, (int)(d & 15)); }
    void match(int l, uint32_t d) { bit(isMatch[state][ps()], 1); bit(isRep[state], 0); rep[3] = rep[2]; rep[2] = rep[1]; rep[1] = rep[0]; length(len, l); rep[0] = dist(l, d); state = state < 7 ? 7 : 10; if (d != 0xFFFFFFFFu) copy(l); }
    void reps(int i, int l) { bit(isMatch[state][ps()], 1); bit(isRep[state], 1);
        if (!bit(isRepG0[state], i != 0)) { if (!bit(isRep0Long[state][ps()], l != 1)) { state = state < 7 ? 9 : 11; copy(1); return; } }
        else { uint32_t d; if (!bit(isRepG1[state], i != 1)) d = rep[1]; else { if (!bit(isRepG2[state], i != 2)) d = rep[2]; else { d = rep[3]; rep[3] = rep[2]; } rep[2] = rep[1]; } rep[1] = rep[0]; rep[0] = d; }
        length(repLen, l); state = state < 7 ? 8 : 11; copy(l); }
    void put(int c) { bit(isMatch[state][ps()], 0); literal(c); }
    void flush() { norm(); for (int i = 0; i < 5; i++) shiftLow(); }
    // decode one packet: 0 fine, 1 end mark, 2 damaged, 3 input missing
    int packet() {
        int r = 0; if (!bit(isMatch[state][ps()], 0)) literal(0);
        else if (!bit(isRep[state], 0)) { rep[3] = rep[2]; rep[2] = rep[1]; rep[1] = rep[0]; int l = length(len, 2); uint32_t d = dist(l, 0); if (eof) return 3; if (d == 0xFFFFFFFFu) { norm(); return eof ? 3 : 1; } if (d >= data.size()) return 2; rep[0] = (uint32_t)sx_conc(d); state = state < 7 ? 7 : 10; copy(l); }
        else { if (data.empty()) return 2; int sh = 0; uint32_t d;
            if (!bit(isRepG0[state], 0)) { if (!bit(isRep0Long[state][ps()], 0)) sh = 1; }
            else { if (!bit(isRepG1[state], 0)) d = rep[1]; else { if (!bit(isRepG2[state], 0)) d = rep[2]; else { d = rep[3]; rep[3] = rep[2]; } rep[2] = rep[1]; } rep[1] = rep[0]; rep[0] = d; }
            if (sh) { if (eof) return 3; if (rep[0] >= data.size()) return 2; state = state < 7 ? 9 : 11; copy(1); }
            else { int l = length(repLen, 2); if (eof) return 3; if (rep[0] >= data.size()) return 2; state = state < 7 ? 8 : 11; copy(l); } }
        if (r == 0) { norm(); if (eof) return 3; } return r; }
};
static string header(int64_t size) { string h("\x5d\0\0\0\0", 5); for (int i = 0; i < 8; i++) { h += (char)(size & 255); size >>= 8; } return h; }
struct FixStream : public SymStream { int fix; FixStream(const char* d, int64_t n, int f) : SymStream(d, n, CH_MAX), fix(f) {} int32_t read(const char*& s, int32_t min, int32_t max) { if (fix && (max < min || max > (min > fix ? min : fix))) max = min > fix ? min : fix; return SymStream::read(s, min, max); } };
// reads s to its end; all it delivers must be a beginning of want
static int64_t drain(InputStream& s, const string& want, int step) {
    const char* p; int32_t r; size_t pos = 0; int small = 6; while ((r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, 1, small-- > 0 ? step : 0))) > 0) { sx_assert(pos + r <= want.size(), "no data is invented"); if (pos + r > want.size()) sx_end(); sx_assert(sameBytes(p, want.data() + pos, r), "the data is what the packets denote"); pos += r; sx_assert(s.position() == (int64_t)pos, "position equals the bytes consumed"); if (s.status() == Eof) { r = -1; break; } }
    sx_assert((r == -1 && s.status() == Eof) || (r == -2 && s.status() == Error && s.error()[0]), "the stream ends or fails with a message"); return (int64_t)pos; }
static void prefix(Lz& e, int k) {
    if (k == 1) { e.put('a'); e.put('b'); e.put('c'); } else if (k == 2) { for (int i = 0; i < 20; i++) e.put("abcdefghij"[(i * 7) % 10]); e.match(5, 6); e.match(3, 2); e.put('x'); e.match(9, 12); }
    else if (k == 3) { for (int i = 0; i < 8; i++) e.put('a' + i); while (e.data.size() + 273 < 4090) e.match(273, 7); e.match((int)(4092 - e.data.size()), 7); } // near the end of the dictionary
}
extern "C" {
void h_lzma_packets() { NoLeak noLeak;
    int pre = sx_choose(4, "prefix"), n = 1 + sx_choose((uint32_t)sx_param("packets", 2), "packets"); Lz* e = new Lz; prefix(*e, pre);
    static const int LEN[] = { 2, 9, 10, 17, 18, 273 }; static const uint32_t D[] = { 0, 1, 3, 4, 12, 96, 127, 128, 200, 1000, 4094, 4095 };
    while (n-- > 0) { int k = sx_choose(7, "packet"); if (k && e->data.empty()) sx_end(); if (k == 0) { int c = e->data.empty() ? 'z' : (unsigned char)e->data[e->data.size() - e->rep[0] - 1]; e->put(sx_choose(2, "same") ? c : c ^ (1 << sx_choose(8, "bit"))); } else if (k == 6) e->reps(0, 1);
        else { int l = LEN[sx_choose(6, "len")]; if (k == 1) { uint32_t d = D[sx_choose(12, "dist")]; if (d >= e->data.size() || d >= 4096) sx_end(); e->match(l, d); } else { if (e->rep[k - 2] >= e->data.size()) sx_end(); e->reps(k - 2, l); } } }
    string want = e->data; int64_t size = -1; int how = sx_choose(5, "end"); // end mark; known size; known size and end mark; too small; too large
    if (how) { if (want.size() <= 4100) sx_end(); size = (int64_t)want.size(); if (how == 3) { size--; want.erase(want.size() - 1); } if (how == 4) size++; } if (how != 1) e->match(2, 0xFFFFFFFFu); e->flush();
    string all = header(size) + e->out; int total = (int)all.size(); delete e; static const int STEP[] = { 0, 1, 20 }, FIX[] = { 0, 1, 19, 21 }; FixStream in(all.data(), total, FIX[sx_choose(4, "chunk")]);
    { LZMAInputStream s(&in); sx_assert(s.status() == Ok, "the header is accepted"); int64_t got = drain(s, want, STEP[sx_choose(3, "step")]);
      if (how < 3) { sx_assert(s.status() == Eof, "intact data ends normally"); sx_assert(got == (int64_t)want.size() && s.size() == got, "all the data is delivered"); } else if (how == 4) { sx_assert(s.status() == Error, "a wrong size is an error"); sx_reach("wrong"); } else sx_assert(s.status() == Error || got == size, "a wrong size is an error"); sx_obs("got", got); }
    sx_reach("end");
}
void h_lzma_bits() { NoLeak noLeak;
    int pre = sx_choose((uint32_t)sx_param("pres", 3), "prefix"); Lz* e = new Lz; prefix(*e, pre); while (e->cacheSize > 1) e->put('q'); string c = e->out; if (c.empty()) c += '\0'; delete e; int back = sx_choose((uint32_t)sx_param("backs", 3), "back"); if ((int)c.size() < back + 1) sx_end(); c.erase(c.size() - back);
    static const char T[3][8] = { { 0, 0, 0, 0, 0, 0, 0, 0 }, { 0x55, (char)0xaa, 0x33, (char)0xcc, 0x12, (char)0xff, 0x7f, 1 }, { -1, -1, -1, -1, -1, -1, -1, -1 } }; int bits = (int)sx_param("bits", 10); c += (char)sx_u8("v"); if (bits > 8) c += (char)((sx_u8("w") & ((1 << (bits - 8)) - 1)) << (16 - bits)); int t = sx_choose(3, "tail"), tl = (int)sx_param("tail", 4); c.append(T[t], tl);
    string all = header(-1) + c; static const int FIX[] = { 0, 1 }; FixStream in(all.data(), all.size(), FIX[sx_choose(2, "chunk")]); LZMAInputStream s(&in); sx_assert(s.status() == Ok, "the header is accepted");
    string got; const char* p; int32_t r; while ((r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, 1, 0))) > 0) { got.append(p, r); if (s.status() == Eof) { r = -1; break; } }
    Lz* d = new Lz; d->startDec((const unsigned char*)c.data(), (int)c.size()); int k; while (!(k = d->packet())) ; 
    sx_assert(got.size() <= d->data.size() && sameBytes(got.data(), d->data.data(), (int)got.size()), "only data is delivered that the bits denote");
    bool ok = k == 1 && d->code == 0; sx_assert(ok ? r == -1 && got.size() == d->data.size() && s.size() == (int64_t)got.size() : r == -2 && s.status() == Error && s.error()[0] != 0, "the data ends at its mark, all else is an error"); sx_obs("got", got.size()); sx_reach(k == 1 ? "mark" : k == 2 ? "damaged" : "missing"); delete d;
}
}
