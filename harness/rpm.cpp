// C18 rpm packages (payload: cpio archive in the modelled codecs)
#define ZM_LZMA
#include "zmodel.h"
#include <strigi/rpminputstream.h>
static string bytes(int n, const char* name) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8(name); return s; }
static char letter(const char* n) { char c = (char)sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return c; }
static string be(uint32_t v) { string s; for (int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); return s; }
static string hex8(uint32_t v) { string s; for (int i = 7; i >= 0; i--) s += "0123456789ABCDEF"[v >> (4 * i) & 15]; return s; }
static string cpio(const string& name, const string& data, uint32_t mtime) { string h = "070701" + hex8(1) + hex8(0100644) + hex8(0) + hex8(0) + hex8(1) + hex8(mtime) + hex8(data.size()) + hex8(0) + hex8(0) + hex8(0) + hex8(0) + hex8(name.size() + 1) + hex8(0) + name; h += '\0'; while (h.size() % 4) h += '\0'; h += data; while (h.size() % 4) h += '\0'; return h; }
static string low(int n) { string s; for (int i = 0; i < n; i++) { char c = (char)sx_u8("d"); sx_assume((c & 0x80) == 0); s += c; } return s; }
static string section(uint32_t nindex, uint32_t hsize, const string& body) { return string("\x8e\xad\xe8\x01\0\0\0\0", 8) + be(nindex) + be(hsize) + body; }
static string index(int n, int hs) { string s; for (int i = 0; i < n; i++) s += bytes(8, "tag") + be(i < hs ? i : hs - 1) + bytes(4, "count"); return s + bytes(hs, "store"); }
static string lead() { string l("\xed\xab\xee\xdb\3\0", 6); l.resize(96, '\0'); return l; }
static const char BM[] = "BZh91AY&SY";
static string payload(int codec, const string& c) { return codec == 0 ? "\x1f\x8b" + c + "\xff" : codec == 1 ? BM + c + "\xff" : "\x5d" + string(4, '\0') + string(8, '\xff') + c + "\xff"; }
static void sizes(uint32_t& n, uint32_t& s) { static const uint32_t N[] = { 0, 1, 2, 0x07ffffff, 0x0fffffff, 0x10000000, 0x10000001, 0x20000000, 0x80000000, 0xffffffff }, S[] = { 0, 3, 4, 16, 0x70000000, 0x7fffffff, 0x80000000, 0xffffffe0, 0xfffffff0, 0xffffffff }; if (sx_choose(2, "which")) { n = sx_u32("nindex"); s = S[sx_choose(10, "hsize")]; } else { s = sx_u32("hsize"); n = N[sx_choose(10, "nindex")]; } }
extern "C" {
void h_rpm() { NoLeak noLeak;
    int codec = sx_choose(3, "codec"), ne = sx_choose((uint32_t)sx_param("entries", 2) + 1, "entries"), L = (int)sx_param("len", 2), ns = sx_choose(3, "sigindex"), sh = 1 + sx_choose(9, "sigstore"), nh = sx_choose(3, "index"), hh = 1 + sx_choose(3, "store"); string all, c; std::vector<Ent> es; bzSkip = codec == 1 ? 10 : 0;
    all = lead() + section(ns, sh, index(ns, sh)); while (all.size() % 8) all += '\0'; all += section(nh, hh, index(nh, hh));
    for (int k = 0; k < ne; k++) { Ent e; e.name = string(1, letter("name")) + "/f"; e.data = low(sx_choose(L + 1, "n")); e.size = e.data.size(); e.mtime = 1700000000; e.checkMtime = true; c += cpio("./" + e.name, e.data, e.mtime); es.push_back(e); }
    c += cpio("TRAILER!!!", "", 0); all += payload(codec, c);
    SymStream* i = new SymStream(all.data(), all.size(), CH_MAX, true, sx_choose(2, "lazy"));
    { sx_assert(RpmInputStream::checkHeader(all.data(), all.size()), "an rpm header is recognised"); RpmInputStream a(i); sx_assert(a.status() == Ok, "a package is accepted"); if (a.status() == Ok) checkEntries(a, es, (int)sx_param("hows", 3)); }
    sx_assert(zLive == 0, "the decompressor is released"); delete i; sx_reach("end");
}
void h_rpm_large() { NoLeak noLeak; // indexes and stores of many sizes
    static const int N[] = { 1, 2, 255, 256, 4095, 4096, 4097 }, S[] = { 1, 255, 256, 1000, 32767, 65535, 65536, 65537, 150000 }; int n1 = 1, s1 = 4, n2 = 1, s2 = 4; if (sx_choose(2, "which")) { n1 = N[sx_choose(7, "n")]; s1 = S[sx_choose(9, "s")]; } else { n2 = N[sx_choose(7, "n")]; s2 = S[sx_choose(9, "s")]; }
    Ent e; e.name = string(1, letter("name")); e.data = low(2); e.size = 2; std::vector<Ent> es(1, e); string pay = payload(0, cpio(e.name, e.data, 3) + cpio("TRAILER!!!", "", 0)), i1(16 * n1, '\0'), i2(16 * n2, '\0'); int at = sx_choose(2, "last") ? n2 - 1 : 0; uint32_t off = 0; if (sx_choose(2, "offset")) { off = sx_u32("off"); string o = be(off); for (int b = 0; b < 4; b++) i2[at * 16 + 8 + b] = o[b]; }
    HoleStream i; string h1 = lead() + section(n1, s1, i1), h2 = section(n2, s2, i2), h3 = pay; i.add(h1); i.hole(s1); i.hole(-(s1 + 16 * n1) & 7); i.add(h2); i.hole(s2); i.add(h3);
    { RpmInputStream a(&i); if (off < (uint32_t)s2) { sx_assert(a.status() == Ok, "a package is accepted"); checkEntries(a, es, 2); sx_reach("end"); } else { sx_assert(a.status() == Error && a.nextEntry() == 0 && a.error() && a.error()[0], "an unusable package has no entries and a message"); sx_reach("error"); } }
    sx_assert(zLive == 0, "the decompressor is released");
}
void h_rpm_any() { NoLeak noLeak; // damaged lead, header sizes, index and payload; truncated and failing input
    int k = sx_choose(7, "damage"); uint32_t n1 = 1, s1 = 4, n2 = 2, s2 = 3; string i1(20, '\0'), i2(35, '\0'), pay = payload(0, cpio("a", "xy", 3) + cpio("TRAILER!!!", "", 0)); 
    i2[16 + 11] = 2; if (k == 0) sizes(n1, s1); else if (k == 1) sizes(n2, s2); else if (k == 2) { for (int e = 0; e < 2; e++) { string o = bytes(4, "offset"); for (int b = 0; b < 4; b++) i2[e * 16 + 8 + b] = o[b]; } } else if (k == 3) { n2 = 0; s2 = sx_range("s2", 0, 70); } else if (k == 4) { int at = sx_choose(10, "at"); pay[at] = (char)sx_u8("payload"); pay[at + 1] = (char)sx_u8("payload"); }
    string sec1 = section(n1, s1, i1), sec2 = section(n2, s2, i2), all = lead() + sec1; while (all.size() % 8) all += '\0'; size_t m2 = all.size(); all += sec2; size_t body = all.size(); all += pay; if (k == 5) { all[96] = (char)sx_u8("m1"); all[m2] = (char)sx_u8("m2"); }
    int64_t err = -1; bool torn = false; int cut = k == 6 ? 1 + sx_choose(2, "cut") : 0; if (cut) { int64_t at = sx_choose((uint32_t)all.size(), "at"); if (cut == 2) err = at; else all.resize(at); torn = at < (int64_t)(body + pay.size() - 4); }
    SymStream* i = new SymStream(all.data(), all.size(), CH_MAX, true, sx_choose(2, "lazy"), err); (void)body;
    { RpmInputStream a(i); if (a.status() == Error) { sx_assert(a.nextEntry() == 0 && a.error() && a.error()[0], "an unusable package has no entries and a message"); sx_reach("error"); } else { int bad = walk(a, all.size() * 4, 5, sx_choose(2, "consume")); if (bad) sx_reach("error"); sx_assert(!torn || bad, "a truncated or unreadable package is an error"); } }
    sx_assert(zLive == 0, "the decompressor is released"); delete i; sx_reach("end");
}
}
