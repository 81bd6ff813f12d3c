// Members, names, tables and extra fields of every size their formats can express: the bytes are not materialised,
// the sizes are symbolic. Properties C03, C14-C18.
#include "zmodel.h"
#include "timemodel.h"
#include <strigi/tarinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/subinputstream.h>
static string bytes(int n, const char* name) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8(name); return s; }
static void put(string& h, int at, const string& v) { for (size_t i = 0; i < v.size(); i++) h[at + i] = v[i]; }
static string num(uint64_t v, int base, int width, char pad) { string s; do { int d = (int)(v % base); s = string(1, (char)(d < 10 ? '0' + d : 'A' + d - 10)) + s; v /= base; } while (v); while ((int)s.size() < width) s = pad == '0' ? "0" + s : s + string(1, pad); return s; }
static string le(uint64_t v, int n) { string s; for (int i = 0; i < n; i++) { s += (char)(v & 255); v >>= 8; } return s; }
// a size: one of m values of the upper part, a lower part around the limits of a block
static uint64_t size(const uint64_t* hi, int m, unsigned mod) { static const int L[] = { 0, 1, 2, -1, -2 }; uint64_t h = hi[sx_choose(m, "high")]; return h * mod + (mod + L[sx_choose(5, "low")]) % mod; }
static uint64_t amount(const char* name) { uint64_t v = sx_u64(name); sx_assume(v < (uint64_t)1 << 63); return v; }
static const int NL[] = { 120, 255, 256, 511, 512, 513, 1023, 1024, 1025, 4096, 5000 };
static string longName(int n) { string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 26); s[n / 2] = '/'; return s; }
// the first member has size S, some of it is used; the next member follows where the format says
static void twoMembers(SubStreamProvider& a, HoleStream& in, uint64_t S, const string& name2, const string& d2, const string* name1 = 0) {
    InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry is delivered"); if (!e) sx_end();
    sx_assert((uint64_t)a.entryInfo().size == S && (uint64_t)e->size() == S, "the entry has its size"); sx_assert(e->position() == 0, "the entry can be read from its start"); if (name1) sx_assert(same(a.entryInfo().filename, *name1), "the entry has its name"); const char* p = 0; int64_t start = in.position();
    int how = sx_choose(5, "consume");
    if (how == 1) { int32_t r = e->read(p, 1, 1); sx_assert(S == 0 ? r == -1 : (r == 1 && *p == 'x'), "the entry delivers its data"); }
    else if (how == 2) { uint64_t q = amount("q"); sx_assume(q >= 1); int64_t r = e->skip(q); sx_assert(r == (int64_t)(q < S ? q : S) || (S == 0 && r <= 0), "skip passes over exactly min(n, rest)"); sx_assert((uint64_t)e->position() == (q < S ? q : S), "position equals the items consumed"); }
    else if (how == 3) { if (S >= 4) { sx_assert(e->skip(S - 2) == (int64_t)S - 2, "skip passes over exactly min(n, rest)"); int32_t r = e->read(p, 2, 9); sx_assert(r == 2 && p[0] == 'x' && p[1] == 'x' && e->position() == (int64_t)S, "the entry delivers its data"); r = e->read(p, 1, 0); sx_assert(r == -1 && e->status() == Eof, "the entry ends after its data"); sx_assert(e->reset(1) == 1, "an entry can be rewound"); } }
    else if (how == 4) { uint64_t t = amount("t"); int64_t r = e->reset(t); sx_assert(r == e->position() && (uint64_t)r == (t < S ? t : S), "reset goes to the target or stops at the end"); }
    (void)start; e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry after it is delivered"); if (!e) sx_end(); sx_assert(same(a.entryInfo().filename, name2), "the entry after it has its name"); readAll(e, d2);
    sx_assert(a.nextEntry() == 0 && a.status() == Eof, "the archive ends"); if (name1 && name1->size() > 1) sx_reach("long"); sx_reach("end");
}
static string tarHeader(const string& name, int64_t size, char type) { string h(512, '\0'); put(h, 0, name); put(h, 100, "0000644"); put(h, 108, "0000000"); put(h, 116, "0000000"); put(h, 124, num(size, 8, 11, '0')); put(h, 136, "00000000000"); h[156] = type; put(h, 257, "ustar"); return h; }
static string arHeader(const string& name, uint64_t size, uint64_t mtime) { string h = name; h.resize(16, ' '); h += num(mtime, 10, 12, ' ') + num(0, 10, 6, ' ') + num(0, 10, 6, ' ') + num(100644, 10, 8, ' ') + num(size, 10, 10, ' ') + "`\n"; return h; }
static string cpioHeader(const string& name, uint64_t size, uint64_t mtime) { string h = "070701" + num(1, 16, 8, '0') + num(0100644, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(1, 16, 8, '0') + num(mtime, 16, 8, '0') + num(size, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(name.size() + 1, 16, 8, '0') + num(0, 16, 8, '0') + name; h += '\0'; while (h.size() % 4) h += '\0'; return h; }
extern "C" {
void h_tar_large() { NoLeak noLeak;
    string d2 = bytes(2, "d"), name = "a", ll; if (sx_choose(2, "long")) { name = longName(NL[sx_choose(11, "nl")]); if (sx_choose(2, "linktarget")) ll = tarHeader("././@LongLink", 1024, 'K') + string(1023, 'k') + '\0'; string t = name; t += '\0'; ll += tarHeader("././@LongLink", t.size(), 'L') + t; while (ll.size() % 512) ll += '\0'; }
    string h = tarHeader(name.substr(0, 99), 0, '0'); static const uint64_t H[] = { 0, 1, 0x7fffffff >> 9, 0x80000000 >> 9, 0xffffffff >> 9, 077777777 }; uint64_t S = size(H, 6, 512); put(h, 124, num(S, 8, 11, 48)); if (name.size() > 1) sx_assume(S == 513);
    string h2 = tarHeader("b", 2, '0') + d2; while (h2.size() % 512) h2 += '\0'; h2 += string(1024, '\0');
    HoleStream i; i.add(ll); i.add(h); i.hole(S); i.hole((0 - S) & 511); i.add(h2); { TarInputStream a(&i); twoMembers(a, i, S, "b", d2, &name); }
}
void h_ar_large() { NoLeak noLeak;
    string d2 = bytes(2, "d"), h = "!<arch>\n", name = "a", field = "a/", name2 = "b";
    if (sx_choose(2, "long")) { static const int T[] = { 9, 126, 254, 32766, 65534, 69990 }; int at = T[sx_choose(6, "at")]; string t; while ((int)t.size() < at) { int n = at - (int)t.size(); if (n > 100) n = n > 200 ? 100 : n / 2; t += string(n > 2 ? n - 2 : 0, 'u'); t += n > 1 ? "/\n" : "\n"; } name = "member-of-the-table"; field = "/" + num(t.size(), 10, 1, ' '); t += name + "/\n"; if (t.size() & 1) t += '\n'; h += arHeader("//", t.size(), 0) + t; }
    size_t o = h.size(); h += arHeader(field, 0, 0); static const uint64_t H[] = { 0, 41, 21474836, 42949672, 99999999 }; uint64_t S = size(H, 5, 100); put(h, o + 48, num(S, 10, 10, 32)); if (name.size() > 1) sx_assume(S == 2);
    string h2 = arHeader("b/", 2, 0) + d2; HoleStream i; i.add(h); i.hole(S); i.hole(S & 1); i.add(h2); { ArInputStream a(&i); sx_assert(a.status() == Ok, "an archive is accepted"); twoMembers(a, i, S, name2, d2, &name); }
}
void h_cpio_large() { NoLeak noLeak;
    string d2 = bytes(2, "d"), name = "a"; if (sx_choose(2, "long")) name = longName(NL[sx_choose(11, "nl")] + sx_choose(4, "mod")); string h = cpioHeader(name, 0, 0); static const uint64_t H[] = { 0, 1, 0x7fff, 0x7fffff, 0x800000, 0xffffff }; uint64_t S = size(H, 6, 256); put(h, 54, num(S, 16, 8, 48)); if (name.size() > 1) sx_assume(S == 2);
    string h2 = cpioHeader("b", 2, 0) + d2; while (h2.size() % 4) h2 += '\0'; h2 += cpioHeader("TRAILER!!!", 0, 0); HoleStream i; i.add(h); i.hole(S); i.hole((0 - S) & 3); i.add(h2); { CpioInputStream a(&i); twoMembers(a, i, S, "b", d2, &name); }
}
void h_zip_large() { NoLeak noLeak;
    static const int ZN[] = { 1, 255, 256, 32767, 32768, 65535 }; static const uint64_t H[] = { 0, 0xff, 0x7fffff, 0x800000, 0xfffffe }, HX[] = { 0, 0x7f, 0x80, 0xff }; string d2 = bytes(2, "d"), name(ZN[sx_choose(6, "nl")], 'n'); uint64_t S = size(H, 5, 256), X = size(HX, 4, 256); if (name.size() > 1 || X > 4) sx_assume(S == 2);
    string h = string("PK\3\4") + le(20, 2) + le(0, 2) + le(0, 2) + le(0x3C22AC63, 4) + bytes(4, "crc") + le(S, 4) + le(S, 4) + le(name.size(), 2) + le(X, 2) + name;
    string h2 = string("PK\3\4") + le(20, 2) + le(0, 2) + le(0, 2) + le(0x3C22AC63, 4) + bytes(4, "crc") + le(2, 4) + le(2, 4) + le(1, 2) + le(0, 2) + "b" + d2 + "PK\1\2" + string(60, '\0');
    HoleStream i; i.add(h); i.hole(X); i.hole(S); i.add(h2); { ZipInputStream a(&i); twoMembers(a, i, S, "b", d2, &name); }
}
}
// every length of names and every size of members up to a bound (thresholds that are no powers of two)
static void sweep(SubStreamProvider& a, uint64_t S, const string& name, const string& d2) {
    InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry is delivered"); if (!e) sx_end(); sx_assert((uint64_t)a.entryInfo().size == S && (uint64_t)e->size() == S, "the entry has its size"); sx_assert(same(a.entryInfo().filename, name), "the entry has its name");
    int how = sx_choose(3, "consume"); if (how == 1) readAll(e, string(S, 'x')); else if (how == 2 && S > 1) { const char* p; int32_t h = (int32_t)(S + 1) / 2, r = e->read(p, h, h); sx_assert(r == h && p[0] == 'x' && p[h - 1] == 'x', "the entry delivers its data"); }
    e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry after it is delivered"); if (!e) sx_end(); sx_assert(a.entryInfo().filename == "b", "the entry after it has its name"); readAll(e, d2); sx_assert(a.nextEntry() == 0 && a.status() == Eof, "the archive ends"); sx_reach("end");
}
static string flat(int n) { string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 26); return s; }
static void pick(int& n, uint64_t& S) { int N = (int)sx_param("n", 300); n = 1; S = 3; if (sx_choose(2, "what")) n = 1 + (int)sx_choose(N, "name"); else S = sx_choose(2 * N, "size"); }
extern "C" {
void h_tar_sweep() { NoLeak noLeak; int n; uint64_t S; pick(n, S); string d2 = bytes(2, "d"), name = flat(n), ll; if (n > 100) { string t = name; t += '\0'; ll = tarHeader("././@LongLink", t.size(), 'L') + t; while (ll.size() % 512) ll += '\0'; }
    string h2 = tarHeader("b", 2, '0') + d2; while (h2.size() % 512) h2 += '\0'; h2 += string(1024, '\0'); HoleStream i; string h1 = tarHeader(name.substr(0, 100), S, '0'); i.add(ll); i.add(h1); i.hole(S); i.hole((0 - S) & 511); i.add(h2); { TarInputStream a(&i); sweep(a, S, name, d2); } }
void h_ar_sweep() { NoLeak noLeak; int n; uint64_t S; pick(n, S); string d2 = bytes(2, "d"), h = "!<arch>\n", name = flat(n), field = name + "/"; int table = n > 15 ? 1 : n == 1 && S == 3 ? sx_choose(2, "table") : 0; if (table) { string t; int before = n > 1 ? sx_choose(2, "before") * n : (int)sx_choose((uint32_t)sx_param("n", 300), "before"); if (before) t = flat(before) + "/\n"; field = "/" + num(t.size(), 10, 1, ' '); t += name + "/\n"; if (t.size() & 1) t += '\n'; h += arHeader("//", t.size(), 0) + t; }
    h += arHeader(field, S, 0); HoleStream i; i.add(h); i.hole(S); i.hole(S & 1); string h2 = arHeader("b/", 2, 0) + d2; i.add(h2); { ArInputStream a(&i); sweep(a, S, name, d2); } }
void h_cpio_sweep() { NoLeak noLeak; int n; uint64_t S; pick(n, S); string d2 = bytes(2, "d"), name = flat(n), h2 = cpioHeader("b", 2, 0) + d2; while (h2.size() % 4) h2 += '\0'; h2 += cpioHeader("TRAILER!!!", 0, 0); string h1 = cpioHeader((n > 1 && sx_choose(2, "dot") ? "./" : "") + name, S, 0); HoleStream i; i.add(h1); i.hole(S); i.hole((0 - S) & 3); i.add(h2); { CpioInputStream a(&i); sweep(a, S, name, d2); } }
void h_zip_sweep() { NoLeak noLeak; int n; uint64_t S; pick(n, S); uint64_t X = S == 3 && n == 1 ? sx_choose((uint32_t)sx_param("n", 300), "extra") : 0; string d2 = bytes(2, "d"), name = flat(n), h = string("PK\3\4") + le(20, 2) + le(0, 2) + le(0, 2) + le(0x3C22AC63, 4) + le(0, 4) + le(S, 4) + le(S, 4) + le(name.size(), 2) + le(X, 2) + name;
    string h2 = string("PK\3\4") + le(20, 2) + le(0, 2) + le(0, 2) + le(0x3C22AC63, 4) + le(0, 4) + le(2, 4) + le(2, 4) + le(1, 2) + le(0, 2) + "b" + d2 + "PK\1\2" + string(60, '\0'); HoleStream i; i.add(h); i.hole(X); i.hole(S); i.add(h2); { ZipInputStream a(&i); sweep(a, S, name, d2); } }
void h_sub_large() { NoLeak noLeak; // windows of streams of many GB, any 63 bit amounts
    static const uint64_t A[] = { 0x7fffffff, 0x100000005ULL }, B[] = { 10, 0x200000000ULL }; uint64_t a = A[sx_choose(2, "a")], P = a + 3 + B[sx_choose(2, "b")], O[] = { 0, 1, a - 1 }, o = O[sx_choose(3, "offset")]; int64_t S[] = { -1, 2, 0x80000000LL, (int64_t)0x100000001LL, (int64_t)(P - o), (int64_t)(P - o) - 1 }, size = S[sx_choose(6, "size")]; if (size > (int64_t)(P - o)) sx_end(); int64_t E = size < 0 ? (int64_t)(P - o) : size;
    string mark = bytes(3, "d"); HoleStream i; i.hole(a); i.add(mark); i.hole(P - a - 3); if (o) i.skip(o); SubInputStream s(&i, size); int64_t pos = 0; const char* p = 0; int ops = (int)sx_param("ops", 2);
    for (int k = 0; k < ops; k++) { int op = sx_choose(3, "op"); int64_t left = E - pos;
        if (op == 0) { int mn = 1 + sx_choose(3, "min"), mx = sx_choose(2, "max") * 3; int32_t n = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, mn, mx)); if (left == 0) sx_assert(n == -1 && s.status() == Eof, "at the end read returns -1"); else { sx_assert(n >= 1 && n <= left && (n >= mn || n == left) && (mx < mn || n <= mx), "read delivers what was asked for"); if (n < 1 || n > 70000) sx_end(); int bad = 0; for (int j = 0; j < n && j < 6; j++) { uint64_t at = o + pos + j; bad |= p[j] != (char)sx_ite(at == a, mark[0], sx_ite(at == a + 1, mark[1], sx_ite(at == a + 2, mark[2], 'x'))); } sx_assert(!bad, "read delivers the data at the position"); pos += n; } }
        else if (op == 1) { static const int64_t Q[] = { 1, 0x7fffffff, 0x80000000LL, 0x100000000LL, 0x7fffffffffffffffLL }; int64_t q; int w = sx_choose(k == ops - 1 ? 8 : 7, "q"); if (w < 5) q = Q[w]; else if (w < 7) q = a - o - (w - 5) - pos; else q = amount("q"); if (q < 1) sx_end(); int64_t r = s.skip(q); if (left == 0) sx_assert(r <= 0, "at the end nothing is skipped"); else sx_assert(r == (q < left ? q : left), "skip passes over exactly min(n, rest)"); if (r > 0) pos += r; }
        else { static const int64_t Q[] = { 0, 0x7fffffff, 0x80000000LL, 0x100000000LL, 0x7fffffffffffffffLL }; int64_t t; int w = sx_choose(k == ops - 1 ? 7 : 6, "t"); if (w < 5) t = Q[w]; else if (w == 5) t = a - o; else t = amount("t"); if (t < 0) sx_end(); int64_t r = s.reset(t); sx_assert(r == s.position(), "reset returns the new position"); sx_assert(r == t || r == pos || (t > E && r == E), "reset goes to the target, stays, or stops at the end"); pos = r; }
        sx_assert(s.position() == pos, "position equals the items consumed"); sx_assert(s.status() != Error && (s.status() != Eof || pos == E), "Eof is reported only at the end"); sx_assert(s.size() == -1 || s.size() == E, "the size is unknown or right"); sx_assert(i.position() == (int64_t)o + pos || s.status() == Eof, "the parent is where the window is"); }
    sx_reach("end");
}
}
