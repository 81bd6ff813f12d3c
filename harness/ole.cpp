// C19 OLE documents
#include "arch.h"
#include <strigi/oleinputstream.h>
static char letter(const char* n) { char c = (char)sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return c; }
static void p32(string& s, size_t at, uint32_t v) { for (int i = 0; i < 4; i++) { s[at + i] = (char)(v & 255); v >>= 8; } }
static void p16(string& s, size_t at, uint32_t v) { s[at] = (char)(v & 255); s[at + 1] = (char)(v >> 8 & 255); }
// builds a document; chains may run backwards through the file
struct Ole {
    std::vector<string> blk; std::vector<int> fat, mini; string ministream; std::vector<string> dir; bool back, gaps; std::vector<int> dirChain;
    Ole(bool b, bool g = false) : back(b), gaps(g) { blk.push_back(string(512, '\xff')); fat.push_back(-3); dir.push_back(entry("Root Entry", 5, 0, 0)); }
    static string entry(const string& name, int type, uint32_t start, uint32_t size) { string e(128, '\0'); for (size_t i = 0; i < name.size(); i++) e[2 * i] = name[i]; p16(e, 0x40, name.empty() ? 0 : 2 * name.size() + 2); e[0x42] = (char)type; p32(e, 0x44, ~0u); p32(e, 0x48, ~0u); p32(e, 0x4c, ~0u); p32(e, 0x74, start); p32(e, 0x78, size); return e; }
    std::vector<int> chain(int n) { std::vector<int> c; int at = blk.size(), d = gaps ? 2 : 1; for (int i = 0; i < n; i++) { blk.push_back(string(512, '\0')); fat.push_back(-1); if (gaps) { blk.push_back(string(512, '\0')); fat.push_back(-1); } c.push_back(at + d * (back ? n - 1 - i : i)); } for (int i = 0; i < n; i++) fat[c[i]] = i + 1 < n ? c[i + 1] : -2; return c; }
    int store(const string& d) { int n = (d.size() + 511) / 512; std::vector<int> c = chain(n); for (int i = 0; i < n; i++) for (size_t j = 0; j < 512 && i * 512 + j < d.size(); j++) blk[c[i]][j] = d[i * 512 + j]; return n ? c[0] : -2; }
    int storeSmall(const string& d) { int n = (d.size() + 63) / 64, at = mini.size(); for (int i = 0; i < n; i++) { mini.push_back(-2); ministream += string(64, '\0'); } int first = -2; for (int i = 0; i < n; i++) { int b = back ? at + n - 1 - i : at + i, nx = i + 1 < n ? (back ? b - 1 : b + 1) : -2; if (!i) first = b; mini[b] = nx; for (size_t j = 0; j < 64 && i * 64 + j < d.size(); j++) ministream[b * 64 + j] = d[i * 64 + j]; } return first; }
    void stream(const string& name, const string& d) { int at = d.size() < 4096 ? storeSmall(d) : store(d); dir.push_back(entry(name, 2, at, d.size())); }
    string finish() {
        int ms = ministream.empty() ? -2 : store(ministream); p32(dir[0], 0x74, ms); p32(dir[0], 0x78, ministream.size());
        int mf = -2; if (!mini.empty()) { std::vector<int> c = chain((mini.size() + 127) / 128); mf = c[0]; for (size_t i = 0; i < c.size(); i++) { blk[c[i]] = string(512, '\xff'); for (size_t j = 0; j < 128 && i * 128 + j < mini.size(); j++) p32(blk[c[i]], 4 * j, mini[i * 128 + j]); } }
        while (dir.size() % 4) dir.push_back(entry("", 0, 0, 0)); dirChain = chain(dir.size() / 4); for (size_t i = 0; i < dir.size(); i++) for (int j = 0; j < 128; j++) blk[dirChain[i / 4]][i % 4 * 128 + j] = dir[i][j];
        std::vector<int> fs(1, 0); while (fs.size() * 128 < fat.size()) { if (gaps) { blk.push_back(string(512, '\0')); fat.push_back(-1); } fs.push_back(blk.size()); blk.push_back(string(512, '\xff')); fat.push_back(-3); }
        for (size_t i = 0; i < fat.size(); i++) p32(blk[fs[i / 128]], 4 * (i % 128), fat[i]);
        string h(512, '\0'); const char* m = "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"; for (int i = 0; i < 8; i++) h[i] = m[i]; p32(h, 0x2c, fs.size()); p32(h, 0x30, dirChain[0]); p32(h, 0x38, 4096); p32(h, 0x3c, mf); p32(h, 0x40, (mini.size() + 127) / 128); p32(h, 0x44, -2); p32(h, 0x48, 0); for (int i = 0; i < 109; i++) p32(h, 76 + 4 * i, i < (int)fs.size() ? fs[i] : -1);
        string all = h; for (size_t i = 0; i < blk.size(); i++) all += blk[i]; return all;
    }
};
static string content(int n, char fill) { string d(n, fill); static const int at[] = { 0, 63, 64, 511, 512, 4095, 4096 }; for (int i = 0; i < 7; i++) if (at[i] < n && (at[i] == 0 || n > 64)) d[at[i]] = (char)sx_u8("d"); if (n) d[n - 1] = (char)sx_u8("d"); return d; }
extern "C" {
void h_ole() { NoLeak noLeak;
    Ole o(sx_choose(2, "back")); int ne = (int)sx_choose((uint32_t)sx_param("entries", 2) + 1, "entries"); std::vector<Ent> es; static const int N[] = { 0, 1, 64, 65, 513, 4095, 4096, 4097 };
    if (sx_choose(2, "storage")) { o.dir.push_back(Ole::entry("Storage", 1, 0, 0)); o.dir.push_back(Ole::entry("", 0, 0, 0)); }
    for (int k = 0; k < ne; k++) { Ent e; int n = N[sx_choose(k || ne == 1 ? 8 : 3, "size")]; e.name = string(sx_choose(2, "five") ? "\5" : "") + letter("name") + (sx_choose(2, "longname") ? "234567890123456789012345678901" : ""); if (e.name.size() > 31) e.name.resize(31); e.data = content(n, 'q' + k); e.size = n; o.stream(e.name, e.data); if (n) es.push_back(e); }
    string all = o.finish(); SymStream* i = new SymStream(all.data(), all.size(), CH_MAX, true, sx_choose(2, "lazy"));
    { sx_assert(OleInputStream::checkHeader(all.data(), all.size()), "an OLE header is recognised"); OleInputStream a(i); sx_assert(a.status() == Ok, "a document is accepted"); checkEntries(a, es, (int)sx_param("hows", 3)); }
    delete i; sx_reach("end");
}
void h_ole_large() { NoLeak noLeak; // several sectors of both allocation tables, the sectors apart from each other
    static const int A[] = { 3000, 4095, 1 }, B[] = { 4033, 4032 }, C[] = { 1, 64, 4095 }, D[] = { 0, 4096, 61440, 65025, 70000, 140000 }; int lay = sx_choose(4, "layout"), ns = sx_choose(3, "small"); Ole o(lay & 1, lay & 2); std::vector<Ent> es; std::vector<int> n; if (ns) { n.push_back(A[sx_choose(3, "s1")]); n.push_back(B[ns - 1]); n.push_back(C[sx_choose(3, "s3")]); } int d = D[sx_choose(6, "big")]; if (d) n.push_back(d); else if (!ns) sx_end(); n.push_back(2);
    for (size_t k = 0; k < n.size(); k++) { Ent e; e.name = string(1, (char)('a' + k)); e.data = content(n[k], 'q' + (int)k); e.size = n[k]; o.stream(e.name, e.data); es.push_back(e); }
    string all = o.finish(); SymStream* i = new SymStream(all.data(), all.size(), CH_MAX); { OleInputStream a(i); sx_assert(a.status() == Ok, "a document is accepted"); checkEntries(a, es, 1); } delete i; sx_reach("end");
}
void h_ole_xbat() { NoLeak noLeak; // more allocation table sectors than the header has room for
    static const int NB[] = { 110, 111, 236, 237 }; int nb = NB[sx_choose(4, "tables")], xb = nb > 236 ? 2 : 1, base = (nb - 1) * 128; bool back = sx_choose(2, "back"); string low(512 * 8, '\xff'), data = content(4500, 'q'), high; // 0 first table, 1 directory, 2 and 4 further tables of tables, 3 table of nothing, 5 last table
    p32(low, 0, -3); p32(low, 4, -2); for (int i = 0; i < 128; i++) p32(low, 3 * 512 + 4 * i, -1); std::vector<int> at; for (int i = 0; i < 9; i++) at.push_back(base + (back ? 8 - i : i)); for (int i = 0; i < 9; i++) p32(low, 5 * 512 + 4 * (at[i] - base), i < 8 ? at[i + 1] : -2);
    high = string(9 * 512, '\0'); for (size_t j = 0; j < data.size(); j++) high[(at[j / 512] - base) * 512 + j % 512] = data[j];
    string d = Ole::entry("Root Entry", 5, -2, 0) + Ole::entry("a", 2, at[0], 4500) + Ole::entry("", 0, 0, 0) + Ole::entry("", 0, 0, 0); for (int j = 0; j < 512; j++) low[512 + j] = d[j];
    for (int k = 109; k < nb; k++) { int i = k - 109; p32(low, (i < 127 ? 2 : 4) * 512 + 4 * (i % 127), k == nb - 1 ? 5 : 3); } p32(low, 2 * 512 + 508, xb == 2 ? 4 : -2); p32(low, 4 * 512 + 508, -2);
    string h(512, '\0'); const char* m = "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"; for (int i = 0; i < 8; i++) h[i] = m[i]; p32(h, 0x2c, nb); p32(h, 0x30, 1); p32(h, 0x38, 4096); p32(h, 0x3c, -2); p32(h, 0x44, 2); p32(h, 0x48, xb); for (int i = 0; i < 109; i++) p32(h, 76 + 4 * i, i ? 3 : 0);
    HoleStream i; i.add(h); i.add(low); i.hole((uint64_t)(base - 8) * 512); i.add(high); Ent e; e.name = "a"; e.data = data; e.size = 4500; std::vector<Ent> es(1, e); { OleInputStream a(&i); sx_assert(a.status() == Ok, "a document is accepted"); checkEntries(a, es, 2); } sx_reach("end");
}
static uint32_t odd(const char* n) { static const uint32_t V[] = { 0, 1, 2, 3, 127, 128, 0x7ffffe, 0x7fffff, 0x800000, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffd, 0xfffffffc }; return V[sx_choose(16, n)]; }
// any 32 bit value; those that are block numbers of the file one by one
static uint32_t any32(int blocks) { uint32_t v = sx_u32("v"); if ((int32_t)v >= -5 && (int32_t)v <= blocks + 1) v = (uint32_t)sx_conc(v); return v; }
static uint32_t size32() { static const uint32_t N[] = { 0, 1, 63, 64, 65, 128, 129, 192, 193, 511, 512, 2048, 4095, 4096, 4097, 4607, 4608, 4609, 5000, 5121, 8192, 1u << 16, 0x7fffffff, 0x7ffffe00, 0x80000000, 0xffffffff, 0xfffffe00 }; return N[sx_choose(27, "size")]; }
void h_ole_any() { NoLeak noLeak; // damaged header, allocation tables and directory; truncated and failing input
    Ole o(false); string d1 = content(130, 'p'), d2 = content(2, 'q'), d3 = string(4097, 'b'); o.stream("one", d1); o.stream("big", d3); o.stream("two", d2); o.dir.push_back(Ole::entry("three", 2, 0, 3)); string all = o.finish(); int k = (int)sx_param("k", 99); if (k > 5) k = sx_choose(6, "damage"); int64_t err = -1; bool known = true;
    static const int HF[] = { 0x2c, 0x30, 0x3c, 0x44, 0x48, 76, 80 };
    if (k == 0) { int f = sx_choose(7, "field"); p32(all, HF[f], any32(o.blk.size())); if (f == 0 || f >= 3) { p32(all, 0x48, odd("nx")); if (f == 4) p32(all, 0x2c, odd("nb")); } }
    else if (k == 1) { int b = sx_choose((uint32_t)o.fat.size(), "fat"); p32(all, 512 + 4 * b, any32(o.blk.size())); }
    else if (k == 2) { static const int F[] = { 0x40, 0x74, 0x78 }; int e = sx_choose(4, "entry"), f = (int)sx_param("f", 9); if (f > 2) f = sx_choose(3, "f"); size_t at = 512 * (1 + o.dirChain[0]) + 128 * e + F[f]; if (f) p32(all, at, f == 1 ? any32(o.blk.size()) : size32()); else { static const unsigned char L[] = { 0, 1, 2, 3, 8, 62, 63, 64, 65, 66, 127, 128, 255 }; all[at] = (char)L[sx_choose(13, "namelen")]; all[at + 2] = (char)sx_choose(6, "type"); } }
    else if (k == 3) { size_t mf = 512 * (1 + (size_t)o.dirChain[0] - 1); p32(all, mf + 4 * sx_choose(5, "mini"), any32(24)); }
    else { static const int A[] = { 0, 1, 7, 8, 511, 512, 513, 639, 1023 }; int64_t at = sx_choose(2, "end") ? (int64_t)all.size() - 1 - A[sx_choose(9, "at")] : A[sx_choose(9, "at")]; if (k == 5) err = at; else all.resize(at); }
    known = sx_choose(2, "known"); SymStream* i = new SymStream(all.data(), all.size(), CH_MAX, known, false, err); { OleInputStream a(i); bool st = a.status() == Error; int bad = walk(a, all.size() * 4, 4 * (int)o.blk.size(), sx_choose(2, "consume")); if (bad) sx_reach("error"); sx_assert(!st || (bad && a.error() && a.error()[0]), "an unusable document is an error with a message"); sx_assert(k < 4 || bad, "a truncated or unreadable document is an error"); } delete i; sx_reach("end");
}
}
