// C14 tar, C16 ar, C17 cpio
#include "arch.h"
#include <strigi/tarinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
static SymStream* input(const string& s, int64_t errAt = -1) { return new SymStream(s.data(), s.size(), (int)sx_param("chunk", CH_MAX), true, sx_choose(2, "lazy"), errAt); }
static char letter(const char* n) { char c = (char)sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return c; }
static string letters(int n, const char* name) { string s; for (int i = 0; i < n; i++) s += letter(name); return s; }
static string bytes(int n, const char* name) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8(name); return s; }
// bytes of a field from the classes parsers tell apart
static string pick(int n, const char* name) { static const char cls[] = "0123789-+ afFgxA`/\xff"; string s; for (int i = 0; i < n; i++) { int k = sx_choose((uint32_t)sizeof cls, name); s += cls[k]; } return s; }
static string ab(int n) { string s; for (int i = 0; i < n; i++) s += "a/\n"[sx_choose(3, "tab")]; return s; }
static void put(string& h, int at, const string& v) { for (size_t i = 0; i < v.size(); i++) h[at + i] = v[i]; }
static string num(uint64_t v, int base, int width, char pad) { string s; do { int d = (int)(v % base); s = string(1, (char)(d < 10 ? '0' + d : 'A' + d - 10)) + s; v /= base; } while (v); while ((int)s.size() < width) s = pad == '0' ? "0" + s : s + string(1, pad); return s; }
// ---- tar
static string tarHeader(const string& name, int64_t size, char type) { string h(512, '\0'); put(h, 0, name); put(h, 100, "0000644"); put(h, 108, "0000000"); put(h, 116, "0000000"); put(h, 124, num(size, 8, 11, '0')); put(h, 136, "00000000000"); h[156] = type; put(h, 257, "ustar"); return h; }
static string padded(string d) { while (d.size() % 512) d += '\0'; return d; }
static const char* const LONGNAME = "dir/a234567890a234567890a234567890a234567890a234567890a234567890a234567890a234567890a234567890a234567890/xyz";
extern "C" {
void h_tar() { NoLeak noLeak;
    int ne = 1 + sx_choose((uint32_t)sx_param("entries", 2), "entries"), L = (int)sx_param("len", 2); string all; std::vector<Ent> es;
    for (int k = 0; k < ne; k++) {
        Ent e; int kind = sx_choose(6, "kind"); string hname; // plain, dir, with ./, long, full 100 characters, link target before the entry
        int n = kind == 1 ? 0 : (int)sx_choose(L + 1, "n"); if (kind == 0 && sx_param("big", 1) && sx_choose(3, "big") == 2) n = 512; e.data = n == 512 ? string(511, 'q') + bytes(1, "d") : bytes(n, "d");
        e.name = letters(kind == 0 ? 1 + sx_choose(2, "nlen") : 1, "name"); hname = e.name; if (kind == 1) hname += '/'; if (kind == 2) { if (sx_choose(2, "selfdir")) all += tarHeader("./", 0, '5'); hname = "./" + e.name; } 
        if (kind == 4) { e.name += string(100 - e.name.size(), 'z'); hname = e.name; }
        if (kind == 3) { e.name += LONGNAME; string t = e.name; if (sx_choose(2, "dir")) { hname = t.substr(0, 100); } else hname = t.substr(0, 100); t += '\0'; all += tarHeader("././@LongLink", t.size(), 'L') + padded(t); }
        if (kind == 5) { string t = string("to/") + LONGNAME; t += '\0'; all += tarHeader("././@LongLink", t.size(), 'K') + padded(t); }
        char type = kind == 1 ? '5' : kind == 0 ? "0\0007"[sx_choose(3, "type")] : '0'; e.type = type == '5' ? EntryInfo::Dir : type == '7' ? EntryInfo::Unknown : EntryInfo::File; e.size = n;
        string h = tarHeader(hname, n, type); if (kind == 0 && sx_choose(2, "blankpad")) { h[135] = ' '; h[147] = ' '; } all += h + padded(e.data); es.push_back(e);
    }
    all += string(512 * (2 + sx_choose(2, "zero")), '\0'); SymStream* i = input(all);
    { TarInputStream a(i); sx_assert(TarInputStream::checkHeader(all.data(), 512), "a tar header is recognised"); checkEntries(a, es, (int)sx_param("hows", 3)); }
    delete i; sx_reach("end");
}
void h_tar_fields() { NoLeak noLeak; // every size and time
    string h = tarHeader("a", 0, '0'); uint64_t sz = 0, mt = 0; int w = sx_choose(2, "width"); // 11 digits, or fewer with leading blanks
    for (int i = 0; i < 11; i++) { unsigned char c = sx_u8("sz"); sx_assume((c >= '0') & (c <= '7')); if (w && i < 6) { sx_assume(c == '0'); h[124 + i] = ' '; } else h[124 + i] = (char)c; sz = sz * 8 + (c - '0'); }
    for (int i = 0; i < 11; i++) { unsigned char c = sx_u8("mt"); sx_assume((c >= '0') & (c <= '7')); h[136 + i] = (char)c; mt = mt * 8 + (c - '0'); }
    h += string(1536, '\0'); SymStream* i = input(h); { TarInputStream a(i); InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry is delivered"); if (!e) sx_end(); sx_assert((uint64_t)a.entryInfo().size == sz && (uint64_t)e->size() == sz, "the entry has its size"); sx_assert((uint64_t)a.entryInfo().mtime == mt, "the entry has its modification time"); }
    delete i; sx_reach("end");
}
void h_tar_any() { NoLeak noLeak; // damaged headers, truncated and failing input
    string h = tarHeader(letters(1, "name"), 0, (char)sx_u8("type")); int k = sx_choose(5, "damage");
    if (k == 0) put(h, 124, pick((int)sx_param("dig", 3), "sz")); else if (k == 1) put(h, 124, pick((int)sx_param("dig", 3), "sz") + "           "); else if (k == 2) put(h, 136, pick((int)sx_param("dig", 3), "mt")); else if (k == 3) { put(h, 0, bytes(3, "n2")); } else { put(h, 0, "././@LongLink"); h[156] = "LKx"[sx_choose(3, "ltype")]; put(h, 124, "0000000000"); h[134] = (char)sx_u8("ls"); }
    string all = h + padded(bytes(2, "d")) + tarHeader("b", 3, '0') + padded("xyz") + string(1024, '\0'); int64_t err = -1; int cut = sx_choose(12, "cut"); if (cut) { int64_t at = (int64_t)cut * 256 - (sx_choose(2, "off") ? 1 : 0); if (at < (int64_t)all.size()) { if (sx_choose(2, "fail")) err = at; else all.resize(at); } }
    SymStream* i = input(all, err); { TarInputStream a(i); int bad = walk(a, all.size(), 6, sx_choose(2, "consume")); if (bad) sx_reach("error"); sx_assert(bad || !cut || k == 3 || (int64_t)cut * 256 > 2560, "a truncated archive is an error"); }
    delete i; sx_reach("end");
}
}
extern "C" {
void h_tar_stack() { NoLeak noLeak; // entries that are passed over need no stack
    int n = (int)sx_param("n", 60); string all; for (int i = 0; i < n; i++) all += tarHeader("./", 0, '5'); all += tarHeader("a", 0, (char)sx_u8("type")) + string(1024, '\0');
    DepthStream i(all); { TarInputStream a(&i); InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.entryInfo().filename == "a", "the entry is delivered"); } sx_assert(i.hi - i.lo < 64ULL * n, "the stack does not grow with the archive"); sx_reach("end");
}
}
// ---- ar
static string arHeader(const string& name, uint64_t size, uint64_t mtime) { string h = name; h.resize(16, ' '); h += num(mtime, 10, 12, ' ') + num(0, 10, 6, ' ') + num(0, 10, 6, ' ') + num(100644, 10, 8, ' ') + num(size, 10, 10, ' ') + "`\n"; return h; }
extern "C" {
void h_ar() { NoLeak noLeak;
    int ne = 1 + sx_choose((uint32_t)sx_param("entries", 2), "entries"), L = (int)sx_param("len", 3); string all = "!<arch>\n"; std::vector<Ent> es; std::vector<int> kind; string table;
    if (sx_choose(2, "symtab")) { string t = bytes(sx_choose(3, "st"), "st"); all += arHeader("/", t.size(), 0) + t; if (t.size() & 1) all += '\n'; }
    std::vector<string> heads;
    for (int k = 0; k < ne; k++) { Ent e; int kd = sx_choose(3, "kind"); string nm = letters(1 + sx_choose(2, "nlen"), "name"); e.data = bytes(sx_choose(L + 1, "n"), "d"); e.size = e.data.size(); e.type = EntryInfo::File; e.mtime = sx_choose(2, "mt") ? 4102444800ULL : 12; e.checkMtime = true;
        if (kd == 0) { e.name = nm; heads.push_back(nm); } else if (kd == 1) { e.name = nm; heads.push_back(nm + "/"); } else { e.name = nm + "-a-long-name-of-a-member"; heads.push_back("/" + num(table.size(), 10, 1, ' ')); table += e.name + "/\n"; } es.push_back(e); }
    if (table.size() || sx_choose(2, "emptytab")) { all += arHeader("//", table.size(), 0) + table; if (table.size() & 1) all += '\n'; }
    for (int k = 0; k < ne; k++) { all += arHeader(heads[k], es[k].size, es[k].mtime) + es[k].data; if (es[k].data.size() & 1 && (k + 1 < ne || sx_choose(2, "pad"))) all += '\n'; }
    SymStream* i = input(all); { sx_assert(ArInputStream::checkHeader(all.data(), all.size()), "an ar header is recognised"); ArInputStream a(i); sx_assert(a.status() == Ok, "an archive is accepted"); checkEntries(a, es, (int)sx_param("hows", 3)); } delete i; sx_reach("end");
}
void h_ar_fields() { NoLeak noLeak;
    string h = "!<arch>\n" + arHeader("a", 0, 0); uint64_t sz = 0, mt = 0; int ns = 1 + sx_choose(10, "ns"), nm = 1 + sx_choose(12, "nm"), D = (int)sx_param("dig", 2);
    for (int i = 0; i < ns; i++) { char c = '7'; if (i < D) { c = (char)sx_u8("sz"); sx_assume((c >= '0') & (c <= '9')); } h[8 + 48 + i] = c; sz = sz * 10 + (c - '0'); }
    for (int i = 0; i < nm; i++) { char c = '3'; if (i < D) { c = (char)sx_u8("mt"); sx_assume((c >= '0') & (c <= '9')); } h[8 + 16 + i] = c; mt = mt * 10 + (c - '0'); }
    h[8 + 28] = '7'; // user id next to the time
    SymStream* i = input(h); { ArInputStream a(i); InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry is delivered"); if (!e) sx_end(); sx_assert((uint64_t)a.entryInfo().size == sz && (uint64_t)e->size() == sz, "the entry has its size"); sx_assert((uint64_t)a.entryInfo().mtime == mt, "the entry has its modification time"); } delete i; sx_reach("end");
}
void h_ar_any() { NoLeak noLeak;
    int k = sx_choose(6, "damage"); string h = arHeader("a/", 2, 3), all = "!<arch>\n"; 
    if (k == 0) put(h, 48, bytes((int)sx_param("dig", 3), "sz")); else if (k == 1) put(h, 0, pick(2, "nm")); else if (k == 2) { all += arHeader("//", 4, 0) + ab(4); put(h, 0, "/" + pick(2, "idx")); } else if (k == 3) { h = arHeader("//", 0, 0); put(h, 48, pick(2, "tsz")); } else if (k == 4) { h = arHeader("/", 0, 0); put(h, 48, pick(2, "ssz")); }
    all += h + bytes(2, "d") + arHeader("b", 3, 0) + "xyz\n"; int64_t err = -1; int cut = (k == 5) ? sx_choose(3, "cut") : 0; if (cut) { int64_t at = sx_choose((uint32_t)all.size(), "at"); if (cut == 2) err = at; else all.resize(at); }
    SymStream* i = input(all, err); { ArInputStream a(i); int bad = walk(a, all.size(), 5, sx_choose(2, "consume")); if (bad) sx_reach("error"); sx_assert(cut != 2 || bad, "an error of the input is reported"); } delete i; sx_reach("end");
}
}
extern "C" {
void h_ar_stack() { NoLeak noLeak; // tables need no stack
    int n = (int)sx_param("n", 100), kind = sx_choose(3, "kind"); string all = "!<arch>\n"; for (int i = 0; i < n; i++) all += kind == 0 ? arHeader("/", 0, 0) : kind == 1 ? arHeader("//", 0, 0) : arHeader("//", 2, 0) + "/\n"; string d = bytes(2, "d"); all += arHeader("a", 2, 0) + d;
    DepthStream i(all); { ArInputStream a(&i); InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.entryInfo().filename == "a", "the entry is delivered"); if (e) readAll(e, d); } sx_assert(i.hi - i.lo < 64ULL * n, "the stack does not grow with the archive"); sx_reach("end");
}
}
// ---- cpio
static string cpioHeader(const string& name, uint64_t size, uint64_t mtime) { string h = "070701" + num(1, 16, 8, '0') + num(0100644, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(1, 16, 8, '0') + num(mtime, 16, 8, '0') + num(size, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(0, 16, 8, '0') + num(name.size() + 1, 16, 8, '0') + num(0, 16, 8, '0') + name; h += '\0'; while (h.size() % 4) h += '\0'; return h; }
static string pad4(string d) { while (d.size() % 4) d += '\0'; return d; }
extern "C" {
void h_cpio() { NoLeak noLeak;
    int ne = 1 + sx_choose((uint32_t)sx_param("entries", 2), "entries"), L = (int)sx_param("len", 4); string all; std::vector<Ent> es;
    for (int k = 0; k < ne; k++) { Ent e; e.name = letters(1 + sx_choose((uint32_t)sx_param("nlen", 4), "nlen"), "name"); e.data = bytes(sx_choose(L + 1, "n"), "d"); e.size = e.data.size(); e.mtime = sx_choose(2, "mt") ? 0xFEDCBA98u : 12; e.checkMtime = true; all += cpioHeader((sx_choose(2, "dot") ? "./" : "") + e.name, e.size, e.mtime) + pad4(e.data); es.push_back(e); }
    all += cpioHeader("TRAILER!!!", 0, 0); if (sx_choose(2, "tail")) all += string(10, '\0');
    SymStream* i = input(all); { sx_assert(CpioInputStream::checkHeader(all.data(), all.size()), "a cpio header is recognised"); CpioInputStream a(i); checkEntries(a, es, (int)sx_param("hows", 3)); } delete i; sx_reach("end");
}
void h_cpio_fields() { NoLeak noLeak;
    string h = cpioHeader("a", 0, 0); uint64_t v[2] = { 0, 0 }; int at[2] = { 54, 46 };
    int w = sx_choose(2, "field"); v[1] = 0;
    int D = (int)sx_param("dig", 2); for (int i = 0; i < 8; i++) { char c = "09afAF5B"[i]; if (i < D || i == 7) { c = (char)sx_u8("f"); sx_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))); } h[at[w] + i] = c; int64_t x = v[w]; x <<= 4; if (c >= 'a') x += c - 87; else if (c >= 'A') x += c - 55; else x += c - 48; v[w] = x; }
    SymStream* i = input(h); { CpioInputStream a(i); InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry is delivered"); if (!e) sx_end(); sx_assert((uint64_t)a.entryInfo().size == v[0] && (uint64_t)e->size() == v[0], "the entry has its size"); sx_assert((uint64_t)a.entryInfo().mtime == v[1], "the entry has its modification time"); } delete i; sx_reach("end");
}
void h_cpio_any() { NoLeak noLeak;
    int k = sx_choose(5, "damage"); string h = cpioHeader("a", 2, 3);
    int D = (int)sx_param("dig", 2); if (k == 0) put(h, 54 + 8 - D, pick(D, "sz")); else if (k == 1) put(h, 94 + 8 - D, pick(D, "ns")); else if (k == 2) put(h, 94, pick(D, "ns")); else if (k == 3) put(h, 110, pick(2, "nm"));
    string all = h + pad4(bytes(2, "d")) + cpioHeader("b", 3, 0) + pad4("xyz") + cpioHeader("TRAILER!!!", 0, 0); int64_t err = -1; int cut = (k == 4) ? sx_choose(3, "cut") : 0; if (cut) { int64_t at = sx_choose((uint32_t)all.size(), "at"); if (cut == 2) err = at; else all.resize(at); }
    SymStream* i = input(all, err); { CpioInputStream a(i); int bad = walk(a, all.size(), 5, sx_choose(2, "consume")); if (bad) sx_reach("error"); } delete i; sx_reach("end");
}
}
