// C15 zip archives (stored and deflated members; deflate is the modelled codec)
#include "zmodel.h"
#include "timemodel.h"
#include <strigi/zipinputstream.h>
static SymStream* input(const string& s, int64_t errAt = -1) { return new SymStream(s.data(), s.size(), (int)sx_param("chunk", CH_MAX), true, sx_choose(2, "lazy"), errAt); }
static char letter(const char* n) { char c = (char)sx_u8(n); sx_assume((c >= 'a') & (c <= 'z')); return c; }
static string bytes(int n, const char* name) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8(name); return s; }
static string le(uint64_t v, int n) { string s; for (int i = 0; i < n; i++) { s += (char)(v & 255); v >>= 8; } return s; }
static string local(const string& name, int flags, int method, uint32_t stamp, uint32_t csize, uint32_t usize, const string& extra) { return string("PK\3\4") + le(20, 2) + le(flags, 2) + le(method, 2) + le(stamp, 4) + bytes(4, "crc") + le(csize, 4) + le(usize, 4) + le(name.size(), 2) + le(extra.size(), 2) + name + extra; }
static string central() { return string("PK\1\2") + string(60, '\0'); }
// a compressed form of data chosen by the solver: literals, runs of r
static string deflated(int n, string& data) { string c; data.clear(); for (int i = 0; i < n; i++) { int k = sx_choose(4, "tok"); if (k < 3) { char b = (char)sx_u8("lit"); sx_assume((b & 0x80) == 0); c += b; data += b; } else { unsigned char b = sx_u8("run"); sx_assume((b >= 0x80) & (b < 0xe0)); int rep = 1 + (int)sx_conc(b & 3); c += (char)b; data += string(rep, 'r'); } } c += '\xff'; return c; }
static const uint32_t STAMP = 0x3C22AC63; // 2010-01-02 21:35:06
static const uint64_t MTIME = 1262468106;
extern "C" {
void h_zip() { NoLeak noLeak;
    int ne = 1 + sx_choose((uint32_t)sx_param("entries", 2), "entries"), L = (int)sx_param("len", 2); string all; std::vector<Ent> es;
    for (int k = 0; k < ne; k++) {
        Ent e; int kind = sx_choose(7, "kind"); e.name = string(1, letter("name")) + (kind == 0 ? "/x" : ""); e.type = EntryInfo::File; e.checkMtime = true; e.mtime = k ? 315532800 : MTIME; uint32_t st = k ? 0x00210000 : STAMP; string x = kind == 2 ? "" : string(4, 'x'), hn = e.name;
        if (kind == 0) { e.data = bytes(sx_choose(L + 1, "n"), "d"); e.size = e.data.size(); all += local(hn, 0, 0, st, e.size, e.size, x) + e.data; } // stored
        else if (kind == 1) { hn += '/'; e.type = EntryInfo::Dir; e.size = 0; all += local(hn, 0, 0, st, 0, 0, x); }
        else { string c = deflated(sx_choose(L + 1, "n"), e.data); e.size = e.data.size();
            if (kind == 2) all += local(hn, 2, 8, st, c.size(), e.size, x) + c; // deflated, sizes known
            else if (kind == 3) all += local(hn, 0, 8, st, c.size(), e.size, x) + c + "PK\7\10" + bytes(4, "crc") + le(c.size(), 4) + le(e.size, 4); // the same followed by a descriptor
            else { string crc = bytes(4, "crc"); if (kind == 5) sx_assume(!sameBytes(crc.data(), "PK\7\10", 4)); if (kind == 6) { hn += '/'; e.type = EntryInfo::Dir; } uint64_t n = e.size; all += local(hn, 8, 8, st, 0, 0, x) + c + (kind != 5 ? "PK\7\10" : "") + crc + le(c.size(), 4) + le(n, 4); e.size = -1; } } // sizes follow the data
        es.push_back(e);
    }
    all += central(); SymStream* i = input(all);
    { ZipInputStream a(i); sx_assert(ZipInputStream::checkHeader(all.data(), all.size()), "a zip header is recognised"); checkEntries(a, es, (int)sx_param("hows", 3)); }
    sx_assert(zLive == 0, "the decompressors are released"); delete i; sx_reach("end");
}
void h_zip_fields() { NoLeak noLeak; // every size, name length and extra length
    int kind = sx_choose(4, "kind"); string name(1, letter("name")), all; uint32_t sz = sx_u32("size"), cs = kind == 1 ? sx_u32("csize") : sz; string x; unsigned char st = sx_u8("flag"); sx_assume((st & 8) == 0);
    if (kind == 2) { int n = 1 + sx_choose((uint32_t)sx_param("nlen", 300), "nlen"); name += string(n - 1, 'n'); } if (kind == 3) x = string(sx_choose((uint32_t)sx_param("nlen", 300), "xlen"), 'P'); if (kind > 1) sz = cs = 0;
    all = string("PK\3\4") + le(20, 2) + (char)st + (char)sx_u8("flag2") + le(kind == 1 ? 8 : 0, 2) + le(STAMP, 4) + bytes(4, "crc") + le(cs, 4) + le(sz, 4) + le(name.size(), 2) + le(x.size(), 2) + name + x + (kind == 1 ? "ab\xff" : "") + central();
    SymStream* i = input(all); { ZipInputStream a(i); InputStream* e = a.nextEntry(); sx_assert(e != 0 && a.status() == Ok, "the entry is delivered"); if (!e) sx_end(); sx_assert((uint64_t)a.entryInfo().size == (uint64_t)sz && (uint64_t)e->size() == (uint64_t)sz, "the entry has its size"); sx_assert(same(a.entryInfo().filename, name), "the entry has its name"); sx_assert(a.entryInfo().mtime == MTIME, "the entry has its modification time"); if (kind > 1) sx_assert(i->position() == 30 + (int64_t)(name.size() + x.size()), "data starts after name and extra field"); } delete i; sx_reach("end");
}
void h_zip_any() { NoLeak noLeak; // damaged headers and data, truncated and failing input
    int k = sx_choose(8, "damage"), d; string c = "ab\xff", nm = "nm", desc; int flags = 0, method = 8; uint32_t cs = 3, us = 2, nl = 2, xl = 0;
    d = k < 6 && sx_choose(2, "desc"); if (d) { flags = 8; cs = us = 0; desc = string(sx_choose(2, "sig") ? "PK\7\10" : "") + "crc!" + le(3, 4) + le(2, 4); } else if (sx_choose(2, "stored")) { method = 0; c = "ab"; cs = 2; }
    if (k == 0) { nl = sx_choose(6, "nl"); } else if (k == 1) xl = sx_choose(6, "xl"); else if (k == 2) c = bytes((int)sx_param("len", 3), "c"); else if (k == 3) flags = sx_u8("flags"); else if (k == 4) { cs = sx_range("cs", 0, 200); us = sx_range("us", 0, 5); } else if (k == 5) desc = bytes(sx_choose(5, "dn"), "desc"); 
    string all = string("PK\3\4") + le(20, 2) + le(flags, 2) + le(method, 2) + le(STAMP, 4) + "crc?" + le(cs, 4) + le(us, 4) + le(nl, 2) + le(xl, 2) + nm + c + desc; int64_t b1 = all.size(); all += string("PK\3\4") + le(20, 2) + le(0, 2) + le(0, 2) + le(STAMP, 4) + "crc?" + le(3, 4) + le(3, 4) + le(1, 2) + le(0, 2) + "b" "xyz"; int64_t b2 = all.size(); all += central();
    if (k == 6) { int at = sx_choose(4, "at"); all[at] = (char)sx_u8("magic"); } int64_t err = -1; bool torn = false; int cut = k == 7 ? 1 + sx_choose(2, "cut") : 0; if (cut) { int64_t at = sx_choose((uint32_t)all.size(), "at"); if (cut == 2) err = at; else { all.resize(at); torn = at < b2 && at != b1; } }
    SymStream* i = input(all, err); if (k != 7 && sx_choose(2, "split")) i->chunk = CH_MIN; bool use = sx_choose(2, "consume"); { ZipInputStream a(i); int bad = walk(a, all.size() * 4, 4, use); if (bad) sx_reach("error"); sx_assert(!bad || a.status() != Error || (a.error() && a.error()[0]), "an error has a message"); if (k == 2 && d) { string want; int kind; zmSpec(c, 0, want, kind); sx_assert(bad || kind == M_END || (use && 0), "damaged data is an error"); } sx_assert(!torn || bad, "a truncated archive is an error"); sx_assert(cut != 2 || err >= (int64_t)all.size() - 64 || bad, "an error of the input is reported"); }
    sx_assert(zLive == 0, "the decompressors are released"); delete i; sx_reach("end");
}
}
