// C09 UTF-8, C10 endian readers, C11 DOS time, C07 search
#include "common.h"
#include <strigi/textutils.h>
#include <strigi/kmpsearcher.h>
#include "dostime.h"
#include <time.h>
#include <string>
// ---------- C10 ----------
template <class C> static void endian() {
    unsigned char* b = (unsigned char*)malloc(8); sx_bytes(b, 8, "b"); const C* p = (const C*)b;
    uint64_t le = 0, be = 0; for (int i = 7; i >= 0; i--) le = le << 8 | b[i]; for (int i = 0; i < 8; i++) be = be << 8 | b[i];
    sx_assert(readLittleEndianInt64(p) == (int64_t)le, "le int64"); sx_assert(readLittleEndianUInt64(p) == le, "le uint64");
    sx_assert(readBigEndianInt64(p) == (int64_t)be, "be int64"); sx_assert(readBigEndianUInt64(p) == be, "be uint64");
    int o = sx_choose(5, "o"); // last four bytes: reading further is out of bounds
    uint32_t le4 = b[o] | b[o+1] << 8 | b[o+2] << 16 | (uint32_t)b[o+3] << 24, be4 = b[o+3] | b[o+2] << 8 | b[o+1] << 16 | (uint32_t)b[o] << 24;
    sx_assert(readLittleEndianInt32(p + o) == (int32_t)le4, "le int32"); sx_assert(readLittleEndianUInt32(p + o) == le4, "le uint32");
    sx_assert(readBigEndianInt32(p + o) == (int32_t)be4, "be int32"); sx_assert(readBigEndianUInt32(p + o) == be4, "be uint32");
    int q = sx_choose(7, "q"); uint16_t le2 = b[q] | b[q+1] << 8, be2 = b[q+1] | b[q] << 8;
    sx_assert(readLittleEndianInt16(p + q) == (int16_t)le2, "le int16"); sx_assert(readLittleEndianUInt16(p + q) == le2, "le uint16");
    sx_assert(readBigEndianInt16(p + q) == (int16_t)be2, "be int16"); sx_assert(readBigEndianUInt16(p + q) == be2, "be uint16");
    sx_obs("be32", readBigEndianUInt32(p + o)); sx_obs("be64", readBigEndianUInt64(p));
    sx_reach("end");
}
extern "C" void h_endian_char() { endian<char>(); }
extern "C" void h_endian_uchar() { endian<unsigned char>(); }

// ---------- C09 ----------
static bool xmlchar(uint32_t v) { return v == 9 || v == 10 || v == 13 || (v >= 0x20 && v <= 0xD7FF) || (v >= 0xE000 && v <= 0xFFFD) || (v >= 0x10000 && v <= 0x10FFFF); }
// Specification (RFC 3629 table + XML characters): length of the well-formed character at p, 0 if there is none, -k if p..e is
// a proper prefix of one and k bytes are missing
static int wf(const unsigned char* p, const unsigned char* e) {
    unsigned a = p[0]; if (a < 0x80) return xmlchar(a) ? 1 : 0;
    int n; unsigned lo = 0x80, hi = 0xBF;
    if (a >= 0xC2 && a <= 0xDF) n = 2;
    else if (a >= 0xE0 && a <= 0xEF) { n = 3; if (a == 0xE0) lo = 0xA0; if (a == 0xED) hi = 0x9F; }
    else if (a >= 0xF0 && a <= 0xF4) { n = 4; if (a == 0xF0) lo = 0x90; if (a == 0xF4) hi = 0x8F; }
    else return 0;
    uint32_t v = a & (0x7F >> n);
    for (int i = 1; i < n; i++) { if (p + i >= e) return -(n - i); unsigned c = p[i]; if (c < lo || c > hi) return 0; lo = 0x80; hi = 0xBF; v = v << 6 | (c & 0x3F); }
    return xmlchar(v) ? n : 0;
}
extern "C" void h_utf8() {
    int N = (int)sx_param("len", 5); int n = sx_choose(N + 1, "len"); unsigned char* b = (unsigned char*)malloc(n ? n : 1); sx_bytes(b, n, "b");
    const unsigned char* e = b + n; const unsigned char* p = b; int r = 1; while (p < e && (r = wf(p, e)) > 0) p += r;
    bool valid = p == e;
    bool got = checkUtf8((const char*)b, n);
    sx_assert(!valid || got, "well-formed text is accepted");
    sx_assert(valid || !got, "ill-formed text is rejected");
    char nb = 77; const char* q = checkUtf8((const char*)b, n, nb);
    sx_assert((q == 0) == valid, "incremental check accepts exactly well-formed text");
    if (!valid) {
        if (r < 0) { sx_assert(nb == -r, "incremental check: number of missing bytes"); sx_assert(q == (const char*)p, "incremental check: start of the unfinished character"); }
        else { sx_assert(q >= (const char*)p && q < (const char*)e, "incremental check: error position lies after the valid text");
               // an ill-formed character is an error unless it is an unfinished sequence of continuation bytes
               if (nb) sx_assert(q == (const char*)p && p[0] >= 0xE0, "incremental check: only an unfinished sequence may be completed"); }
        sx_obs("nb", (unsigned char)nb); sx_obs("off", q - (const char*)b);
        if (r < 0) sx_reach("unfinished"); else sx_reach("invalid");
    } else { sx_assert(nb == 0, "nothing is missing after valid text"); sx_reach("valid"); }
    std::string s((const char*)b, n); sx_assert(checkUtf8(s) == got, "string and pointer variants agree");
    char nb2; const char* q2 = checkUtf8(s, nb2); sx_assert((q2 == 0) == (q == 0) && nb2 == nb, "string and pointer variants agree (incremental)");
    sx_obs("valid", got);
}
extern "C" void h_newlines() {
    int N = (int)sx_param("len", 4); int n = sx_choose(N + 1, "len"); unsigned char* b = (unsigned char*)malloc(n + 1); sx_bytes(b, n, "b"); b[n] = 0;
    unsigned char o[16]; for (int i = 0; i < n; i++) { sx_assume(b[i] != 0); o[i] = b[i]; }
    const unsigned char* e = b + n; const unsigned char* p = b; int r = 1; while (p < e && (r = wf(p, e)) > 0) p += r;
    bool valid = p == e;
    convertNewLines((char*)b);
    sx_assert(b[n] == 0, "the terminator is kept");
    for (int i = 0; i < n; i++) {
        if (valid) sx_assert(b[i] == (o[i] == '\n' || o[i] == '\r' ? ' ' : o[i]), "exactly the newlines of valid text become spaces");
        else sx_assert(b[i] == o[i] || (b[i] == ' ' && (o[i] == '\n' || o[i] == '\r')), "nothing but newlines is changed");
    }
    sx_reach(valid ? "valid" : "invalid");
}
// the same after long valid text
extern "C" void h_utf8_long() { NoLeak noLeak;
    static const int N[] = { 15, 63, 127, 255, 1000, 4095, 70000 }; static const char* const U[] = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n" }; const char* u = U[sx_choose(5, "unit")]; int n = N[sx_choose(7, "len")] + sx_choose(2, "more"), l = (int)strlen(u); std::string t; while ((int)t.size() + l <= n) t += u; size_t v = t.size(); int k = 1 + sx_choose((uint32_t)sx_param("sym", 2), "k"), after = sx_choose(2, "after"); for (int i = 0; i < k; i++) t += (char)sx_u8("c"); if (after) t += "\xc3\xa9" "b";
    const unsigned char *p = (const unsigned char*)t.data() + v, *e = p + (t.size() - v); int r = 1; while (p < e && (r = wf(p, e)) > 0) p += r; bool valid = p == e;
    bool got = checkUtf8(t.data(), (int32_t)t.size()); sx_assert(got == valid, "exactly well-formed text is accepted"); char nb = 77; const char* q = checkUtf8(t.data(), (int32_t)t.size(), nb); sx_assert((q == 0) == valid, "incremental check accepts exactly well-formed text");
    if (valid) sx_assert(nb == 0, "nothing is missing after valid text"); else if (r < 0) { sx_assert(nb == -r, "incremental check: number of missing bytes"); sx_assert(q == (const char*)p, "incremental check: start of the unfinished character"); } else sx_assert(q >= (const char*)p && q < (const char*)e, "incremental check: error position lies after the valid text");
    if (k == 1 && after == 0 && n < 5000) { t.push_back('\r'); t.push_back('\r'); for (int i = 0; i < k; i++) sx_assume(t[v + i] != 0); std::string o = t; convertNewLines(&t[0]); int bad = 0; for (size_t i = 0; i < t.size(); i++) { if (i >= v && !valid) bad |= (t[i] != o[i]) & !((t[i] == ' ') & ((o[i] == '\n') | (o[i] == '\r'))); else bad |= t[i] != (char)sx_ite((o[i] == '\n') | (o[i] == '\r'), ' ', (unsigned char)o[i]); } sx_assert(!bad, "exactly the newlines of valid text become spaces"); }
    sx_reach(valid ? "valid" : r < 0 ? "unfinished" : "invalid");
}
// ---------- C11 ----------
static struct tm theTm; static int gotTm; static struct tm seen;
extern "C" {
time_t __wrap_time(time_t* t) { if (t) *t = 1000; return 1000; }
struct tm* __wrap_localtime(const time_t*) { memset(&theTm, 0, sizeof theTm); theTm.tm_isdst = (int)sx_u8("isdst"); theTm.tm_hour = 5; return &theTm; }
time_t __wrap_mktime(struct tm* t) { seen = *t; gotTm++; return (time_t)424242; }
}
extern "C" void h_dostime() {
    uint32_t d = sx_u32("stamp"); time_t r = dos2unixtime(d);
    sx_assert(gotTm == 1 && r == 424242, "the conversion returns the time of the broken-down time");
    sx_assert(seen.tm_year == (int)(d >> 25) + 80, "year"); sx_assert(seen.tm_mon == (int)((d >> 21) & 15) - 1, "month");
    sx_assert(seen.tm_mday == (int)((d >> 16) & 31), "day"); sx_assert(seen.tm_hour == (int)((d >> 11) & 31), "hour");
    sx_assert(seen.tm_min == (int)((d >> 5) & 63), "minute"); sx_assert(seen.tm_sec == (int)(d & 31) * 2, "second"); sx_assert(seen.tm_isdst == -1, "daylight saving is determined by the C library");
    sx_obs("hour", seen.tm_hour); sx_reach("end");
}
// ---------- C07 ----------
static void searchIn(KmpSearcher& s, const char* q, int m, const char* tag) {
    int N = (int)sx_param("hay", 6); int n = sx_choose(N + 1, "haylen"); char* h = symData(n, "h");
    const char* r = s.search(h, n);
    // specification: the first i with h[i..i+m) == q
    int found = -1; for (int i = n - m; i >= 0; i--) { int eq = 1; for (int j = 0; j < m; j++) eq &= h[i + j] == q[j]; found = (int)sx_ite(eq, i, (uint64_t)(int64_t)found); }
    if (r == 0) { sx_assert(found == -1, "an occurrence is found"); sx_reach("none"); sx_obs("found", 99); }
    else { sx_assert(found == (int)(r - h), "the first occurrence is returned"); sx_reach("found"); sx_obs("found", r - h); }
}
extern "C" void h_search() { NoLeak noLeak;
    int M = (int)sx_param("needle", 3); int m = sx_choose(M + 1, "m"); char* q = symData(m, "q");
    KmpSearcher s(std::string(q, m)); sx_assert(s.queryLength() == m, "query length"); searchIn(s, q, m, "");
}
// two-letter alphabet: self-overlapping queries, where a wrong shift shows, at larger sizes
extern "C" void h_search_ab() { NoLeak noLeak;
    int M = (int)sx_param("needle", 5); int m = 1 + sx_choose(M, "m"); char* q = symData(m, "q"); int N = (int)sx_param("hay", 10); int n = sx_choose(N + 1, "haylen"); char* h = symData(n, "h");
    for (int i = 0; i < m; i++) { sx_assume((unsigned char)q[i] <= 1); q[i] = (char)sx_conc((unsigned char)q[i]); } for (int i = 0; i < n; i++) sx_assume((unsigned char)h[i] <= 1);
    KmpSearcher s(std::string(q, m)); const char* r = s.search(h, n); int64_t found = -1;
    for (int i = n - m; i >= 0; i--) { int eq = 1; for (int j = 0; j < m; j++) eq &= h[i + j] == q[j]; found = (int64_t)sx_ite(eq, i, (uint64_t)found); }
    if (r == 0) { sx_assert(found == -1, "an occurrence is found"); sx_reach("none"); sx_obs("found", 99); }
    else { sx_assert(found == (int64_t)(r - h), "the first occurrence is returned"); sx_reach("found"); sx_obs("found", r - h); }
}
extern "C" void h_search_requery() { NoLeak noLeak; // a searcher whose query is replaced
    int M = (int)sx_param("needle", 3); int a = sx_choose(M + 1, "a"), m = sx_choose(M + 1, "m");
    char* q0 = symData(a, "p"); KmpSearcher s; s.setQuery(std::string(q0, a)); char* q = symData(m, "q"); s.setQuery(std::string(q, m)); searchIn(s, q, m, "");
}
