// C20: SD files
#include "arch.h"
#include <strigi/sdfinputstream.h>
static string num(int n) { return n < 10 ? string(1, (char)('0' + n)) : num(n / 10) + (char)('0' + n % 10); }
// text: some filler that moves the rest towards the end of a read, then a sequence of tokens
static string text() {
    static const int L[] = { 0, 1, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2045 }; int big = (int)sx_param("lead", 1); string t(L[sx_choose(big ? 10 : 2, "lead")], 'm'); int n = (int)sx_choose((uint32_t)sx_param("toks", 3) + 1, "n");
    for (int i = 0; i < n; i++) switch (sx_choose(5, "tok")) { case 0: t += "$$$$"; break; case 1: t += '$'; break; case 2: t += '\n'; break; case 3: t += '\r'; break; default: if (i) t += 'b'; else { unsigned char c = sx_u8("c"); sx_assume((c >= 'a') & (c <= 'z')); t += (char)c; } }
    return t; }
// the molecules: the text before each delimiter; line ends after a delimiter belong to it. false: not a well-formed SD file
static bool spec(const string& t, std::vector<Ent>& es) {
    size_t pos = 0; for (;;) { size_t f = pos; int d = 0; while (f < t.size() && d < 4) { d = t[f] == '$' ? d + 1 : 0; f++; } if (d < 4) return true; f -= 4; if (f == pos) return false;
        Ent e; e.name = "Molecule" + num((int)es.size() + 1); e.data = t.substr(pos, f - pos); e.size = e.data.size(); e.type = EntryInfo::File; es.push_back(e); pos = f + 4; while (pos < t.size() && (t[pos] == '\n' || t[pos] == '\r')) pos++; } }
extern "C" {
void h_sdf() { NoLeak noLeak;
    string t = text(); std::vector<Ent> es; bool ok = spec(t, es); int mode = sx_choose(2, "mode"); SymStream in(t.data(), t.size(), mode ? CH_MIN : CH_MAX, mode, sx_choose(2, "lazy"));
    { SdfInputStream a(&in); if (ok) checkEntries(a, es, (int)sx_param("hows", 3)); else { int bad = walk(a, t.size() * 8, 8, false); sx_assert(!bad, "no error without a cause"); } } sx_reach("end");
}
void h_sdf_err() { NoLeak noLeak; // failing input, input that cannot be moved back
    string t = text(); std::vector<Ent> es; bool ok = spec(t, es); if (!ok) sx_end(); int64_t err = -1; bool fwd = sx_choose(2, "forward"); if (!fwd) { static const int A[] = { 0, 1, 2, 3, 4, 5, 1023, 1024, 1025 }; err = A[sx_choose(9, "at")]; if (err >= (int64_t)t.size()) sx_end(); }
    SymStream in(t.data(), t.size(), sx_choose(2, "split") ? CH_MIN : CH_MAX, true, sx_choose(2, "lazy"), err); in.anyReset = !fwd;
    { SdfInputStream a(&in); size_t k = 0; InputStream* e; int how = (int)sx_choose(2, "consume"); bool bad = false; const char* p; int32_t r;
      while ((e = a.nextEntry())) { sx_assert(k < es.size(), "no entry is invented"); if (k >= es.size()) sx_end(); if (how) { size_t pos = 0; while ((r = e->read(p, 1, 0)) > 0) { sx_assert(pos + r <= es[k].data.size() && sameBytes(p, es[k].data.data() + pos, r), "the entry delivers its data"); pos += r; } if (r == -2) bad = true; else sx_assert(pos == es[k].data.size(), "the entry delivers all its data"); } k++; }
      sx_assert(a.status() == Error ? a.error() && a.error()[0] : a.status() == Eof, "the end or an error with a message"); if (fwd) { sx_assert(bad || a.status() == Error || k == es.size(), "what cannot be delivered is an error"); } else sx_assert(a.status() == Error, "a failing input is an error"); if (a.status() == Error) sx_reach("error"); }
    sx_reach("end");
}
static bool isEol(char c) { return (c == '\n') | (c == '\r'); }
void h_sdf_header() { NoLeak noLeak; // a header is four lines of at most 80 characters each, the fourth holds V2000
    static const int L[] = { 0, 1, 79, 80, 81 }; static const char* const E[] = { "\n", "\r", "\r\n", "" }; string h; bool ok = true; int cut = -1;
    int odd = sx_choose(5, "odd");
    for (int i = 0; i < 4; i++) { int l = odd == i ? L[sx_choose(5, "len")] : 1; string line(l, 'x'); if (i == 3 && odd != 3) { int at = sx_choose(3, "at"); line = string(at, 'y') + "V2000"; if (odd == 4) { int b = sx_choose(5, "b"); line[at + b] = (char)sx_u8("v"); sx_assume(!isEol(line[at + b])); ok = line[at + b] == "V2000"[b]; } if (sx_choose(2, "tail")) line += ' '; } else if (i == 3) { ok = l >= 79 && sx_choose(2, "label"); if (ok) line = string(l - 5, 'x') + "V2000"; } if (line.size() > 80) ok = false; const char* e = E[sx_choose(3, "eol")]; if (line.empty() && *e == '\n' && !h.empty() && h[h.size() - 1] == '\r') sx_end(); h += line; h += e; }
    cut = sx_choose(4, "rest"); if (cut == 0) { ok = false; } else h += string(cut, 'r'); bool r = SdfInputStream::checkHeader(h.data(), h.size()); if (h.size() <= 10) sx_end(); if (cut || !ok) sx_assert(r == ok, "exactly SD headers are recognised"); sx_obs("r", r); sx_reach(ok ? "yes" : "no");
}
void h_sdf_header_any() { NoLeak noLeak; // any bytes: no memory error
    int n = sx_choose((uint32_t)sx_param("len", 13), "n"); char* b = symData(n, "b"); for (int i = 0; i < n; i++) sx_assume((b[i] == '\n') | (b[i] == '\r') | (b[i] == 'V') | (b[i] == '2') | (b[i] == '0')); bool r = SdfInputStream::checkHeader(b, n); int any = 0; for (int i = 0; i + 5 <= n; i++) any |= sameBytes(b + i, "V2000", 5); sx_assert(!(r && !any), "exactly SD headers are recognised"); sx_reach("end");
}
void h_sdf_long() { NoLeak noLeak; // long molecules, many molecules, beginnings of the delimiter anywhere
    static const int N[] = { 1, 1023, 1024, 1026, 2049, 5000, 70000 }, PC[] = { CH_MAX, 1000, 1024, 1025 }; int n = N[sx_choose(7, "len")], count = n < 3000 && sx_choose(2, "many") ? 12 : 2, fill = sx_choose(4, "fill"); string t; static const char* const E[] = { "\n", "\r\n", "", "\n\n\r\n" }; const char* e = E[sx_choose(4, "eol")];
    for (int k = 0; k < count; k++) { string m; for (int i = 0; i < n + k; i++) m += fill == 0 ? (char)('a' + i % 26) : fill == 1 ? (i % 4 == 3 ? '\n' : '$') : fill == 2 ? (i % 1000 < 3 ? '$' : 'b') : (char)(i * 7 + 1); for (size_t i = 0; i + 3 < m.size(); i++) if (m[i] == '$' && m[i + 1] == '$' && m[i + 2] == '$') m[i + 3] = 'x'; if (k == 0) { m[m.size() - 1] = (char)sx_u8("d"); unsigned char c = m[m.size() - 1]; sx_assume((c == 'z') | (c == '\n') | (c == 0) | (c == 0xff)); m[m.size() - 1] = (char)sx_conc(c); } if (m[0] == '\n' || m[0] == '\r') m[0] = 'y'; t += m; t += "$$$$"; t += e; }
    std::vector<Ent> es; bool ok = spec(t, es); if (!ok) sx_end(); SymStream in(t.data(), t.size(), PC[sx_choose(4, "piece")], true, sx_choose(2, "lazy")); int use = sx_choose(3, "use");
    { SdfInputStream a(&in); for (size_t k = 0; k < es.size(); k++) { InputStream* s = a.nextEntry(); sx_assert(s != 0, "every entry is delivered"); if (!s) sx_end(); sx_assert(same(a.entryInfo().filename, es[k].name) && a.entryInfo().size == es[k].size, "the entry has its name and size"); if (use == 0 || k + 1 == es.size()) readAll(s, es[k].data); else if (use == 1) useEntry(s, es[k].data, 1); } sx_assert(a.nextEntry() == 0 && a.status() == Eof, "the file ends after its molecules"); } sx_reach("end");
}
}
