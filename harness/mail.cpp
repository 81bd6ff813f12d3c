// C13, C21: mail headers and parts
#include "common.h"
#include <strigi/mailinputstream.h>
#include <iconv.h>
#include <errno.h>
#include <string>
#include <vector>
using std::string;
// iconv model: "l1" is ISO-8859-1, "bad" fails on every input, other character sets are unknown
static int icBad, icL1, icOpen;
extern "C" {
iconv_t __wrap_iconv_open(const char* to, const char* from) { sx_assert(!strcmp(to, "UTF-8"), "text is converted to UTF-8"); icOpen++; if (!strcmp(from, "l1")) return (iconv_t)&icL1; if (!strcmp(from, "bad")) return (iconv_t)&icBad; icOpen--; errno = EINVAL; return (iconv_t)-1; }
int __wrap_iconv_close(iconv_t c) { if (c != (iconv_t)-1) { sx_assert(c == (iconv_t)&icL1 || c == (iconv_t)&icBad, "only open converters are closed"); icOpen--; return 0; } errno = EBADF; return -1; }
size_t __wrap_iconv(iconv_t c, char** in, size_t* il, char** out, size_t* ol) {
    sx_assert(c == (iconv_t)&icL1 || c == (iconv_t)&icBad, "only open converters are used"); if (!in || !*in) return 0;
    if (c == (iconv_t)&icBad) { errno = EILSEQ; return (size_t)-1; }
    while (*il) { unsigned char b = **in; if (b < 0x80) { if (*ol < 1) { errno = E2BIG; return (size_t)-1; } **out = b; ++*out; --*ol; }
        else { if (*ol < 2) { errno = E2BIG; return (size_t)-1; } (*out)[0] = 0xC0 | (b >> 6); (*out)[1] = 0x80 | (b & 0x3f); *out += 2; *ol -= 2; } ++*in; --*il; }
    return 0;
}
}
static const char* const CS[] = { "utf-8", "UTF-8", "l1", "xx", "bad" };
static string conv(int cs, const string& s) { if (cs != 2) return s; string r; for (size_t i = 0; i < s.size(); i++) { unsigned char b = s[i]; if (b < 0x80) r += (char)b; else { r += (char)(0xC0 | (b >> 6)); r += (char)(0x80 | (b & 0x3f)); } } return r; }
static bool same(const string& a, const string& b) { return a.size() == b.size() && sameBytes(a.data(), b.data(), a.size()); }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string b64(const string& s) { string r; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16; if (i + 1 < s.size()) v |= (unsigned char)s[i + 1] << 8; if (i + 2 < s.size()) v |= (unsigned char)s[i + 2]; r += B64[v >> 18]; r += B64[(v >> 12) & 63]; r += i + 1 < s.size() ? B64[(v >> 6) & 63] : '='; r += i + 2 < s.size() ? B64[v & 63] : '='; } return r; }
static const char HX[] = "0123456789ABCDEF0123456789abcdef";
static InputStream* in(const string& s, string& keep) { keep = s; return new SymStream(keep.data(), keep.size(), (int)sx_param("chunk", CH_MAX), true, false); }
static const char* const FN[] = { "Subject:", "From:", "To:", "Cc:", "Bcc:", "Message-ID:", "In-Reply-To:", "References:", "Content-Type:" };
static const string& field(MailInputStream& m, int f) { switch (f) { case 0: return m.subject(); case 1: return m.from(); case 2: return m.to(); case 3: return m.cc(); case 4: return m.bcc(); case 5: return m.messageid(); case 6: return m.inreplyto(); case 7: return m.references(); default: return m.contentType(); } }
static string plain(int n, const char* name) { // header text without structure of its own
    string s; for (int i = 0; i < n; i++) { unsigned char c = sx_u8(name); sx_assume((c != '\r') & (c != '\n') & (c != 0)); if (i == 0) sx_assume((c != '=') & (c != '?')); if (i == n - 1) sx_assume((c != '=') & (c != '?')); if (i) sx_assume(!((s[i - 1] == '=') & (c == '?'))); s += (char)c; } return s; }
extern "C" {
void h_mail_words() { NoLeak noLeak;
    int f = (int)sx_param("fields", 1) > 1 ? sx_choose((uint32_t)sx_param("fields", 8), "field") : 0; const char* nl = sx_choose(2, "crlf") ? "\r\n" : "\n";
    int K = (int)sx_param("segs", 2), P = (int)sx_param("plain", 2), W = (int)sx_param("word", 2); string src, want, want2; int prev = -1; bool first = true;
    for (int k = 0; k < K; k++) {
        int t = sx_choose(4, "seg"); // plain, quoted-printable, base64, fold
        if ((t == 0 && prev == 0) || (t == 3 && (first || prev == 3)) ) sx_end();
        if (t == 0) { string s = plain(1 + sx_choose(P, "plen"), "p"); if (first) { unsigned char c = s[0]; sx_assume(!((c == ' ') | ((c >= 9) & (c <= 13)))); } src += s; want += s; want2 += s; }
        else if (t == 3) { src += nl; src += sx_choose(2, "tab") ? '\t' : ' '; if (src[src.size() - 1] == '\t') want2 += '\t'; else want2 += ' '; }
        else {
            int cs = sx_choose(5, "cs"), n = 1 + sx_choose(W, "wlen"); string text; src += "=?"; src += CS[cs]; 
            if (t == 1) { src += sx_choose(2, "case") ? "?q?" : "?Q?";
                for (int i = 0; i < n; i++) { unsigned char c = sx_u8("w"); int e = sx_choose(3, "enc"); if (e == 0) { sx_assume((c > 32) & (c < 127) & (c != '=') & (c != '?') & (c != '_')); src += (char)c; } else if (e == 1) { sx_assume(c == ' '); src += '_'; } else { bool lo = (i & 1); src += '='; src += (char)sx_ite((c >> 4) < 10, '0' + (c >> 4), (lo ? 'a' : 'A') - 10 + (c >> 4)); src += (char)sx_ite((c & 15) < 10, '0' + (c & 15), (lo ? 'A' : 'a') - 10 + (c & 15)); } text += (char)c; } }
            else { src += sx_choose(2, "case") ? "?b?" : "?B?"; for (int i = 0; i < n; i++) text += (char)sx_u8("w"); 
                for (size_t i = 0; i < text.size(); i += 3) { unsigned v = (unsigned char)text[i] << 16; size_t l = text.size() - i; if (l > 1) v |= (unsigned char)text[i + 1] << 8; if (l > 2) v |= (unsigned char)text[i + 2]; for (int q = 0; q < 4; q++) { if ((size_t)q > l) { src += '='; continue; } unsigned x = (v >> (18 - 6 * q)) & 63; src += (char)sx_ite(x < 26, 'A' + x, sx_ite(x < 52, 'a' - 26 + x, sx_ite(x < 62, '0' - 52 + x, sx_ite(x == 62, '+', '/')))); } } }
            src += "?="; string d = conv(cs, text); want += d; want2 += d; }
        prev = t; first = false;
    }
    if (prev == 3) sx_end();
    string keep, all = FN[f]; all += ' '; all += src; all += nl; all += "X: y"; all += nl; all += nl; all += "b"; InputStream* i = in(all, keep);
    { MailInputStream m(i); sx_assert(m.status() != Error, "a well-formed header is accepted"); const string& v = field(m, f); sx_obs("len", v.size());
      sx_assert(same(v, want) || same(v, want2), "the field holds the text the header denotes"); }
    delete i; sx_assert(icOpen == 0, "converters are closed"); sx_reach("end");
}
void h_mail_fields() { NoLeak noLeak; // every field, any value length from one character, any case of the name, folded or not, any line ending
    int f = sx_choose(9, "field"), n = 1 + sx_choose((uint32_t)sx_param("len", 2), "len"), nlk = sx_choose(3, "nl"), before = sx_choose(2, "before"), blank = sx_choose(3, "blank"), up = sx_choose(3, "case"); const char* nl = nlk == 0 ? "\n" : nlk == 1 ? "\r\n" : "\r\n";
    string v = plain(n, "p"); { unsigned char c = v[0]; sx_assume(!((c == ' ') | ((c >= 9) & (c <= 13)))); } if (f == 8) for (int k = 0; k < n; k++) sx_assume((unsigned char)v[k] < 128);
    string all; if (before) { all += "A:"; all += nl; } string nm = FN[f]; for (size_t k = 0; k < nm.size(); k++) { if (up == 1 && nm[k] >= 'a' && nm[k] <= 'z') nm[k] -= 32; if (up == 2 && nm[k] >= 'A' && nm[k] <= 'Z') nm[k] += 32; }
    all += nm; for (int k = 0; k < blank; k++) all += k ? '\t' : ' '; all += v; all += nl; all += nl; all += "body"; string keep; InputStream* i = in(all, keep);
    { MailInputStream m(i); sx_assert(m.status() != Error, "a well-formed header is accepted"); const string& r = field(m, f); sx_obs("len", r.size()); sx_assert(same(r, v), "the field holds the value");
      for (int g = 0; g < 9; g++) if (g != f) sx_assert(field(m, g).empty(), "other fields stay empty"); 
      InputStream* b = m.nextEntry(); sx_assert(b != 0, "the body is an entry"); if (!b) sx_end(); const char* p; int32_t k = b->read(p, 100, 100); sx_assert(k == 4 && sameBytes(p, "body", 4), "the body entry is the text after the header"); sx_assert(b->status() == Eof && b->size() == 4, "the body ends with the mail"); sx_assert(m.nextEntry() == 0 && m.status() == Eof, "there is one body"); }
    delete i; sx_reach("end");
}
void h_mail_any() { NoLeak noLeak; // any bytes as a header value: no memory error, plain text passes through
    int N = (int)sx_param("len", 8), n = 1 + sx_choose(N, "n"); string src; bool structured = false; 
    static const char cls[] = "=?qbA1_\r\n \t\x01\xe9"; int M = (int)sizeof cls - 1;
    for (int i = 0; i < n; i++) { char c = cls[sx_choose(M, "c")]; src += c; if (c == '\r' || c == '\n') structured = true; if (i && c == '?' && src[i - 1] == '=') structured = true; }
    string keep, all = "Subject:"; all += src; all += "\n\nb"; InputStream* i = in(all, keep);
    { MailInputStream m(i); if (!structured) { size_t k = 0; while (k < src.size() && (src[k] == ' ' || src[k] == '\t')) k++; sx_assert(same(m.subject(), src.substr(k)), "plain text passes through"); sx_reach("plain"); } else sx_reach("structured"); sx_assert(m.subject().size() <= 2 * src.size(), "nothing is invented"); sx_obs("len", m.subject().size()); }
    delete i; sx_reach("end");
}
void h_mail_word_any() { NoLeak noLeak; // any bytes inside one encoded word: no memory error
    int n = 1 + sx_choose((uint32_t)sx_param("len", 5), "n"); int t = sx_choose(3, "enc"), tail = sx_choose(3, "tail"); string s = "Subject: =?"; s += CS[sx_choose(5, "cs")]; s += t == 0 ? "?q?" : t == 1 ? "?b?" : "?z?"; size_t w = s.size();
    for (int i = 0; i < n; i++) { char c = (char)sx_u8("w"); sx_assume((c != '\r') & (c != '\n')); s += c; } if (tail) s += "?="; if (tail == 2) s += "x"; size_t len = s.size() - w; s += "\n\nb"; (void)len;
    string keep; InputStream* i = in(s, keep); { MailInputStream m(i); sx_obs("len", m.subject().size()); sx_assert(m.subject().size() <= 2 * s.size(), "nothing is invented"); 
      if (t == 2 && tail == 1) { int q = 0; for (int k = 0; k < n; k++) q |= s[w + k] == '?'; if (!q) sx_assert(same(m.subject(), s.substr(9, s.size() - 12)), "a word in an unknown encoding passes through"); } }
    delete i; sx_reach("end");
}
}
// ---- C21: multipart mails
static const char* const NLS[] = { "\n", "\r\n" };
struct Part { string name, data; };
static string partData(int n, const char* name) { string s; for (int i = 0; i < n; i++) { unsigned char c = sx_u8(name); sx_assume(((c >= 'a') & (c <= 'b')) | (c == '-') | (c == '\n') | (c == 'B')); s += (char)c; } return s; }
static void parts_(bool nested) {
    const char* nl = NLS[sx_choose(2, "nl")]; int np = 1 + sx_choose((uint32_t)sx_param("parts", 2), "parts"), L = (int)sx_param("len", 2); string B = sx_choose(2, "bd") ? "B" : "b-a"; bool quoted = sx_choose(2, "quoted"), close = true; (void)close;
    string all = "Content-Type: multipart/mixed; boundary="; all += quoted ? "\"" + B + "\"" : B; all += nl; all += nl; if (sx_choose(2, "preamble")) { all += "pre"; all += nl; }
    std::vector<Part> parts; int num = 0;
    for (int k = 0; k < np; k++) {
        bool inner = nested && sx_choose(2, "inner"); all += "--" + B + nl; string b = B;
        if (inner) { b = "I"; all += string("Content-Type: multipart/alternative; boundary=I") + nl + nl + "--I" + nl; }
        for (int q = 0; q < (inner ? 2 : 1); q++) {
            Part p; int nm = sx_choose(3, "name"), enc = sx_choose(2, "enc"); if (q) all += "--I" + string(nl); num++;
            if (nm == 1) { all += string("Content-Type: text/plain; name=\"n"); all += char('0' + num); all += string("\"") + nl; p.name = string("n") + char('0' + num); }
            else if (nm == 2) { all += "Content-Disposition: attachment; filename=f"; all += char('0' + num); all += nl; p.name = string("f") + char('0' + num); } else { all += string("Content-Type: text/plain") + nl; p.name = string(1, char('0' + num)); }
            if (enc) all += string("Content-Transfer-Encoding: base64") + nl; all += nl;
            int n = sx_choose(L + 1, "n"); 
            if (enc) { string d; for (int i = 0; i < n; i++) d += (char)('a' + sx_choose(2, "d")); all += b64(d); all += nl; p.data = d; }
            else { string d = partData(n, "d"); d += nl; int bad = 0; string t = d + "--" + b; for (size_t i = 0; i + 2 + b.size() <= t.size() - 1; i++) bad |= sameBytes(t.data() + i, ("--" + b).data(), 2 + b.size()); sx_assume(!bad); all += d; p.data = d; }
            parts.push_back(p);
        }
        if (inner) all += string("--I--") + nl;
    }
    all += "--" + B + "--" + nl; if (sx_choose(2, "epilogue")) { all += "post"; all += nl; }
    string keep; InputStream* i = in(all, keep);
    { MailInputStream m(i); sx_assert(m.status() == Ok, "a well-formed mail is accepted");
      for (size_t k = 0; k < parts.size(); k++) {
        InputStream* e = m.nextEntry(); sx_assert(e != 0 && m.status() == Ok, "every part is an entry"); if (!e) sx_end();
        sx_assert(m.currentEntry() == e && e->position() == 0, "the entry is the current entry"); sx_assert(m.entryInfo().filename == parts[k].name, "the entry has the name of the part"); sx_assert(m.entryInfo().type == EntryInfo::File, "a part is a file");
        int how = sx_choose(3, "consume"); const string& d = parts[k].data; // read all, a little, or nothing
        if (how == 0) { size_t pos = 0; const char* p; int32_t r; while ((r = (int32_t)sx_conc(e->read(p, 1, 0))) > 0) { sx_assert(pos + r <= d.size() && sameBytes(p, d.data() + pos, r), "the entry delivers the data of the part"); pos += r; if (pos > d.size()) sx_end(); } sx_assert(r == -1 && pos == d.size(), "the entry delivers all data of the part"); sx_assert(e->status() == Eof, "the entry ends"); sx_obs("n", pos); }
        else if (how == 1) { const char* p; int32_t r = e->read(p, 1, 1); sx_assert(d.empty() ? r == -1 : (r == 1 && *p == d[0]), "the entry delivers the data of the part"); }
      }
      sx_assert(m.nextEntry() == 0 && m.status() == Eof, "the mail ends after its parts"); sx_assert(m.nextEntry() == 0, "and stays ended"); }
    delete i; sx_reach("end");
}
extern "C" {
void h_mail_parts() { NoLeak noLeak; parts_(false); }
void h_mail_nested() { NoLeak noLeak; parts_(true); }
void h_mail_safe() { NoLeak noLeak; // any structure, also broken: no memory error, iteration ends
    static const char* const T[] = { "\n", "--B", "--", "Content-Type: multipart/x; boundary=B", "boundary=", "\r", "x", "Content-Transfer-Encoding: base64", ":", " ", "Content-Type: a; name=\"", ";" }; int K = (int)sx_param("toks", 5); string all;
    if (sx_choose(2, "multi")) { all = "Content-Type: m; boundary=B\n\n"; } for (int k = 0; k < K; k++) { int t = sx_choose(1 + (int)(sizeof T / sizeof *T), "tok"); if (t == 0) break; all += T[t - 1]; }
    string keep; InputStream* i = in(all, keep); { MailInputStream m(i); int n = 0; const char* p = 0; InputStream* e; while ((e = m.nextEntry())) { sx_assert(++n <= K + 2, "iteration ends"); int64_t tot = 0; int32_t r; if (n & 1) while ((r = e->read(p, 1, 0)) > 0) tot += r; sx_assert(tot <= (int64_t)all.size(), "no data is invented"); sx_obs("tot", tot); } sx_assert(m.status() != Ok, "iteration ends with the end or an error"); }
    delete i; sx_reach("end");
}
void h_mail_err() { NoLeak noLeak; // an error of the input at any point is reported, and before it only right data is delivered
    int enc = sx_choose(3, "base64"); string all = "Subject: s\nContent-Type: m; boundary=B\n\n--B\n", D[] = { "ab\n", "cd\n" }; all += enc == 1 ? "Content-Transfer-Encoding: base64\n\nYWJj\n" : "X: y\n\nab\n"; all += "--B\n"; all += enc == 2 ? "Content-Transfer-Encoding: base64\n\nYWJj\n" : "X: y\n\ncd\n"; all += "--B--\n"; if (enc) D[enc - 1] = "abc"; int at = sx_choose((uint32_t)all.size() + 1, "errat"); int full = sx_choose(2, "consume");
    SymStream* i = new SymStream(all.data(), all.size(), (int)sx_param("chunk", CH_MIN), true, false, at);
    { MailInputStream m(i); InputStream* e; int n = 0; bool bad = m.status() == Error, eofe = false; const char* p;
      while ((e = m.nextEntry())) { sx_assert(n < 2, "no part is invented"); if (n >= 2) sx_end(); if (full) { int64_t pos = 0; int32_t r; while ((r = e->read(p, 1, 0)) > 0) { sx_assert(pos + r <= 3 && sameBytes(p, D[n].data() + pos, r), "the entry delivers the data of the part"); pos += r; if (pos > 3) sx_end(); } if (r == -2) { sx_assert(e->status() == Error, "an error is reported"); bad = true; } else { sx_assert(pos == 3, "a part ends at its end"); eofe = true; } } n++; }
      if (m.status() == Error) bad = true; sx_assert(bad == (at < (int)all.size()) || (at >= (int)all.size() - 1), "an error of the input is reported"); (void)eofe; if (bad) sx_reach("error"); sx_obs("n", n); }
    delete i; sx_reach("end");
}
}
// ---- parameters of header fields: quoting, white space, order, letter case, folding
extern "C" {
void h_mail_param() { NoLeak noLeak;
    const char* nl = NLS[sx_choose(2, "nl")]; string B = "B", all = "Content-Type: multipart/mixed", v; int bform = sx_choose(6, "bform");
    static const char* const BF[] = { "; boundary=B", "; BOUNDARY=\"B\"", "; type=\"text/html\"; boundary=\"B\"; start=x", "; boundary=\"B\" ; charset=a", "; boundary=B ;x=y", ";\tboundary = \"B\" " }; all += BF[bform]; all += nl; all += nl;
    int where = sx_choose(3, "where"), form = sx_choose(7, "form"), n = sx_choose((uint32_t)sx_param("len", 3) + 1, "n"); string name; bool q = form < 4;
    for (int i = 0; i < n; i++) { char c = (char)sx_u8("c"); sx_assume((c != 0) & (c != '\n') & (c != '\r') & (c != '"') & (c != '\\')); if (!q) sx_assume((c != ';') & (c != ' ') & (c != '=') & !((c >= 9) & (c <= 13))); name += c; }
    string at = where == 2 ? "name" : "filename"; if (form == 1 || form == 5) for (size_t i = 0; i < at.size(); i++) at[i] -= 32;
    string val = q ? "\"" + name + "\"" : name, par = "; " + at + (form == 3 || form == 6 ? " = " : "=") + val; if (form == 2 || form == 4) par += " ; size=3"; if (form == 3) par = string(";") + nl + " " + par.substr(2) + "; a=b"; if (form == 5) par = "; a=\"b\"" + par;
    all += "--B"; all += nl; if (where == 0) { all += "Content-Disposition: attachment"; all += par; all += nl; } else if (where == 1) { all += string("Content-Type: text/plain; name=other") + nl + "CONTENT-disposition: inline" + par + nl; } else { all += "content-type: text/plain"; all += par; all += nl; }
    all += nl; all += "data"; all += nl; all += "--B"; all += nl; all += "X: y"; all += nl; all += nl; all += "more"; all += nl; all += "--B--"; all += nl; string keep; InputStream* i = in(all, keep); string want = n ? name : where == 1 ? string("other") : string("1");
    { MailInputStream m(i); InputStream* e = m.nextEntry(); sx_assert(e != 0 && m.status() == Ok, "every part is an entry"); if (!e) sx_end(); sx_assert(same(m.entryInfo().filename, want), "the entry has the name of the part"); string d; const char* p; int32_t r; while ((r = (int32_t)sx_conc(e->read(p, 1, 0))) > 0) d.append(p, r); sx_assert(d == string("data") + nl, "the entry delivers the data of the part");
      e = m.nextEntry(); sx_assert(e != 0 && m.entryInfo().filename == "2", "the entry has the name of the part"); sx_assert(m.nextEntry() == 0 && m.status() == Eof, "the mail ends after its parts"); }
    delete i; sx_reach("end");
}
}
// ---- long headers, words, boundaries, parts and many parts
static const int ML[] = { 75, 127, 255, 256, 1023, 1025, 2048, 5000 };
static string sized(int n, int k) { string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 100 + k) % 26); return s; }
static char letter() { unsigned char c = sx_u8("l"); sx_assume((c != '\r') & (c != '\n') & (c != 0) & (c != '=') & (c != '?') & (c != ' ') & !((c >= 9) & (c <= 13))); return (char)c; }
extern "C" {
void h_mail_long() { NoLeak noLeak;
    int f = sx_choose(3, "field") * 4, n = ML[sx_choose(8, "len")], kind = sx_choose(5, "kind"), before = sx_choose(3, "before"); const char* nl = NLS[sx_choose(2, "nl")]; string all, v, w, w2; 
    if (before == 1) all = string("X-Long: ") + sized(n, 1) + nl; else if (before == 2) for (int i = 0; i < 40; i++) all += string("X-") + sized(i, i) + ": y" + nl;
    all += FN[f]; all += ' ';
    if (kind == 0) { v = w = sized(n, 3); w[0] = v[0] = letter(); w[n / 2] = v[n / 2] = letter(); w[n - 1] = v[n - 1] = letter(); w2 = w; }
    else if (kind == 1) { for (int i = 0; i < n; i += 60) { string t = sized(n - i < 60 ? n - i : 60, i); if (i == 60) t[3] = letter(); if (i) { v += nl; v += ' '; w += ""; w2 += ' '; } v += t; w += t; w2 += t; } }
    else if (kind == 2) { w = sized(n, 5); w[1] = w[1]; v = string("=?utf-8?b?") + b64(w) + "?="; w2 = w; }
    else if (kind == 3) { string t; for (int i = 0; i < n; i++) { unsigned char c = (unsigned char)(i * 11); t += '='; t += HX[c >> 4]; t += HX[c & 15]; w += (char)c; } w += letter(); t += w[w.size() - 1]; sx_assume(w[w.size() - 1] != '_'); v = "=?UTF-8?q?" + t + "?="; w2 = w; }
    else { for (int i = 0; i < n; i += 40) { string t = sized(40, i); w += t; v += i ? "\r\n =?utf-8?B?" : "=?utf-8?B?"; v += b64(t); v += "?="; if (i) w2 += ' '; w2 += t; } }
    all += v; all += nl; all += "X: y"; all += nl; all += nl; all += "body"; string keep; InputStream* i = in(all, keep);
    { MailInputStream m(i); sx_assert(m.status() != Error, "a well-formed header is accepted"); const string& r = field(m, f); sx_obs("len", r.size()); string u = w; if (f == 8) u = v; sx_assert(same(r, w) || same(r, w2) || same(r, u), "the field holds the text the header denotes");
      InputStream* b = m.nextEntry(); sx_assert(b != 0, "the body is an entry"); if (!b) sx_end(); const char* p; int32_t k = b->read(p, 100, 100); sx_assert(k == 4 && sameBytes(p, "body", 4), "the body entry is the text after the header"); sx_assert(m.nextEntry() == 0 && m.status() == Eof, "there is one body"); }
    delete i; sx_assert(icOpen == 0, "converters are closed"); sx_reach("end");
}
void h_mail_parts_long() { NoLeak noLeak;
    static const int BL[] = { 1, 69, 70, 127, 200 }, PL[] = { 0, 1, 1022, 1024, 2047, 5000, 40000 }; int byte = sx_choose(2, "byte"), bl = BL[sx_choose(5, "blen")], np = sx_choose(2, "many") ? 12 : 2, kind = sx_choose(3, "kind"); int n = PL[sx_choose(7, "plen")]; if (np > 2 && n > 3000) sx_end(); bool quoted = sx_choose(2, "quoted"); const char* nl = NLS[sx_choose(2, "nl")]; string B = sized(bl, 2), all = "Content-Type: multipart/mixed; boundary="; all += quoted ? "\"" + B + "\"" : B; all += nl; all += nl; std::vector<string> data; static const char* const lead[] = { "X-A: b", "Content-Transfer-Encoding: base64", "X-C: d" };
    for (int k = 0; k < np; k++) { all += "--" + B + nl; all += lead[kind]; all += nl; if (k == 1) { all += "Content-Disposition: attachment; filename=\"" + sized(200, 1) + "\""; all += nl; } all += nl; string d = sized(n, k); if (kind == 2 && n > 10) { for (int i = 0; i + 2 + bl < n; i += bl + 50) d.replace(i, 2 + bl, nl + string("--") + B.substr(0, bl - 1) + "!").resize(n); } // lines that begin like a delimiter
        if (kind == 1) { string e = b64(d), t; for (size_t i = 0; i < e.size(); i += 76) { t += e.substr(i, 76); t += nl; } all += t.empty() ? string(nl) : t; } else { if (n) { d[n / 2] = (char)sx_u8("d"); if (n > 1) { static const unsigned char O[] = { 0, 0x80, 0xff, ' ' }; unsigned char o = O[(k + byte) % 4]; sx_assume((unsigned char)d[n / 2] == o); d[n / 2] = (char)o; } sx_assume((d[n / 2] != '-') & (d[n / 2] != '\r') & (d[n / 2] != '\n')); sx_assume((d[n / 2] != B[bl - 1])); } d += nl; all += d; } data.push_back(d); }
    all += "--" + B + "--"; all += nl; string keep; InputStream* i = in(all, keep); int use = sx_choose(3, "consume");
    { MailInputStream m(i); sx_assert(m.status() == Ok, "a well-formed mail is accepted"); for (int k = 0; k < np; k++) { InputStream* e = m.nextEntry(); sx_assert(e != 0 && m.status() == Ok, "every part is an entry"); if (!e) sx_end(); const string& d = data[k]; string name = k == 1 ? sized(200, 1) : string(k >= 9 ? 1 : 0, '1') + (char)('0' + (k + 1) % 10); sx_assert(m.entryInfo().filename == name, "the entry has the name of the part");
        const char* p; int32_t r; size_t pos = 0; if (use == 0 || (use == 2 && k == np - 1)) { while ((r = (int32_t)sx_conc((uint64_t)(int64_t)e->read(p, 1, 0))) > 0) { sx_assert(pos + r <= d.size() && sameBytes(p, d.data() + pos, r), "the entry delivers the data of the part"); pos += r; if (pos > d.size()) sx_end(); } sx_assert(r == -1 && pos == d.size() && e->status() == Eof, "the entry delivers all data of the part"); } else if (use == 1) { r = e->read(p, 1, 1); sx_assert(d.empty() ? r == -1 : (r == 1 && *p == d[0]), "the entry delivers the data of the part"); } }
      sx_assert(m.nextEntry() == 0 && m.status() == Eof, "the mail ends after its parts"); }
    delete i; sx_reach("end");
}
}
