// C25: character conversion streams
#include "common.h"
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <iconv.h>
#include <errno.h>
#include <string>
#include <vector>
using std::string;
// iconv model. The input encoding "toy": 00-7f one byte character -> itself; 80-9f d: two bytes -> two bytes c, d (one character c * 256 + d);
// a0-bf: one byte -> three bytes c 'x' 'y' (one unit when converting to characters); c0-cf d e: three bytes -> one unit d^e; d0-ff: invalid.
// As the real function: converts as much as possible, then E2BIG, EINVAL (incomplete) or EILSEQ, pointers after the last character converted.
static int icBytes, icChars, icOpen; static const char* icTo;
template <class T> static int unit(const unsigned char* in, size_t il, T* out, int& used) { // units produced, 0 incomplete, -1 invalid
    unsigned char c = in[0]; int k = (int)sx_conc(sx_ite(c < 0x80, 0, sx_ite(c < 0xa0, 1, sx_ite(c < 0xc0, 2, sx_ite(c < 0xd0, 3, 4)))));
    if (k == 4) return -1; used = k == 1 ? 2 : k == 3 ? 3 : 1; if (il < (size_t)used) return 0; out[0] = k == 3 ? in[1] ^ in[2] : c;
    if (k == 1) { if (sizeof(T) == 1) { out[1] = in[1]; return 2; } out[0] = (T)(c << 8 | in[1]); } if (k == 2 && sizeof(T) == 1) { out[1] = 'x'; out[2] = 'y'; return 3; } return 1; }
template <class T> static size_t conv(char** in, size_t* il, char** out, size_t* ol) {
    while (*il) { T o[3]; int used; int n = unit((const unsigned char*)*in, *il, o, used); if (n < 0) { errno = EILSEQ; return (size_t)-1; } if (n == 0) { errno = EINVAL; return (size_t)-1; }
        if (*ol < n * sizeof(T)) { errno = E2BIG; return (size_t)-1; } memcpy(*out, o, n * sizeof(T)); *out += n * sizeof(T); *ol -= n * sizeof(T); *in += used; *il -= used; }
    return 0; }
extern "C" {
iconv_t __wrap_iconv_open(const char* to, const char* from) { sx_assert(from != 0, "the converter is opened for an encoding"); if (!from || strcmp(from, "toy")) { errno = EINVAL; return (iconv_t)-1; } if (!strcmp(to, "WCHAR_T")) { icOpen++; return (iconv_t)&icChars; } if (!strcmp(to, icTo)) { icOpen++; return (iconv_t)&icBytes; } errno = EINVAL; return (iconv_t)-1; }
int __wrap_iconv_close(iconv_t c) { sx_assert(c == (iconv_t)&icBytes || c == (iconv_t)&icChars, "only open converters are closed"); icOpen--; return 0; }
size_t __wrap_iconv(iconv_t c, char** in, size_t* il, char** out, size_t* ol) {
    sx_assert(c == (iconv_t)&icBytes || c == (iconv_t)&icChars, "only open converters are used"); if (!in || !*in) return 0; *il = sx_conc(*il); *ol = sx_conc(*ol);
    return c == (iconv_t)&icBytes ? conv<unsigned char>(in, il, out, ol) : conv<wchar_t>(in, il, out, ol); }
}
// reads s to its end with some freedom
template <class T, class U> static void consume(StreamBase<T>& s, const std::vector<U>& want, bool bad) {
    size_t pos = 0; const T* p = 0; int32_t r; int ops = (int)sx_param("ops", 2); int64_t segA = -1, segB = 0;
    for (;;) {
        int op = ops-- > 0 ? sx_choose(3, "op") : 0;
        if (op == 2) { if (segA < 0) continue; int64_t t = segA + sx_choose((uint32_t)(segB - segA + 1), "to"); sx_assert(s.reset(t) == t && s.position() == t, "the stream can be rewound over the data last read"); pos = t; segA = -1; continue; }
        if (op == 1) { int64_t k = s.skip(1); if (k == 1) { sx_assert(pos < want.size(), "no data is invented"); if (pos >= want.size()) sx_end(); pos++; segA = -1; continue; } r = s.status() == Error ? -2 : -1; sx_assert(k <= 0, "no more is skipped than asked"); if (r == -1) sx_assert(s.status() == Eof, "skip stops only at the end"); break; }
        int min = 1 + (ops >= 0 ? (int)sx_choose(3, "min") : 0), max = ops >= 0 ? (int)sx_choose(4, "max") : 0; r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, min, max)); if (r <= 0) break;
        sx_assert(pos + r <= want.size(), "no data is invented"); if (pos + r > want.size()) sx_end(); int ok = 1; for (int i = 0; i < r; i++) ok &= (U)p[i] == want[pos + i]; sx_assert(ok, "the data is the converted text"); segA = pos; pos += r; segB = pos; sx_obs("r", r);
        sx_assert(s.position() == (int64_t)pos, "position equals the items consumed"); sx_assert(s.status() != Eof || (pos == want.size() && !bad), "the end is reported only at the end"); sx_assert(r >= min || s.status() == Eof, "a short read announces the end"); sx_assert(max < min || r <= max, "read delivers at most max");
    }
    if (bad) { sx_assert(r == -2 && s.status() == Error && s.error() && s.error()[0], "invalid or unreadable text is an error with a message"); sx_reach("error"); }
    else { sx_assert(r == -1 && s.status() == Eof, "valid text ends normally"); sx_assert(pos == want.size() && s.size() == (int64_t)pos, "all text is delivered"); sx_reach("end"); }
}
template <class U> static void spec(const string& t, std::vector<U>& want, bool& bad) { size_t i = 0; bad = false; while (i < t.size()) { U o[3]; int used; int n = unit((const unsigned char*)t.data() + i, t.size() - i, o, used); if (n <= 0) { bad = true; return; } want.insert(want.end(), o, o + n); i += used; } }
static string text() { string t; int lead = (int)sx_param("lead", 0); if (lead) { lead = 258 + (int)sx_choose(6, "lead"); t = string(lead, 'l'); } int n = sx_choose((uint32_t)sx_param("len", 4) + 1, "n"); for (int i = 0; i < n; i++) t += (char)sx_u8("c"); return t; }
template <class S> static SymStream* input(const string& t, int& err) { err = sx_param("err", 0) ? (int)sx_choose((uint32_t)t.size() + 1, "errat") : -1; return new SymStream(t.data(), t.size(), (int)sx_param("chunk", CH_SYM), true, sx_choose(2, "lazy"), err); }
extern "C" {
void h_enc_bytes() { NoLeak noLeak;
    static const char* const TO[] = { 0, "UTF-8", "other" }; int to = sx_param("lead", 0) ? 0 : sx_choose(3, "to"); icTo = to == 2 ? "other" : "UTF-8"; string t = text(); int err; SymStream* in = input<char>(t, err); std::vector<unsigned char> want; bool bad; spec(t, want, bad);
    { EncodingInputStream s(in, "toy", TO[to]); sx_assert(s.status() == Ok, "a known encoding is accepted"); consume(s, want, bad || (err >= 0 && err < (int)t.size())); }
    sx_assert(icOpen == 0, "converters are closed"); delete in; sx_reach("done");
}
void h_enc_chars() { NoLeak noLeak;
    icTo = ""; string t = text(); int err; SymStream* in = input<char>(t, err); std::vector<wchar_t> want; bool bad; spec(t, want, bad);
    { InputStreamReader s(in, "toy"); sx_assert(s.status() == Ok, "a known encoding is accepted"); consume(s, want, bad || (err >= 0 && err < (int)t.size())); }
    sx_assert(icOpen == 0, "converters are closed"); delete in; sx_reach("done");
}
void h_enc_bytes_long() { h_enc_bytes(); }
void h_enc_chars_long() { h_enc_chars(); }
void h_enc_err() { NoLeak noLeak; if (sx_choose(2, "chars")) h_enc_chars(); else h_enc_bytes(); }
void h_enc_long() { NoLeak noLeak; // texts over several conversion buffers: one- and two-byte characters, some free bytes, more characters
    static const int PC[] = { CH_MAX, 100, 261, 263 }, TL[] = { 0, 1, 259, 262, 300, 800 }; bool chars = sx_choose(2, "chars"); int lead = sx_choose(3, "buffers") * 262, off = sx_choose(5, "off"), two = sx_choose(2, "two"), tl = TL[sx_choose(6, "tail")], n = (int)sx_param("len", 2); string t;
    lead += off - 3; for (int i = 0; i < lead; i++) t += two ? (char)(i & 1 ? 'a' + i % 26 : 0x85) : (char)('a' + i % 26); if (two && lead > 0 && (lead & 1)) t += 'z'; int f = sx_choose((uint32_t)n + 1, "n"); for (int i = 0; i < f; i++) t += (char)sx_u8("c"); for (int i = 0; i < tl; i++) t += (char)('A' + i % 26);
    SymStream* in = new SymStream(t.data(), t.size(), PC[sx_choose(4, "piece")], true, sx_choose(2, "lazy"), -1); icTo = "UTF-8";
    if (chars) { std::vector<wchar_t> want; bool bad; spec(t, want, bad); InputStreamReader s(in, "toy"); consume(s, want, bad); } else { std::vector<unsigned char> want; bool bad; spec(t, want, bad); EncodingInputStream s(in, "toy", 0); consume(s, want, bad); }
    sx_assert(icOpen == 0, "converters are closed"); delete in; sx_reach("done");
}
void h_enc_unknown() { NoLeak noLeak; // unknown or missing encodings
    icTo = "UTF-8"; int k = sx_choose(4, "k"); SymStream in("abc", 3, CH_MAX, true, false);
    if (k < 3) { EncodingInputStream s(&in, k == 0 ? 0 : k == 1 ? "what" : "toy", k == 2 ? "what" : 0); const char* p; sx_assert(s.status() == Error && s.error() && s.error()[0], "an unknown encoding is an error with a message"); sx_assert(s.read(p, 1, 0) == -2 && s.skip(1) <= 0, "no data after an error"); }
    else { InputStreamReader s(&in, sx_choose(2, "null") ? 0 : "what"); const wchar_t* p; sx_assert(s.status() == Error && s.error() && s.error()[0], "an unknown encoding is an error with a message"); sx_assert(s.read(p, 1, 0) == -2 && s.skip(1) <= 0, "no data after an error"); }
    sx_assert(icOpen == 0, "converters are closed"); sx_reach("done");
}
}
