// C12: base64
#include "client.h"
#include "base64inputstream.h"
static const char* AB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// value of an alphabet character without branching, 64 for others
static int val(unsigned char c) { int v = 64; v = (int)sx_ite(c == '/', 63, v); v = (int)sx_ite(c == '+', 62, v); v = (int)sx_ite((c >= '0') & (c <= '9'), c - '0' + 52, v); v = (int)sx_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, v); v = (int)sx_ite((c >= 'A') & (c <= 'Z'), c - 'A', v); return v; }
static bool ws(unsigned char c) { return (c == ' ') | (c == '\n') | (c == '\r') | (c == '\t'); }
// decodes t[0,n) as the RFC says into out; -1: not a valid encoding
static int spec(const char* t, int n, char* out, bool whitespace) {
    int cnt = 0, o = 0; uint32_t b = 0; int pads = 0;
    for (int i = 0; i < n; i++) {
        unsigned char c = t[i]; int v = val(c);
        int cls = (int)sx_conc((uint64_t)(int)sx_ite(v < 64, 0, sx_ite(c == '=', 1, sx_ite(ws(c), 2, 3)))); // letter, padding, space, other
        if (cls == 3 || (cls == 2 && !whitespace)) return -1;
        if (cls == 2) continue;
        if (cls == 1) { pads++; if (cnt < 2 || pads > 4 - cnt) return -1; continue; }
        if (pads) return -1;
        b = (b << 6) | v; if (++cnt == 4) { out[o++] = (char)(b >> 16); out[o++] = (char)(b >> 8); out[o++] = (char)b; b = 0; cnt = 0; }
    }
    if (cnt == 0) return pads ? -1 : o;
    if (pads != 4 - cnt) return -1;
    if (cnt == 2) out[o++] = (char)(b >> 4); else { out[o++] = (char)(b >> 10); out[o++] = (char)(b >> 2); }
    return o;
}
extern "C" {
void h_b64_stream() { NoLeak noLeak;
    int N = (int)sx_param("len", 8), n = sx_choose(N + 1, "n"); char* t = symData(n, "t"); char* out = keepMem(n + 4); int o = spec(t, n, out, true); if (o < 0) sx_end();
    SymStream in(t, n, (int)sx_param("chunk", CH_MIN), sx_choose(2, "known"), sx_choose(2, "lazy")); Base64InputStream s(&in); Client c(s, out, o); c.run((int)sx_param("ops", 2), (int)sx_param("kinds", 2));
    // and to the end
    while (c.pos < o) { const char* p; int32_t k = (int32_t)sx_conc(s.read(p, 1, 0)); sx_assert(k >= 1 && k <= o - c.pos, "all data is delivered"); if (k < 1) sx_end(); sx_assert(sameBytes(p, out + c.pos, k), "the decoded bytes are delivered"); c.pos += k; }
    const char* p; sx_assert(s.read(p, 1, 0) == -1 && s.status() == Eof && s.size() == o, "the stream ends after the decoded bytes"); sx_obs("n", o); sx_reach("end"); if (o >= 2) sx_reach("data");
}
void h_b64_long() { NoLeak noLeak; // several groups of any letters, reads of every size on every position
    int G = (int)sx_param("groups", 4), pads = sx_choose(3, "pads"), n = 4 * G; char* t = symData(n - pads, "t"); char* x = keepMem(n); memcpy(x, t, n - pads); for (int i = n - pads; i < n; i++) x[i] = '=';
    int ok = 1; uint32_t b = 0; char* out = keepMem(n); int o = 0;
    for (int i = 0; i < n - pads; i++) { int v = val(t[i]); ok &= v < 64; b = (b << 6) | (v & 63); if (i % 4 == 3) { out[o++] = (char)(b >> 16); out[o++] = (char)(b >> 8); out[o++] = (char)b; b = 0; } }
    sx_assume(ok); if (pads == 2) out[o++] = (char)(b >> 4); if (pads == 1) { out[o++] = (char)(b >> 10); out[o++] = (char)(b >> 2); }
    SymStream in(x, n, (int)sx_param("chunk", CH_MIN), sx_choose(2, "known"), false); Base64InputStream s(&in); int ops = (int)sx_param("ops", 3);
    Client c(s, out, o); c.run(ops, 1);
    while (c.pos < o) { const char* p; int32_t k = (int32_t)sx_conc(s.read(p, 1, 0)); sx_assert(k >= 1 && k <= o - c.pos, "all data is delivered"); if (k < 1 || k > o - c.pos) sx_end(); sx_assert(sameBytes(p, out + c.pos, k), "the decoded bytes are delivered"); c.pos += k; }
    const char* p; sx_assert(s.read(p, 1, 0) == -1 && s.status() == Eof && s.size() == o, "the stream ends after the decoded bytes"); sx_reach("end");
}
void h_b64_any() { NoLeak noLeak; // arbitrary text: no memory error, terminates, no more bytes than the text can encode
    int N = (int)sx_param("len", 6), n = sx_choose(N + 1, "n"); char* t = symData(n, "t"); int err = (int)sx_choose(3, "err") == 2 ? (int)sx_choose(n + 1, "errat") : -1;
    SymStream in(t, n, CH_MIN, true, false, err); Base64InputStream s(&in); int64_t total = 0; int32_t k; const char* p; int steps = 0; bool used = err >= 0 && err < n;
    while ((k = s.read(p, 1, (int)sx_param("max", 2))) > 0) { total += k; sx_assert(++steps <= n + 3, "decoding ends"); unsigned char x = 0; for (int i = 0; i < k; i++) x ^= p[i]; sx_obs("x", x); }
    sx_assert(total * 4 <= n * 3, "no bytes are invented"); sx_assert(k == -1 || used, "no error without a cause"); sx_assert(k == -2 || s.status() == Eof, "the end is reported");
    int pad = 0; for (int i = 0; used && i < err; i++) pad |= t[i] == '='; // without padding before it the decoder cannot stop early
    sx_assert(!used || pad || k == -2, "an error of the source is reported");
    sx_assert(k == -1 || s.status() == Error, "an error is reported"); if (k == -2) sx_reach("error"); sx_reach("end");
}
void h_b64_string() { NoLeak noLeak;
    int N = (int)sx_param("len", 8), n = sx_choose(N + 1, "n"); char* t = symData(n, "t"); char* out = keepMem(n + 4); int o = spec(t, n, out, false);
    std::string r = Base64InputStream::decode(t, n); sx_obs("len", r.size());
    if (o >= 0) { sx_assert((int)r.size() == o, "the decoded length"); if ((int)r.size() == o) sx_assert(sameBytes(r.data(), out, o), "the decoded bytes"); sx_reach("valid"); }
    else { sx_assert(r.size() * 4 <= (size_t)n * 3, "no bytes are invented"); sx_reach("invalid"); }
}
}
