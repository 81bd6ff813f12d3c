// C31: which format data is taken for
#include "common.h"
#include <strigi/archivereader.h>
#include <strigi/tarinputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <string>
#include <typeinfo>
using std::string;
struct Fmt { bool (*check)(const char*, int32_t); const char* magic; int len, min; };
static bool starts(const char* b, int n, const char* m, int l) { return n >= l ? sameBytes(b, m, l) : false; }
extern "C" {
// formats with a magic number: every beginning of every size, in a block of exactly that size
void h_magic() { NoLeak noLeak;
    static const Fmt F[] = { { RpmInputStream::checkHeader, "\xed\xab\xee\xdb\3\0", 6, 6 }, { ArInputStream::checkHeader, "!<arch>\n", 8, 8 }, { ZipInputStream::checkHeader, "PK\3\4", 4, 9 }, { CpioInputStream::checkHeader, "070701", 6, 6 }, { OleInputStream::checkHeader, "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", 8, 9 }, { GZipInputStream::checkHeader, "\x1f\x8b", 2, 3 } };
    int n = sx_choose(14, "n"), k = sx_choose(6, "format"); const Fmt& f = F[k]; char* b = symData(n, "b"); bool want = n >= f.min && starts(b, n, f.magic, f.len), got = f.check(b, n); sx_assert(got == want, "exactly data with the mark of the format is recognised"); got = sx_conc(got); sx_obs("got", got); if (got) sx_reach("yes"); else sx_reach("no");
}
void h_tarhead() { NoLeak noLeak; // a zero block with some bytes set
    int n = 255 + sx_choose(4, "n"); char* h = keepMem(n); memset(h, 0, n); static const int P[] = { 0, 1, 2, 98, 99, 100, 106, 107, 115, 123, 135, 147, 156, 255, 256, 257 }; int k = (int)sx_param("set", 3), last = -1;
    int len = (int)(sx_choose(2, "long") ? 97 + sx_choose(4, "namelen") : sx_choose(3, "namelen")); for (int i = 0; i < len; i++) h[i] = 'n'; if (sx_choose(2, "mode")) { h[101] = '6'; }
    while (k-- > 0) { int i = sx_choose(16, "at"); if (i < last) sx_end(); last = i; if (P[i] < n) h[P[i]] = (char)sx_u8("v"); }
    bool want = n >= 257; if (want) { int z = 0, bad = 0, any = 0; for (int i = 0; i < 100; i++) { int nul = h[i] == 0; bad |= z & !nul; z |= nul; } for (int i = 100; i < 256; i++) any |= h[i] != 0; want = !bad & any & !h[107] & !h[115] & !h[123] & ((!h[135]) | (h[135] == ' ')) & ((!h[147]) | (h[147] == ' ')) & !h[256]; }
    bool got = TarInputStream::checkHeader(h, n); sx_assert(got == want, "exactly tar headers are recognised"); got = sx_conc(got); if (got) sx_reach("yes"); else sx_reach("no");
}
// what RFC 822 says about a beginning of a mail: names of printable characters, a colon, text, folded lines, a blank line, text
static bool mailSpec(const char* b, int n) {
    int at = 0; // 0 in a name, 1 in a value, 2 after CR in a value, 3 at the start of a line, 4 after CR at the start of a line, 5 in the body
    for (int i = 0; i < n; i++) { unsigned char c = b[i]; int k = (int)sx_conc(sx_ite(c == ':', 0, sx_ite((c == ' ') | (c == '\t'), 1, sx_ite(c == '\r', 2, sx_ite(c == '\n', 3, sx_ite(c >= 128, 4, sx_ite((c < 32) | (c == 127), 5, 6)))))));
        if (at == 4) { if (k != 3) return false; at = 5; continue; } if (at == 5) { if (k == 4) return false; continue; } if (at == 2) { if (k == 3) { at = 3; continue; } at = 1; }
        if (at == 3) { if (k == 1) { at = 1; continue; } if (k == 2) { at = 4; continue; } at = 0; }
        if (at == 0) { if (k == 0) at = 1; else if (k != 6) return false; continue; }
        if (k == 2) at = 2; else if (k == 4) return false; }
    return true; }
void h_mailhead() { NoLeak noLeak;
    static const char* const S[] = { "", "Subject", "From:x\r\n", "a:b\r\n\r\n", "a:b\r", "a:b\r\n\r" }; string pre = S[sx_choose(6, "start")]; int m = sx_choose((uint32_t)sx_param("len", 4) + 1, "n"), n = (int)pre.size() + m; char* b = keepMem(n); memcpy(b, pre.data(), pre.size()); for (int i = 0; i < m; i++) b[pre.size() + i] = (char)sx_u8("b");
    bool want = mailSpec(b, n), got = MailInputStream::checkHeader(b, n); sx_assert(got == want, "exactly data that can begin a mail is recognised"); got = sx_conc(got); if (got) sx_reach("yes"); else sx_reach("no");
}
// the chooser: the kind the header shows, and the input unmoved
void h_chooser() { NoLeak noLeak;
    static const char SDF[] = "a\nb\nc\nx V2000\nrest"; int kind = sx_choose(4, "kind"); string d; int n = 1 + sx_choose((uint32_t)sx_param("len", 3), "n"); if (kind == 1) d = string("PK\3\4", 4) + string(6, '\0'); else if (kind == 2) d = SDF; else if (kind == 3) d = "From:x\r\n\r\n"; 
    if (kind == 0 && sx_choose(2, "empty")) n = 0; for (int i = 0; i < n; i++) d += (char)sx_u8("b"); static const int ST[] = { 0, 1, 1023, 1024, 1025, 4097 }; int start = ST[sx_choose(6, "start")]; if (start) d = string(start, 'y') + d; SymStream in(d.data(), d.size(), sx_choose(2, "split") ? CH_MIN : CH_MAX, true, sx_choose(2, "lazy")); const char* p; if (start) in.read(p, start, start);
    const char* r = d.data() + start; int m = (int)d.size() - start; bool mail = MailInputStream::checkHeader(r, m), zip = ZipInputStream::checkHeader(r, m), sdf = SdfInputStream::checkHeader(r, m); if (in.chunk == CH_MIN) { mail = m > 0; }
    SubStreamProviderProvider c; SubStreamProvider* s = c.subStreamProvider(&in);
    if (in.chunk == CH_MAX) { sx_assert((s != 0) == (m > 0 && (mail || zip || sdf)), "exactly recognised data is opened"); if (s) { if (mail) { sx_assert(typeid(*s) == typeid(MailInputStream), "mails are opened as mails"); sx_reach("mail"); } else if (zip) { sx_assert(typeid(*s) == typeid(ZipInputStream), "zip archives are opened as zip archives"); sx_reach("zip"); } else { sx_assert(typeid(*s) == typeid(SdfInputStream), "molecule files are opened as molecule files"); sx_reach("sdf"); } } else sx_reach("none"); }
    if (!s) sx_assert(in.position() == start, "the input is not moved"); delete s; sx_reach("end");
}
}
