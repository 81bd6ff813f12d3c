import sys; sys.path.insert(0,'/verif/tools'); from seedgen import seed
PRE='''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <algorithm>
#include <strigi/bufferedstream.h>
#include <strigi/stringstream.h>
#include <strigi/subinputstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include <strigi/processinputstream.h>
#include <strigi/archivereader.h>
#include <strigi/textutils.h>
using namespace Strigi; using namespace std;
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
// hands out its data in pieces of at most n items
template <class T> struct Pieces : public BufferedStream<T> { vector<T> d; size_t at, n; Pieces(vector<T> x, size_t k) : d(x), at(0), n(k) {}
  int32_t fillBuffer(T* s, int32_t space) { if (at == d.size()) return -1; size_t k = n < (size_t)space ? n : space; if (k > d.size() - at) k = d.size() - at; for (size_t i = 0; i < k; i++) s[i] = d[at + i]; at += k; return (int32_t)k; } };
struct In : public Pieces<char> { In(const string& s, size_t k) : Pieces<char>(vector<char>(s.begin(), s.end()), k) {} };
static string all(InputStream* s) { string r; const char* p; int32_t n; while ((n = s->read(p, 1, 0)) > 0) r.append(p, n); return r; }
static void le(string& s, uint64_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); }
static void be(string& s, uint64_t v, int n) { for (int i = n; i--;) s += (char)(v >> (8 * i)); }
'''
TAR='''static string tarHeader(string name, size_t size, char type) { string h(512, 0); h.replace(0, name.size(), name); char b[20]; sprintf(b, "%011lo", (long)size); h.replace(124, 11, b); sprintf(b, "%011lo", 1000L); h.replace(136, 11, b); h.replace(100, 7, "0000644"); h.replace(108, 7, "0000000"); h.replace(116, 7, "0000000"); h[156] = type;
 h.replace(148, 8, "        "); unsigned sum = 0; for (int i = 0; i < 512; i++) sum += (unsigned char)h[i]; sprintf(b, "%06o", sum); h.replace(148, 6, b); h[154] = 0; h[155] = ' '; return h; }
static string padded(string s) { s.resize((s.size() + 511) / 512 * 512, 0); return s; }
'''
CPIO='''static string cpioEntry(string name, string data) { char b[200]; sprintf(b, "070701%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X", 1, 0100644, 0, 0, 1, 1000, (unsigned)data.size(), 0, 0, 0, 0, (unsigned)name.size() + 1, 0); string s(b); s += name; s += '\\0'; while (s.size() % 4) s += '\\0'; s += data; while (s.size() % 4) s += '\\0'; return s; }
'''
seed("s11","C12",[("lib/base64inputstream.cpp","nwritten += 2;","nwritten += 1;")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <base64inputstream.h>")+'''
int main() { string d; for (int i = 0; i < 4000; i++) d += (char)(i * 7 + i / 256); const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string e; for (size_t i = 0; i + 2 < d.size(); i += 3) { unsigned v = (unsigned char)d[i] << 16 | (unsigned char)d[i+1] << 8 | (unsigned char)d[i+2]; for (int k = 18; k >= 0; k -= 6) e += A[v >> k & 63]; } d.resize(d.size() / 3 * 3);
 for (int k = 1; k < 1200; k++) { In in(e, 4096); Base64InputStream s(&in); const char* p; int32_t n = s.read(p, k, k); string r; if (n > 0) r.assign(p, n); r += all(&s); CHECK(r == d); } return 0; }''',
 "a read whose size is two more than a multiple of three", "a byte written to the buffer is not counted and overwritten by the next", internal=["base64inputstream.cpp"])
seed("s12","C12",[("lib/base64inputstream.cpp","        if (inalphabet[c[0]]  && inalphabet[c[1]] && inalphabet[c[2]]) {","        if (inalphabet[c[0]]  && inalphabet[c[1]] && c[2]) {")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <base64inputstream.h>")+'''
int main() { CHECK(Base64InputStream::decode("QUI=", 4) == "AB"); CHECK(Base64InputStream::decode("QUE=", 4) == "AA"); string r = Base64InputStream::decode("QU?=", 4); CHECK(r.size() * 4 <= 12); 
 for (int c = 1; c < 256; c++) { string s = "QU"; s += (char)c; s += '='; bool ok = isalnum(c) || c == '+' || c == '/'; r = Base64InputStream::decode(s.c_str(), 4); if (c == '=') CHECK(r == "A"); else if (!ok) CHECK(r.empty()); } return 0; }''',
 "a last group whose third character is not in the alphabet", "bytes are invented from a table entry that was never set", internal=["base64inputstream.cpp"])
seed("s13","C14",[("lib/tarinputstream.cpp","    if (left) {\n        left = 512 - left;","    if (left >= 0) {\n        left = 512 - left;")],PRE+TAR+'''
int main() { for (size_t len = 120; len < 1030; len++) { string name(len, 'n'); name[len / 2] = '/'; string nm = name; nm += '\\0'; string t = tarHeader("././@LongLink", nm.size(), 'L') + padded(nm) + tarHeader(name.substr(0, 100), 5, '0') + padded("hello") + tarHeader("second", 3, '0') + padded("abc") + string(1024, 0);
 StringInputStream in(t.data(), (int32_t)t.size(), false); TarInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == name && all(e) == "hello"); e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "second" && all(e) == "abc"); CHECK(!s.nextEntry() && s.status() == Eof); } return 0; }''',
 "a long name that takes a whole number of blocks", "a whole block too many is skipped after the name and the member is lost")
ZIP='''static string zipEntry(string name, string data, size_t extra, unsigned flags = 0, unsigned size = 0xfffffff0, unsigned csize = 0xfffffff0) { string s("PK\\3\\4"); le(s, 20, 2); le(s, flags, 2); le(s, 0, 2); le(s, 0x5000, 2); le(s, 0x4e21, 2); le(s, 0, 4); le(s, csize == 0xfffffff0 ? data.size() : csize, 4); le(s, size == 0xfffffff0 ? data.size() : size, 4); le(s, name.size(), 2); le(s, extra, 2); s += name; s += string(extra, 'x'); return s + data; }
'''
seed("s14","C15",[("lib/zipinputstream.cpp","int64_t extralen = readLittleEndianUInt16(hb + 28);","int64_t extralen = readLittleEndianInt16(hb + 28);")],PRE+ZIP+'''
int main() { size_t x[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 40000, 65535}; for (int i = 0; i < 10; i++) { string z = zipEntry("one", "hello", x[i]) + zipEntry("two", "abc", 0) + string("PK\\1\\2") + string(60, 0); StringInputStream in(z.data(), (int32_t)z.size(), false); ZipInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "one" && all(e) == "hello"); e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "two" && all(e) == "abc"); CHECK(!s.nextEntry() && s.status() == Eof); } return 0; }''',
 "a member with an extra field of 32 KB or more", "the length of the extra field is taken as negative")
seed("s15","C17",[("lib/cpioinputstream.cpp","padding = (char)(m_entryinfo.size % 4);","padding = (char)((int16_t)m_entryinfo.size % 4);")],PRE+CPIO+'''
int main() { for (int n = 0; n < 70000; n = n < 8 ? n + 1 : n * 2 + 1) { string d(n, 'd'); string c = cpioEntry("one", d) + cpioEntry("two", "abc") + cpioEntry("TRAILER!!!", ""); StringInputStream in(c.data(), (int32_t)c.size(), false); CpioInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && all(e) == d); e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "two" && all(e) == "abc"); CHECK(!s.nextEntry() && s.status() == Eof); } return 0; }''',
 "a member of 32 KB or more (modulo 64 KB) whose size is not a multiple of four", "the padding after the member is computed wrongly and the following member is lost")
seed("s16","C18",[("lib/rpminputstream.cpp","    nindex = readBigEndianInt32(b+8);\n    hsize = readBigEndianInt32(b+12);","    nindex = readBigEndianInt32(b+8);\n    hsize = readBigEndianUInt16(b+14);")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <zlib.h>")+CPIO+'''
static string gz(const string& d) { string o(d.size() + 1000, 0); z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
int main() { size_t hs[] = {32, 1000, 65535, 65536, 65600, 131072 + 8}; for (int i = 0; i < 6; i++) { string r("\\xed\\xab\\xee\\xdb\\3\\0", 6); r.resize(96, 0); string m("\\x8e\\xad\\xe8\\1\\0\\0\\0\\0", 8); r += m; be(r, 0, 4); be(r, 16, 4); r += string(16, 's'); r += m; be(r, 0, 4); be(r, hs[i], 4); r += string(hs[i], 'h'); r += gz(cpioEntry("one", "hello") + cpioEntry("TRAILER!!!", ""));
 StringInputStream in(r.data(), (int32_t)r.size(), false); RpmInputStream s(&in); CHECK(s.status() == Ok); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "one" && all(e) == "hello"); CHECK(!s.nextEntry() && s.status() == Eof); } return 0; }''',
 "a package whose header store is 64 KB or larger", "the payload is looked for in the middle of the header")
seed("s17","C19",[("lib/oleinputstream.cpp","bid = sbatIndex[bid]+1;","bid = sbatIndex[0]+1+bid;")],PRE+'''
// a document with one stream of small blocks whose chain runs through all small blocks in the given order
static void put(string& s, size_t at, uint32_t v, int n = 4) { for (int i = 0; i < n; i++) s[at + i] = (char)(v >> (8 * i)); }
static int go(bool apart) { int nSmall = 180; // sectors: 0 BAT, 1 directory, then SBAT (2 sectors), then 23 sectors of small blocks
  int sbat0 = 2, sbat1 = apart ? 26 : 3; vector<int> data; for (int i = 3; (int)data.size() < 23; i++) if (i != sbat1) data.push_back(i); int nsect = 28; string d((nsect + 1) * 512, 0);
  static const unsigned char mg[8] = {0xd0,0xcf,0x11,0xe0,0xa1,0xb1,0x1a,0xe1}; memcpy(&d[0], mg, 8); put(d, 0x18, 0x3e, 2); put(d, 0x1a, 3, 2); put(d, 0x1c, 0xfffe, 2); put(d, 0x1e, 9, 2); put(d, 0x20, 6, 2); put(d, 0x2c, 1); put(d, 0x30, 1); put(d, 0x38, 4096); put(d, 0x3c, sbat0); put(d, 0x40, 2); put(d, 0x44, -2); put(d, 0x48, 0); put(d, 0x4c, 0); for (int i = 1; i < 109; i++) put(d, 0x4c + 4 * i, -1);
  size_t bat = 512; for (int i = 0; i < 128; i++) put(d, bat + 4 * i, -1); put(d, bat, -3); put(d, bat + 4, -2); put(d, bat + 4 * sbat0, sbat1); put(d, bat + 4 * sbat1, -2); for (size_t i = 0; i < data.size(); i++) put(d, bat + 4 * data[i], i + 1 < data.size() ? data[i + 1] : -2);
  size_t dir = 1024; const char* nm[2] = {"Root Entry", "Data"}; for (int k = 0; k < 2; k++) { size_t o = dir + 128 * k; int l = strlen(nm[k]); for (int i = 0; i < l; i++) d[o + 2 * i] = nm[k][i]; put(d, o + 0x40, 2 * l + 2, 2); d[o + 0x42] = k ? 2 : 5; d[o + 0x43] = 1; put(d, o + 0x44, -1); put(d, o + 0x48, -1); put(d, o + 0x4c, k ? -1 : 1); }
  // the stream takes the small blocks 120..179: its chain crosses from the first table sector into the second
  string want; put(d, dir + 0x74, data[0]); put(d, dir + 0x78, nSmall * 64); put(d, dir + 128 + 0x74, 120); put(d, dir + 128 + 0x78, 60 * 64 - 10);
  for (int b = 0; b < 256; b++) { size_t o = (size_t)(b < 128 ? sbat0 : sbat1) * 512 + 512 + 4 * (b % 128); put(d, o, b >= 120 && b < 179 ? b + 1 : b == 179 ? -2 : -1); }
  for (int b = 0; b < nSmall; b++) { size_t o = (size_t)(data[b / 8] + 1) * 512 + 64 * (b % 8); for (int i = 0; i < 64; i++) { d[o + i] = (char)(b * 3 + i); if (b >= 120) want += d[o + i]; } } want.resize(60 * 64 - 10);
  StringInputStream in(d.data(), (int32_t)d.size(), false); OleInputStream s(&in); CHECK(s.status() == Ok); InputStream* e = s.nextEntry(); CHECK(e); string g = all(e); CHECK(g == want && e->status() == Eof); return 0; }
int main() { return go(false) || go(true); }''',
 "more than 128 small blocks with the sectors of their allocation table apart from each other", "the chain of a small stream is followed in a sector that is not part of the table")
seed("s18","C20",[("lib/sdfinputstream.cpp","int max = min(size, 81);","int max = min(size, 80);")],PRE+'''
int main() { for (int n = 0; n <= 80; n++) for (int l = 0; l < 3; l++) { string ln[3] = {"name", "prog", "comment"}; ln[l] = string(n, 'x'); string t = ln[0] + "\\n" + ln[1] + "\\n" + ln[2] + "\\n  1  0  0  0  0  0  0  0  0  0  1 V2000\\nrest of the file\\n"; CHECK(SdfInputStream::checkHeader(t.data(), (int32_t)t.size())); } return 0; }''',
 "a header line of exactly 80 characters", "a valid molecule file is not recognised")
seed("s19","C13",[("lib/mailinputstream.cpp","end - v > 2 && isxdigit(v[1])","end - v > 3 && isxdigit(v[1])")],PRE+'''
int main() { const char* w[] = {"a=41", "=41", "=C3=A9", "ab=20=21", "caf=C3=A9"}, *r[] = {"aA", "A", "\\xc3\\xa9", "ab !", "caf\\xc3\\xa9"}; for (int i = 0; i < 5; i++) { string m = string("From: me\\nSubject: =?UTF-8?Q?") + w[i] + "?=\\nTo: you\\nDate: x\\nMessage-ID: y\\n\\nbody\\n"; StringInputStream in(m.data(), (int32_t)m.size(), false); MailInputStream s(&in); s.nextEntry(); CHECK(s.subject() == r[i]); } return 0; }''',
 "an encoded word whose last character is escaped", "the escape at the end of the word is not decoded")
seed("s20","C21",[("lib/mailinputstream.cpp","    m_contenttransferencoding.resize(0);\n    m_contentdisposition.resize(0);","    m_contenttransferencoding.resize(0);")],PRE+'''
int main() { string m = "From: me\\nSubject: s\\nTo: you\\nDate: x\\nContent-Type: multipart/mixed; boundary=\\"BB\\"\\n\\n--BB\\nContent-Type: text/plain\\nContent-Disposition: attachment; filename=\\"a.txt\\"\\n\\none\\n--BB\\nContent-Type: text/plain\\n\\ntwo\\n--BB--\\n";
 StringInputStream in(m.data(), (int32_t)m.size(), false); MailInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "a.txt"); all(e); e = s.nextEntry(); CHECK(e && s.entryInfo().filename != "a.txt"); return 0; }''',
 "a part with a file name followed by one without", "the second part inherits the name of the first")
seed("s21","C22",[("lib/gzipinputstream.cpp","        if (zstream.avail_in) {\n            p->input->reset","        if (zstream.avail_in > 1) {\n            p->input->reset")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <zlib.h>")+'''
static string gz(const string& d) { string o(d.size() + 1000, 0); z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
int main() { string g = gz("hello world"); for (int k = 0; k < 5; k++) { string t = g + string("tail").substr(0, k); StringInputStream in(t.data(), (int32_t)t.size(), false); GZipInputStream s(&in); CHECK(all(&s) == "hello world"); CHECK(in.position() == (int64_t)g.size()); } return 0; }''',
 "exactly one byte after the compressed data", "the byte after the compressed data is swallowed")
seed("s22","C23",[("lib/bz2inputstream.cpp","        m_error = \"BZ_DATA_ERROR\";\n        m_status = Error;\n        return -1;","        m_error = \"BZ_DATA_ERROR\";\n        if (nwritten == 0) m_status = Error;\n        return -1;")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <bzlib.h>")+"""
int main() { string d; for (int i = 0; i < 3000; i++) d += (char)(i % 61 + i / 900); string o(d.size() * 2 + 1000, 0); unsigned ol = o.size(); CHECK(BZ2_bzBuffToBuffCompress(&o[0], &ol, &d[0], d.size(), 1, 0, 0) == BZ_OK); o.resize(ol);
 for (size_t k = 10; k < o.size(); k++) { string b = o; b[k] ^= 0x10; StringInputStream in(b.data(), (int32_t)b.size(), false); BZ2InputStream s(&in); string r = all(&s); CHECK(s.status() == Error || r == d); } return 0; }""",
 "data whose checksum does not match, found in the call that also delivers data", "damaged data passes as complete")
