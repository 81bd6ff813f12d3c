import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); from seedgen import seed
H=os.path.dirname(os.path.abspath(__file__))
import re; src=open(H+'/batch2.py').read()
exec(re.search(r"PRE='''.*?'''\n", src, re.S).group(0)); exec(re.search(r"TAR='''.*?'''\n", src, re.S).group(0))
b3=open(H+'/batch3.py').read(); exec(re.search(r"DIR='''.*?'''\n", b3, re.S).group(0))
P=PRE.replace('static string all(', DIR+'static string all(',1)
GZ='''#include <zlib.h>
static string gz(const string& s) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, 0); string o(s.size() + 1000, 0); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
'''
seed("s35","C27",[("lib/listinginprogress.cpp","nestingDepth++ < 32","nestingDepth++ < 1")],P.replace("static string all(",GZ+"static string all(",1)+TAR+'''
int main() { string t = tarHeader("f", 5, '0') + padded("hello") + string(1024, 0); for (int k = 0; k < 5; k++) { save("t.tar", t); FileStreamOpener o; ArchiveReader r; r.addStreamOpener(&o); char cwd[1000]; getcwd(cwd, 1000); InputStream* s = r.openStream(string(cwd) + "/t.tar/f"); CHECK(s && all(s) == "hello"); r.closeStream(s); t = gz(t); } return 0; }''',
 "an archive that is compressed three times over", "its members cannot be opened")
seed("s36","C28",[("lib/archivereader.cpp","        done = a.done;\n        url = a.url;","        done = a.done;\n        if (url.empty()) url = a.url;")],P+TAR+'''
int main() { string t = tarHeader("d/x", 5, '0') + padded("hello") + tarHeader("y", 5, '0') + padded("hello") + string(1024, 0); save("t.tar", t); FileStreamOpener o; ArchiveReader r; r.addStreamOpener(&o); char cwd[1000]; getcwd(cwd, 1000); string u = string(cwd) + "/t.tar";
 ArchiveReader::DirLister a = r.dirEntries(u), b = r.dirEntries(u + "/d"); a = b; EntryInfo e; CHECK(a.nextEntry(e) && e.filename == "x"); CHECK(!a.nextEntry(e)); return 0; }''',
 "a listing is assigned to a listing of another directory before either is used", "the wrong directory is listed")
seed("s37","C11",[("lib/dostime.cpp","((int)(dostime >> 21) & 0x0f) - 1;","((int)(dostime >> 21) & 0x0f) - 1 + (ltime.tm_year > 199);")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <dostime.h>\n#include <time.h>")+'''
int main() { setenv("TZ", "UTC", 1); for (unsigned long y = 0; y < 128; y++) { time_t t = dos2unixtime(y << 25 | 5 << 21 | 3 << 16 | 4 << 11 | 6 << 5 | 7); struct tm* m = gmtime(&t); CHECK(m->tm_year == (int)y + 80 && m->tm_mon == 4 && m->tm_mday == 3 && m->tm_hour == 4 && m->tm_min == 6 && m->tm_sec == 14); } return 0; }''',
 "a stamp of the year 2100 or later", "the month is one too many", internal=["dostime.cpp"])
seed("s38","C06",[("lib/mmapfileinputstream.cpp","    if (ntoskip >= m_size - m_position) {","    if ((int32_t)ntoskip >= m_size - m_position) {")],P.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <mmapfileinputstream.h>")+'''
int main() { save("f", "hello"); MMapFileInputStream ms("f"); InputStream& s = ms; CHECK(s.skip(1) == 1); int64_t n = s.skip(0x100000002LL); CHECK(n == 4 && s.position() == 5 && s.status() == Eof); return 0; }''',
 "a skip of more than 4 GB", "only the low 32 bits of the amount decide whether the end is reached; the position leaves the file", internal=["mmapfileinputstream.cpp"])
seed("s39","C05",[("include/strigi/stringstream.h","while (value[length] != '\\0') {","while ((char)value[length] != '\\0') {")],PRE+'''
int main() { wchar_t t[] = {'a', 0x100, 'b', 0x1f600, 0x2000, 'c', 0}; StringReader s(t); CHECK(s.size() == 6); const wchar_t* p; int n = s.read(p, 6, 6); CHECK(n == 6 && !memcmp(p, t, 6 * sizeof(wchar_t))); return 0; }''',
 "a null-terminated wide string with a character whose low byte is zero", "the text ends before that character")
seed("s40","C19",[("lib/oleinputstream.cpp","for (int i = 0; i<127 && (int)batIndex","for (int i = 0; i<128 && (int)batIndex")],PRE+'''
static void w(string& f, size_t at, unsigned v) { f[at] = (char)v; f[at + 1] = (char)(v >> 8); f[at + 2] = (char)(v >> 16); f[at + 3] = (char)(v >> 24); }
// 109 table blocks in the header and 200 more through two extension blocks; two streams of big blocks
int main() { int nb = 309, base = 0, x0 = nb, x1 = nb + 1, dir = nb + 2, d0 = dir + 1; int total = 128 * nb; string f((size_t)(total + 1) * 512, '\\0'); const unsigned char m[] = {0xd0,0xcf,0x11,0xe0,0xa1,0xb1,0x1a,0xe1}; memcpy(&f[0], m, 8); w(f, 0x2c, nb); w(f, 0x30, dir); w(f, 0x3c, -2); w(f, 0x44, x0); w(f, 0x48, 2);
 auto blk = [&](int b) { return (size_t)(b + 1) * 512; };
 for (int i = 0; i < 109; i++) w(f, 0x4c + 4 * i, i); for (int i = 0; i < 127; i++) w(f, blk(x0) + 4 * i, 109 + i); w(f, blk(x0) + 508, x1); for (int i = 0; i < 127; i++) w(f, blk(x1) + 4 * i, 236 + i < nb ? 236 + i : -1); w(f, blk(x1) + 508, -2);
 auto fat = [&](int b, int v) { w(f, blk(b / 128) + 4 * (b % 128), v); };
 for (int i = 0; i < total; i++) fat(i, -1); fat(dir, -2); string want; for (int i = 0; i < 10; i++) { int b = i < 5 ? d0 + i : 128 * 300 + 7 * i, nx = i + 1 < 5 ? d0 + i + 1 : 128 * 300 + 7 * (i + 1); fat(b, i == 9 ? -2 : nx); string c(512, 'a' + i); memcpy(&f[blk(b)], c.data(), 512); want += c; }
 string root = "Root Entry"; for (size_t i = 0; i < root.size(); i++) f[blk(dir) + 2 * i] = root[i]; w(f, blk(dir) + 0x40, 22); f[blk(dir) + 0x42] = 5; w(f, blk(dir) + 0x74, -2);
 f[blk(dir) + 128] = 's'; f[blk(dir) + 128 + 0x40] = 4; f[blk(dir) + 128 + 0x42] = 2; w(f, blk(dir) + 128 + 0x74, d0); w(f, blk(dir) + 128 + 0x78, 5120);
 StringInputStream in(f.data(), (int32_t)f.size(), false); OleInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == "s" && all(e) == want); return 0; }''',
 "a document with more than 236 allocation table blocks", "the table blocks after the first extension block are misplaced by one")
seed("s41","C21",[("lib/mailinputstream.cpp","            } else if (len == blen + 2\n","            } else if (len >= blen + 2 && linestart[len - 1] != '-'\n")],PRE+'''
int main() { string m = "From: me\\nSubject: s\\nTo: you\\nContent-Type: multipart/mixed; boundary=\\"BB\\"\\n\\nsome text\\n--BBnotthis\\n\\nmore text\\n\\n--BB\\nContent-Type: text/plain\\n\\nhello\\n--BB--\\n"; StringInputStream in(m.data(), (int32_t)m.size()); MailInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && all(e) == "hello\\n"); CHECK(!s.nextEntry()); return 0; }''',
 "text before the first part with a line that begins like a delimiter", "that text is delivered as a part")
seed("s42","C20",[("lib/sdfinputstream.cpp","    if (i+1 < size && data[i+1] != '\\n') return data+i+1;","    if (i+1 < max && data[i+1] != '\\n') return data+i+1;")],PRE+'''
int main() { for (int n = 70; n <= 80; n++) { string s = "first\\r" + string(n, 'b') + "\\r\\r  0  0  0  0  0  0  0  0  0  0999 V2000\\rrest of it\\r"; CHECK(SdfInputStream::checkHeader(s.data(), s.size())); } return 0; }''',
 "a header line of exactly 80 characters that ends in a carriage return", "the first character of the next line is lost or the file is not recognised")
seed("s43","C25",[("lib/inputstreamreader.cpp","input->read(begin, 1, charbuf.size - charbuf.avail)","input->read(begin, 1, charbuf.size)")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <strigi/inputstreamreader.h>")+'''
int main() { string t = "a"; for (int i = 0; i < 800; i++) t += "\\xe2\\x82\\xac"; StringInputStream in(t.data(), (int32_t)t.size()); InputStreamReader r(&in, "UTF-8"); const wchar_t* p; int n, k = 0; while ((n = r.read(p, 1, 0)) > 0) for (int i = 0; i < n; i++, k++) CHECK(p[i] == (k ? 0x20ac : 'a')); CHECK(k == 801 && r.status() == Eof); return 0; }''',
 "a text longer than the conversion buffer with a character across its end", "bytes are written past the end of the buffer", asan=True)
seed("s44","C17",[("lib/cpioinputstream.cpp","    if (len > 2 && b[0] == '.' && b[1] == '/') {\n        b += 2;\n        filenamesize -= 2;","    if (len > 2 && b[0] == '.' && b[1] == '/') {\n        b += 2;\n        filenamesize -= (len == 255) ? 4 : 2;")],PRE+'''
static string ent(const string& n, const string& d) { char h[200]; sprintf(h, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 1000, (unsigned)d.size(), 0, 0, 0, 0, (unsigned)n.size() + 1, 0); string s = h + n + '\\0'; while (s.size() % 4) s += '\\0'; s += d; while (s.size() % 4) s += '\\0'; return s; }
int main() { for (int n = 1; n < 600; n++) { string nm(n, 'x'), a = ent("./" + nm, "hello") + ent("TRAILER!!!", ""); StringInputStream in(a.data(), (int32_t)a.size()); CpioInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == nm && all(e) == "hello"); } return 0; }''',
 "a member whose name begins with ./ and has 255 characters", "the last character of the name is lost")
