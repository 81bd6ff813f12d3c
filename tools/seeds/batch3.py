import sys; sys.path.insert(0,'/verif/tools'); from seedgen import seed
import re; src=open('/verif/tools/seeds/batch2.py').read()
exec(re.search(r"PRE='''.*?'''\n", src, re.S).group(0)); exec(re.search(r"TAR='''.*?'''\n", src, re.S).group(0))
DIR='''#include <unistd.h>
#include <sys/stat.h>
static void save(const char* f, const string& s) { FILE* o = fopen(f, "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
'''
P=PRE.replace('static string all(', DIR+'static string all(',1)
LZ='''static string lzma0(size_t n) { return ""; }
'''
seed("s23","C24",[("lib/lzmainputstream.cpp","    if (inProcessed == 0 && outProcessed == 0) {","    if (outProcessed == 0) {")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>")+'''
// "hello hello hello hello\\n" x 40, compressed with lzma -z (python lzma FORMAT_ALONE)
static const unsigned char z[] = {@Z@};
int main() { string want; for (int i = 0; i < 40; i++) want += "hello hello hello hello\\n"; string d((const char*)z, sizeof z); for (int k = 1; k < 60; k++) { In in(d, k); const char* p; LZMAInputStream s(&in); CHECK(s.status() == Ok); string r = all(&s); CHECK(r == want && s.status() == Eof); } return 0; }'''.replace('@Z@', ','.join(map(str, __import__('lzma').compress(b"hello hello hello hello\n"*40, format=__import__('lzma').FORMAT_ALONE, filters=[{"id":__import__('lzma').FILTER_LZMA1,"dict_size":65536}])))),
 "compressed data that arrives in pieces too small to complete a symbol", "a piece that yields no output is taken for the end and reported as an error")
seed("s24","C25",[("lib/encodinginputstream.cpp","            if (p->charbuf.avail) {\n","            if (p->charbuf.avail > 1) {\n")],PRE+'''
int main() { const char* t[] = {"ab\\xc3", "ab\\xe2\\x82", "\\xe2", "x\\xf0\\x9f\\x98"}; for (int i = 0; i < 4; i++) { StringInputStream in(t[i], (int32_t)strlen(t[i])); EncodingInputStream s(&in, "UTF-8", "UTF-16LE"); all(&s); CHECK(s.status() == Error); } return 0; }''',
 "text that ends after the first byte of a character", "the incomplete character is dropped without an error")
seed("s25","C26",[("lib/processinputstream.cpp","memcpy(ar[i], a[i].c_str(), a[i].length()+1);","strncpy(ar[i], a[i].c_str(), a[i].length() > 511 ? 511 : a[i].length()+1);")],PRE+'''
int main() { for (size_t n = 0; n < 3000; n = n * 2 + 1) { vector<string> a; a.push_back("/bin/echo"); a.push_back(string(n, 'a') + "z"); a.push_back("last"); ProcessInputStream s(a); CHECK(all(&s) == a[1] + " last\\n"); } return 0; }''',
 "an argument of more than 511 characters", "the argument is cut short or continues with whatever is in memory")
seed("s26","C27",[("lib/archivereader.cpp","} while (i != partpos.rend() && *i < end);","} while (i != partpos.rend() && *i + 1 < end);")],P+TAR+'''
int main() { const char* names[] = {"d/x", "dir/sub/y", "a/b/c", "plain", "dir/long"}; string t; for (int i = 0; i < 5; i++) t += tarHeader(names[i], 5 + i, '0') + padded(string(5 + i, 'a' + i)); t += string(1024, 0); save("t.tar", t); FileStreamOpener o; ArchiveReader r; r.addStreamOpener(&o); char cwd[1000]; getcwd(cwd, 1000);
 for (int i = 0; i < 5; i++) { InputStream* s = r.openStream(string(cwd) + "/t.tar/" + names[i]); CHECK(s && all(s) == string(5 + i, 'a' + i)); r.closeStream(s); } return 0; }''',
 "a member in a folder of an archive whose own name has a single character", "the member cannot be opened")
seed("s27","C28",[("lib/archivereader.cpp","        entry = a.entry;\n        done = a.done;","        entry = a.entry;")],P+TAR+'''
int main() { string t; for (int i = 0; i < 6; i++) t += tarHeader(string("f") + char('0' + i), 5, '0') + padded("hello"); t += string(1024, 0); save("t.tar", t); save("u.tar", t); FileStreamOpener o; ArchiveReader r; r.addStreamOpener(&o); char cwd[1000]; getcwd(cwd, 1000); string u = string(cwd) + "/t.tar", v = string(cwd) + "/u.tar";
 ArchiveReader::DirLister a = r.dirEntries(u); EntryInfo e; vector<string> n; for (int i = 0; i < 3; i++) { CHECK(a.nextEntry(e)); n.push_back(e.filename); } ArchiveReader::DirLister b = r.dirEntries(v); b = a; while (b.nextEntry(e) && n.size() < 20) n.push_back(e.filename); sort(n.begin(), n.end()); CHECK(n.size() == 6); for (int i = 0; i < 6; i++) CHECK(n[i] == string("f") + char('0' + i)); return 0; }''',
 "a listing that has been used is assigned to another", "entries that were already delivered are delivered again")
seed("s28","C29",[("lib/listinginprogress.cpp","        if (!e->p->nextEntry()) {\n            free(e->streams);","        if (!e->p->nextEntry()) {\n            if (depth == 0) free(e->streams); else e->streams.clear();")],P+TAR+'''
int main() { string i = tarHeader("x", 5, '0') + padded("hello") + string(1024, 0); string t = tarHeader("i.tar", i.size(), '0') + padded(i) + tarHeader("z", 1, '0') + padded("z") + string(1024, 0); save("t.tar", t); char cwd[1000]; getcwd(cwd, 1000);
 { FileStreamOpener o; ArchiveReader r; r.addStreamOpener(&o); ArchiveReader::DirLister a = r.dirEntries(string(cwd) + "/t.tar"); EntryInfo e; int n = 0; while (a.nextEntry(e)) n++; CHECK(n == 2); } return 0; }''',
 "an archive in an archive that is listed to its end", "the streams opened for the inner archive are never released", asan=True)
seed("s29","C30",[("lib/gzipcompressstream.cpp","    if (nread < -1) {\n        m_status = Error;","    if (nread < -1 && input->position() == 0) {\n        m_status = Error;")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <gzipcompressstream.h>\n#include <sstream>\n#include <iostream>")+'''
struct Fails : public BufferedInputStream { int k; Fails(int n) : k(n) {} int32_t fillBuffer(char* s, int32_t) { if (k-- > 0) { *s = 'x'; return 1; } m_status = Error; m_error = "broken"; return -1; } };
int main() { cerr.rdbuf(0); for (int k = 0; k < 6; k++) { Fails f(k); GZipCompressInputStream s(&f, 6); all(&s); CHECK(s.status() == Error); } return 0; }''',
 "an input that fails after it has delivered some data", "the compressed stream ends as if the input were complete", internal=["gzipcompressstream.cpp"])
seed("s30","C31",[("lib/substreamproviderprovider.cpp","    int64_t pos = input->position();","    int64_t pos = input->position() & 0x3ff;")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <strigi/substreamproviderprovider.h>")+'''
int main() { string d(3000, '\1'); for (int pos = 0; pos < 2900; pos += 100) { StringInputStream in(d.data(), 3000); in.reset(pos); SubStreamProviderProvider p; SubStreamProvider* s = p.subStreamProvider(&in); delete s; CHECK(!s && in.position() == pos); } return 0; }''',
 "an input that has been read for 1024 bytes or more", "the input is moved away from where it was")
seed("s31","C16",[("lib/arinputstream.cpp","uint p = atoi(bc+1);","uint p = atoi(bc+1) & 0x3fff;")],PRE+'''
static string hdr(string name, size_t size) { char b[100]; snprintf(b, 100, "%-16s%-12d%-6d%-6d%-8o%-10lu`\\n", name.c_str(), 1000, 0, 0, 0644, (unsigned long)size); return b; }
int main() { string table; vector<int> off; for (int i = 0; i < 700; i++) { off.push_back(table.size()); char b[60]; sprintf(b, "member_with_a_long_name_%04d/\\n", i); table += b; } string a = "!<arch>\\n" + hdr("//", table.size()) + table; if (a.size() % 2) a += '\\n';
 for (int i = 0; i < 700; i += 69) { char b[20]; sprintf(b, "/%d", off[i]); a += hdr(b, 2) + "hi"; } StringInputStream in(a.data(), (int32_t)a.size(), false); ArInputStream s(&in); for (int i = 0; i < 700; i += 69) { char b[60]; sprintf(b, "member_with_a_long_name_%04d", i); InputStream* e = s.nextEntry(); CHECK(e && s.entryInfo().filename == b && all(e) == "hi"); } CHECK(!s.nextEntry()); return 0; }''',
 "a table of file names of more than 16 KB", "members get the names of others")
seed("s32","C06",[("lib/skippingfileinputstream.cpp","n = m_size - m_position + 1;","n = m_size - m_position + (_min > 1024 ? 0 : 1);")],PRE.replace("#include <strigi/textutils.h>","#include <strigi/textutils.h>\n#include <skippingfileinputstream.h>")+DIR+'''
int main() { string d; for (int i = 0; i < 5000; i++) d += (char)(i * 3 + i / 256); save("f", d); for (int first = 0; first < 3; first++) for (int mn = 1; mn < 5200; mn += 97) { SkippingFileInputStream f("f"); InputStream& s = f; const char* p; int32_t n; string r; if (first) { n = s.read(p, first, first); r.assign(p, n); } n = s.read(p, mn, 0); if (n > 0) r.append(p, n); CHECK(n >= mn || (s.status() == Eof && r == d)); r += s.status() == Ok ? all(&s) : ""; CHECK(r == d && s.status() == Eof); } return 0; }''',
 "a read of at least more than 1024 bytes without a maximum that goes past the end", "the end is not reported with the last data", internal=["skippingfileinputstream.cpp"])
seed("s33","C01",[("include/strigi/bufferedstream.h","    if (StreamBase<T>::m_position > StreamBase<T>::m_size\n        && StreamBase<T>::m_size > 0) {","    if (StreamBase<T>::m_position > StreamBase<T>::m_size + (StreamBase<T>::m_size & 1)\n        && StreamBase<T>::m_size > 0) {")],PRE+"""
struct A : public In { A(const string& s, size_t k, int n) : In(s, k) { m_size = n; } };
int main() { for (int n = 1; n < 10; n++) for (int k = 1; k < 12; k++) { A s("0123456789", k, n); string r = all(&s); CHECK(s.status() == Error && (int)r.size() <= n); } return 0; }""",
 "a source that holds exactly one item more than announced, when an odd number was announced", "the item after the announced end is delivered without an error")
seed("s34","C29",[("lib/mailinputstream.cpp","        if (p->substream && p->substream != m_entrystream) {\n            delete p->substream;\n        }\n        p->substream = 0;\n        delete m_entrystream;","        if (p->substream && p->substream != m_entrystream && m_status == Ok) {\n            delete p->substream;\n        }\n        p->substream = 0;\n        delete m_entrystream;")],PRE+'''
struct Fails : public BufferedInputStream { string d; size_t at; Fails(string x) : d(x), at(0) {} int32_t fillBuffer(char* s, int32_t) { if (at < d.size()) { *s = d[at++]; return 1; } m_status = Error; m_error = "broken"; return -1; } };
int main() { string m = "From: me\\nSubject: s\\nTo: you\\nDate: x\\nContent-Type: multipart/mixed; boundary=\\"BB\\"\\n\\n--BB\\nContent-Type: application/x\\nContent-Transfer-Encoding: base64\\nContent-Disposition: attachment; filename=\\"a.bin\\"\\n\\n"; for (int i = 0; i < 3000; i++) m += "QUJDREVGRw==\\n";
 { Fails in(m); MailInputStream s(&in); InputStream* e = s.nextEntry(); CHECK(e); s.nextEntry(); } return 0; }''',
 "a base64 part of a mail whose input fails before the end of the part", "the stream below the decoder is never released", asan=True)
