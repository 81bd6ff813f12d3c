import sys; sys.path.insert(0,'/verif/tools'); from seedgen import seed
PRE='''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <strigi/bufferedstream.h>
#include <strigi/stringstream.h>
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/textutils.h>
#include <strigi/kmpsearcher.h>
using namespace Strigi; using namespace std;
#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)
// hands out its data in pieces of at most n items
template <class T> struct Pieces : public BufferedStream<T> { vector<T> d; size_t at, n; Pieces(vector<T> x, size_t k) : d(x), at(0), n(k) {}
  int32_t fillBuffer(T* s, int32_t space) { if (at == d.size()) return -1; size_t k = n < (size_t)space ? n : space; if (k > d.size() - at) k = d.size() - at; for (size_t i = 0; i < k; i++) s[i] = d[at + i]; at += k; return (int32_t)k; } };
'''
seed("s01", "C02", [("include/strigi/bufferedstream.h","-d <= buffer.avail","-d < buffer.avail")], PRE+'''
int main() { string t = "abcdefgh"; Pieces<char> s(vector<char>(t.begin(), t.end()), 4); const char* p;
 CHECK(s.read(p, 4, 4) == 4); CHECK(s.reset(1) == 1); CHECK(s.reset(4) == 4); CHECK(s.read(p, 2, 2) == 2 && !memcmp(p, "ef", 2)); return 0; }''',
 "a rewind into the data last read followed by a forward reset to exactly its end", "the forward reset is refused although the position lies in the segment last read")
seed("s02", "C02", [("include/strigi/streambuffer.h","std::memmove(start, readPos, avail*sizeof(T));","std::memmove(start, readPos, avail*(sizeof(T) > 1 ? 2 : 1));")], PRE+'''
int main() { vector<wchar_t> d; for (int i = 0; i < 200; i++) d.push_back(1000 + i); Pieces<wchar_t> s(d, 7); const wchar_t* p; size_t pos = 0;
 while (pos < d.size()) { int32_t n = s.read(p, 5, 6); if (n < 0) break; for (int i = 0; i < n; i++) CHECK(p[i] == d[pos + i]); pos += n; if (s.status() != Ok) break; if (n > 4) { pos -= 3; CHECK(s.reset(pos) == pos); } } CHECK(pos >= d.size() - 3); return 0; }''',
 "a stream of wide characters that was rewound by more than one character, so that its buffer still holds unread data when it is compacted", "half of the unread characters are lost when the buffer is compacted")
seed("s03", "C03", [("lib/subinputstream.cpp","if (max < min || max > left) {","if (max < 1 || max > left) {")], PRE+'''
int main() { StringInputStream in("0123456789", 10); SubInputStream s(&in, 6); const char* p; int32_t n = s.read(p, 3, 2); CHECK(n >= 3 && n <= 6); int64_t pos = n; CHECK(!memcmp(p, "0123456789", n));
 while ((n = s.read(p, 2, 1)) > 0) { pos += n; CHECK(pos <= 6); } CHECK(pos == 6 && in.position() == 6); return 0; }''',
 "a read whose maximum is positive but smaller than its minimum", "the window is not applied and data after it is delivered")
seed("s04", "C04", [("lib/stringterminatedsubstream.cpp","        nread -= tl;\n        p->furthest = pos + nread;","        nread -= tl;\n        p->furthest = pos + nread + tl / 2;")], PRE+'''
int main() { for (int pre = 0; pre < 12; pre++) { string a(pre, 'x'), t = "\\n--b"; string all = a + t + "rest of the parent stream"; StringInputStream in(all.c_str(), (int)all.size()); StringTerminatedSubStream s(&in, t); const char* p; string got; int32_t n; int mn = 2;
  while (s.status() == Ok && (n = s.read(p, mn, mn)) > 0) { got.append(p, n); mn = 1; if (got.size() > 100) break; } CHECK(got == a); CHECK(in.position() == pre + (int)t.size()); } return 0; }''',
 "a terminator of four or more characters that straddles the end of one read, followed by a read smaller than the part kept back", "the first characters of the terminator are delivered as data and the terminator is missed")
seed("s05", "C08", [("lib/dataeventinputstream.cpp","handler.handleData(start + nread - amount, amount)","handler.handleData(start + (nread > amount ? nread - amount - 1 : 0), amount)")], PRE+'''
struct H : public DataEventHandler { string d; int e; H() : e(0) {} bool handleData(const char* p, uint32_t n) { d.append(p, n); return true; } void handleEnd() { e++; } };
int main() { StringInputStream in("abcdefghij", 10); H h; DataEventInputStream s(&in, h); const char* p; CHECK(s.read(p, 4, 4) == 4); CHECK(s.reset(2) == 2); CHECK(s.read(p, 5, 5) == 5); while (s.read(p, 1, 0) > 0); CHECK(h.d == "abcdefghij" && h.e == 1); return 0; }''',
 "a rewind followed by a read that crosses the furthest reported position", "the handler gets bytes one position too early")
seed("s06", "C09", [("lib/textutils.cpp","    // the string is only valid utf8 if it contains only complete characters\n    return (nb) ?cs :0;","    // the string is only valid utf8 if it contains only complete characters\n    return (nb && cs + 1 < end) ?cs :0;")], PRE+'''
int main() { char nb = 9; const char* r; string s = "ab\\xe2\\x82"; r = checkUtf8(s, nb); CHECK(r && nb == 1 && r == s.c_str() + 2); s = "ab\\xe2"; r = checkUtf8(s, nb); CHECK(r && nb == 2); s = "ab"; r = checkUtf8(s, nb); CHECK(r == 0 && nb == 0); return 0; }''',
 "text that ends with a lone lead byte", "the incremental check accepts an unfinished character")
seed("s07", "C10", [("lib/textutils.cpp","     | (((x) & 0x00000000ff000000ull) << 8)  \\","     | (((x) & 0x000000007f000000ull) << 8)  \\")], PRE+'''
int main() { char b[8]; for (int i = 0; i < 8; i++) for (int v = 0; v < 256; v++) { memset(b, 0x11, 8); b[i] = (char)v; uint64_t w = 0; for (int k = 0; k < 8; k++) w = (w << 8) | (unsigned char)b[k]; CHECK(readBigEndianUInt64(b) == w); CHECK((uint64_t)readBigEndianInt64(b) == w); } return 0; }''',
 "a 64 bit big endian integer whose fifth byte from the end of the input has its high bit set", "one bit of the integer is lost")
seed("s08", "C07", [("lib/kmpsearcher.cpp","                u = min(len - shift, v);","                u = min(len - shift, v + 1);")], PRE+'''
int main() { srand(1); for (int t = 0; t < 2000000; t++) { int m = 1 + rand() % 6, n = rand() % 16; string q, h; for (int i = 0; i < m; i++) q += "ab"[rand() % 2]; for (int i = 0; i < n; i++) h += "ab"[rand() % 2]; KmpSearcher s(q); const char* r = s.search(h.c_str(), n); size_t f = h.find(q); CHECK((r == 0) == (f == string::npos) && (!r || r - h.c_str() == (long)f)); } return 0; }''',
 "a self-overlapping query whose last shift came from the good suffix table", "characters that were not compared are assumed to match")
seed("s09", "C05", [("include/strigi/stringstream.h","} else if (newpos < StreamBase<T>::m_size) {","} else if ((int32_t)newpos < StreamBase<T>::m_size) {")], PRE+'''
int main() { StringInputStream s("abcdef", 6); int64_t r = s.reset(((int64_t)1 << 32) + 2); CHECK(r == s.position() && r >= 0 && r <= 6); const char* p; int32_t n = s.read(p, 1, 1); CHECK(n == -1 || n == 1); return 0; }''',
 "a reset to a position above 4 GB", "the stream is positioned outside its data")
seed("s10", "C11", [("lib/dostime.cpp","ltime.tm_sec = (int)(dostime & 0x1f) << 1;","ltime.tm_sec = (int)(dostime << 1) & 0x1f;")], PRE.replace('#include <strigi/stringstream.h>','#include <strigi/stringstream.h>\n#include <dostime.h>\n#include <time.h>')+'''
int main() { setenv("TZ", "UTC", 1); for (int s = 0; s < 30; s++) for (int h = 0; h < 16; h++) { unsigned long d = (33ul << 25) | (5 << 21) | (17 << 16) | (h << 11) | (9 << 5) | s; time_t t = dos2unixtime(d); struct tm* l = localtime(&t); CHECK(l->tm_sec == 2 * s && l->tm_min == 9 && l->tm_hour == h && l->tm_mday == 17 && l->tm_mon == 4 && l->tm_year == 113); } return 0; }''',
 "a stamp with 32 seconds or more", "the high bit of the seconds is lost", internal=["dostime.cpp"])
