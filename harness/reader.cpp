// C27, C28: paths into archives, directory listings (zip archives of stored members; gzip with the modelled codec)
#define ZM_LZMA
#include "zmodel.h"
#include "timemodel.h"
#include <strigi/archivereader.h>
#include <map>
static string le(uint64_t v, int n) { string s; for (int i = 0; i < n; i++) { s += (char)(v & 255); v >>= 8; } return s; }
static string member(const string& name, const string& d) { return string("PK\3\4") + le(20, 2) + le(0, 2) + le(0, 2) + le(0x3C22AC63, 4) + le(0, 4) + le(d.size(), 4) + le(d.size(), 4) + le(name.size(), 2) + le(0, 2) + name + d; }
static string zipEnd() { return string("PK\1\2") + string(42, '\0') + "PK\5\6" + string(18, '\0'); }
static const string X = "p/x"; // the physical file
static const int FD = EntryInfo::File | EntryInfo::Dir;
// files of the model; every stream opened is counted
struct VFile { string name, data; int type; time_t mtime; };
static std::vector<VFile> files; static int live, opened;
struct Forget { ~Forget() { std::vector<VFile>().swap(files); } };
struct VStream : SymStream { string keep; VStream(const string& d) : SymStream(0, d.size(), CH_MAX, true, false), keep(d) { src = keep.data(); live++; opened++; } ~VStream() { live--; } };
struct Opener : StreamOpener {
    InputStream* openStream(const string& u) { for (size_t i = 0; i < files.size(); i++) if (files[i].name == u && files[i].type != EntryInfo::Dir) return new VStream(files[i].data); return 0; }
    int stat(const string& u, EntryInfo& e) { for (size_t i = 0; i < files.size(); i++) if (files[i].name == u) { e.filename = u.substr(u.rfind('/') + 1); e.size = files[i].data.size(); e.mtime = files[i].mtime; e.type = (EntryInfo::Type)files[i].type; return 0; } return -1; }
};
static void file(const string& n, const string& d, int type = EntryInfo::File) { VFile f; f.name = n; f.data = d; f.type = type; f.mtime = 1000; files.push_back(f); }
// the tree below an archive: full path (relative to the physical file) -> what is there
struct Node { string data; int type; int64_t size; };
typedef std::map<string, Node> Tree;
static void put(Tree& t, const string& path, const string& data, int type) { for (size_t p = path.find('/'); p != string::npos; p = path.find('/', p + 1)) { string d = path.substr(0, p); if (t.find(d) == t.end()) { Node n; n.type = EntryInfo::Dir; n.size = 0; t[d] = n; } } Node n; n.data = data; n.type = type; n.size = data.size(); t[path] = n; }
static const Node* at(const Tree& t, const string& p) { Tree::const_iterator i = t.find(p); return i == t.end() ? 0 : &i->second; }
static string symName(const char* what, int max) { string s; int n = 1 + sx_choose((uint32_t)max, what); for (int i = 0; i < n; i++) { int k = sx_choose(i && i + 1 < n && s[i - 1] != '/' ? 3 : 2, "ch"); s += k == 2 ? '/' : (char)('a' + k); } return s; }
static bool under(const string& a, const string& b) { return a == b || (b.size() > a.size() && b[a.size()] == '/' && b.compare(0, a.size(), a) == 0); }
static string sym(int n) { string s; for (int i = 0; i < n; i++) { char c = (char)sx_u8("d"); sx_assume((c >= 'a') & (c <= 'z')); s += c; } return s; }
// the physical file "x": an archive chosen by the solver; t: what it holds
static string archive(Tree& t, int maxMembers, int nameLen, bool nest, const string& prefix = "") {
    int n = 1 + sx_choose((uint32_t)maxMembers, "members"); string all; std::vector<string> names;
    for (int k = 0; k < n; k++) { string nm = symName("namelen", nameLen); const bool dir = sx_param("dirs", 0) && nm.size() < (size_t)nameLen && sx_choose(2, "dir"); for (size_t j = 0; j < names.size(); j++) { const bool jd = at(t, prefix + names[j])->type == EntryInfo::Dir; if ((under(nm, names[j]) && !dir) || (under(names[j], nm) && !jd)) sx_end(); } names.push_back(nm);
        if (dir) { all += member(nm + "/", ""); put(t, prefix + nm, "", EntryInfo::Dir); continue; }
        if (nest && k == 0) { int how = sx_choose(3, "nest"); if (how) { Tree sub; string in = archive(sub, 1, nameLen, false); if (how == 2) { if (in.size() > 120) sx_end(); in = string("\x1f\x8b") + in + "\xff"; } all += member(nm, in); put(t, prefix + nm, in, FD); for (Tree::iterator i = sub.begin(); i != sub.end(); ++i) t[prefix + nm + "/" + i->first] = i->second; continue; } }
        string d = sym(sx_choose(2, "dlen") ? 2 : 0); all += member(nm, d); put(t, prefix + nm, d, EntryInfo::File); }
    return all + zipEnd();
}
static void sameEntry(const EntryInfo& e, const string& path, const Node& n) { size_t p = path.rfind('/'); sx_assert(same(e.filename, p == string::npos ? path : path.substr(p + 1)), "the entry has its name"); sx_assert(e.type == n.type, "the entry has its type"); sx_assert(e.size == n.size, "the entry has its size"); }
static void checkOpen(ArchiveReader& r, const Tree& t, const string& path) {
    InputStream* s = r.openStream(X + "/" + path); const Node* n = at(t, path);
    if (!n || !(n->type & EntryInfo::File)) { sx_assert(s == 0, "what is not there is not opened"); sx_reach("none"); }
    else { sx_assert(s != 0, "every file in an archive can be opened"); if (s) { readAll(s, n->data); sx_reach("found"); } }
    if (s) r.closeStream(s);
}
static void checkStat(ArchiveReader& r, const Tree& t, const string& path) { EntryInfo e; int k = r.stat(X + "/" + path, e); const Node* n = at(t, path); sx_assert((k == 0) == (n != 0), "exactly what is there has an entry"); if (n && k == 0) sameEntry(e, path, *n); }
// the children of a directory or archive
static void expect(const Tree& t, const string& dir, std::vector<string>& names) { for (Tree::const_iterator i = t.begin(); i != t.end(); ++i) { const string& p = i->first; if (dir.empty() ? p.find('/') == string::npos : (p.size() > dir.size() + 1 && p.compare(0, dir.size() + 1, dir + "/") == 0 && p.find('/', dir.size() + 1) == string::npos)) names.push_back(p); } }
static int whichChild(const Tree& t, const string& dir, const EntryInfo& e) { std::vector<string> c; expect(t, dir, c); for (size_t i = 0; i < c.size(); i++) { size_t p = c[i].rfind('/'); if (e.filename == (p == string::npos ? c[i] : c[i].substr(p + 1))) { sameEntry(e, c[i], at(t, c[i])[0]); return (int)i; } } return -1; }
static void checkList(ArchiveReader& r, const Tree& t, const string& dir) {
    std::vector<string> c; expect(t, dir, c); std::vector<int> seen(c.size(), 0); ArchiveReader::DirLister l = r.dirEntries(dir.empty() ? X : X + "/" + dir); EntryInfo e; size_t n = 0;
    while (l.nextEntry(e)) { int k = whichChild(t, dir, e); sx_assert(k >= 0, "only entries of the directory are listed"); if (k < 0) sx_end(); sx_assert(!seen[k], "every entry is listed once"); seen[k] = 1; sx_assert(++n <= c.size(), "a listing ends"); if (n > c.size()) sx_end(); }
    sx_assert(n == c.size(), "every entry of the directory is listed"); sx_assert(!l.nextEntry(e), "a listing that ended stays ended"); sx_reach("list"); }
static string someDir(const Tree& t) { std::vector<string> d; d.push_back(""); for (Tree::const_iterator i = t.begin(); i != t.end(); ++i) if (i->second.type & EntryInfo::Dir) d.push_back(i->first); return d[sx_choose((uint32_t)d.size(), "dir")]; }
static void setup(Tree& t) { file(X, archive(t, (int)sx_param("members", 2), (int)sx_param("namelen", 3), sx_param("nest", 0))); }
extern "C" {
void h_open() { NoLeak noLeak; Forget forget; Tree t; setup(t); { Opener o; ArchiveReader r; r.addStreamOpener(&o); checkOpen(r, t, symName("reqlen", (int)sx_param("reqlen", 3))); if (sx_choose(2, "again")) checkOpen(r, t, t.begin()->first); } sx_assert(live == 0 && zLive == 0, "every stream is released"); sx_reach("end"); }
void h_open_nested() { h_open(); }
void h_stat() { NoLeak noLeak; Forget forget; Tree t; setup(t); { Opener o; ArchiveReader r; r.addStreamOpener(&o); if (sx_choose(2, "listfirst")) checkList(r, t, someDir(t)); checkStat(r, t, symName("reqlen", (int)sx_param("reqlen", 3))); EntryInfo e; sx_assert(r.stat(X, e) == 0 && e.type == FD, "the archive is a file and a directory"); sx_assert(r.isArchive(X) && r.canHandle(X + "/a") && r.canHandle(X), "the archive is recognised"); } sx_assert(live == 0 && zLive == 0, "every stream is released"); sx_reach("end"); }
void h_list() { NoLeak noLeak; Forget forget; Tree t; setup(t); { Opener o; ArchiveReader r; r.addStreamOpener(&o); checkList(r, t, someDir(t)); if (sx_choose(2, "again")) checkList(r, t, someDir(t)); } sx_assert(live == 0 && zLive == 0, "every stream is released"); sx_reach("end"); }
void h_list_nested() { h_list(); }
void h_plain() { NoLeak noLeak; Forget forget; // files that are no archives, directories, what does not exist
    file("f", sym(sx_choose(3, "n"))); file("g", string("PK\3\4")); file("d", "", EntryInfo::Dir); file("d/f", "abc"); Opener o; { ArchiveReader r; r.addStreamOpener(&o); int ops = (int)sx_param("ops", 2);
      while (ops-- > 0) { static const char* const U[] = { "f", "g", "d", "d/f", "nope", "f/x", "d/x", "", "/", "f/" }; int u = sx_choose(10, "url"); EntryInfo e; bool is = u < 4; 
        switch (sx_choose(5, "op")) { case 0: { InputStream* s = r.openStream(U[u]); sx_assert((s != 0) == (is && u != 2), "exactly files can be opened"); if (s) { readAll(s, files[u].data); r.closeStream(s); } break; }
        case 1: { int k = r.stat(U[u], e); sx_assert((k == 0) == is, "exactly what exists has an entry"); if (is) sx_assert(e.type == (u == 2 ? EntryInfo::Dir : EntryInfo::File) && e.size == (int64_t)files[u].data.size() && e.mtime == 1000, "the entry is that of the file"); break; }
        case 2: { ArchiveReader::DirLister l = r.dirEntries(U[u]); sx_assert(!l.nextEntry(e), "what is not an archive has no entries"); break; }
        case 3: sx_assert(!r.isArchive(U[u]), "only archives are archives"); break; default: sx_assert(!r.canHandle(U[u]), "only archives are handled"); } } }
    sx_assert(live == 0, "every stream is released"); sx_reach("end");
}
// listers used in any order; copied, assigned, and released while others go on
void h_history() { NoLeak noLeak; Forget forget;
    Tree t; string in, in2; switch (sx_choose(3, "shape")) { case 0: file(X, member("a", "1") + member("d/b", "22") + member("d/c", "") + zipEnd()); put(t, "a", "1", EntryInfo::File); put(t, "d/b", "22", EntryInfo::File); put(t, "d/c", "", EntryInfo::File); break;
      case 1: in = member("p", "333") + member("q/r", "1") + zipEnd(); file(X, member("d", in) + member("e", "5") + zipEnd()); put(t, "d", in, FD); put(t, "d/p", "333", EntryInfo::File); put(t, "d/q/r", "1", EntryInfo::File); put(t, "e", "5", EntryInfo::File); break;
      default: file(X, "plain text file"); }
    bool arch = !t.empty(); Opener o; static const char* const D[] = { "", "d", "d/q" }; const int NL = 2;
    { ArchiveReader r; r.addStreamOpener(&o); struct L { ArchiveReader::DirLister* l; string dir; std::vector<int> seen; size_t n; bool ended; } ls[NL]; for (int i = 0; i < NL; i++) ls[i].l = 0;
      std::vector<InputStream*> open; int ops = (int)sx_param("ops", 4); const bool mix = sx_param("mix", 0); bool first = true; static const int OL[] = { 0, 1, 2, 3, 4 }, OM[] = { 0, 1, 5, 6 };
      while (ops-- > 0) { int op = first ? 0 : mix ? OM[sx_choose(4, "op")] : OL[sx_choose(5, "op")], i = first || op == 0 || op > 4 ? 0 : sx_choose(NL, "which"); first = false; EntryInfo e; if (op == 0) { while (i < NL && ls[i].l) i++; if (i == NL) sx_end(); } L& l = ls[i];
        if (op == 0) { l.dir = D[sx_choose(3, "dir")]; l.l = new ArchiveReader::DirLister(r.dirEntries(l.dir.empty() ? X : X + "/" + l.dir)); std::vector<string> c; expect(t, l.dir, c); l.seen.assign(c.size(), 0); l.n = 0; l.ended = false; }
        else if (op == 1) { if (!l.l) sx_end(); int times = sx_choose(2, "all") ? 9 : 1; while (times-- > 0) { bool k = l.l->nextEntry(e); if (k) { int w = whichChild(t, l.dir, e); sx_assert(w >= 0, "only entries of the directory are listed"); if (w < 0) sx_end(); sx_assert(!l.seen[w], "every entry is listed once"); l.seen[w] = 1; l.n++; sx_assert(!l.ended, "a listing that ended stays ended"); } else { sx_assert(l.n == l.seen.size(), "every entry of the directory is listed"); l.ended = true; break; } } }
        else if (op == 2) { if (!l.l) sx_end(); delete l.l; l.l = 0; }
        else if (op == 3) { if (!l.l) sx_end(); L& m = ls[1 - i]; if (m.l) sx_end(); m = l; m.l = new ArchiveReader::DirLister(*l.l); }
        else if (op == 4) { L& m = ls[sx_choose(NL, "to")]; if (!l.l || !m.l) sx_end(); *m.l = *l.l; ArchiveReader::DirLister* k = m.l; m = l; m.l = k; }
        else if (op == 5) { static const char* const P[] = { "d", "d/b", "d/q/r", "nope" }; const string p = P[sx_choose(4, "path")]; EntryInfo f; if (sx_choose(2, "stat")) { int k = r.stat(X + "/" + p, f); const Node* n = at(t, p); sx_assert((k == 0) == (n != 0), "exactly what is there has an entry"); if (n && k == 0) sameEntry(f, p, *n); } else if (open.size() < 2) { InputStream* s = r.openStream(X + "/" + p); const Node* n = at(t, p); sx_assert((s != 0) == (n && (n->type & EntryInfo::File)), "exactly the files can be opened"); if (s) { readAll(s, n->data); if (sx_choose(2, "close")) r.closeStream(s); else open.push_back(s); } } }
        else { EntryInfo f; if (sx_choose(2, "touch")) files[0].mtime++; sx_assert(r.stat(X, f) == 0 && f.type == (arch ? FD : EntryInfo::File), "the archive has an entry"); sx_assert(r.isArchive(X) == arch && r.canHandle(X + "/nope") == arch, "exactly archives are recognised"); }
      }
      for (size_t k = 0; k < open.size(); k++) r.closeStream(open[k]); for (int k = 0; k < NL; k++) { delete ls[k].l; }
    }
    sx_assert(live == 0 && zLive == 0, "every stream is released"); sx_reach("end");
}
void h_history_mix() { h_history(); }
// many members, long names, deep directories, archives in archives in archives, names that differ by characters around '/'
static void addTo(string& all, Tree& t, const string& prefix, const string& name, const string& d, int type = EntryInfo::File) { all += member(type == EntryInfo::Dir ? name + "/" : name, d); put(t, prefix + name, d, type); }
static string packed(const string& s) { string r("\x1f\x8b"); for (size_t i = 0; i < s.size(); i++) { if ((unsigned char)s[i] >= 0x80) r += '\xf0'; r += s[i]; } return r + "\xff"; } // compressed with the model of the codec
static string bigArchive(Tree& t, const string& prefix, int shape, int deep) {
    string all, dir; static const int NL[] = { 100, 255, 256, 1000, 5000 };
    if (shape == 0) for (int i = 0; i < 40; i++) addTo(all, t, prefix, (i % 3 == 0 ? "d/" : i % 3 == 1 ? "" : "e/f/") + string(1 + i / 26, 'm') + (char)('a' + i % 26), string(1, (char)('A' + i)));
    else if (shape == 1) for (int i = 0; i < 24; i++) { dir += i ? "/" : ""; dir += (char)('a' + i); if (i % 5 == 1) addTo(all, t, prefix, dir + "/file", string(1, (char)('A' + i))); if (i == 23) addTo(all, t, prefix, dir + "/last", "z"); }
    else if (shape == 2) { int n = NL[sx_choose(5, "nl")]; string x(n, 'x'); addTo(all, t, prefix, x, "1"); addTo(all, t, prefix, x + "y", "2"); addTo(all, t, prefix, x.substr(1) + "/" + x, "3"); addTo(all, t, prefix, x.substr(1) + "z", "4"); }
    else if (shape == 3) { static const char* const N[] = { "ab.c", "ab", "abc/x", "ab-d/e", "ab d", "a/b", "a/b c", "a!/b", "a0/b", "a/\xc3\xa9", "\xff", "a/bc/d", "abc.d/x" }; for (int i = 0; i < 13; i++) addTo(all, t, prefix, N[i], string(1, (char)('A' + i))); }
    else if (shape == 4) { addTo(all, t, prefix, "d", "", EntryInfo::Dir); addTo(all, t, prefix, "d/s", "", EntryInfo::Dir); addTo(all, t, prefix, "d/s/f", "1"); addTo(all, t, prefix, "g/h/f", "2"); addTo(all, t, prefix, "g/h", "", EntryInfo::Dir); addTo(all, t, prefix, "g", "", EntryInfo::Dir); addTo(all, t, prefix, "empty", "", EntryInfo::Dir); }
    if (deep > 0) { Tree sub; string in = bigArchive(sub, "", 5, deep - 1); all += member("n", in); put(t, prefix + "n", in, FD); for (Tree::iterator i = sub.begin(); i != sub.end(); ++i) t[prefix + "n/" + i->first] = i->second; }
    if (shape == 5) { addTo(all, t, prefix, "f", "in"); addTo(all, t, prefix, "w/f", "x"); }
    return all + zipEnd();
}
void h_big() { NoLeak noLeak; Forget forget; Tree t; int shape = sx_choose(7, "shape"), times = 0; zEsc = 1; if (shape == 6) { shape = 5; times = 1 + sx_choose(5, "times"); } int deep = times ? (int)sx_choose(2, "deep") : shape == 5 ? 1 + sx_choose(6, "deep") : shape < 3 ? 0 : sx_choose(2, "deep"); string big = bigArchive(t, "", shape, deep); while (times-- > 0) big = packed(big); file(X, big); std::vector<string> keys; for (Tree::const_iterator i = t.begin(); i != t.end(); ++i) keys.push_back(i->first); Opener o;
    { ArchiveReader r; r.addStreamOpener(&o); int ops = (int)sx_param("ops", 2); bool first = true; while (ops-- > 0) { size_t m = keys.size(); string k = keys[first || m < 6 ? sx_choose((uint32_t)m, "key") : m * sx_choose(4, "key") / 4]; first = false; int vary = sx_choose(4, "vary"); if (vary == 1) k += 'q'; else if (vary == 2) k = k.substr(0, k.size() - 1); else if (vary == 3) k += "/q"; if (k.empty()) sx_end(); if (k[k.size() - 1] == '/') k += 'q';
        switch (sx_choose(3, "op")) { case 0: checkOpen(r, t, k); break; case 1: checkStat(r, t, k); break; default: { const Node* n = at(t, k); if (vary && !n) k = ""; else if (!n || !(n->type & EntryInfo::Dir)) sx_end(); checkList(r, t, k); } } } }
    sx_assert(live == 0 && zLive == 0, "every stream is released"); sx_reach("end"); }
}
