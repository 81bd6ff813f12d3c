// C06: file streams over a model of the C library's files.
#include "client.h"
#include <strigi/fileinputstream.h>
#include <strigi/archivereader.h>
#include "mmapfileinputstream.h"
#include "skippingfileinputstream.h"
#include "skippingfileinputstream2.h"
#include <stdio.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <stdarg.h>

// the one file of the model
enum { REGULAR = 0, ZEROSIZE = 1, PIPE = 2 };
static struct F { char* data; int64_t len, pos; int kind; bool eof, err, open; int64_t errAt; bool exists; int fds; int maps; int failSeek; bool armed; bool huge; } f;
static char byteAt(int64_t p) { return (char)(p * 5 + (p >> 9) * 3 + (p >> 31)); } // of a file that is too large for the memory

static FILE* const FP = (FILE*)&f;
static void mkfile(bool errors) {
    int N = (int)sx_param("len", 4); f.len = sx_choose(N + 1, "flen"); f.data = symData(f.len, "d"); f.kind = sx_choose(3, "kind"); f.exists = true; f.errAt = -1; f.pos = 0;
    if (errors) { int e = sx_choose(3, "fault"); if (e == 0) f.exists = false; else if (e == 1) f.errAt = sx_choose((uint32_t)f.len + 1, "errat"); else f.failSeek = 1 + sx_choose(2, "failseek"); }
}
extern "C" {
FILE* __wrap_fopen(const char*, const char*) { if (!f.exists) { errno = ENOENT; return 0; } sx_assert(!f.open, "the file is opened once"); f.open = true; f.pos = 0; return FP; }
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE* x) { sx_assert(x == FP && f.open, "only an open file is closed"); f.open = false; return 0; }
int __wrap_ferror(FILE* x) { sx_assert(x == FP && f.open, "only an open file is used"); return f.err; }
int __wrap_feof(FILE* x) { sx_assert(x == FP && f.open, "only an open file is used"); return f.eof; }
size_t __wrap_fread(void* p, size_t sz, size_t k, FILE* x) {
    sx_assert(x == FP && f.open, "only an open file is used"); int64_t n = (int64_t)sx_conc(sz * k), left = f.len - f.pos; if (left < 0) left = 0;
    if (n > left) { n = left; f.eof = true; }
    if (f.errAt >= 0 && f.pos + n >= f.errAt) { n = f.errAt - f.pos; if (n < 0) n = 0; f.err = true; f.eof = false; errno = EIO; }
    if (f.huge) for (int64_t i = 0; i < n; i++) ((char*)p)[i] = byteAt(f.pos + i); else memcpy(p, f.data + f.pos, n); f.pos += n; return n / sz;
}
int __wrap_fseeko(FILE* x, off_t o, int wh) {
    sx_assert(x == FP && f.open, "only an open file is used"); if (f.kind == PIPE) { errno = ESPIPE; return -1; }
    if (f.armed && f.failSeek && wh != SEEK_END && --f.failSeek == 0) { errno = EIO; return -1; }
    int64_t p = wh == SEEK_SET ? o : wh == SEEK_CUR ? f.pos + o : (f.kind == ZEROSIZE ? 0 : f.len) + o; p = (int64_t)sx_conc((uint64_t)p); if (p < 0) { errno = EINVAL; return -1; } f.pos = p; f.eof = false; return 0;
}
int __wrap_fseek(FILE* x, long o, int wh) { return __wrap_fseeko(x, o, wh); }
int __wrap_fseeko64(FILE* x, off_t o, int wh) { return __wrap_fseeko(x, o, wh); }
void __wrap_rewind(FILE* x) { __wrap_fseeko(x, 0, SEEK_SET); f.err = false; }
off_t __wrap_ftello(FILE* x) { sx_assert(x == FP && f.open, "only an open file is used"); if (f.kind == PIPE) { errno = ESPIPE; return -1; } return f.pos; }
long __wrap_ftell(FILE* x) { return __wrap_ftello(x); }
off_t __wrap_ftello64(FILE* x) { return __wrap_ftello(x); }
int __wrap_open(const char*, int, ...) { if (!f.exists) { errno = ENOENT; return -1; } f.fds++; return 7; }
int __wrap_close(int fd) { if (fd == 7) f.fds--; return 0; }
int __wrap_fstat(int fd, struct stat* s) { sx_assert(fd == 7 && f.fds > 0, "only an open file is examined"); if (f.failSeek) { errno = EIO; return -1; } memset(s, 0, sizeof *s); s->st_size = f.kind == REGULAR ? f.len : 0; s->st_mode = S_IFREG; return 0; }
void* __wrap_mmap(void*, size_t n, int, int, int fd, off_t o) { sx_assert(fd == 7 && f.fds > 0 && n == (size_t)f.len && o == 0, "the whole file is mapped"); if (f.errAt >= 0) { errno = EIO; return MAP_FAILED; } f.maps++; if (f.huge) return (void*)0x100000000000ULL; char* p = (char*)malloc(n); memcpy(p, f.data, n); return p; }
int __wrap_munmap(void* p, size_t n) { sx_assert(f.maps > 0 && n == (size_t)f.len, "the mapping is released"); f.maps--; if (!f.huge) free(p); return 0; }
}
static InputStream* mk(int impl) {
    switch (impl) {
    case 0: return new FileInputStream("f", (int)sx_param("bufsize", 2));
    case 1: return new MMapFileInputStream("f");
    case 2: return new SkippingFileInputStream("f");
    case 3: return new SkippingFileInputStream2("f", (int)sx_param("bufsize", 2));
    default: return FileInputStream::open("f", (FileInputStream::StreamTypeHint)sx_choose(4, "hint"), (int)sx_param("bufsize", 2)); }
}
static void check(int impl, bool errors) {
    mkfile(errors); if (impl == 4) sx_assume(f.kind == REGULAR); if (impl == 1) sx_assume(f.kind == REGULAR || f.len == 0); if (impl == 2) sx_assume(f.kind != PIPE); if (errors) sx_assume(f.kind == REGULAR);
    InputStream* s = mk(impl);
    if (!f.exists) { sx_assert(s->status() == Error, "a missing file is an error"); sx_assert(s->error()[0] != 0, "an error has a message"); sx_reach("missing"); }
    else if (!errors) { sx_assert(s->status() != Error, "an existing file can be opened"); sx_assert(s->size() == f.len || (f.kind != REGULAR && s->size() == -1), "the size is that of the file"); }
    f.armed = true; Client c(*s, f.data, f.len); c.resetBeyond = f.kind == REGULAR; c.mayFail = errors; c.faulty = errors; if (!f.exists || s->status() == Error) { c.failed = true; }
    c.run((int)sx_param("ops", 3), 3);
    if (c.failed) { sx_assert(s->status() == Error, "an error stays"); sx_assert(s->position() >= 0 && s->position() <= f.len, "the position stays valid after an error"); sx_reach("failed"); }
    if (s->status() == Eof) sx_reach("eof");
    delete s; sx_assert(!f.open && f.fds <= 0 && f.maps == 0, "the file is closed"); sx_reach("end");
}
extern "C" {
void h_file() { NoLeak noLeak; check(0, false); }
void h_mmap() { NoLeak noLeak; check(1, false); }
void h_skipfile() { NoLeak noLeak; check(2, false); }
void h_skipfile2() { NoLeak noLeak; check(3, false); }
void h_file_err() { NoLeak noLeak; check(0, true); }
void h_mmap_err() { NoLeak noLeak; check(1, true); }
void h_skipfile_err() { NoLeak noLeak; check(2, true); }
void h_skipfile2_err() { NoLeak noLeak; check(3, true); }
// sizes and amounts around the sizes of the buffers
void h_file_long() { NoLeak noLeak;
    static const int N[] = { 1023, 1024, 1025, 2048, 2100 }, MIN[] = { 1, 1023, 1024, 1025, 2048, 3000 }, MAX[] = { 0, 1024, 5000 }, SK[] = { 1, 1024, 1030, 2048, 3000 }; int impl = sx_choose(5, "impl"); f.len = N[sx_choose(5, "flen")]; f.kind = impl == 2 || impl == 4 || sx_choose(2, "kind") ? REGULAR : impl == 1 ? REGULAR : PIPE; f.data = keepMem(f.len); for (int i = 0; i < f.len; i++) f.data[i] = (char)(i + i / 251); f.data[0] = (char)sx_u8("d"); f.data[1023 % f.len] = (char)sx_u8("d"); f.data[f.len - 1] = (char)sx_u8("d"); f.exists = true; f.errAt = -1;
    InputStream* s = mk(impl); f.armed = true; Client c(*s, f.data, f.len); c.resetBeyond = f.kind == REGULAR; c.mins = MIN; c.nmins = 6; c.maxs = MAX; c.nmaxs = 3; c.skips = SK; c.nskips = 5; int ops = (int)sx_param("ops", 2);
    for (int k = 0; k < ops; k++) { int op = sx_choose(3, "op"); if (op == 0) c.read(); else if (op == 1) c.skip(); else { static const int T[] = { 0, 1, 1023, 1024, 2000, 2048, 3000 }; int64_t t = T[sx_choose(7, "target")], r; if (!c.resetBeyond && t > c.far) sx_end(); r = s->reset(t); sx_assert(r == s->position(), "reset returns the new position"); if (c.segA >= 0 && t >= c.segA && t <= c.segB) sx_assert(r == t && sameBytes(c.seg, f.data + c.segA, c.segB - c.segA), "reset into the data last read keeps the pointer valid"); else { sx_assert(r == t || r == c.pos || (t > f.len && r == f.len), "reset goes to the target, stays, or stops at the end"); c.segA = -1; } sx_assert(r >= 0 && r <= f.len, "the position stays within the stream"); c.pos = r; } c.check(); }
    delete s; sx_assert(!f.open && f.fds <= 0 && f.maps == 0, "the file is closed"); sx_reach("end");
}
// files of more than 2 and 4 GB
void h_file_huge() { NoLeak noLeak;
    static const int64_t B[] = { 0x7fffffff, 0x80000000LL, 0xffffffffLL, 0x100000000LL, 0x180000001LL }; int impl = 1 + sx_choose(3, "impl"); f.huge = true; f.kind = REGULAR; f.exists = true; f.errAt = -1; f.len = B[sx_choose(5, "flen")] + sx_choose(3, "more"); 
    InputStream* s = mk(impl); f.armed = true; sx_assert(s->status() == Ok && s->size() == f.len, "a large file can be opened"); int64_t pos = 0; int ops = (int)sx_param("ops", 2);
    for (int k = 0; k < ops; k++) { int op = sx_choose(3, "op"); if (op == 0) { const char* p = 0; int mn = 1 + sx_choose(2, "min"), mx = sx_choose(2, "max") * 2; int64_t left = f.len - pos; if (left == 0) { sx_assert(s->read(p, mn, mx) == -1 && s->status() == Eof, "at the end read returns -1"); continue; } int32_t r = s->read(p, mn, mx); sx_assert(r >= 1 && r <= left && (r >= mn || r == left) && (mx < mn || r <= mx), "read delivers what was asked for"); if (r < 1) sx_end(); if (impl == 1) sx_assert((uint64_t)p == 0x100000000000ULL + pos, "read delivers the data at the position"); else for (int i = 0; i < r; i++) sx_assert(p[i] == byteAt(pos + i), "read delivers the data at the position"); pos += r; }
        else { int64_t t = B[sx_choose(5, "base")] - sx_choose(2, "less"); if (op == 1) { int64_t q = sx_choose(2, "near") ? t : t - pos; if (q < 1) sx_end(); int64_t left = f.len - pos, r = s->skip(q); if (left == 0) sx_assert(r <= 0, "at the end nothing is skipped"); else sx_assert(r == (q < left ? q : left), "skip passes over exactly min(n, rest)"); if (r > 0) pos += r; } else { if (impl == 3) sx_end(); int64_t r = s->reset(t); sx_assert(r == (t < f.len ? t : f.len), "reset goes to the target or stops at the end"); pos = r; } }
        sx_assert(s->position() == pos, "position equals the items consumed"); sx_assert(s->status() != Error && (s->status() != Eof || pos == f.len), "Eof is reported only at the end"); }
    delete s; sx_assert(!f.open && f.fds <= 0 && f.maps == 0, "the file is closed"); sx_reach("end");
}
#undef stat
static struct stat theStat; static const char* statPath; static int statFails;
int __wrap_stat(const char* p, struct stat* s) { statPath = p; if (statFails) { errno = statFails == 1 ? ENOENT : EACCES; return -1; } *s = theStat; return 0; }
int __wrap_stat64(const char* p, struct stat* s) { return __wrap_stat(p, s); }
void h_opener() { NoLeak noLeak; // files and their properties as the operating system reports them
    FileStreamOpener o; std::string url; int n = 1 + sx_choose((uint32_t)sx_param("len", 4), "n"); for (int i = 0; i < n; i++) url += "/ab"[sx_choose(3, "ch")];
    if (sx_choose(2, "what")) { mkfile(false); sx_assume(f.kind == REGULAR); f.exists = sx_choose(2, "exists"); InputStream* s = o.openStream(url); sx_assert((s != 0) == f.exists, "exactly files that can be opened are opened"); if (s) { Client c(*s, f.data, f.len); c.run((int)sx_param("ops", 2), 2); delete s; sx_reach("opened"); } sx_assert(!f.open && f.fds == 0, "the file is closed"); sx_reach("end"); return; }
    memset(&theStat, 0, sizeof theStat); theStat.st_mode = sx_u32("mode"); theStat.st_size = (int64_t)(sx_u64("size") >> 1); theStat.st_mtime = (int64_t)(sx_u64("mtime") >> 32); statFails = sx_choose(3, "fails");
    EntryInfo e; int r = o.stat(url, e); sx_assert((r == 0) == !statFails && (r == 0 || r == -1), "exactly what exists has an entry"); if (r) { sx_reach("end"); return; }
    unsigned t = theStat.st_mode & 0170000; sx_assert(statPath && url == statPath, "the file asked for is examined"); sx_assert((e.type == EntryInfo::File) == (t == 0100000) && (e.type == EntryInfo::Dir) == (t == 0040000), "files and directories are told apart"); sx_assert(e.size == (int64_t)theStat.st_size, "the entry has the size of the file"); sx_assert((uint64_t)e.mtime == (uint64_t)theStat.st_mtime, "the entry has the time of the file");
    size_t p = url.rfind('/'); sx_assert(e.filename == (p == std::string::npos ? url : url.substr(p + 1)), "the entry has the name of the file"); sx_reach("entry"); sx_reach("end"); }
void h_openhint() { NoLeak noLeak; check(4, false); }
}
