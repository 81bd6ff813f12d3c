// C26: process streams over a model of pipes, signals and a child process
#include "arch.h"
#include <strigi/processinputstream.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/wait.h>
#include <unistd.h>
// kinds of child: filter (writes what it reads as it reads), sorter (writes when its input has ended), printer (never reads), head (reads one byte, writes it and ends), talker (writes first, then filters)
enum { CAT, SORT, PRINT, HEAD, TALK };
static struct M {
    int cap, kind; bool toChild; string inb, outb, held; size_t told; bool childDone, reaped, killed, forked, inChild, blocked, pending; bool open[4]; int nonblock; int sched, pipes, failPipe, forkMode, execFails, faults; string out; int map0, map1; int fakeEof;
} m;
static std::vector<string> wanted;
enum { RIN = 10, WIN = 11, ROUT = 12, WOUT = 13, PID = 4711 }; // the ends of the pipe to the child and of the pipe from the child
static bool mine(int fd) { return fd >= RIN && fd <= WOUT; }
static bool isOpen(int fd) { return mine(fd) && m.open[fd - RIN]; }
static bool inEnded() { return !m.toChild || (!m.open[WIN - RIN] && m.inb.empty()); }
static bool put(char c) { if (m.open[ROUT - RIN] && (int)m.outb.size() >= m.cap) return false; m.outb += c; return true; }
static char take() { char c = m.inb[0]; m.inb.erase(0, 1); return c; }
// one step of the child; false if it cannot go on
static bool step() {
    if (m.childDone || !m.forked) return false; if (m.killed || (!m.open[ROUT - RIN])) { m.childDone = true; return true; }
    switch (m.kind) {
    case TALK: if (m.told < 3) { if (!put("abc"[m.told])) return false; m.told++; return true; } // fall through
    case CAT: if (!m.held.empty()) { if (!put(m.held[0])) return false; m.held.clear(); return true; } if (!m.inb.empty()) { m.held = string(1, take()); return true; } if (inEnded()) { m.childDone = true; return true; } return false;
    case SORT: if (!m.inb.empty()) { m.held += take(); return true; } if (!inEnded()) return false; if (m.told < m.held.size()) { if (!put(m.held[m.held.size() - 1 - m.told])) return false; m.told++; return true; } m.childDone = true; return true;
    case PRINT: if (m.told < m.out.size()) { if (!put(m.out[m.told])) return false; m.told++; return true; } m.childDone = true; return true;
    default: if (m.held.empty()) { if (!m.inb.empty()) { m.held = string(1, take()); return true; } if (inEnded()) { m.childDone = true; return true; } return false; } if (!put(m.held[0])) return false; m.childDone = true; return true;
    }
}
static void maybeRun() { if (!m.forked || m.inChild || m.sched <= 0) return; int k = (int)sx_choose(3, "run"); if (k) m.sched--; if (k == 1) step(); else if (k == 2) while (step()) { } }
static bool interrupted() { if (m.faults > 0 && sx_choose(2, "eintr")) { m.faults--; errno = EINTR; return true; } return false; }
extern "C" {
int __wrap_pipe(int* p) { m.pipes++; if (m.pipes == m.failPipe) { errno = EMFILE; return -1; } int b = (m.toChild && m.pipes == 1) ? RIN : ROUT; p[0] = b; p[1] = b + 1; m.open[b - RIN] = m.open[b + 1 - RIN] = true; return 0; }
int __wrap_pipe2(int* p, int) { return __wrap_pipe(p); }
int __wrap_fork() { sx_assert(!m.forked, "one process is started"); if (m.forkMode == 1) { errno = EAGAIN; return -1; } m.forked = true; if (m.forkMode == 2) { m.inChild = true; m.map0 = 0; m.map1 = 1; return 0; } return PID; }
int __wrap_dup2(int a, int b) { if (!m.inChild) return b; sx_assert(isOpen(a), "an open pipe is used"); if (b == 0) m.map0 = a; if (b == 1) m.map1 = a; return b; }
int __real_close(int);
int __wrap_close(int fd) { if (m.inChild && fd >= 0 && fd <= 2) { if (fd == 0) m.map0 = -1; if (fd == 1) m.map1 = -1; return 0; } sx_assert(isOpen(fd), "only open descriptors are closed"); if (isOpen(fd)) m.open[fd - RIN] = false; return 0; }
int __wrap_execve(const char* f, char* const* a, char* const*) {
    sx_assert(m.inChild, "the program is run in the child"); bool same = f && wanted[0] == f; size_t n = 0; while (same && n < wanted.size() && a[n]) { same = wanted[n] == a[n]; n++; } sx_assert(same && n == wanted.size() && !a[n], "the program gets its arguments");
    sx_assert(m.map1 == WOUT, "the output of the program is the stream"); if (m.toChild) { sx_assert(m.map0 == RIN, "the input of the program is the input stream"); sx_assert(!m.open[WIN - RIN], "the program can see the end of its input"); }
    if (m.execFails) { errno = ENOENT; return -1; } sx_reach("exec"); m.inChild = false; sx_end(); return -1; }
int __wrap_execv(const char* f, char* const* a) { return __wrap_execve(f, a, 0); }
void __real_exit(int);
void __wrap_exit(int c) { sx_assert(!m.inChild, "a child that cannot run the program leaves the data of the parent alone"); m.inChild = false; __real_exit(c); for (;;) { } }
void __wrap__exit(int) { sx_reach("noexec"); m.inChild = false; sx_end(); for (;;) { } }
int __wrap_kill(int p, int s) { sx_assert(p == PID && m.forked && !m.reaped, "only the own process is signalled"); sx_assert(s == SIGTERM || s == SIGKILL, "the process is asked to end"); if (p == PID) m.killed = true; return 0; }
int __wrap_waitpid(int p, int* st, int) { sx_assert(p == PID && m.forked && !m.reaped, "the own process is waited for, once"); while (step()) { } sx_assert(m.childDone, "waiting for the process ends"); m.reaped = true; if (st) *st = 0; return p; }
ssize_t __wrap_read(int fd, void* b, size_t n) {
    sx_assert(fd == ROUT && isOpen(fd), "only an open pipe is read"); if (fd != ROUT) sx_end(); if (interrupted()) return -1; maybeRun(); if (m.outb.empty()) { while (m.outb.empty() && step()) { } sx_assert(m.childDone || !m.outb.empty(), "the stream never waits for a process that waits for the stream"); if (!m.childDone && m.outb.empty()) sx_end(); }
    size_t k = m.outb.size(); if (k > n) k = n; if (k > 1 && m.sched > 0 && sx_choose(2, "part")) { m.sched--; k = 1; } for (size_t i = 0; i < k; i++) ((char*)b)[i] = m.outb[i]; m.outb.erase(0, k); return (ssize_t)k; }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    sx_assert(fd == WIN && isOpen(fd), "only an open pipe is written"); if (fd != WIN) sx_end(); n = (size_t)sx_conc(n); if (interrupted()) return -1; maybeRun(); size_t k = 0; const char* d = (const char*)b;
    for (;;) {
        if (m.childDone) { if (k) return (ssize_t)k; sx_assert(m.blocked, "a process that ends early does not end the user's process"); m.pending = true; errno = EPIPE; return -1; }
        while (k < n && (int)m.inb.size() < m.cap) m.inb += d[k++]; if (k == n) return (ssize_t)k; if (m.nonblock) { if (k) return (ssize_t)k; errno = EAGAIN; return -1; }
        size_t before = m.inb.size(); while (m.inb.size() >= before && step()) { } sx_assert(m.childDone || m.inb.size() < before, "the stream never waits for a process that waits for the stream"); if (!m.childDone && m.inb.size() >= before) sx_end(); }
}
int __wrap_poll(struct pollfd* f, nfds_t n, int) {
    if (interrupted()) return -1; maybeRun();
    for (;;) { int r = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; sx_assert(isOpen(f[i].fd), "only open descriptors are polled"); if (f[i].fd == ROUT) { if ((f[i].events & POLLIN) && !m.outb.empty()) f[i].revents |= POLLIN; if (m.childDone) f[i].revents |= POLLHUP; } if (f[i].fd == WIN) { if ((f[i].events & POLLOUT) && (int)m.inb.size() < m.cap) f[i].revents |= POLLOUT; if (m.childDone) f[i].revents |= POLLERR; } if (f[i].revents) r++; }
        if (r) return r; bool s = step(); sx_assert(s, "the stream never waits for a process that waits for the stream"); if (!s) sx_end(); }
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); int v = va_arg(a, int); va_end(a); sx_assert(isOpen(fd), "only open descriptors are used"); if (cmd == F_SETFL && fd == WIN) m.nonblock = !!(v & O_NONBLOCK); return 0; }
int __wrap_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { if (o) { sigemptyset(o); if (m.blocked) sigaddset(o, SIGPIPE); } if (s) { if (how == SIG_BLOCK) m.blocked |= !!sigismember(s, SIGPIPE); else if (how == SIG_SETMASK) { bool b = !!sigismember(s, SIGPIPE); sx_assert(b || !m.pending, "a process that ends early does not end the user's process"); m.blocked = b; } } return 0; }
int __wrap_sigprocmask(int how, const sigset_t* s, sigset_t* o) { return __wrap_pthread_sigmask(how, s, o); }
int __wrap_sigemptyset(sigset_t* s) { memset(s, 0, sizeof *s); return 0; }
int __wrap_sigaddset(sigset_t* s, int n) { ((char*)s)[n / 8] |= (char)(1 << (n % 8)); return 0; }
int __wrap_sigismember(const sigset_t* s, int n) { return (((const char*)s)[n / 8] >> (n % 8)) & 1; }
int __wrap_sigpending(sigset_t* s) { __wrap_sigemptyset(s); if (m.pending) __wrap_sigaddset(s, SIGPIPE); return 0; }
int __wrap_sigwait(const sigset_t* s, int* sig) { sx_assert(m.pending && __wrap_sigismember(s, SIGPIPE), "a signal waited for is pending"); m.pending = false; if (sig) *sig = SIGPIPE; return 0; }
}
static std::vector<string> args(int k = 0) { wanted.clear(); wanted.push_back("prog"); if (k < 6) { static const int N[] = { 11, 255, 256, 511, 4096, 131071 }; wanted.push_back(k ? string(N[k], 'a') : "an argument"); wanted.push_back(""); } else if (k > 6) for (int i = 0; i < 300; i++) wanted.push_back(string(i % 3, (char)('a' + i % 26))); return wanted; }
static string letters(int n) { string s; for (int i = 0; i < n; i++) s += (char)sx_u8("d"); return s; }
static void finish(bool started) { for (int i = 0; i < 4; i++) { bool parentEnd = i == WIN - RIN || i == ROUT - RIN; (void)parentEnd; sx_assert(!m.open[i], "every descriptor is closed"); } sx_assert(m.reaped == started, "the process is waited for"); sx_assert(!m.blocked && !m.pending, "the signal mask is left as it was"); }
static void readOut(InputStream& s, const string& want, int reads, bool mayFail) {
    size_t pos = 0; const char* p = 0; int32_t r = 0; sx_assert(s.status() == Ok, "a running process can be read");
    while (reads != 0 && (r = (int32_t)sx_conc((uint64_t)(int64_t)s.read(p, 1 + (reads == 1 ? (int)sx_choose(2, "min") : 0), 0))) > 0) { sx_assert(pos + r <= want.size() && sameBytes(p, want.data() + pos, r), "the stream delivers the output of the process"); if (pos + r > want.size()) sx_end(); pos += r; reads--; }
    if (r == -1) { sx_assert(!mayFail, "an input that cannot be read is an error"); sx_assert(pos == want.size() && s.status() == Eof && s.size() == (int64_t)pos, "the stream delivers all output of the process"); sx_reach("end"); }
    if (r == -2) { sx_assert(mayFail && s.status() == Error && s.error() && s.error()[0], "no error without a cause"); sx_reach("error"); }
}
extern "C" {
void h_proc() { NoLeak noLeak; // reads the output of a process, which may or may not read an input
    m.cap = 1 + (int)sx_choose((uint32_t)sx_param("cap", 2), "cap"); m.toChild = sx_param("input", 1) ? true : false; m.kind = m.toChild ? (int)sx_choose(5, "kind") : PRINT; m.out = letters(m.kind == PRINT ? (int)sx_choose(4, "outlen") : 0); m.faults = (int)sx_param("faults", 1); m.sched = (int)sx_param("sched", 3);
    int n = m.toChild ? (int)sx_choose((uint32_t)sx_param("len", 3) + 1, "n") : 0; string d = letters(n); int err = sx_param("err", 0) ? (int)sx_choose((uint32_t)n + 1, "errat") : -1; bool fails = err >= 0 && err < n; SymStream in(d.data(), n, (int)sx_param("chunk", CH_SYM), true, sx_choose(2, "lazy"), err);
    string want = m.kind == PRINT ? m.out : m.kind == HEAD ? d.substr(0, 1) : m.kind == TALK ? "abc" + d : d; if (m.kind == SORT) for (int i = 0; i < n; i++) want[i] = d[n - 1 - i];
    if (fails && (m.kind == PRINT || m.kind == HEAD)) sx_end(); int reads = sx_choose(2, "all") ? -1 : (int)sx_choose(2, "reads");
    { ProcessInputStream s(args(), m.toChild ? &in : 0); sx_assert(!isOpen(RIN) && !isOpen(WOUT), "the ends of the pipes that belong to the process are closed"); readOut(s, want, reads, fails); } finish(true); sx_reach("done");
}
void h_proc_err() { h_proc(); }
void h_proc_noinput() { h_proc(); }
void h_proc_start() { NoLeak noLeak; // the child, and what fails on the way to it
    m.cap = 2; m.toChild = sx_choose(2, "input"); m.kind = PRINT; int k = sx_choose(5, "k"); if (k < 2) m.failPipe = k + 1; else m.forkMode = k == 2 ? 1 : 2; m.execFails = k == 4; if (k == 1 && !m.toChild) sx_end(); SymStream in("ab", 2, CH_MAX, true, false);
    { ProcessInputStream s(args(k == 3 ? sx_choose(8, "args") : 0), m.toChild ? &in : 0); sx_assert(!m.inChild, "the child does not return to the user's code"); const char* p; sx_assert(s.read(p, 1, 0) == -2 && s.status() == Error && s.error() && s.error()[0], "a process that cannot be started is an error with a message"); } finish(false); sx_reach("nostart");
}
void h_proc_large() { NoLeak noLeak; // amounts around the sizes of the buffers
    static const int N[] = { 4095, 4096, 4097, 8192, 9000 }, C[] = { 600, 4096, 65536 }; int n = N[sx_choose(5, "n")], kind = sx_choose(3, "kind"); m.cap = C[sx_choose(3, "cap")]; m.kind = kind == 0 ? PRINT : kind == 1 ? CAT : SORT; m.toChild = kind > 0; m.sched = 0; string d(n, 'x'); for (int i = 0; i < n; i++) d[i] = (char)('a' + i % 26); static const int P[] = { 0, 511, 512, 4095, 4096 }; for (int i = 0; i < 5; i++) if (P[i] < n) d[P[i]] = (char)sx_u8("d"); d[n - 1] = (char)sx_u8("d");
    if (!m.toChild) m.out = d; SymStream in(d.data(), n, sx_choose(2, "chunk") ? CH_MAX : CH_MIN + 0, true, false); if (in.chunk == CH_MIN && (n > 4096 || !m.toChild)) sx_end(); string want = kind < 2 ? d : string(d.rbegin(), d.rend());
    { ProcessInputStream s(args(), m.toChild ? &in : 0); readOut(s, want, -1, false); } finish(true); sx_reach("done");
}
}
