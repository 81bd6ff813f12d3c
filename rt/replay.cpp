// Native replay of a solver model: sx_* take their values, in creation order, from the witness file.
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
static std::map<std::string, std::vector<uint64_t>> vals; static std::map<std::string, size_t> used; static std::map<std::string, uint64_t> params; static bool loaded;
static bool mine; struct Mine { bool o; Mine() : o(mine) { mine = true; } ~Mine() { mine = o; } };   // blocks of this file do not count
static int64_t live; extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void onMalloc(const volatile void*, size_t) { if (!mine) live++; } static void onFree(const volatile void* p) { if (!mine && p) live--; }
static void load() { // system calls only: harnesses may replace the stdio and file functions
    if (loaded) return; loaded = true; const char* fn = getenv("SX_REPLAY"); int fd = fn ? (int)syscall(SYS_openat, AT_FDCWD, fn, O_RDONLY, 0) : -1; if (fd < 0) { fprintf(stderr, "no SX_REPLAY\n"); exit(90); }
    std::string all; char buf[4096]; long n; while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) all.append(buf, n); syscall(SYS_close, fd);
    size_t p = 0; while (p < all.size()) { size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size(); std::string line = all.substr(p, e - p); p = e + 1; if (line.size() > 2000) continue;
        char name[2048]; unsigned w; unsigned long long v; if (sscanf(line.c_str(), "in %2047s %u %llu", name, &w, &v) == 3) { std::string n(name); size_t h = n.rfind('#'); n = n.substr(0, h); vals[n].push_back(v); } else if (sscanf(line.c_str(), "param %2047s %llu", name, &v) == 2) params[name] = v; }
}
static uint64_t next(const char* n) { Mine m; load(); std::vector<uint64_t>& v = vals[n]; size_t& i = used[n]; if (i >= v.size()) return 0; return v[i++]; }
extern "C" {
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-ASSUME-FALSE\n"); exit(91); } }
void sx_assert(int c, const char* l) { if (!c) { fprintf(stderr, "SX-ASSERT-FAILED %s\n", l); fflush(stderr); _Exit(77); } }
void sx_fail(const char* l) { sx_assert(0, l); }
uint8_t sx_u8(const char* n) { return next(n); }
uint16_t sx_u16(const char* n) { return next(n); }
uint32_t sx_u32(const char* n) { return next(n); }
uint64_t sx_u64(const char* n) { return next(n); }
void sx_bytes(void* p, size_t k, const char* n) { for (size_t i = 0; i < k; i++) ((uint8_t*)p)[i] = next(n); }
uint32_t sx_choose(uint32_t k, const char* n) { if (k <= 1) return 0; return next(n); }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_reach(const char* l) { if (getenv("SX_TRACE")) fprintf(stderr, "REACH %s\n", l); }
void sx_end(void) { exit(0); }
uint64_t sx_param(const char* n, uint64_t d) { Mine m; load(); auto i = params.find(n); return i == params.end() ? d : i->second; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sx_print(const char* s, uint64_t v) { if (getenv("SX_TRACE")) fprintf(stderr, "[sx] %s %lld\n", s, (long long)v); }
uint64_t sx_sp(void) { return (uint64_t)(size_t)__builtin_frame_address(0); }
uint64_t sx_heap(void) { return getenv("SX_OBS") ? 0 : (uint32_t)live; } // paths without a violation: the engine knows what is still reachable, this does not
void sx_obs(const char* n, uint64_t v) { Mine m; if (getenv("SX_OBS")) fprintf(stdout, "OBS %s %llu\n", n, (unsigned long long)v); }
void SX_ENTRY(void);
}
int main() { load(); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); SX_ENTRY(); return 0; }
