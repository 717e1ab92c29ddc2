// Shared helpers of the runtime contract checkers (RAC).  Everything here is an
// executable contract: spec functions are written bit by bit, independently of
// the code under test.
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <time.h>
#include <unistd.h>
#include <sys/resource.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef std::string S;

static char g_ctx[512];          // what is being executed, for crash reports
static u64 g_evals, g_calls;
static double g_deadline = 1e18;
static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void ctx(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(g_ctx, sizeof g_ctx, fmt, a); va_end(a); }
[[noreturn]] static void fail(const char *fmt, ...) {
    char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    printf("RAC-FAIL %s | %s\n", b, g_ctx); fflush(stdout); _exit(1);
}
static void on_sig(int s) {
    char b[700]; int n = snprintf(b, sizeof b, "RAC-FAIL %s | %s\n", s == SIGALRM ? "no return within the time limit (endless loop)" : s == SIGSEGV ? "memory fault (SIGSEGV)" : s == SIGABRT ? "abort" : "fatal signal", g_ctx);
    (void) !write(1, b, n); _exit(1);
}
static char g_alt[1 << 16];
static void install_signals() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_alt; ss.ss_size = sizeof g_alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGALRM}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr);
    }
}
static S hex(const S &k) { S r; char b[4]; for (unsigned char c : k) { snprintf(b, 4, "%02x", c); r += b; } return r; }

struct Rng { u64 s; explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) (*this)(); }
    u64 operator()() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? (*this)() % n : 0; }
    bool p(int num, int den) { return (int) below(den) < num; }
};

// ---- spec functions on keys: infinite, zero padded bit strings, msb first ----
static inline int kbit(const S &k, size_t i) { return i / 8 < k.size() ? ((unsigned char) k[i / 8] >> (7 - i % 8)) & 1 : 0; }
static inline u64 kbits(const S &k, size_t pos, unsigned n) { u64 r = 0; for (unsigned i = 0; i < n; i++) r = r << 1 | kbit(k, pos + i); return r; }
struct SII { u32 shared, ignore, implicit; };
static inline SII spec_sii(const S &a, const S &b) {   // a < b
    size_t lim = 8 * std::max(a.size(), b.size()) + 64;
    u32 s = 0; while (s < lim && kbit(a, s) == kbit(b, s)) s++;
    u32 g = 0; while (s + 1 + g < lim && kbit(a, s + 1 + g) == 1 && kbit(b, s + 1 + g) == 0) g++;
    u64 i1 = kbits(a, s + g + 1, 9), i2 = (1ull << 9) | kbits(b, s + g + 1, 9);
    return {s, g, 10u + (2 * (i2 - i1 + 1) < 1024)};
}
static inline u64 spec_extract(const S &k, const SII &x, u32 w, u64 msb) { return msb << (x.implicit - 1 + w) | kbits(k, x.shared + x.ignore + 1, x.implicit - 1 + w); }

// infix values: the lowest set bit ends the prefix; v covers [v - lb, v | (v - 1)]
static inline u64 lo_of(u64 v) { return v & (v - 1); }
static inline u64 hi_of(u64 v) { return v | (v - 1); }
static inline bool infix_less(u64 a, u64 b) { u64 al = a & -a, bl = b & -b; return a - al < b - bl || (a - al == b - bl && al > bl); }
static inline u64 mask(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }

static u32 iarg(int c, char **v, int i, u32 d) { return c > i ? strtoul(v[i], 0, 0) : d; }
