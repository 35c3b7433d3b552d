// Shared by the native drivers: deterministic random numbers, time budget, failure report.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) u64(); }
    uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t u32() { return (uint32_t)(u64() >> 16); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((u64() >> 8) % n) : 0; }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t n, uint32_t d) { return below(d) < n; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline std::string strf(const char* f, ...) {
    char b[4096]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b;
}
inline std::string& trace() { static std::string t; return t; }
inline void out_raw(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(1, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
inline std::string& prop() { static std::string p; return p; }
[[noreturn]] inline void fail(const std::string& what) {
    out_raw("FAIL property=" + prop() + " " + what + "\ncase:\n" + trace() + "\n");
    _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) fail(strf(__VA_ARGS__)); } while (0)
inline void note(const char* f, ...) {
    char b[2048]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v);
    if (trace().size() < 200000) trace() += std::string("  ") + b + "\n";
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void on_death() { out_raw("FAIL property=" + prop() + " memory error while running the case below\ncase:\n" + trace() + "\n"); }
inline void on_alarm(int) { out_raw("FAIL property=" + prop() + " the code does not terminate on the case below\ncase:\n" + trace().substr(0, 100000) + "\n"); _exit(3); }
inline void on_abort(int) { out_raw("FAIL property=" + prop() + " the code aborted on the case below\ncase:\n" + trace().substr(0, 100000) + "\n"); _exit(4); }

// one case must finish within 20 s
inline void case_begin() { trace().clear(); struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_REAL, &it, 0); }

void one_case(Rng& r);
#ifndef MAX_CASES
#define MAX_CASES 400000
#endif
inline int driver_main(int argc, char** argv) {
    prop() = argc > 1 ? argv[1] : "?";
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    double secs = argc > 3 ? atof(argv[3]) : 10;
    signal(SIGALRM, on_alarm);
    signal(SIGABRT, on_abort);
    signal(SIGPIPE, SIG_IGN);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    double end = now() + secs;
    long n = 0;
    for (; n < MAX_CASES && now() < end; n++) { Rng r(seed * 1000003 + n); case_begin(); note("seed %llu case %ld", (unsigned long long)seed, n); one_case(r); }
    out_raw(strf("CASES %ld\n", n));
    return 0;
}
