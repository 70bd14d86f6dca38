// Common part of the native harnesses: options, RNG, reporting.
#pragma once
#ifdef __linux__
#include <windows.h>   // the stub
#include <signal.h>
#include <unistd.h>
#else
#include <winsock2.h>
#include <windows.h>
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <memory>
#include <functional>
#include <algorithm>
#include <sstream>

namespace vh {
static uint64_t g_seed = 1;
static bool g_thorough = false;
static std::string g_case;
static bool g_hasCase = false;
static std::vector<std::string> g_models;
static std::string g_mode;
static uint64_t g_evals = 0;
static std::unordered_set<uint64_t> g_distinct;
static int g_fails = 0;
static int g_samples = 0;
static std::map<std::string, int> g_failKinds;

static uint64_t g_state = 88172645463325252ULL;
static inline uint64_t rnd() {
    uint64_t z = (g_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
static inline bool chance(int num, int den) { return (int)rnd(den) < num; }

static inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
static inline std::string hex(const void *p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; ++i) { unsigned char c = ((const unsigned char *)p)[i]; r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
static inline std::string unhex(const std::string &s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), NULL, 16);
    return r;
}
static inline std::string vis(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c >= 0x20 && c < 0x7f && c != '\\') r += (char)c; else { sprintf(b, "\\x%02x", c); r += b; } }
    return r;
}
static inline std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r; std::string cur;
    for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
    r.push_back(cur);
    return r;
}
static void finish() {
    printf("COUNT evaluations=%llu distinct=%llu\n", (unsigned long long)g_evals, (unsigned long long)g_distinct.size());
    fflush(stdout);
}
static void fail(const std::string &c, const std::string &what) {
    ++g_fails;
    std::string k = what.substr(0, 40);
    if (g_failKinds[k]++ < 3) { printf("FAIL %s ## %s\n", c.c_str(), what.c_str()); fflush(stdout); }
    if (g_fails >= 200) { finish(); exit(1); }
}
// announce a case before running it (a crash or hang is then attributed to it)
static void begin(const std::string &c) {
    ++g_evals;
    if (g_distinct.size() < 3000000) g_distinct.insert(hashStr(c));
    if (g_samples < 3 && (g_evals == 1 || g_evals % 97 == 0)) { ++g_samples; printf("SAMPLE %s\n", c.substr(0, 200).c_str()); }
    static char last[1 << 16];
    (void)last;
}
static void announce(const std::string &c) { printf("CASE %s\n", c.c_str()); fflush(stdout); }
static void options(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") g_seed = strtoull(v.c_str(), NULL, 10);
        else if (a == "--tier") g_thorough = v == "thorough";
        else if (a == "--case") { g_case = v; g_hasCase = true; }
        else if (a == "--mode") g_mode = v;
        else if (a == "--model") g_models.push_back(v);
    }
    g_state ^= g_seed * 0x2545F4914F6CDD1DULL;
#ifndef __linux__
    SetErrorMode(SEM_FAILCRITICALERRORS | SEM_NOGPFAULTERRORBOX);
#endif
}
static std::string g_cur;
#ifdef __linux__
static void onSignal(int n) {
    printf("FAIL %s ## %s\n", g_cur.c_str(), n == SIGALRM ? "does not return (20 s)" : n == SIGABRT ? "abort in the code under test" : "crash in the code under test");
    finish();
    fflush(stdout);
    _exit(1);
}
static volatile int g_tick = 0;
static void install() {
    int s[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int x : s) signal(x, onSignal);
    alarm(20);
}
#define VH_TICK() do { if ((++g_tick & 1023) == 1) alarm(20); } while (0)
#else
static LONG WINAPI onCrash(EXCEPTION_POINTERS *e) {
    printf("FAIL %s ## crash: exception %08lx in the code under test\n", g_cur.c_str(), e->ExceptionRecord->ExceptionCode);
    finish();
    fflush(stdout);
    ExitProcess(1);
    return 0;
}
static void onTerminate() {
    printf("FAIL %s ## uncaught exception or abort in the code under test\n", g_cur.c_str());
    finish();
    fflush(stdout);
    ExitProcess(1);
}
// one case; crash, abort and hang are reported against it
static volatile LONG g_tick = 0;
static DWORD WINAPI watchdog(void *) {
    LONG last = -1; int still = 0;
    for (;;) {
        Sleep(500);
        if (g_tick == last) { if (++still >= 40) {
            printf("FAIL %s ## does not return (20 s)\n", g_cur.c_str()); finish(); fflush(stdout); ExitProcess(1); } }
        else { still = 0; last = g_tick; }
    }
}
static void install() {
    SetUnhandledExceptionFilter(onCrash);
    std::set_terminate(onTerminate);
    CreateThread(NULL, 0, watchdog, NULL, 0, NULL);
}
#define VH_TICK() ++g_tick
#endif
static void cur(const std::string &c) { VH_TICK(); g_cur = c; begin(c); }

#ifndef __linux__
// memory whose end touches an inaccessible page: any read past it faults
struct Guarded {
    char *base; size_t total; char *p; size_t n;
    Guarded(const void *src, size_t nn) : n(nn) {
        size_t pages = (nn + 4095) / 4096;
        total = (pages + 1) * 4096;
        base = (char *)VirtualAlloc(NULL, total, MEM_RESERVE | MEM_COMMIT, PAGE_READWRITE);
        DWORD old; VirtualProtect(base + pages * 4096, 4096, PAGE_NOACCESS, &old);
        p = base + pages * 4096 - nn;
        if (src) memcpy(p, src, nn);
    }
    ~Guarded() { VirtualFree(base, 0, MEM_RELEASE); }
};
#endif
}
