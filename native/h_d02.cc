// Bounded formatting and copying with both kinds of C library, every small buffer size, and guarded memory.
#include "vh.h"
#include <stdarg.h>
using namespace vh;
static int g_kind, g_badWhat2; static std::string g_what; static void bad(const std::string &w) { if (g_what.empty()) g_what = w; }
static int f_vsnprintf(char *o, size_t n, const char *f, va_list a) {
    char t[4096]; int T = vsnprintf(t, sizeof t, f, a);
    if (g_kind == 2) { memset(o, 'J', n); return -1; }
    if (g_kind == 0) { size_t m = (size_t)T < n ? T : n - 1; memcpy(o, t, m); o[m] = 0; return T; }
    size_t m = (size_t)T < n ? T : n; memcpy(o, t, m); if ((size_t)T < n) o[m] = 0; return (size_t)T <= n ? T : -1;
}
static std::wstring g_in; static std::string g_out; static int g_calls;
static int f_W2M(UINT cp, DWORD fl, const wchar_t *s, int n, char *o, int cap, const char *d, BOOL *u) {
    if (cp != CP_UTF8 || fl || d || u) bad("other conversion"); if (std::wstring(s, n) != g_in) bad("another text is converted"); ++g_calls;
    if (cap == 0) return (int)g_out.size(); if (cap < (int)g_out.size()) { bad("no room for the result"); return 0; } memcpy(o, g_out.data(), g_out.size()); return (int)g_out.size();
}
void assertTrace(const char *, int, const char *c) { bad(std::string("assertion fails: ") + c); fail(g_cur, g_what); finish(); exit(1); }
#define vsnprintf f_vsnprintf
#define _vsnprintf f_vsnprintf
#include "src/shared/winpty_snprintf.h"
#undef vsnprintf
#define WideCharToMultiByte f_W2M
#include "src/shared/StringUtil.cc"
static int callV(char *o, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = winpty_vsnprintf(o, n, f, a); va_end(a); return r; }
template <size_t N> static int callT(char *o, const char *t) { return winpty_snprintf(*(char (*)[N])o, "%s", t); }
template <size_t N> static void copyT(const std::wstring &w, bool nul) {
    struct { wchar_t a[4]; wchar_t d[N]; wchar_t b[4]; } x; memset(&x, 0x5A, sizeof x);
    Guarded src(w.c_str(), 2 * (w.size() + 1));
    if (nul) winpty_wcsncpy_nul(x.d, (const wchar_t *)src.p); else winpty_wcsncpy(x.d, (const wchar_t *)src.p);
    size_t cap = nul ? N - 1 : N, m = std::min(w.size(), cap);
    for (size_t i = 0; i < N; ++i) if (x.d[i] != (i < m ? w[i] : 0)) bad("the copy is not the longest prefix, then nulls");
    for (int i = 0; i < 4; ++i) if (x.a[i] != 0x5A5A || x.b[i] != 0x5A5A) bad("written outside the buffer");
}
static void runCase(uint64_t seed) {
    std::string c = std::to_string(seed); cur(c); uint64_t save = g_state; g_state = seed * 0x9E3779B97F4A7C15ULL + 7; g_what.clear();
    switch (rnd(4)) {
    case 0: {
        size_t n = 1 + rnd(chance(1, 2) ? 6 : 70); std::string t; size_t T = chance(1, 2) ? n - 2 + rnd(5) : rnd(90); if (T > 5000) T = 0; for (size_t i = 0; i < T; ++i) t += (char)('a' + rnd(26));
        g_kind = (int)rnd(3); int which = (int)rnd(3); if (which == 2) n = chance(1, 2) ? 1 : 16;
        Guarded b(NULL, n + 8); memset(b.p, 'Z', n + 8); char *o = b.p + 8;
        int r = which == 0 ? callV(o, n, "%s", t.c_str()) : which == 1 ? winpty_snprintf(o, n, "%s", t.c_str()) : n == 1 ? callT<1>(o, t.c_str()) : callT<16>(o, t.c_str());
        for (int i = 0; i < 8; ++i) if (b.p[i] != 'Z') bad("written before the buffer");
        if (g_kind == 2) { if (r != -1) bad("a failure is not reported"); if (!memchr(o, 0, n)) bad("not terminated"); }
        else { if (r != (t.size() < n ? (int)t.size() : -1)) bad("the result is " + std::to_string(r)); if (!memchr(o, 0, n)) bad("not terminated"); else if (t.substr(0, n - 1) != o) bad("not the longest prefix"); }
        break; }
    case 1: { std::wstring w; size_t T = chance(1, 2) ? 28 + rnd(8) : rnd(40); for (size_t i = 0; i < T; ++i) w += (wchar_t)(1 + rnd(65535)); bool nul = chance(1, 2); if (chance(1, 4)) copyT<1>(w, nul); else if (chance(1, 3)) copyT<2>(w, nul); else copyT<32>(w, nul); break; }
    case 2: { size_t L = rnd(20), mx = chance(1, 8) ? (size_t)-1 : rnd(24); std::wstring w(L, L'x'); bool term = mx > L || chance(1, 2); Guarded s(NULL, 2 * (term ? L + 1 : mx)); for (size_t i = 0; i < (term ? L : mx); ++i) ((wchar_t *)s.p)[i] = L'x'; if (term) ((wchar_t *)s.p)[L] = 0;
        if (winpty_wcsnlen((const wchar_t *)s.p, mx) != std::min(L, mx)) bad("the length is wrong"); break; }
    default: { g_in.clear(); g_out.clear(); size_t L = rnd(20); for (size_t i = 0; i < L; ++i) { g_in += (wchar_t)rnd(65536); } size_t M = L ? rnd(60) : 0; for (size_t i = 0; i < M; ++i) g_out += (char)rnd(256);
        if (utf8FromWide(g_in) != g_out) bad("not the converted text");
        auto a = vectorFromString(g_in); if (std::wstring(a.begin(), a.end()) != g_in) bad("vectorFromString"); auto b = vectorWithNulFromString(g_in); if (std::wstring(b.begin(), b.end()) != g_in + L'\0') bad("vectorWithNulFromString"); }
    }
    g_state = save; if (!g_what.empty()) fail(c, g_what);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { runCase(strtoull(g_case.c_str(), 0, 10)); finish(); return g_fails ? 1 : 0; }
    int N = g_thorough ? 1000000 : 100000;
    for (int i = 0; i < N; ++i) runCase(rnd());
    finish(); return g_fails ? 1 : 0;
}
