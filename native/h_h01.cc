// OwnedHandle histories with CloseHandle replaced by a recording stand-in.
#include "vh.h"
static BOOL fakeClose(HANDLE h);
#define CloseHandle fakeClose
#include "src/shared/OwnedHandle.cc"
#undef CloseHandle
using namespace vh;
void trace(const char *, ...) {}
bool isTracingEnabled() { return false; }
struct Boom : WinptyException { };
void throwWindowsError(const wchar_t *p) { throw 1; }
void throwWindowsError(const wchar_t *p, DWORD e) { throw 1; }
static std::map<uintptr_t, int> g_live, g_closed;
static std::string g_bad; static int g_failClose;
static BOOL fakeClose(HANDLE h) {
    uintptr_t v = (uintptr_t)h;
    if (!v || h == INVALID_HANDLE_VALUE) g_bad = "an invalid or null handle is closed";
    else if (g_closed[v]) g_bad = "a handle is closed twice";
    else if (!g_live.count(v)) g_bad = "a released handle is closed";
    if (g_failClose && rnd(g_failClose) == 0) return FALSE;
    g_closed[v]++; g_live.erase(v);
    return TRUE;
}
static void run(const std::string &c) {
    cur(c); g_live.clear(); g_closed.clear(); g_bad.clear();
    unsigned long long seed; int n, fc; if (sscanf(c.c_str(), "history %llu %d %d", &seed, &n, &fc) != 3) return;
    uint64_t keep = g_state; g_state = seed; g_failClose = fc;
    uintptr_t next = 16;
    {
        std::vector<std::unique_ptr<OwnedHandle>> v; std::vector<uintptr_t> m;   // m: what each should hold
        auto add = [&](uintptr_t h) { m.push_back(h); };
        for (int i = 0; i < n && g_bad.empty(); ++i) {
            size_t a = v.empty() ? 0 : rnd(v.size()), b = v.empty() ? 0 : rnd(v.size());
            switch (rnd(9)) {
            case 0: v.emplace_back(new OwnedHandle); add(0); break;
            case 1: case 2: { uintptr_t h = rnd(8) == 0 ? 0 : rnd(8) == 0 ? (uintptr_t)-1 : next; if (h == next) { next += 4; g_live[h] = 1; } v.emplace_back(new OwnedHandle((HANDLE)h)); add(h); break; }
            case 3: if (!v.empty()) { uintptr_t h = (uintptr_t)v[a]->release(); if (h != m[a]) g_bad = "release returns another handle"; m[a] = 0; g_live.erase(h); if (v[a]->get()) g_bad = "a released owner still holds its handle"; } break;
            case 4: if (!v.empty()) { v.emplace_back(new OwnedHandle(std::move(*v[a]))); add(m[a]); m[a] = 0; if (v[a]->get()) g_bad = "a moved-from owner still holds its handle"; } break;
            case 5: if (v.size() > 1 && a != b) { uintptr_t old = m[a]; try { *v[a] = std::move(*v[b]); if (old && old != (uintptr_t)-1 && !g_closed[old]) g_bad = "a replaced handle is not closed"; m[a] = m[b]; m[b] = 0; } catch (int) { if (g_closed[old]) g_bad = "closing succeeded but failed"; } } break;
            case 6: if (!v.empty()) { uintptr_t old = m[a]; try { v[a]->dispose(); if (old && old != (uintptr_t)-1 && !g_closed[old]) g_bad = "a disposed handle is not closed"; m[a] = 0; } catch (int) {} } break;
            case 7: if (!v.empty()) { v[a]->dispose(true); g_live.erase(m[a]); m[a] = 0; } break;
            case 8: if (!v.empty()) { uintptr_t old = m[a]; v.erase(v.begin() + a); m.erase(m.begin() + a); if (!g_failClose && old && old != (uintptr_t)-1 && !g_closed[old]) g_bad = "a destroyed owner leaves its handle open"; } break;
            }
            for (size_t k = 0; k < v.size() && g_bad.empty(); ++k) if ((uintptr_t)v[k]->get() != m[k]) g_bad = "an owner holds another handle than it was given";
        }
    }
    if (!g_failClose && g_bad.empty() && !g_live.empty()) g_bad = "a handle is never closed";
    g_state = keep;
    if (!g_bad.empty()) fail(c, g_bad);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { run(g_case); finish(); return g_fails != 0; }
    for (int i = 0; i < (g_thorough ? 200000 : 20000); ++i) run("history " + std::to_string(rnd()) + " " + std::to_string(1 + rnd(rnd(2) ? 6 : 60)) + " " + (i % 2 ? "3" : "0"));
    finish();
    return g_fails != 0;
}
