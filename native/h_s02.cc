// FLAGS:
// largeConsoleRead on a synthetic console, both Windows generations in turn.
#include "vh.h"
#include "src/shared/WindowsVersion.h"
#include "src/agent/LargeConsoleRead.cc"
#include "src/agent/Win32ConsoleBuffer.h"
using namespace vh;
bool isTracingEnabled() { return false; }
void trace(const char *, ...) {}
void agentAssertFail(const char *, int, const char *) { abort(); }
void agentShutdown() {}
void assertTrace(const char *, int, const char *) {}
static bool g_win8;
bool isAtLeastWindows8() { return g_win8; }
static SmallRect g_want; static std::string g_bad; static CHAR_INFO *g_lo, *g_hi; static std::vector<int> g_seen;
static WORD at(int x, int y) { return (WORD)(x * 31 + y * 977 + 5); }
static WORD chr(int x, int y) { return (WORD)(x + y * 2503); }
// 'buffer' never exists: only read is called on it
void Win32ConsoleBuffer::read(const SmallRect &r, CHAR_INFO *data) {
    if (r.Left < g_want.Left || r.Right > g_want.Right || r.Top < g_want.Top || r.Bottom > g_want.Bottom || r.Right < r.Left || r.Bottom < r.Top) { g_bad = "reads outside the rectangle"; return; }
    int w = r.Right - r.Left + 1, h = r.Bottom - r.Top + 1;
    if (!g_win8 && h > 1 && w * h > 2500) g_bad = "reads more than the console accepts at once";
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        CHAR_INFO &c = data[y * w + x];
        c.Char.UnicodeChar = chr(r.Left + x, r.Top + y); c.Attributes = at(r.Left + x, r.Top + y);
        ++g_seen[(r.Top + y - g_want.Top) * (g_want.Right - g_want.Left + 1) + (r.Left + x - g_want.Left)];
    }
}
static LargeConsoleReadBuffer g_out;
static void run(int x, int y, int w, int h, int mask, bool fresh) {
    std::string c = "rect " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(w) + " " + std::to_string(h) + " " + std::to_string(mask) + " " + std::to_string(fresh) + " " + std::to_string(g_win8);
    cur(c);
    g_want = SmallRect(x, y, w, h); g_bad.clear(); g_seen.assign(w * h, 0);
    LargeConsoleReadBuffer own; LargeConsoleReadBuffer &out = fresh ? own : g_out;
    static char mem[256];
    largeConsoleRead(out, *(Win32ConsoleBuffer *)mem, g_want, (WORD)mask);
    if (!g_bad.empty()) { fail(c, g_bad); return; }
    if (!(out.rect() == g_want)) { fail(c, "the result has another rectangle"); return; }
    for (size_t i = 0; i < g_seen.size(); ++i) if (g_seen[i] != 1) { fail(c, "a cell is read " + std::to_string(g_seen[i]) + " times"); return; }
    for (int j = 0; j < h; ++j) {
        const CHAR_INFO *l = out.lineData(y + j);
        for (int i = 0; i < w; ++i) if (l[i].Char.UnicodeChar != chr(x + i, y + j) || l[i].Attributes != (WORD)(at(x + i, y + j) & mask)) { fail(c, "a cell is not the console's"); return; }
    }
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { int x, y, w, h, m, f, v; if (sscanf(g_case.c_str(), "rect %d %d %d %d %d %d %d", &x, &y, &w, &h, &m, &f, &v) == 7) { g_win8 = v; run(x, y, w, h, m, f); } finish(); return g_fails != 0; }
    // the Windows version is asked once per process: the pieces first
    g_win8 = g_mode == "win8";
    for (int w = 1; w <= 40; ++w) for (int h = 1; h <= 70; h += (w < 6 ? 1 : 3)) run(w & 3, h & 7, w, h, (w + h) & 1 ? 0xffff : 0x80ff, h & 1);
    int ws[] = {1, 2, 79, 80, 81, 833, 1249, 1250, 1251, 2499, 2500};
    for (int w : ws) for (int d = -2; d <= 2; ++d) for (int k = 1; k <= 3; ++k) { int q = 2500 / w * k + d; if (q >= 1 && (long long)w * q < 3000000) run(3, 9, w, q, 0xff, 0); }
    run(0, 0, 1, 32766, 0xffff, 0); run(0, 3000, 80, 9000, 0xffff, 0); run(10, 29999, 300, 2000, 0xff, 1);
    int N = g_thorough ? 20000 : 3000;
    for (int i = 0; i < N; ++i) { int w = 1 + rnd(rnd(4) ? 200 : 2500), h = 1 + rnd(std::min<uint64_t>(30000, 200000 / w + 1)); run(rnd(100), rnd(32766 - h), w, h, rnd(3) ? 0xffff : (int)rnd(65536), rnd(2)); }
    finish();
    return g_fails != 0;
}
