// agent/Scraper.cc, LargeConsoleRead.cc, ConsoleLine.cc and Terminal.cc together: a simulated console on one side, a terminal
// emulator on the other.  A case is "mode seed steps": the whole history follows from it.
// Modes: log (numbered lines only: the transcript is checked), edit (any change), size (resizes too), w10 (reads while the program runs).
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/shared/OwnedHandle.cc src/shared/WinptyException.cc src/shared/StringUtil.cc src/agent/ConsoleLine.cc
#include "agent_stubs.h"
#include "term_emu.h"
#include "src/agent/Win32ConsoleBuffer.h"
#include "src/agent/Win32Console.h"
#include "src/agent/ConsoleFont.h"
using namespace vh;
static bool g_win8, g_visible = true; static UINT g_cp = 437; static DWORD g_outmode = 3; static int g_largestX, g_largestY;
static COORD sim_largest(HANDLE) { COORD c = {(SHORT)g_largestX, (SHORT)g_largestY}; return c; }
static BOOL sim_cci(HANDLE, CONSOLE_CURSOR_INFO *i) { i->dwSize = 25; i->bVisible = g_visible; return TRUE; }
static UINT sim_cp() { return g_cp; }
static BOOL sim_mode(HANDLE, DWORD *m) { *m = g_outmode; return TRUE; }
#define GetLargestConsoleWindowSize sim_largest
#define GetConsoleCursorInfo sim_cci
#define GetConsoleOutputCP sim_cp
#define GetConsoleMode sim_mode
#include "src/agent/Terminal.cc"
#include "src/agent/Scraper.cc"
#include "src/agent/LargeConsoleRead.cc"
bool isAtLeastWindows8() { return g_win8; }

static std::string g_out;
void NamedPipe::write(const void *d, size_t n) { g_out.append((const char *)d, n); }
void NamedPipe::write(const char *t) { g_out.append(t); }
void NamedPipe::closePipe() {}
static NamedPipe g_pipe;

typedef std::vector<CHAR_INFO> Row;
static CHAR_INFO cell(int c, int a) { CHAR_INFO r; r.Char.UnicodeChar = c; r.Attributes = a; return r; }
struct Con {
    int W = 0; std::deque<Row> rows; int wl = 0, wt = 0, ww = 0, wh = 0; int cx = 0, cy = 0; int attr = 7; bool frozen = false, started = false; int line = 0; int64_t pops = 0;   // rows that went out at the top
    std::vector<std::string> log; std::string bad; std::function<void()> busy;
    int H() { return rows.size(); }
    void clip() { ww = std::min(ww, W); wh = std::min(wh, H()); wl = std::max(0, std::min(wl, W - ww)); wt = std::max(0, std::min(wt, H() - wh)); cx = std::max(0, std::min(cx, W - 1)); cy = std::max(0, std::min(cy, H() - 1)); }
    void show() { if (cy < wt) wt = cy; if (cy >= wt + wh) wt = cy - wh + 1; }
    void nl() { cx = 0; if (cy == H() - 1) { rows.pop_front(); ++pops; rows.push_back(Row(W, cell(' ', attr))); } else ++cy; show(); }
    void put(int c) { rows[cy][cx] = cell(c, attr); if (++cx == W) nl(); }
    void numbered() { char b[24]; sprintf(b, "%d", ++line); std::string s = b; while ((int)s.size() < W - 1 && line % 3) s += (char)('a' + (line + s.size()) % 26), s.size() > (size_t)(line % W) ? (void)0 : (void)0; if ((int)s.size() > W - 1) s.resize(W - 1); log.push_back(s); for (char c : s) put((unsigned char)c); nl(); }
    void size(int w, int h) {
        if (w < ww || h < wh) return;
        for (auto &r : rows) r.resize(w, cell(' ', 7));
        // rows beyond the new height go; the cursor and the window stay inside
        while (H() > h) rows.pop_back();
        while (H() < h) rows.push_back(Row(w, cell(' ', 7)));
        W = w; clip();
    }
    void call() { if (!frozen && busy) busy(); }
};
static Con g_con;
void Win32ConsoleBuffer::read(const SmallRect &r, CHAR_INFO *d) {
    g_con.call();
    if (r.Left < 0 || r.Top < 0 || r.Right < r.Left || r.Bottom < r.Top || r.Right >= g_con.W || r.Bottom >= g_con.H()) { if (g_con.frozen || !g_con.busy) g_con.bad = "reads outside the console buffer"; return; }
    for (int y = r.Top; y <= r.Bottom; ++y) for (int x = r.Left; x <= r.Right; ++x) *d++ = g_con.rows[y][x];
}
void Win32ConsoleBuffer::write(const SmallRect &r, const CHAR_INFO *d) {
    g_con.call();
    if (!g_con.frozen) g_con.bad = "writes into a console that is not frozen";
    if (r.Left < 0 || r.Top < 0 || r.Right < r.Left || r.Bottom < r.Top || r.Right >= g_con.W || r.Bottom >= g_con.H()) { g_con.bad = "writes outside the console buffer"; return; }
    if (r.Bottom >= g_con.wt) g_con.bad = "writes into the visible window";
    for (int y = r.Top; y <= r.Bottom; ++y) for (int x = r.Left; x <= r.Right; ++x) g_con.rows[y][x] = *d++;
}
void Win32ConsoleBuffer::clearLines(int row, int n, const ConsoleScreenBufferInfo &i) {
    g_con.call();
    if (g_con.started && !g_con.frozen) g_con.bad = "clears lines of a console that is not frozen";
    if (row < 0 || n < 0 || row + n > g_con.H() || i.dwSize.X != g_con.W) { g_con.bad = "clears outside the console buffer"; return; }
    if (row + n > g_con.wt && n > 0) g_con.bad = "clears a row of the visible window";
    for (int y = row; y < row + n; ++y) g_con.rows[y].assign(g_con.W, cell(' ', 7));
}
void Win32ConsoleBuffer::clearAllLines(const ConsoleScreenBufferInfo &i) { if (g_con.started && !g_con.frozen) g_con.bad = "clears a console that is not frozen"; for (auto &r : g_con.rows) r.assign(g_con.W, cell(' ', 7)); }
ConsoleScreenBufferInfo Win32ConsoleBuffer::bufferInfo() {
    g_con.call();
    ConsoleScreenBufferInfo i; i.dwSize = Coord(g_con.W, g_con.H()); i.dwCursorPosition = Coord(g_con.cx, g_con.cy); i.srWindow = SmallRect(g_con.wl, g_con.wt, g_con.ww, g_con.wh);
    i.wAttributes = g_con.attr; i.dwMaximumWindowSize = Coord(g_largestX, g_largestY); return i;
}
bool Win32ConsoleBuffer::resizeBufferRange(const Coord &c, Coord &f) { g_con.call(); if (g_con.frozen) g_con.bad = "resizes a frozen console"; g_con.size(c.X, c.Y); f = c; return true; }
void Win32ConsoleBuffer::moveWindow(const SmallRect &r) {
    g_con.call();
    if (g_con.started && !g_con.frozen) g_con.bad = "moves the window of a console that is not frozen";
    if (r.Left < 0 || r.Top < 0 || r.Right < r.Left || r.Bottom < r.Top || r.Right >= g_con.W || r.Bottom >= g_con.H() || r.Right - r.Left >= g_largestX || r.Bottom - r.Top >= g_largestY) return;
    g_con.wl = r.Left; g_con.wt = r.Top; g_con.ww = r.Right - r.Left + 1; g_con.wh = r.Bottom - r.Top + 1;
}
SmallRect Win32ConsoleBuffer::windowRect() { return bufferInfo().windowRect(); }
void Win32ConsoleBuffer::setCursorPosition(const Coord &c) { g_con.cx = c.X; g_con.cy = c.Y; }
void Win32ConsoleBuffer::setTextAttribute(WORD a) { g_con.attr = a; }
HANDLE Win32ConsoleBuffer::conout() { return (HANDLE)4; }
Win32Console::Win32Console() {}
void Win32Console::setFrozen(bool f) { m_frozen = f; g_con.frozen = f; }
void setSmallFont(HANDLE, int, bool) { if (g_con.frozen) g_con.bad = "changes the font of a frozen console"; }

static WORD maskOf(bool w10) {
    bool cjk = g_cp == 932 || g_cp == 936 || g_cp == 949 || g_cp == 950, more = cjk || (g_outmode & 0x10) || (g_outmode & 4);
    WORD m = 0xffff; if (!(more || w10)) m &= ~0x4000; if (!more) m &= ~0x8000; return m;
}
static void run(const std::string &mode, uint64_t seed, int steps) {
    std::string c = mode + " " + std::to_string(seed) + " " + std::to_string(steps);
    cur(c);
    uint64_t keep = g_state; g_state = seed * 0x9E3779B97F4A7C15ULL + 77;
    bool log = mode == "log", sizes = mode == "size" || (log && rnd(2)), w10 = mode == "w10" || (mode != "edit" && rnd(3) == 0), colours = mode == "edit" || mode == "w10";
    bool widths = mode == "size", direct = mode == "size" && rnd(2);
    g_win8 = true; g_visible = true; g_out.clear();
    static const UINT cps[] = {437, 932, 936, 949, 950, 1252, 65001}; g_cp = cps[rnd(7)]; g_outmode = 3 | (rnd(4) ? 0 : 0x10) | (rnd(4) ? 0 : 4);
    g_con = Con(); Con &k = g_con;
    int cols = 8 + rnd(24), rows = 3 + rnd(rnd(4) ? 12 : 60); g_largestX = 60; g_largestY = rnd(3) ? 100 : rows + rnd(3);
    k.W = 80; k.rows.assign(300, Row(80, cell('z', 7))); k.ww = 60 < g_largestX ? 60 : g_largestX; k.wh = std::min(20, g_largestY);
    Win32Console con; con.setNewW10(w10);
    static char mem[256]; Win32ConsoleBuffer &buf = *(Win32ConsoleBuffer *)mem;
    std::unique_ptr<Terminal> tp(new Terminal(g_pipe, false, true)); Terminal &t = *tp;
    Scraper s(con, buf, std::move(tp), Coord(cols, rows)); k.started = true;
    Emu e(cols, 0); e.screen = rows;
    size_t logFrom = 0; bool ok = true; int budget = 0; std::set<std::pair<int64_t, int>> erased;
    std::string where;
    auto bad = [&](const std::string &w) { if (ok) fail(c, w + where); ok = false; };
    auto app = [&](int n) {
        for (; n > 0; --n) {
            int q = log ? 0 : rnd(16);
            if (q < 5) { int m = rnd(8) ? 1 + rnd(6) : 1 + rnd(rnd(3) ? 300 : 1900); if (m > budget) m = budget; budget -= m; while (m-- > 0) k.numbered(); }
            else if (q < 8) { int m = 1 + rnd(k.W + 5); if (budget < 3) continue; budget -= 3; while (m-- > 0) k.put(rnd(4) ? 'a' + rnd(26) : ' '); }
            else if (q < 10) { k.cx = k.wl + rnd(k.ww); k.cy = k.wt + rnd(k.wh); }
            else if (q < 12) { if (colours) k.attr = rnd(3) ? rnd(256) | (rnd(6) ? 0 : 0x8000) | (rnd(6) ? 0 : 0x4000) : 7; }
            else if (q < 14) { int y = k.wt + rnd(k.wh), x = rnd(k.W), m = rnd(4); for (; m >= 0 && x < k.W; --m, ++x) k.rows[y][x] = cell(rnd(3) ? 'A' + rnd(26) : ' ', k.attr); }
            else if (q == 14 && !rnd(3)) { int d = rnd(3) ? 1 + rnd(5) : std::max(1, s.m_syncRow - (int)rnd(2)); if (budget >= d && d < k.H()) { budget -= d; while (d-- > 0) { k.rows.pop_front(); ++k.pops; k.rows.push_back(Row(k.W, cell(' ', k.attr))); } } }   // the whole buffer scrolls under the window
            else if (q == 14 && !rnd(3)) { if (s.m_syncRow >= 0) for (int y = s.m_syncRow; y < s.m_syncRow + 5 && y < k.H() && y < k.wt; ++y) k.rows[y].assign(k.W, cell(' ', 7)); }   // a program writes over the marker
            else if (q == 14) { if (!rnd(3)) { for (auto &r : k.rows) r.assign(k.W, cell(' ', k.attr)); k.cx = k.cy = 0; k.wt = 0; } else g_visible = !g_visible; }
            else if (direct && !rnd(2)) { if (k.H() == 3000) { int h = k.wh + rnd(3); k.wt = 0; k.size(k.W + (rnd(3) ? 0 : rnd(9)), h); k.wt = 0; k.clip(); if (k.W > k.ww) k.wl = rnd(k.W - k.ww + 1); } else { k.size(cols, 3000); k.clip(); } }
            else if (k.wt + k.wh < k.H() && !rnd(2)) { int d = 1 + rnd(3); if (k.wt + k.wh + d <= k.H()) k.wt += d; }
        }
    };
    bool cleared = true, hadMarker = false; int64_t counted = 0, popsThen = 0;
    auto drain = [&]() { e.feed(g_out); if (g_out.find("\x1b[2J") != std::string::npos) { cleared = true; logFrom = SIZE_MAX; erased.clear(); } g_out.clear(); if (!e.error.empty()) bad("the terminal is sent nonsense: " + e.error); };
    for (int step = 0; step < steps && ok; ++step) {
        where = " (step " + std::to_string(step) + ")";
        budget = rnd(4) ? 100 : 2000;
        ConsoleScreenBufferInfo info;
        bool rz = sizes && !rnd(3);
        if (rz) {
            int nr = 2 + rnd(rnd(4) ? 20 : 90), nc = widths ? 4 + rnd(30) : cols;
            auto setw = [&](int n) { e.width = n; for (auto &r : e.rows) r.resize(n, ECell{' ', sgrDefault(), false}); if (e.col >= n) e.col = n - 1; e.wrapPending = false; };
            // what is sent while the console is resized has the wider of the two widths at most
            if (nc > cols) setw(nc);
            e.screen = nr;
            k.busy = nullptr; s.resizeWindow(buf, Coord(nc, nr), info); con.setFrozen(false); drain();
            if (nc < cols) setw(nc);
            cols = nc; rows = nr;
        }
        app(1 + rnd(4));
        if (w10 && rnd(2)) { int left = 6; k.busy = [&]() { if (left > 0 && !rnd(3)) { --left; app(1); } }; }
        bool dm = s.m_directMode;
        s.scrapeBuffer(buf, info); con.setFrozen(false); drain();
        // a program that gives the buffer its height back has the console resized after the scrape: the next one shows it
        if (k.busy || dm != s.m_directMode) { k.busy = nullptr; s.scrapeBuffer(buf, info); con.setFrozen(false); drain(); }
        if (!k.bad.empty()) bad("the agent " + k.bad);
        if (!ok) break;
        // with a marker in place, the rows that scrolled away are counted exactly
        if (!cleared && hadMarker && !dm && !s.m_directMode && k.H() == 3000 && !w10 && s.m_scrolledCount - counted != k.pops - popsThen) bad("the console scrolled by " + std::to_string(k.pops - popsThen) + " rows, the agent takes it for " + std::to_string(s.m_scrolledCount - counted));
        cleared = w10 || k.H() != 3000; counted = s.m_scrolledCount; popsThen = k.pops; hadMarker = s.m_syncRow >= 0;
        // the terminal's absolute row of a virtual line
        auto termRow = [&](int64_t v) { return e.row - (t.m_remoteLine - v); };
        WORD mask = maskOf(w10); bool isDirect = k.H() != 3000;
        int64_t base = isDirect ? -k.wt : s.m_scrolledCount; int vis = isDirect ? std::min(k.wh, rows) : k.wh, vw = isDirect ? std::min(k.ww, cols) : k.W;
        int prevAttr = -1; bool below = false;
        for (int y = k.wt; y < k.wt + vis && ok; ++y) {
            Row &r = k.rows[y]; int64_t a = termRow(y + base);
            bool blank = true; for (int x = 0; x < vw; ++x) if (r[x].Char.UnicodeChar != ' ') blank = false;
            bool exists = a >= 0 && a < (int64_t)e.rows.size() && (isDirect || y < s.m_dirtyLineCount);
            if (!exists) { if (!blank) bad("row " + std::to_string(y) + " with text is not on the terminal"); continue; }
            // a row the resize erased: the terminal keeps what it was
            bool erasedRow = sizes && blank; 
            for (int x = 0; x < vw && x < e.width && !erasedRow; ++x) {
                ECell &g = e.rows[a][isDirect ? x : x]; CHAR_INFO w = r[isDirect ? x + k.wl : x]; Sgr want = sgrSpec(w.Attributes & mask);
                if (g.ch != (uint32_t)w.Char.UnicodeChar) { bad("the terminal shows '" + std::string(1, (char)g.ch) + "' instead of '" + std::string(1, (char)w.Char.UnicodeChar) + "' at column " + std::to_string(x) + " of console row " + std::to_string(y)); break; }
                if (colours && !(g.sgr == want)) { bad("column " + std::to_string(x) + " of console row " + std::to_string(y) + " is in colour [" + sgrText(g.sgr) + "] instead of [" + sgrText(want) + "]"); break; }
            }
        }
        if (!ok) break;
        bool inWin = k.cy >= k.wt && k.cy < k.wt + vis && k.cx >= k.wl && k.cx < k.wl + (isDirect ? vw : k.ww);
        if (inWin && g_visible) { if (e.hidden) bad("the cursor is hidden"); else if (e.row != termRow(k.cy + base) || e.col != (isDirect ? k.cx - k.wl : k.cx)) bad("the cursor is not where the console has it"); }
        else if (!e.hidden) bad("the cursor is shown");
        if (log && logFrom == SIZE_MAX) bad("the terminal is cleared");
        if (log && ok) for (size_t i = 0; i < k.log.size(); ++i) {
            std::string got; if (i < e.rows.size()) for (auto &x : e.rows[i]) got += (char)x.ch;
            while (!got.empty() && got.back() == ' ') got.pop_back();
            if (got != k.log[i]) { bad("line " + std::to_string(i + 1) + " of the output reads '" + got + "' instead of '" + k.log[i] + "'"); break; }
        }
    }
    g_state = keep;
}
// the buffer scrolls by a chosen distance below a marker, then the window is resized: "marker seed distance"
static void marker(uint64_t seed, int past) {
    std::string c = "marker " + std::to_string(seed) + " " + std::to_string(past);
    cur(c);
    g_win8 = true; g_visible = true; g_out.clear(); g_cp = 437; g_outmode = 3;
    g_con = Con(); Con &k = g_con; int cols = 10, rows = 4 + seed % 5; g_largestX = 60; g_largestY = 100;
    k.W = 80; k.rows.assign(300, Row(80, cell('z', 7))); k.ww = 60; k.wh = 20;
    Win32Console con; static char mem[256]; Win32ConsoleBuffer &buf = *(Win32ConsoleBuffer *)mem;
    std::unique_ptr<Terminal> tp(new Terminal(g_pipe, false, true));
    Scraper s(con, buf, std::move(tp), Coord(cols, rows)); k.started = true; ConsoleScreenBufferInfo info; Emu e(cols, 0); e.screen = rows;
    auto drain = [&]() { e.feed(g_out); g_out.clear(); };
    int stop = 431 + past % 3;
    while (k.wt < stop) k.numbered();
    s.scrapeBuffer(buf, info); con.setFrozen(false); drain();
    int d = s.m_syncRow - past / 3;
    for (int i = 0; i < d; ++i) { k.rows.pop_front(); ++k.pops; k.rows.push_back(Row(k.W, cell(' ', 7))); }
    s.scrapeBuffer(buf, info); con.setFrozen(false); drain();
    s.resizeWindow(buf, Coord(cols, rows + 3), info); con.setFrozen(false); drain(); e.screen = rows + 3;
    for (int i = 0; i < 3; ++i) k.numbered();
    s.scrapeBuffer(buf, info); con.setFrozen(false); drain();
    if (!k.bad.empty()) fail(c, "the agent " + k.bad);
    if (!e.error.empty()) fail(c, "the terminal is sent nonsense: " + e.error);
    for (int y = k.wt; y < k.wt + k.wh && y < s.m_dirtyLineCount; ++y) {
        int64_t a = e.row - (s.m_terminal->m_remoteLine - (y + s.m_scrolledCount)); bool same = a >= 0 && a < (int64_t)e.rows.size(), blank = true;
        for (int x = 0; x < k.W; ++x) { if (k.rows[y][x].Char.UnicodeChar != ' ') blank = false; if (same && e.rows[a][x].ch != (uint32_t)k.rows[y][x].Char.UnicodeChar) same = false; }
        if (!same && !blank) { fail(c, "the terminal does not show console row " + std::to_string(y)); break; }
    }
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { char m[20]; unsigned long long sd; int st; if (sscanf(g_case.c_str(), "%19s %llu %d", m, &sd, &st) == 3) std::string(m) == "marker" ? marker(sd, st) : run(m, sd, st); finish(); return g_fails != 0; }
    static const char *ms[] = {"log", "edit", "size", "w10"};
    for (int i = 0; i < 60; ++i) marker(i / 12, i % 12);
    int N = g_thorough ? 6000 : 300;
    for (int i = 0; i < N; ++i) for (auto m : ms) run(m, rnd(1000000000), 3 + rnd(rnd(3) ? 12 : 60));
    finish();
    return g_fails != 0;
}
