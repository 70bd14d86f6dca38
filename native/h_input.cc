// agent/ConsoleInput.cc, ConsoleInputReencoding.cc, InputMap.cc, DefaultInputMap.cc
// against an independent model of terminal input.  Modes i01..i06.
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/agent/DebugShowInput.cc
#include "agent_stubs.h"
using namespace vh;
#include "src/include/winpty_constants.h"
#include "src/shared/StringBuilder.h"
#include "src/shared/UnixCtrlChars.h"
#include "src/agent/DsrSender.h"
#include "src/agent/Win32Console.h"
#include "src/agent/DebugShowInput.h"
#include "src/agent/SmallRect.h"

// ---- simulated system
struct Cfg { DWORD mode; int L, T, R, B; DWORD dct; uint32_t vkseed; int mouse; };
static Cfg g_cfg; static DWORD g_tickNow; 
struct Ev { char kind; INPUT_RECORD r; WPARAM w; LPARAM l; UINT msg; };   // R record, C ctrl-c, S message, D status request
static std::vector<Ev> g_log; static std::string g_sysBad;
static HANDLE const kConin = (HANDLE)0x1234; static HWND const kHwnd = (HWND)0x5678;
static UINT scanOf(UINT vk) { return (vk * 37 + 11) % 400; }
static short vkScan(uint32_t ch) {
    if (g_cfg.vkseed == 0) {
        if (ch >= 'a' && ch <= 'z') return ch - 32;
        if (ch >= 'A' && ch <= 'Z') return 0x100 | ch;
        if (ch >= 1 && ch <= 26) return ch == 9 || ch == 8 || ch == 13 ? ch : 0x200 | (ch + 64);
        if (ch >= '0' && ch <= '9') return ch;
        if (ch == ' ') return ch;
        if (ch == 0x1b) return 0x1b;
        if (ch == 0xB2) return 0x600 | '2';
        return ch < 128 ? (short)(0x100 | (0xBA + ch % 6)) : -1;
    }
    uint32_t h = (ch + 1) * 2654435761u ^ g_cfg.vkseed * 40503u; h ^= h >> 13; h *= 2246822519u; h ^= h >> 15;
    if ((h & 3) == 0) return -1;
    return (short)((h >> 8) & 0x7ff);
}
static BOOL fake_WriteConsoleInputW(HANDLE h, const INPUT_RECORD *r, DWORD n, DWORD *a) {
    if (h != kConin) g_sysBad = "writes to another handle";
    for (DWORD i = 0; i < n; ++i) { Ev e = {}; e.kind = 'R'; e.r = r[i]; g_log.push_back(e); }
    *a = n; return TRUE;
}
static int g_getFails, g_setFails, g_sets; static bool g_real; static DWORD g_setTo;     // i07: the console takes the mode, calls fail
static BOOL fake_GetConsoleMode(HANDLE h, DWORD *m) { if (g_real && h != kConin) g_sysBad = "asks another handle's mode"; if (g_getFails) return FALSE; *m = g_cfg.mode; return TRUE; }
static BOOL fake_SetConsoleMode(HANDLE h, DWORD m) { if (!g_real) return TRUE; if (h != kConin) g_sysBad = "changes another handle's mode"; ++g_sets; g_setTo = m; if (g_setFails) return FALSE; g_cfg.mode = m; return TRUE; }
static BOOL fake_GenerateConsoleCtrlEvent(DWORD e, DWORD g) { if (e != CTRL_C_EVENT || g != 0) g_sysBad = "another control event"; Ev x = {}; x.kind = 'C'; g_log.push_back(x); return TRUE; }
static LRESULT fake_SendMessage(HWND h, UINT m, WPARAM w, LPARAM l) { if (h != kHwnd) g_sysBad = "message to another window"; Ev x = {}; x.kind = 'S'; x.msg = m; x.w = w; x.l = l; g_log.push_back(x); return 0; }
static UINT fake_MapVirtualKey(UINT vk, UINT t) { if (t != 0) g_sysBad = "MapVirtualKey with another mapping"; return scanOf(vk); }
#undef MapVirtualKey
#undef SendMessage
#undef VkKeyScan
#define WriteConsoleInputW fake_WriteConsoleInputW
#define GetConsoleMode fake_GetConsoleMode
#define SetConsoleMode fake_SetConsoleMode
#define GenerateConsoleCtrlEvent fake_GenerateConsoleCtrlEvent
#define SendMessage fake_SendMessage
#define SendMessageW fake_SendMessage
#define MapVirtualKey fake_MapVirtualKey
#define MapVirtualKeyW fake_MapVirtualKey
#define VkKeyScan vkScan
#define VkKeyScanW vkScan
#define GetTickCount() g_tickNow
#define GetDoubleClickTime() g_cfg.dct
#include "src/agent/InputMap.cc"
#include "src/agent/DefaultInputMap.cc"
#undef DIM
#undef ESC
#include "src/agent/ConsoleInputReencoding.cc"
#include "src/agent/ConsoleInput.cc"
#undef ENABLE_PROCESSED_INPUT
#define ENABLE_PROCESSED_INPUT 1
struct Dsr : DsrSender { void sendDsr() override { Ev x = {}; x.kind = 'D'; g_log.push_back(x); } };

// ---- reference: the documented sequences
struct K { int vk; uint32_t ch; int st; bool operator==(const K &o) const { return vk == o.vk && ch == o.ch && st == o.st; } };
enum { sRALT = 1, sLALT = 2, sCTRL = 8, sSHIFT = 0x10, sENH = 0x100 };
typedef std::map<std::string, K> Table;
static int modState(int m) { m -= 1; return (m & 1 ? sSHIFT : 0) | (m & 2 ? sLALT : 0) | (m & 4 ? sCTRL : 0); }
static bool enh(int vk) { return vk == 0x26 || vk == 0x28 || vk == 0x25 || vk == 0x27 || vk == 0x2d || vk == 0x2e || vk == 0x24 || vk == 0x23 || vk == 0x21 || vk == 0x22; }
static void put(Table &t, const std::string &s, int vk, uint32_t ch, int st) {
    if ((st & sCTRL) && (ch == '+' || ch == '-' || ch == '*' || ch == '/')) ch = 0;
    if ((st & sCTRL) && vk == 0x0d) ch = '\n';
    if (enh(vk)) st |= sENH;
    K k = {vk, ch, st}; t[s] = k;
}
static Table documented() {
    Table t; const std::string E = "\x1b";
    // alt: 0 the sequence itself, 1 with ESC before it
    auto both = [&](bool alt, const std::string &s, int vk, uint32_t ch, int st) { if (alt) put(t, E + s, vk, ch, st | sLALT); put(t, s, vk, ch, st); };
    auto plain = [&](bool alt, std::string pre, std::string id, int vk, uint32_t ch, int st) { both(alt, E + pre + id, vk, ch, st); };
    auto bareMod = [&](bool alt, std::string pre, std::string id, int vk, uint32_t ch, int st) { for (int m = 2; m <= 8; ++m) both(alt, E + pre + char('0' + m) + id, vk, ch, st | modState(m)); };
    auto semiMod = [&](bool alt, std::string pre, std::string id, int vk, uint32_t ch, int st) { for (int m = 2; m <= 8; ++m) both(alt, E + pre + "1;" + char('0' + m) + id, vk, ch, st | modState(m)); };
    // cursor keys: xterm, putty (ESC O), rxvt shift (lower case) and control (ESC O lower case)
    struct { char c; int vk; } arrows[] = {{'A', 0x26}, {'B', 0x28}, {'C', 0x27}, {'D', 0x25}};
    for (auto &a : arrows) {
        std::string u(1, a.c), l(1, (char)(a.c + 32));
        plain(true, "[", u, a.vk, 0, 0); bareMod(true, "[", u, a.vk, 0, 0); semiMod(true, "[", u, a.vk, 0, 0);
        plain(true, "O", u, a.vk, 0, 0); plain(true, "[", l, a.vk, 0, sSHIFT); plain(true, "O", l, a.vk, 0, sCTRL);
    }
    // keypad 5
    plain(true, "[", "E", 0x0c, 0, 0); semiMod(true, "[", "E", 0x0c, 0, 0);
    plain(true, "[", "G", 0x0c, 0, 0); semiMod(true, "[", "G", 0x0c, 0, 0);
    plain(true, "O", "G", 0x0c, 0, 0);
    // home and end
    for (int i = 0; i < 2; ++i) { std::string id = i ? "F" : "H"; int vk = i ? 0x23 : 0x24; plain(true, "[", id, vk, 0, 0); bareMod(true, "[", id, vk, 0, 0); semiMod(true, "[", id, vk, 0, 0); plain(true, "O", id, vk, 0, 0); }
    // F1..F4
    for (int i = 0; i < 4; ++i) {
        std::string id(1, (char)('P' + i)); int vk = 0x70 + i;
        semiMod(true, "[", id, vk, 0, 0);
        plain(false, "O", id, vk, 0, 0); bareMod(false, "O", id, vk, 0, 0); semiMod(false, "O", id, vk, 0, 0);
    }
    // application keypad
    struct { char c; int vk; char ch; } pad[] = {{'M', 0x0d, '\r'}, {'j', 0x6a, '*'}, {'k', 0x6b, '+'}, {'m', 0x6d, '-'}, {'n', 0x2e, 0}, {'o', 0x6f, '/'}, {'p', 0x2d, 0},
        {'q', 0x23, 0}, {'r', 0x28, 0}, {'s', 0x22, 0}, {'t', 0x25, 0}, {'u', 0x0c, 0}, {'v', 0x27, 0}, {'w', 0x24, 0}, {'x', 0x26, 0}, {'y', 0x21, 0}};
    for (auto &p : pad) { std::string id(1, p.c); plain(true, "O", id, p.vk, p.ch, 0); bareMod(true, "O", id, p.vk, p.ch, 0); plain(true, "[", id, p.vk, p.ch, 0); semiMod(true, "[", id, p.vk, p.ch, 0); }
    plain(false, "[", "Z", 0x09, '\t', sSHIFT);
    // numbered keys; the final character is ~ or, in rxvt, $ (shift) ^ (control) @ (both)
    struct { int n, vk, st; } num[] = {{1, 0x24, 0}, {2, 0x2d, 0}, {3, 0x2e, 0}, {4, 0x23, 0}, {5, 0x21, 0}, {6, 0x22, 0}, {7, 0x24, 0}, {8, 0x23, 0},
        {11, 0x70, 0}, {12, 0x71, 0}, {13, 0x72, 0}, {14, 0x73, 0}, {15, 0x74, 0}, {17, 0x75, 0}, {18, 0x76, 0}, {19, 0x77, 0}, {20, 0x78, 0}, {21, 0x79, 0}, {23, 0x7a, 0}, {24, 0x7b, 0},
        {25, 0x72, sSHIFT}, {26, 0x73, sSHIFT}, {28, 0x74, sSHIFT}, {29, 0x75, sSHIFT}, {31, 0x76, sSHIFT}, {32, 0x77, sSHIFT}, {33, 0x78, sSHIFT}, {34, 0x79, sSHIFT}};
    struct { char c; int st; } suf[] = {{'~', 0}, {'$', sSHIFT}, {'^', sCTRL}, {'@', sSHIFT | sCTRL}};
    for (auto &n : num) for (auto &s : suf) for (int m = 1; m <= 8; ++m)
        both(true, E + "[" + std::to_string(n.n) + (m > 1 ? std::string(";") + char('0' + m) : std::string()) + s.c, n.vk, 0, n.st | s.st | modState(m));
    put(t, "\x7f", 8, 8, 0); put(t, E + "\x7f", 8, 8, sLALT); put(t, "\x03", 'C', 3, sCTRL);
    for (int i = 0; i < 5; ++i) both(true, E + "[[" + char('A' + i), 0x70 + i, 0, 0);
    return t;
}
struct Found { int len; K key; bool more; };
static Found look(const Table &t, const std::string &in) {
    Found f = {0, {0, 0, 0}, false};
    for (size_t n = 1; n <= in.size() && n <= 16; ++n) { auto i = t.find(in.substr(0, n)); if (i != t.end()) { f.len = (int)n; f.key = i->second; } }
    auto i = t.upper_bound(in);
    f.more = i != t.end() && i->first.compare(0, in.size(), in) == 0;
    return f;
}
// what the real table holds (only the public lookup is used)
static std::string keyStr(const K &k) { char b[80]; sprintf(b, "vk=%#x ch=%#x state=%#x", k.vk, k.ch, k.st); return b; }
static void walkReal(const InputMap &m, const std::string &p, Table &out, int depth) {
    InputMap::Key k; bool inc = false; int n = m.lookupKey(p.data(), p.size(), k, inc);
    if (!p.empty() && n == (int)p.size()) { K x = {k.virtualKey, k.unicodeChar, k.keyState}; out[p] = x; }
    if (depth < 14 && (inc || p.empty())) for (int c = 0; c < 256; ++c) {
        std::string q = p + (char)c; InputMap::Key k2; bool i2 = false; int n2 = m.lookupKey(q.data(), q.size(), k2, i2);
        if (n2 == (int)q.size() || i2) walkReal(m, q, out, depth + 1);
    }
}

// ---- reference: terminal input
struct U8 { int len; bool ok; uint32_t cp; };
static int u8len(unsigned char b) { return b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0; }
static U8 u8(const std::string &s) {
    unsigned char b = s[0]; int n = u8len(b); U8 r = {n, true, 0};
    uint32_t v = n == 1 ? b : b & (0x7f >> n);
    for (int i = 1; i < n; ++i) { unsigned char c = s[i]; if ((c & 0xc0) != 0x80) r.ok = false; v = v << 6 | (c & 0x3f); }
    static const uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000};
    if (v < lo[n] || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) r.ok = false;
    r.cp = v; return r;
}
// patterns: -1 beginning, 0 no, n length
struct Num { long v; };
static int pat(const std::string &in, const char *p, std::vector<long> &out) {
    size_t i = 0;
    for (; *p; ++p) {
        if (i >= in.size()) return -1;
        if (*p == 'd' || *p == 's') {      // number of up to seven digits, s: with sign
            bool neg = false;
            if (*p == 's' && in[i] == '-') { neg = true; if (++i >= in.size()) return -1; }
            long v = 0; int k = 0;
            while (i < in.size() && in[i] >= '0' && in[i] <= '9') { if (++k > 7) return 0; v = v * 10 + (in[i] - '0'); ++i; }
            if (k == 0) return i >= in.size() ? -1 : 0;
            out.push_back(neg ? -v : v);
        } else if (*p == '?') { out.push_back((unsigned char)in[i]); ++i; }
        else if (*p == '!') { if (in[i] != 'M' && in[i] != 'm') return 0; out.push_back(in[i]); ++i; }
        else { if (in[i] != *p) return 0; ++i; }
    }
    return (int)i;
}
struct Ref {
    const Table &tab; std::string q; DWORD last = 0; bool asked = false;
    DWORD held = 0; DWORD dbtn = 0; long dx = 0, dy = 0; DWORD dtick = 0;
    std::vector<Ev> log;
    Ref(const Table &t) : tab(t) {}
    bool esc() const { return g_cfg.mode & 0x200; }
    void rec(BOOL dn, int vk, uint32_t ch, DWORD st) {
        Ev e = {}; e.kind = 'R'; e.r.EventType = KEY_EVENT; auto &k = e.r.Event.KeyEvent;
        k.bKeyDown = dn; k.wRepeatCount = 1; k.wVirtualKeyCode = vk; k.wVirtualScanCode = scanOf(vk); k.uChar.UnicodeChar = ch; k.dwControlKeyState = st; log.push_back(e);
    }
    void cps(BOOL dn, int vk, uint32_t cp, DWORD st) {
        if (cp < 0x10000) rec(dn, vk, cp, st);
        else { cp -= 0x10000; rec(dn, vk, 0xd800 + (cp >> 10), st); rec(dn, vk, 0xdc00 + (cp & 0x3ff), st); }
    }
    void msg(UINT m, int vk) { Ev e = {}; e.kind = 'S'; e.msg = m; e.w = vk; UINT sc = scanOf(vk); if (sc > 255) sc = 0; e.l = (LPARAM)(uint32_t)((sc << 16) | 1 | (m == WM_KEYUP ? 0xc0000000u : 0)); log.push_back(e); }
    void vt(int vk, uint32_t cp, int st) {
        auto out = [&](const std::string &s) { for (char c : s) rec(TRUE, 0, (unsigned char)c, 0); };
        std::string alt = st & sLALT ? "\x1b" : "";
        int f = (st & sSHIFT ? 1 : 0) + (st & sLALT ? 2 : 0) + (st & sCTRL ? 4 : 0);
        static const std::map<int, std::string> L = {{0x26, "A"}, {0x28, "B"}, {0x27, "C"}, {0x25, "D"}, {0x0c, "E"}, {0x24, "H"}, {0x23, "F"}};
        static const std::map<int, std::string> N = {{0x2d, "2"}, {0x2e, "3"}, {0x21, "5"}, {0x22, "6"}, {0x70, "11"}, {0x71, "12"}, {0x72, "13"}, {0x73, "14"}, {0x74, "15"}, {0x75, "17"}, {0x76, "18"}, {0x77, "19"}, {0x78, "20"}, {0x79, "21"}, {0x7a, "23"}, {0x7b, "24"}};
        auto l = L.find(vk); auto n = N.find(vk);
        std::string m = f ? ";" + std::to_string(1 + f) : "";
        if (l != L.end()) out("\x1b[" + (f ? "1" + m : std::string()) + l->second);
        else if (n != N.end()) out("\x1b[" + n->second + m + "~");
        else if (vk == 8) out(alt + "\x7f");
        else if (vk == 9 && (st & sSHIFT)) out("\x1b[Z");
        else if (cp) { out(alt); cps(TRUE, 0, cp, 0); }
    }
    void press(int vk, uint32_t dn, uint32_t up, int st, uint32_t vcp, int vst) {
        bool arrow = vk == 0x26 || vk == 0x28 || vk == 0x25 || vk == 0x27 || vk == 0x24 || vk == 0x23;
        if (esc() && arrow && !(st & (sCTRL | sLALT | sRALT | sSHIFT))) { msg(WM_KEYDOWN, vk); msg(WM_KEYUP, vk); return; }
        struct M { int bit, vk, extra; } ms[] = {{sCTRL, VK_CONTROL, 0}, {sLALT, VK_MENU, 0}, {sRALT, VK_MENU, sENH}, {sSHIFT, VK_SHIFT, 0}};
        int held = 0;
        for (auto &m : ms) if (st & m.bit) { held |= m.bit; rec(TRUE, m.vk, 0, held | m.extra); }
        int ks = held | (st & sENH);
        if (esc()) vt(vk, vcp, vst); else cps(TRUE, vk, dn, ks);
        cps(FALSE, vk, up, ks);
        for (int i = 3; i >= 0; --i) if (st & ms[i].bit) { held &= ~ms[i].bit; rec(FALSE, ms[i].vk, 0, held | ms[i].extra); }
    }
    void text(const std::string &s, bool alt) {
        U8 u = u8(s); if (!u.ok) return;
        short sc = u.cp > 0xffff ? -1 : vkScan(u.cp);
        int vk = 0, st = 0; uint32_t dn = u.cp, up = u.cp;
        if (sc != -1) {
            vk = sc & 0xff; st = (sc & 0x100 ? sSHIFT : 0) | (sc & 0x200 ? sCTRL : 0) | (sc & 0x400 ? sRALT : 0);
            if (alt && (sc & 0x200)) dn = 0;
        }
        if (alt) { up = 0; st |= sLALT; }
        press(vk, dn, up, st, u.cp, alt ? sLALT : 0);
    }
    void mouse(int flags, long x, long y, bool release) {
        int b = flags & 3;
        Ev e = {}; e.kind = 'R'; e.r.EventType = MOUSE_EVENT; auto &m = e.r.Event.MouseEvent;
        auto cl = [](long v, long n) { return v < 0 ? 0 : v > n - 1 ? n - 1 : v; };
        m.dwMousePosition.X = g_cfg.L + cl(x, g_cfg.R - g_cfg.L + 1); m.dwMousePosition.Y = g_cfg.T + cl(y, g_cfg.B - g_cfg.T + 1);
        m.dwControlKeyState = (flags & 4 ? SHIFT_PRESSED : 0) | (flags & 8 ? LEFT_ALT_PRESSED : 0) | (flags & 16 ? LEFT_CTRL_PRESSED : 0);
        if (flags & 0x40) {
            if (b > 1) return;
            m.dwEventFlags = MOUSE_WHEELED; m.dwButtonState = held | (b == 0 ? 0x00780000 : 0xff880000);
        } else {
            m.dwEventFlags = flags & 0x20 ? MOUSE_MOVED : 0;
            if (b == 3) held = 0;
            else {
                DWORD f = b == 0 ? 1 : b == 1 ? 4 : 2;
                if (release) { held &= ~f; if (f != dbtn) dbtn = 0; }
                else if (!(held & f)) {
                    held |= f;
                    // the terminal's position, not the clamped one, must be the same
                    auto s16 = [](long v) { return v < -32768 ? -32768 : v > 32767 ? 32767 : v; };
                    if (dbtn == f && dx == s16(x) && dy == s16(y) && (DWORD)(g_tickNow - dtick) < g_cfg.dct) { m.dwEventFlags |= DOUBLE_CLICK; dbtn = 0; }
                    else { dbtn = f; dx = s16(x); dy = s16(y); dtick = g_tickNow; }
                }
            }
            m.dwButtonState = held;
        }
        if ((g_cfg.mode & ENABLE_MOUSE_INPUT) && !(g_cfg.mode & ENABLE_QUICK_EDIT_MODE)) log.push_back(e);
    }
    int step(const std::string &in, bool eof) {
        if (in[0] == 3 && (g_cfg.mode & ENABLE_PROCESSED_INPUT)) { Ev e = {}; e.kind = 'C'; log.push_back(e); return 1; }
        if (in[0] == 0x1b) {
            std::vector<long> v; int r = pat(in, "\x1b[d;dR", v);
            if (r > 0) { asked = false; return r; }
            if (r < 0 && !eof) return -1;
            v.clear(); r = pat(in, "\x1b[<d;s;s!", v);
            if (r > 0) { mouse(v[0], v[1] - 1, v[2] - 1, v[3] == 'm'); return r; }
            if (r < 0 && !eof) return -1;
            v.clear(); r = r ? r : pat(in, "\x1b[d;s;sM", v);
            if (r > 0) { mouse(v[0] - 32, v[1] - 1, v[2] - 1, false); return r; }
            if (r < 0 && !eof) return -1;
            v.clear(); r = r ? r : pat(in, "\x1b[M???", v);
            if (r > 0) { mouse((v[0] - 32) & 0xff, (v[1] - 33) & 0xff, (v[2] - 33) & 0xff, false); return r; }
            if (r < 0 && !eof) return -1;
        }
        Found f = look(tab, in);
        if (f.more && !eof) return -1;
        if (f.len > 0) {
            uint32_t dn = (f.key.st & sCTRL) && (f.key.st & sLALT) ? 0 : f.key.ch, up = f.key.st & sLALT ? 0 : dn;
            press(f.key.vk, dn, up, f.key.st, f.key.ch, f.key.st);
            return f.len;
        }
        size_t o = in[0] == 0x1b && in.size() >= 2 && in[1] != 0x1b && u8len(in[1]) > 0 ? 1 : 0;
        int n = u8len(in[o]);
        if (n == 0) return 1;
        if (o + n > in.size()) return -1;
        text(in.substr(o, n), o == 1);
        return (int)(o + n);
    }
    void run(bool eof) { while (!q.empty()) { int n = step(q, eof); if (n < 0) break; q.erase(0, n); } }
    void write(const std::string &s) {
        if (s.empty()) return;
        q += s; run(false);
        if (!q.empty() && !asked) { Ev e = {}; e.kind = 'D'; log.push_back(e); asked = true; }
        last = g_tickNow;
    }
    void timer() { if (!q.empty() && (DWORD)(g_tickNow - last) > 1000) { run(true); q.clear(); } }
};
static std::string evStr(const Ev &e) {
    char b[200];
    if (e.kind == 'C') return "Ctrl-C"; if (e.kind == 'D') return "status-request";
    if (e.kind == 'S') { sprintf(b, "message %#x %#x %#x", e.msg, (unsigned)e.w, (unsigned)e.l); return b; }
    if (e.r.EventType == KEY_EVENT) { auto &k = e.r.Event.KeyEvent; sprintf(b, "key %s vk=%#x scan=%#x ch=%#x state=%#x rep=%d", k.bKeyDown ? "down" : "up", k.wVirtualKeyCode, k.wVirtualScanCode, k.uChar.UnicodeChar, (unsigned)k.dwControlKeyState, k.wRepeatCount); return b; }
    if (e.r.EventType == MOUSE_EVENT) { auto &m = e.r.Event.MouseEvent; sprintf(b, "mouse (%d,%d) buttons=%#x keys=%#x flags=%#x", m.dwMousePosition.X, m.dwMousePosition.Y, (unsigned)m.dwButtonState, (unsigned)m.dwControlKeyState, (unsigned)m.dwEventFlags); return b; }
    return "record of another type";
}
// what a property looks at
static bool isMod(const Ev &e) { int v = e.r.Event.KeyEvent.wVirtualKeyCode; return v == VK_CONTROL || v == VK_MENU || v == VK_SHIFT; }
static std::vector<std::string> view(const std::vector<Ev> &l, const std::string &mode) {
    std::vector<std::string> r; char b[100];
    for (auto &e : l) {
        bool key = e.kind == 'R' && e.r.EventType == KEY_EVENT, mouse = e.kind == 'R' && e.r.EventType == MOUSE_EVENT;
        auto &k = e.r.Event.KeyEvent;
        if (mode == "i02") { if (mouse || e.kind == 'D') r.push_back(evStr(e)); }
        else if (mode == "i03") { if (key || e.kind == 'S') r.push_back(evStr(e)); }
        else if (mode == "i04") { if (key && (!isMod(e) || k.uChar.UnicodeChar)) { sprintf(b, "character %#x %s alt=%d", k.uChar.UnicodeChar, k.bKeyDown ? "down" : "up", (k.dwControlKeyState & 2) != 0); r.push_back(b); } else if (e.kind == 'C') r.push_back("Ctrl-C"); }
        else if (mode == "i01") { if (mouse) r.push_back("mouse event"); else if (key) { if (k.bKeyDown && !isMod(e)) { sprintf(b, "press %#x character %#x", k.wVirtualKeyCode, k.uChar.UnicodeChar); r.push_back(b); } } else if (e.kind == 'S') { sprintf(b, "message %#x key %#x", e.msg, (unsigned)e.w); r.push_back(b); } else r.push_back(evStr(e)); }
        else r.push_back(evStr(e));
    }
    return r;
}
static std::string g_tabBytes;
static const Table *g_tab;
static std::vector<std::string> g_seqs;

struct Real {
    static char conMem[sizeof(Win32Console) + 64];
    Dsr dsr; ConsoleInput ci;
    static Win32Console &con() { *(HWND *)conMem = kHwnd; Win32Console &c = *(Win32Console *)conMem; return c; }
    Real() : ci(kConin, g_cfg.mouse, dsr, con()) {
        ci.setMouseWindowRect(SmallRect(g_cfg.L, g_cfg.T, g_cfg.R - g_cfg.L + 1, g_cfg.B - g_cfg.T + 1));
    }
};
char Real::conMem[sizeof(Win32Console) + 64];
static std::string cfgStr() { char b[120]; sprintf(b, "%x,%d,%d,%d,%d,%u,%u,%d,%u", (unsigned)g_cfg.mode, g_cfg.L, g_cfg.T, g_cfg.R, g_cfg.B, (unsigned)g_cfg.dct, g_cfg.vkseed, g_cfg.mouse, (unsigned)g_tickNow); return b; }
static void setCfg(const std::string &s) { unsigned m, d, t; sscanf(s.c_str(), "%x,%d,%d,%d,%d,%u,%u,%d,%u", &m, &g_cfg.L, &g_cfg.T, &g_cfg.R, &g_cfg.B, &d, &g_cfg.vkseed, &g_cfg.mouse, &t); g_cfg.mode = m; g_cfg.dct = d; g_tickNow = t; }
// ops: w<hex>  t<ms>  f (timer)  m<hexmode>
static void runOps(const std::string &cfg, const std::vector<std::string> &ops, const std::string &mode) {
    std::string c = cfg; for (auto &o : ops) c += ";" + o;
    cur(c);
    setCfg(cfg); g_log.clear(); g_sysBad.clear();
    Real real; real.ci.updateInputFlags(); Ref ref(*g_tab);
    size_t fed = 0;
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string &o = ops[i];
        if (o[0] == 'w') { std::string s = unhex(o.substr(1)); real.ci.writeInput(s); ref.write(s); }
        else if (o[0] == 't') g_tickNow += (DWORD)strtoul(o.c_str() + 1, 0, 10);
        else if (o[0] == 'f') { real.ci.flushIncompleteEscapeCode(); ref.timer(); }
        else if (o[0] == 'm') { g_cfg.mode = (DWORD)strtoul(o.c_str() + 1, 0, 16); real.ci.updateInputFlags(); }
        if (!g_sysBad.empty()) { fail(c, g_sysBad); return; }
        auto a = view(g_log, mode), b = view(ref.log, mode);
        if (a != b) {
            size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
            char n[80]; sprintf(n, "after step %d, event %d: ", (int)i, (int)k);
            fail(c, std::string(n) + (k < a.size() ? a[k] : "nothing") + " instead of " + (k < b.size() ? b[k] : "nothing")); return;
        }
    }
    if (mode == "i03") {     // every modifier pressed has been released
        int held[3] = {0, 0, 0}; std::vector<int> st;
        for (auto &e : g_log) if (e.kind == 'R' && e.r.EventType == KEY_EVENT) {
            auto &k = e.r.Event.KeyEvent; if (!isMod(e) || k.uChar.UnicodeChar || g_cfg.vkseed) continue;
            if (k.bKeyDown) st.push_back(k.wVirtualKeyCode); else if (st.empty() || st.back() != k.wVirtualKeyCode) { fail(c, "a modifier is released out of order"); return; } else st.pop_back();
        }
        if (!st.empty()) { fail(c, "a modifier stays pressed"); return; }
    }
}
// the same bytes cut differently: the same events (status requests aside)
static void splitCase(const std::string &cfg, const std::string &bytes, const std::string &cuts) {
    std::string c = "S " + cfg + " " + hex(bytes) + " " + cuts; cur(c);
    std::vector<std::string> res[2];
    for (int w = 0; w < 2; ++w) {
        setCfg(cfg); g_log.clear(); Real real; real.ci.updateInputFlags();
        if (w == 0) real.ci.writeInput(bytes);
        else { size_t a = 0; auto cs = split(cuts, ','); for (auto &x : cs) { size_t b = std::min(bytes.size(), a + (size_t)atoi(x.c_str())); real.ci.writeInput(bytes.substr(a, b - a)); a = b; real.ci.flushIncompleteEscapeCode(); } real.ci.writeInput(bytes.substr(a)); }
        std::vector<Ev> l; for (auto &e : g_log) if (e.kind != 'D') l.push_back(e);
        res[w] = view(l, "all");
        // end of input: everything is taken after the time limit
        g_tickNow += 1500; real.ci.flushIncompleteEscapeCode();
        std::vector<Ev> l2; for (auto &e : g_log) if (e.kind != 'D') l2.push_back(e);
        res[w].push_back("end"); auto v2 = view(l2, "all"); res[w].insert(res[w].end(), v2.begin(), v2.end());
        size_t before = g_log.size(); g_tickNow += 5000; real.ci.flushIncompleteEscapeCode();
        if (g_log.size() != before) { fail(c, "bytes are held back after the time limit"); return; }
    }
    if (res[0] != res[1]) {
        size_t k = 0; while (k < res[0].size() && k < res[1].size() && res[0][k] == res[1][k]) ++k;
        fail(c, "cut into pieces, event " + std::to_string(k) + " is " + (k < res[1].size() ? res[1][k] : "missing") + " instead of " + (k < res[0].size() ? res[0][k] : "nothing"));
    }
}
// ---- generators
static std::string encode(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
static std::string genNum(bool sgn) {
    std::string s; if (sgn && chance(1, 8)) s = "-";
    int n = chance(1, 6) ? rnd(10) : 1 + rnd(3); for (int i = 0; i < n; ++i) s += chance(1, 4) ? (chance(1, 2) ? '0' : '9') : char('0' + rnd(10));
    return s;
}
static std::string genDsr() { return "\x1b[" + genNum(false) + ";" + genNum(false) + (chance(9, 10) ? "R" : chance(1, 2) ? "S" : ""); }
static int g_btn[] = {0, 1, 2, 3, 0x40, 0x41, 0x42, 0x43, 0x20, 0x21, 0x22, 0x23, 0x60};
static std::string genMouse() {
    int f = g_btn[rnd(13)] | (chance(1, 2) ? 0 : rnd(8) << 2) | (chance(1, 10) ? 0x80 : 0);
    std::string x = chance(1, 2) ? std::to_string(1 + rnd(3)) : genNum(true), y = chance(1, 2) ? std::to_string(1 + rnd(3)) : genNum(true);
    switch (rnd(3)) {
    case 0: return "\x1b[<" + std::to_string(f) + ";" + x + ";" + y + (chance(1, 2) ? "M" : chance(9, 10) ? "m" : "R");
    case 1: return "\x1b[" + std::to_string(f + 32) + ";" + x + ";" + y + (chance(19, 20) ? "M" : "m");
    default: { std::string s = "\x1b[M"; s += (char)(f + 32); s += (char)(chance(1, 2) ? 33 + rnd(3) : rnd(256)); s += (char)(chance(1, 2) ? 33 + rnd(3) : rnd(256)); return s; }
    }
}
static uint32_t genCp() {
    switch (rnd(8)) { case 0: case 1: case 2: return rnd(128); case 3: return rnd(0x800); case 4: return rnd(0x10000); case 5: return 0x10000 + rnd(0x100000); case 6: { static const uint32_t b[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xd800, 0xdfff, 0x110000, 0x1b, 3, 0xfffd, 0xfeff}; return b[rnd(17)]; } default: return 0x20 + rnd(0x5f); }
}
static std::string genPiece(int w) {
    switch (rnd(w)) {
    case 0: return g_seqs[rnd(g_seqs.size())];
    case 1: { std::string s = g_seqs[rnd(g_seqs.size())]; int k = rnd(3); if (k == 0) s = s.substr(0, rnd(s.size() + 1)); else if (k == 1 && !s.empty()) s[rnd(s.size())] = "ABMR~;[O0123456789\x1b\x03x<"[rnd(23)]; else s += "ABCMR;~1"[rnd(8)]; return s; }
    case 2: return genMouse();
    case 3: return genDsr();
    case 4: { std::string s = genMouse(); return s.substr(0, rnd(s.size() + 1)); }
    case 5: { std::string s = genDsr(); return s.substr(0, rnd(s.size() + 1)); }
    case 6: return encode(genCp());
    case 7: return "\x1b" + encode(genCp());
    case 8: return std::string(1, (char)rnd(256));
    case 9: { std::string s = encode(genCp()); return s.substr(0, rnd(s.size() + 1)); }
    case 10: return std::string("\x1b");
    case 11: return std::string("\x03");
    default: { std::string s = encode(genCp()); s[rnd(s.size())] = (char)rnd(256); return s; }
    }
}
static std::string genText() {
    std::string s; int n = 1 + rnd(6);
    for (int i = 0; i < n; ++i) switch (rnd(8)) { case 0: s += "\x1b" + encode(genCp()); break; case 1: s += genPiece(13); break; case 2: { std::string e = encode(genCp()); e[rnd(e.size())] = (char)rnd(256); s += e; break; } case 3: s += (char)rnd(256); break; default: s += encode(genCp()); }
    return s;
}
static void randCfg() {
    g_cfg.mode = (chance(1, 2) ? ENABLE_PROCESSED_INPUT : 0) | (chance(2, 3) ? ENABLE_MOUSE_INPUT : 0) | (chance(1, 5) ? ENABLE_QUICK_EDIT_MODE : 0) | (chance(1, 2) ? 0x80 : 0) | (chance(1, 3) ? 0x200 : 0);
    int w = chance(1, 6) ? 1 + rnd(32000) : 1 + rnd(200), h = chance(1, 6) ? 1 + rnd(32000) : 1 + rnd(100);
    g_cfg.L = rnd(3) * rnd(300); g_cfg.T = rnd(3) * rnd(700); g_cfg.R = g_cfg.L + w - 1; g_cfg.B = g_cfg.T + h - 1;
    if (g_cfg.R > 32766) { g_cfg.L = 0; g_cfg.R = w - 1; } if (g_cfg.B > 32766) { g_cfg.T = 0; g_cfg.B = h - 1; }
    g_cfg.dct = chance(1, 10) ? rnd(3) : 500; g_cfg.vkseed = chance(1, 3) ? 0 : 1 + rnd(1000); g_cfg.mouse = rnd(3);
    g_tickNow = chance(1, 4) ? 0xffffffffu - rnd(3000) : rnd(100000);
}
static void ops(const std::string &mode) {
    randCfg(); std::string cfg = cfgStr(); std::vector<std::string> o;
    int n = 1 + rnd(mode == "i02" ? 12 : 6);
    for (int i = 0; i < n; ++i) {
        std::string s;
        if (mode == "i02") { int k = 1 + rnd(3); for (int j = 0; j < k; ++j) s += chance(5, 6) ? (chance(3, 4) ? genMouse() : genDsr()) : genPiece(13); if (chance(1, 10)) s = s.substr(0, rnd(s.size() + 1)); }
        else if (mode == "i04") s = genText();
        else { int k = 1 + rnd(4); for (int j = 0; j < k; ++j) s += genPiece(13); }
        if (!s.empty()) {
            if (mode == "i01" && chance(1, 2)) { size_t a = 0; while (a < s.size()) { size_t k = 1 + rnd(4); o.push_back("w" + hex(s.substr(a, k))); a += k; if (chance(1, 6)) { static const int t[] = {1, 400, 999, 1000, 1001, 3000}; o.push_back("t" + std::to_string(t[rnd(6)])); if (chance(2, 3)) o.push_back("f"); } } }
            else o.push_back("w" + hex(s));
        }
        if (chance(1, 3)) { static const int t[] = {1, 100, 499, 500, 999, 1000, 1001, 3000}; o.push_back("t" + std::to_string(t[rnd(8)])); }
        if (chance(1, 4)) o.push_back("f");
        if (chance(1, 12)) { char b[20]; sprintf(b, "m%x", (unsigned)((rnd(2) ? 1 : 0) | (rnd(3) ? 0x10 : 0) | (rnd(5) ? 0 : 0x40) | (rnd(3) ? 0 : 0x200))); o.push_back(b); }
    }
    runOps(cfg, o, mode);
}
// ---- i05: random tables
struct Op5 { std::string s; int key; };
static void tableCase(const std::vector<std::string> &sets, const std::vector<std::string> &looks) {
    std::string c = "T"; for (auto &s : sets) c += "," + hex(s); c += " "; for (auto &s : looks) c += "," + hex(s);
    cur(c.substr(0, 30000));
    InputMap m; Table t; int i = 0;
    for (auto &s : sets) {
        ++i; InputMap::Key k = {(uint16_t)(i & 1 ? i : 0), (uint32_t)(i & 1 ? 0 : i), (uint16_t)(i * 7)}; 
        { Guarded g(s.data(), s.size()); m.set(g.p, s.size(), k); }
        K x = {k.virtualKey, k.unicodeChar, k.keyState}; t[s] = x;
    }
    for (auto &s : looks) {
        Found f = look(t, s); InputMap::Key k = {1, 2, 3}; bool inc = !f.more;
        Guarded g(s.data(), s.size());
        int n = m.lookupKey(g.p, s.size(), k, inc);
        K x = {k.virtualKey, k.unicodeChar, k.keyState};
        if (n != f.len) { fail(c, "lookup of " + hex(s) + " has length " + std::to_string(n) + " instead of " + std::to_string(f.len)); return; }
        if (!(x == f.key)) { fail(c, "lookup of " + hex(s) + " gives " + keyStr(x) + " instead of " + keyStr(f.key)); return; }
        if (inc != f.more) { fail(c, "lookup of " + hex(s) + (inc ? " asks for more input" : " does not ask for more input")); return; }
    }
}
static void randTable() {
    int alpha = chance(1, 3) ? 256 : chance(1, 2) ? 12 : 3; int n = chance(1, 20) ? 100 + rnd(400) : 1 + rnd(40); unsigned base = rnd(256);
    auto gen = [&](int lo) { std::string s; int l = lo + rnd(chance(1, 4) ? 7 : 3); for (int i = 0; i < l; ++i) s += (char)(base + rnd(alpha)); return s; };
    std::vector<std::string> sets, looks;
    for (int i = 0; i < n; ++i) { std::string s = gen(1); if (!sets.empty() && chance(1, 2)) { s = sets[rnd(sets.size())] + s; if (s.size() > 14) s.resize(14); } sets.push_back(s); }
    for (int i = 0; i < 40; ++i) { std::string s = chance(2, 3) ? sets[rnd(sets.size())] : gen(0); if (chance(1, 2)) s = s.substr(0, rnd(s.size() + 1)); if (chance(1, 2)) s += gen(0); looks.push_back(s); }
    tableCase(sets, looks);
}
// ---- i07: when mouse reports are wanted: "start mode, later mode, mouse mode, failing calls"
static void mouseCase(DWORD m0, DWORD m1, int mm, int fails) {
    char c[80]; sprintf(c, "%x %x %d %d", (unsigned)m0, (unsigned)m1, mm, fails); cur(c);
    g_cfg = {m0, 0, 0, 79, 24, 500, 0, mm}; g_real = true; g_sets = 0; g_getFails = fails & 1; g_setFails = fails & 2; g_sysBad.clear(); g_log.clear();
    Real real;
    DWORD want = m0 | 0xA0; want = mm == 1 ? want | 0x40 : want & ~0x40u;
    if (g_getFails ? g_sets != 0 : g_sets ? g_setTo != want : m0 != want) fail(c, "the console input mode is set wrongly at the start");
    auto on = [&](DWORD m) { return mm == 2 || (mm == 1 && (m & 0x10) && !(m & 0x40) && (m & 0x80)); };
    auto look = [&](const char *when, DWORD m) { if (real.ci.shouldActivateTerminalMouse() != on(m)) fail(c, std::string("mouse reports are ") + (on(m) ? "not wanted" : "wanted") + " " + when); if (real.ci.m_escapeInputEnabled != ((m & 0x200) != 0)) fail(c, std::string("escape input is taken wrongly ") + when); };
    look("at the start", g_getFails ? 0 : g_cfg.mode);
    g_getFails = fails & 4; int n = g_sets; g_cfg.mode = m1; real.ci.updateInputFlags();
    look("after the mode changed", g_getFails ? 0 : m1);
    if (g_sets != n) fail(c, "the mode is changed while it is read");
    if (!g_sysBad.empty()) fail(c, g_sysBad);
    g_real = false; g_getFails = g_setFails = 0;
}
// ---- i06: the default table
static std::vector<std::string> strs(const std::string &s) { std::vector<std::string> r; auto v = split(s, ','); for (size_t i = 1; i < v.size(); ++i) r.push_back(unhex(v[i])); return r; }

int main(int argc, char **argv) {
    options(argc, argv); install();
    Table doc = documented();
    InputMap def; addDefaultEntriesToInputMap(def);
    Table real; walkReal(def, "", real, 0);
    g_tab = g_mode == "i06" ? &doc : &real;
    for (auto &p : doc) g_seqs.push_back(p.first);
    if (g_mode == "i07") {
        unsigned a, b; int m, x;
        if (g_hasCase) { if (sscanf(g_case.c_str(), "%x %x %d %d", &a, &b, &m, &x) == 4) mouseCase(a, b, m, x); }
        else for (int mm = 0; mm < 3; ++mm) for (int v = 0; v < 0x400; ++v) for (int k = 0; k < (g_thorough ? 24 : 4); ++k) mouseCase(v, k == 0 ? v ^ 0x40 : rnd(0x10000), mm, rnd(2) ? 0 : rnd(8));
        finish(); return g_fails ? 1 : 0;
    }
    if (g_hasCase && g_mode != "i06") {
        if (g_case[0] == 'S') { auto v = split(g_case, ' '); splitCase(v[1], unhex(v[2]), v.size() > 3 ? v[3] : ""); }
        else if (g_case[0] == 'T') { auto v = split(g_case, ' '); tableCase(strs(v[0]), strs(v[1])); }
        else { auto v = split(g_case, ';'); runOps(v[0], std::vector<std::string>(v.begin() + 1, v.end()), g_mode); }
        finish(); return g_fails ? 1 : 0;
    }
    if (g_mode == "i06") {
        for (auto &p : doc) {
            cur(hex(p.first)); InputMap::Key k; bool inc; Guarded g(p.first.data(), p.first.size()); int n = def.lookupKey(g.p, p.first.size(), k, inc);
            K x = {k.virtualKey, k.unicodeChar, k.keyState};
            if (n != (int)p.first.size()) fail(hex(p.first), "the documented sequence " + vis(p.first) + " is not found");
            else if (!(x == p.second)) fail(hex(p.first), "the sequence " + vis(p.first) + " gives " + keyStr(x) + " instead of " + keyStr(p.second));
        }
        for (auto &p : real) { cur(hex(p.first)); if (!doc.count(p.first)) fail(hex(p.first), "an undocumented sequence " + vis(p.first) + " is registered: " + keyStr(p.second)); }
    } else if (g_mode == "i05") {
        for (int i = 0, n = g_thorough ? 60000 : 6000; i < n; ++i) randTable();
    } else {
        for (int i = 0, n = g_thorough ? 400000 : 40000; i < n; ++i) ops(g_mode);
        if (g_mode == "i01") for (int i = 0, n = g_thorough ? 300000 : 30000; i < n; ++i) {
            randCfg(); std::string s, cuts; int k = 1 + rnd(5); for (int j = 0; j < k; ++j) s += genPiece(13);
            if (s.empty()) continue; bool one = chance(1, 3);
            for (size_t a = 0; a < s.size();) { int d = one ? 1 : 1 + rnd(5); if (!cuts.empty()) cuts += ","; cuts += std::to_string(d); a += d; }
            splitCase(cfgStr(), s, cuts);
        }
        if (g_mode == "i03") {    // every table entry and every modifier combination
            for (auto &q : g_seqs) for (int e = 0; e < 2; ++e) { g_cfg = {(DWORD)(e ? 0x200 : 0), 0, 0, 79, 24, 500, 0, 1}; g_tickNow = 5; runOps(cfgStr(), {"w" + hex(q), "t2000", "f"}, g_mode); }
        }
        if (g_mode == "i04") {    // every character
            for (uint32_t c0 = 0; c0 < 0x110000; c0 += c0 < 0x3000 ? 1 : g_thorough ? 3 : 61) { if (c0 >= 0xd800 && c0 < 0xe000) continue;
                for (int a = 0; a < 2; ++a) { g_cfg = {(DWORD)(c0 % 3 == 0 ? 0x200 : 0), 0, 0, 79, 24, 500, c0 % 5, 1}; g_tickNow = 5; std::string s = (a ? "\x1b" : "") + encode(c0); if (!s[0]) {} runOps(cfgStr(), {"w" + hex(s)}, g_mode); } }
        }
        if (g_mode == "i02") {    // every default-encoding report, small SGR reports
            for (int f = 0; f < 256; ++f) for (int k = 0; k < 40; ++k) { g_cfg = {ENABLE_MOUSE_INPUT, 0, 3, 79, 27, 500, 0, 1}; g_tickNow = 5; int x = rnd(256), y = rnd(256); std::string a = "\x1b[M"; a += (char)f; a += (char)x; a += (char)y; runOps(cfgStr(), {"w" + hex(a), "w" + hex("\x1b[<" + std::to_string(f) + ";" + std::to_string(x) + ";" + std::to_string(y) + (k & 1 ? "M" : "m"))}, g_mode); }
        }
    }
    finish();
    return g_fails ? 1 : 0;
}
