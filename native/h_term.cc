// agent/Terminal.cc driving a terminal emulator.  Modes: t01 colours, t02 rows, t03 cursor/modes.
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/shared/OwnedHandle.cc src/shared/WinptyException.cc src/shared/StringUtil.cc
#include "agent_stubs.h"
#include "term_emu.h"
#include "src/agent/Terminal.cc"
using namespace vh;

static std::string g_out;
void NamedPipe::write(const void *d, size_t n) { g_out.append((const char *)d, n); }
void NamedPipe::write(const char *t) { g_out.append(t); }
void NamedPipe::closePipe() {}
static NamedPipe g_pipe;

static int width_of(uint32_t c) {
    if (c >= 0x4E00 && c <= 0x9FFF) return 2;
    if (c >= 0xAC00 && c <= 0xD7A3) return 2;
    if (c >= 0x20000 && c <= 0x2FFFF) return 4;
    if (c >= 0x1F300 && c <= 0x1F9FF) return 2;
    return 1;
}
static CHAR_INFO cell(int c, int a) { CHAR_INFO r; r.Char.UnicodeChar = c; r.Attributes = a; return r; }
struct Item { int start, cells; uint32_t ch; int attr; };
// independent reading of a row
static std::vector<Item> items(const std::vector<CHAR_INFO> &r) {
    std::vector<Item> v; int w = r.size();
    auto full = [&](int i) { return i + 1 < w && (r[i].Attributes & 0x100) && (r[i + 1].Attributes & 0x200) && r[i].Char.UnicodeChar == r[i + 1].Char.UnicodeChar; };
    for (int i = 0; i < w;) {
        int n = full(i) ? 2 : 1; uint32_t c = (uint16_t)r[i].Char.UnicodeChar;
        if (c >= 0xD800 && c <= 0xDFFF) {
            uint32_t d = i + n < w ? (uint16_t)r[i + n].Char.UnicodeChar : 0;
            if (c <= 0xDBFF && d >= 0xDC00 && d <= 0xDFFF) { uint32_t v2 = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); int n2 = full(i + n) ? 2 : 1; n += n2; c = v2; }
            else c = '?';
        }
        static const int fx[] = {0, 0x2554, 0x2557, 0x255A, 0x255D, 0x2551, 0x2550};
        if (c >= 1 && c <= 6) c = fx[c];
        if (c == 0x1b) c = '?';
        Item it = {i, n, c, (uint16_t)r[i].Attributes & 0xC0FF}; v.push_back(it);
        i += n;
    }
    return v;
}
static std::string rowText(const std::vector<CHAR_INFO> &r) {
    std::string s; char b[16];
    for (size_t i = 0; i < r.size(); ++i) { sprintf(b, "%04x%04x", (uint16_t)r[i].Char.UnicodeChar, (uint16_t)r[i].Attributes); s += b; }
    return s;
}
static std::vector<CHAR_INFO> rowParse(const std::string &s) {
    std::vector<CHAR_INFO> r;
    for (size_t i = 0; i + 8 <= s.size(); i += 8) r.push_back(cell(strtol(s.substr(i, 4).c_str(), 0, 16), strtol(s.substr(i + 4, 4).c_str(), 0, 16)));
    return r;
}

// ops: "L line cursor row", "S col line", "H", "R clear newline", "M 0/1"
struct Op { char k; int64_t a; int b; std::vector<CHAR_INFO> row; };
static std::string opText(const Op &o) {
    char b[64];
    if (o.k == 'L') { sprintf(b, "L,%d,%d,", (int)o.a, o.b); return b + rowText(o.row); }
    sprintf(b, "%c,%d,%d", o.k, (int)o.a, o.b); return b;
}
static std::vector<Op> opsParse(const std::string &s, int &width, bool &plain, bool &color) {
    std::vector<Op> v; auto p = split(s, ' ');
    sscanf(p[0].c_str(), "w%d", &width); plain = p[1] == "plain"; color = p[2] == "color";
    for (size_t i = 3; i < p.size(); ++i) { auto q = split(p[i], ','); Op o; o.k = q[0][0]; o.a = atoi(q[1].c_str()); o.b = atoi(q[2].c_str()); if (q.size() > 3) o.row = rowParse(q[3]); v.push_back(o); }
    return v;
}
static std::string opsText(const std::vector<Op> &v, int w, bool plain, bool color) {
    char b[40]; sprintf(b, "w%d %s %s", w, plain ? "plain" : "normal", color ? "color" : "mono"); std::string s = b;
    for (auto &o : v) s += " " + opText(o);
    return s;
}
static void run(const std::vector<Op> &ops, int width, bool plain, bool color, bool cells) {
    std::string c = opsText(ops, width, plain, color);
    cur(c);
    g_out.clear();
    Terminal t(g_pipe, plain, color);
    Emu e(plain ? 5000 : width, 0); e.glyphWidth = width_of; bool wasReset = false;
    bool mouse = false; int64_t base = 0; bool known = true; (void)known;
    for (size_t k = 0; k < ops.size(); ++k) {
        const Op &o = ops[k];
        char where[40]; sprintf(where, " (operation %d)", (int)k);
        int clears0 = e.clears; int64_t row0 = e.row; int col0 = e.col; bool hid0 = e.hidden; e.modeLog.clear(); e.escs = plain ? 0 : e.escs;
        size_t g0 = e.glyphs.size();
        if (o.k == 'L') { Guarded gd(o.row.data(), o.row.size() * sizeof(CHAR_INFO)); t.sendLine(o.a, (CHAR_INFO *)gd.p, o.row.size(), o.b); }
        else if (o.k == 'S') t.showTerminalCursor(o.b, o.a);
        else if (o.k == 'H') t.hideTerminalCursor();
        else if (o.k == 'R') t.reset(o.b ? Terminal::SendClear : Terminal::OmitClear, o.a);
        else if (o.k == 'M') t.enableMouseMode(o.b != 0);
        std::string w = g_out; g_out.clear();
        e.wrapPending = e.wrapPending;
        e.feed(w);
        if (!e.error.empty()) { fail(c, e.error + where); return; }
        if (!e.pend.empty()) { fail(c, "an operation ends inside a control sequence or character" + std::string(where)); return; }
        if (plain) {
            std::string x = w; size_t q;
            while (color && (q = x.find("\x1b[")) != std::string::npos) { size_t z = x.find_first_not_of("0123456789;", q + 2); if (z == std::string::npos || x[z] != 'm') break; x.erase(q, z + 1 - q); }
            if (x.find('\x1b') != std::string::npos) { fail(c, "escape sequence sent in plain mode" + std::string(where)); return; }
        }
        if (o.k == 'R') {
            wasReset = true;
            if (!plain && o.b) {
                if (e.clears != clears0 + 1) fail(c, "reset does not clear the screen");
                if (e.row != 0 || e.col != 0) fail(c, "reset does not home the cursor");
                if (!(e.sgr == sgrDefault())) fail(c, "screen not cleared in default colours");
            } else if (e.clears != clears0) fail(c, "unrequested clear");
            base = o.a - e.row;
        }
        if (plain) {
            if (o.k == 'L' && !wasReset) for (auto &it : items(o.row)) {
                ECell &x = e.rows[e.row][it.start];
                if (x.ch != it.ch || x.half || (color && it.ch != ' ' && !(x.sgr == sgrSpec(it.attr)))) { char b[120]; sprintf(b, "plain output: column %d shows %04x instead of %04x", it.start, x.ch, it.ch); fail(c, b + std::string(where)); return; }
            }
            continue;
        }
        if (o.k == 'M') {
            if (mouse == (o.b != 0)) { if (!w.empty()) fail(c, "mouse mode sent again" + std::string(where)); }
            else {
                mouse = o.b != 0;
                static const int ms[] = {1000, 1002, 1003, 1006, 1015};
                for (int m : ms) if (e.modes[m] != mouse) fail(c, "mouse mode " + std::to_string(m) + " is left " + (mouse ? "off" : "on") + where);
                if (mouse && e.modes[1005]) fail(c, "mouse mode 1005 left on");
                int last = 0; for (auto &p : e.modeLog) if (p.first == 1006 || p.first == 1015) last = p.first;
                if (mouse && last != 1006) fail(c, "coordinate mode 1006 is not the last one enabled");
            }
            continue;
        }
        if (o.k == 'H' && !e.hidden) fail(c, "cursor not hidden" + std::string(where));
        if (o.k == 'S') {
            if (e.hidden) fail(c, "cursor not shown" + std::string(where));
            if (e.row + base != o.a || e.col != o.b || e.wrapPending) fail(c, "cursor is not at the requested cell" + std::string(where));
        }
        if (o.k == 'L') {
            if (e.row + base != o.a) { fail(c, "row sent to another line" + std::string(where)); return; }
            if (o.b != -1 && !e.hidden) {
                int colNow = e.wrapPending ? width : e.col;
                if (colNow > o.b && e.glyphs.size() > g0) fail(c, "text runs past a visible cursor" + std::string(where));
            }
            if (cells) {
                auto its = items(o.row);
                for (auto &it : its) {
                    Sgr want = sgrSpec(it.attr);
                    ECell &x = e.rows[e.row][it.start];
                    if (x.ch != it.ch || x.half) { char b[120]; sprintf(b, "column %d shows %04x instead of %04x", it.start, x.ch, it.ch); fail(c, b + std::string(where)); return; }
                    if (color && !(x.sgr == want)) { fail(c, "column " + std::to_string(it.start) + " is in colour [" + sgrText(x.sgr) + "] instead of [" + sgrText(want) + "]" + where); return; }
                    if (color ? false : !(x.sgr == sgrDefault())) { fail(c, "colour sent though colour output is off" + std::string(where)); return; }
                }
            }
        }
    }
}
static const int attrsPool[] = {7, 0x0f, 0x70, 0x1e, 0xf0, 0xff, 0, 8, 0x4007, 0x8007, 0xC01f, 0x87, 0x77};
static std::vector<CHAR_INFO> randRow(int width) {
    std::vector<CHAR_INFO> r; int a = attrsPool[rnd(13)];
    int style = rnd(6);
    while ((int)r.size() < width) {
        if (chance(1, style == 0 ? 40 : 8)) a = attrsPool[rnd(13)];
        int left = width - r.size(); int k = rnd(style == 1 ? 30 : 12);
        if (k <= 3) r.push_back(cell(' ', a));
        else if (k == 4 && left >= 2) { int c = 0x4E00 + rnd(0x2000); r.push_back(cell(c, a | 0x100)); r.push_back(cell(c, a | 0x200)); }
        else if (k == 5 && left >= 4) { int h = 0xD840 + rnd(4), l = 0xDC00 + rnd(0x400); r.push_back(cell(h, a | 0x100)); r.push_back(cell(h, a | 0x200)); r.push_back(cell(l, a | 0x100)); r.push_back(cell(l, a | 0x200)); }
        else if (k == 6 && left >= 2) { r.push_back(cell(0xD83C + rnd(2), a)); r.push_back(cell(0xDF00 + rnd(0x80), a)); if (r[r.size() - 2].Char.UnicodeChar == 0xD83D) r.back().Char.UnicodeChar = 0xDC00 + rnd(0x80); }
        else if (k == 7) { static const int s[] = {1, 2, 3, 4, 5, 6, 0x1b, 0xD800, 0xDC00, 0xDFFF, 0xDBFF, 0xFFFD, 0xE9, 0x2500, 0x7f, 0xFFFF, 0x80}; r.push_back(cell(s[rnd(17)], a)); }
        else r.push_back(cell(0x21 + rnd(0x5e), a));
        if (style == 2 && chance(1, 4)) while ((int)r.size() < width) r.push_back(cell(' ', a));
    }
    r.resize(width);
    // a cut pair at the edge would merge with nothing: fine
    if (style == 3) { int n = rnd(width + 1); for (int i = n; i < width; ++i) r[i] = cell(' ', r[i].Attributes & 0xC0FF); }
    return r;
}
static void mutate(std::vector<CHAR_INFO> &r) {
    int w = r.size(); int n = 1 + rnd(3);
    for (int i = 0; i < n; ++i) { int k = rnd(w); if (chance(1, 3)) r[k] = cell(0x21 + rnd(0x5e), r[k].Attributes); else if (chance(1, 2)) r[k] = cell(' ', 7); else r[k].Attributes ^= 1 << rnd(8); }
}
// glyph widths in cells must be what the terminal uses
static bool fits(const std::vector<CHAR_INFO> &r) { for (auto &it : items(r)) if (width_of(it.ch) != it.cells) return false; return true; }

static void genRows(int n) {
    for (int i = 0; i < n; ++i) {
        int width = 1 + rnd(chance(1, 4) ? 4 : chance(1, 3) ? 80 : 12);
        bool plain = chance(1, 6), color = !chance(1, 5);
        std::vector<Op> v; std::vector<CHAR_INFO> last; int64_t line = 0;
        int m = 1 + rnd(7);
        for (int k = 0; k < m; ++k) {
            Op o; o.k = 'L'; int what = rnd(10);
            if (what < 7 || last.empty()) {
                o.a = chance(1, 2) ? line : rnd(5); line = o.a; o.b = chance(1, 3) ? -1 : (int)rnd(width);
                if (!last.empty() && chance(3, 5)) {
                    o.row = last;
                    if (chance(1, 2)) mutate(o.row);
                    else { int e = width; while (e > 0 && o.row[e - 1].Char.UnicodeChar == ' ') --e; while (e < width && chance(3, 4)) { o.row[e] = cell(chance(1, 5) ? ' ' : 'a' + rnd(26), o.row[e].Attributes); ++e; } }
                } else o.row = randRow(width);
                int tries = 0;
                while (!fits(o.row) && ++tries < 50) o.row = randRow(width);
                if (!fits(o.row)) o.row = std::vector<CHAR_INFO>(width, cell('x', 7));
                last = o.row;
            } else if (what == 7) { o.k = 'S'; o.b = rnd(width); o.a = chance(2, 3) ? line : rnd(5); line = o.a; }
            else if (what == 8) { o.k = 'H'; o.a = 0; o.b = 0; }
            else { o.k = 'R'; o.b = 1; o.a = line = rnd(4); }
            v.push_back(o);
            if (o.k == 'R') { // lines above the new origin cannot be addressed
                int64_t org = o.a; for (int z = 0; z < 2; ++z) { Op p; p.k = 'L'; p.a = org + rnd(3); p.b = -1; p.row = randRow(width); if (!fits(p.row)) p.row = std::vector<CHAR_INFO>(width, cell('y', 7)); v.push_back(p); }
                break;
            }
        }
        run(v, width, plain, color, true);
    }
}
static void genCursor(int n) {
    for (int i = 0; i < n; ++i) {
        int width = 1 + rnd(20); bool plain = chance(1, 5);
        std::vector<Op> v; int64_t line = 0, origin = 0; int m = 1 + rnd(12);
        for (int k = 0; k < m; ++k) {
            Op o; int what = rnd(12); o.a = 0; o.b = 0;
            if (what < 3) { o.k = 'L'; o.a = line = origin + rnd(5); o.b = chance(1, 2) ? -1 : (int)rnd(width); o.row.assign(width, cell(chance(1, 2) ? ' ' : 'a' + rnd(26), 7)); }
            else if (what < 7) { o.k = 'S'; o.b = rnd(width); o.a = line = chance(1, 2) ? line : origin + rnd(5); }
            else if (what < 9) o.k = 'H';
            else if (what == 9) { o.k = 'R'; o.b = 1; o.a = line = origin = rnd(2) ? line : rnd(3); }
            else { o.k = 'M'; o.b = rnd(2); }
            v.push_back(o);
        }
        run(v, width, plain, true, true);
    }
}
static void colorCase(int attr) {
    char b[40]; sprintf(b, "attr %04x", attr); cur(b);
    g_out.clear();
    Terminal t(g_pipe, false, true);
    CHAR_INFO r[3] = {cell('x', attr & ~0x300), cell('y', attr & ~0x300), cell('z', 0x1c)};
    t.sendLine(0, r, 3, -1);
    Emu e(3, 0); e.feed(g_out);
    if (!e.error.empty()) { fail(b, e.error); return; }
    if (e.rows[0][0].ch != 'x' || !(e.rows[0][0].sgr == sgrSpec(attr))) fail(b, "is shown as [" + sgrText(e.rows[0][0].sgr) + "], should be [" + sgrText(sgrSpec(attr)) + "]");
    if (!(e.rows[0][2].sgr == sgrSpec(0x1c))) fail(b, "the colour of the following cell is not set");
    // terminals without the 9x/10x colours
    std::string s;
    Emu f(3, 0);
    size_t p = 0;
    { Sgr want = sgrSpec(attr); std::string o = g_out; size_t q = o.find('m'); size_t st = o.find("\x1b["); if (q != std::string::npos && st != std::string::npos) {
        std::string par = o.substr(st + 2, q - st - 2), kept; for (auto &t2 : split(par, ';')) { int v = atoi(t2.c_str()); if (v < 90) { if (!kept.empty()) kept += ";"; kept += t2; } }
        f.doSgr(kept);
        if (want.fore >= 8) { int w2 = want.fore == 8 && want.back == -1 ? 7 : want.fore - 8; if (f.sgr.fore != w2) fail(b, "no basic-palette fallback for a bright foreground"); }
        if (want.back >= 8 && f.sgr.back != want.back - 8) fail(b, "no basic-palette fallback for a bright background"); } }
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) {
        unsigned a; if (sscanf(g_case.c_str(), "attr %x", &a) == 1) colorCase(a);
        else { int w; bool p, c; auto v = opsParse(g_case, w, p, c); run(v, w, p, c, true); }
        finish(); return g_fails != 0;
    }
    if (g_mode == "t01") for (int a = 0; a < 0x10000; ++a) colorCase(a);
    if (g_mode == "t02") genRows(g_thorough ? 2000000 : 150000);
    if (g_mode == "t03") genCursor(g_thorough ? 1500000 : 120000);
    finish();
    return g_fails != 0;
}
