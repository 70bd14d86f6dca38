// A terminal, as far as winpty's output needs one: ECMA-48/xterm semantics of
// CR, LF, CUU, CHA, EL, SGR, CUP 1;1, ED 2, DECTCEM and the mouse modes, UTF-8
// text, deferred wrap at the right margin.  Anything else is an error.
#pragma once
#include "vh.h"

struct Sgr { int fore, back; bool bold, inv, con, und;
    bool operator==(const Sgr &o) const { return fore == o.fore && back == o.back && bold == o.bold && inv == o.inv && con == o.con && und == o.und; } };
static inline Sgr sgrDefault() { Sgr s = {-1, -1, false, false, false, false}; return s; }
// what a console attribute must look like on the terminal
static inline Sgr sgrSpec(int attr) {
    auto pal = [&](int r, int g, int b, int i) { return (attr & r ? 1 : 0) | (attr & g ? 2 : 0) | (attr & b ? 4 : 0) | (attr & i ? 8 : 0); };
    int fore = pal(4, 2, 1, 8), back = pal(0x40, 0x20, 0x10, 0x80);
    if (attr & 0x4000) std::swap(fore, back);
    Sgr s = sgrDefault();
    s.con = fore == back; s.und = (attr & 0x8000) != 0;
    if (back == 0) {
        if (fore == 7) {}
        else if (fore == 15) s.bold = true;
        else s.fore = fore;
    } else if (back == 15) {
        s.inv = true;
        if (fore != 7 && fore != 0) s.back = fore;
    } else { s.fore = fore; s.back = back; }
    return s;
}
static inline std::string sgrText(const Sgr &s) {
    char b[80]; sprintf(b, "fore %d back %d%s%s%s%s", s.fore, s.back, s.bold ? " bold" : "", s.inv ? " inverse" : "", s.con ? " conceal" : "", s.und ? " underline" : ""); return b;
}
struct ECell { uint32_t ch; Sgr sgr; bool half; };   // half: second or later cell of a glyph
struct Emu {
    int width, height;           // height 0: unlimited rows (absolute line numbering, no scrolling away)
    std::vector<std::vector<ECell>> rows;
    int64_t row = 0; int col = 0; bool wrapPending = false;
    Sgr sgr = sgrDefault();
    bool hidden = false;
    std::map<int, bool> modes;
    std::string error;
    int clears = 0, escs = 0, erases = 0;
    bool lastNewlineWhileVisible = false;
    std::function<int(uint32_t)> glyphWidth;
    std::vector<std::pair<uint32_t, Sgr>> glyphs;   // every glyph printed, in order
    int64_t top = 0;             // absolute index of rows[0]
    std::vector<std::vector<ECell>> scrollback;
    Emu(int w, int h) : width(w), height(h) { if (h) rows.assign(h, blankRow()); else rows.push_back(blankRow()); }
    std::vector<ECell> blankRow() { ECell e = {' ', sgrErase(), false}; return std::vector<ECell>(width, e); }
    Sgr sgrErase() { return sgr; }
    void err(const std::string &s) { if (error.empty()) error = s; }
    // unlimited rows: the last 'screen' of them are on the screen (a taller window brings earlier rows back)
    int screen = 0;
    int64_t home() { return screen ? std::max<int64_t>(0, (int64_t)rows.size() - screen) : 0; }
    std::vector<ECell> &cur() { return rows[row]; }
    void put(uint32_t c) {
        glyphs.push_back(std::make_pair(c, sgr));
        int w = glyphWidth ? glyphWidth(c) : 1;
        if (wrapPending) { err("text printed past the right margin"); return; }
        if (col + w > width) { err("glyph does not fit the row"); return; }
        for (int i = 0; i < w; ++i) { ECell e = {c, sgr, i > 0}; cur()[col + i] = e; }
        col += w;
        if (col >= width) { col = width - 1; wrapPending = true; }
    }
    void newline() {
        wrapPending = false;
        ++row;
        if (height == 0) { while ((int64_t)rows.size() <= row) rows.push_back(blankRow()); }
        else if (row >= height) { scrollback.push_back(rows[0]); rows.erase(rows.begin()); rows.push_back(blankRow()); row = height - 1; ++top; }
    }
    std::string pend;
    void feed(const std::string &in) {
        std::string s = pend + in; pend.clear();
        size_t i = 0;
        while (i < s.size()) {
            unsigned char c = s[i];
            if (c == '\r') { col = 0; wrapPending = false; ++i; }
            else if (c == '\n') { newline(); ++i; }
            else if (c == 0x1b) {
                ++escs;
                size_t j = i + 1;
                if (j >= s.size()) { pend = s.substr(i); return; }
                if (s[j] != '[') { err("escape not followed by ["); ++i; continue; }
                ++j;
                size_t p = j;
                while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == ';' || s[p] == '?')) ++p;
                if (p >= s.size()) { pend = s.substr(i); return; }
                ctl(s.substr(j, p - j), s[p]);
                i = p + 1;
            } else {
                int n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : c >= 0xE0 && c <= 0xEF ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
                if (n == 0) { err("invalid UTF-8 in the output"); ++i; continue; }
                if (i + n > s.size()) { pend = s.substr(i); return; }
                uint32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
                for (int k = 1; k < n; ++k) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) err("invalid UTF-8 in the output"); v = v * 64 + (d & 63); }
                if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v <= 0xDFFF)) err("invalid UTF-8 in the output");
                put(v);
                i += n;
            }
        }
    }
    void ctl(const std::string &par, char fin) {
        int n = atoi(par.c_str());
        if (fin == 'A') { if (par.empty()) n = 1; if (n < 1 || par.size() > 10) err("bad cursor-up count " + par); wrapPending = false; row -= n; if (row < 0) { err("cursor moved above the first row"); row = 0; } }
        else if (fin == 'G') { if (n < 1 || n > width) err("bad column " + par); col = std::max(0, std::min(width - 1, n - 1)); wrapPending = false; }
        else if (fin == 'K') { if (par != "0" && par != "") err("bad EL"); ++erases; ECell e = {' ', sgrErase(), false}; for (int i = col; i < width; ++i) cur()[i] = e; }
        else if (fin == 'm') doSgr(par);
        else if (fin == 'H') { if (par != "1;1" && par != "") err("bad CUP"); row = home(); col = 0; wrapPending = false; }
        else if (fin == 'J') { if (par != "2") err("bad ED"); ++clears; for (size_t r = home(); r < rows.size(); ++r) rows[r] = blankRow(); }
        else if ((fin == 'h' || fin == 'l') && !par.empty() && par[0] == '?') { int m = atoi(par.c_str() + 1); if (m == 25) hidden = fin == 'l'; else if (m == 1000 || m == 1002 || m == 1003 || m == 1005 || m == 1006 || m == 1015) { modes[m] = fin == 'h'; modeLog.push_back(std::make_pair(m, fin == 'h')); } else err("unknown mode " + par); }
        else if (fin == 'n' && par == "6") ++dsr;
        else err(std::string("unknown control sequence CSI ") + par + fin);
    }
    int dsr = 0;
    std::vector<std::pair<int, bool>> modeLog;
    void doSgr(const std::string &par) {
        for (auto &t : vh::split(par, ';')) {
            int p = atoi(t.c_str());
            if (p == 0) sgr = sgrDefault();
            else if (p == 1) sgr.bold = true; else if (p == 4) sgr.und = true; else if (p == 7) sgr.inv = true; else if (p == 8) sgr.con = true;
            else if (p >= 30 && p <= 37) sgr.fore = p - 30; else if (p >= 40 && p <= 47) sgr.back = p - 40;
            else if (p >= 90 && p <= 97) sgr.fore = p - 82; else if (p >= 100 && p <= 107) sgr.back = p - 92;
            else err("unknown SGR parameter");
        }
    }
};
