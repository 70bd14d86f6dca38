// FLAGS:
// ConsoleLine against a column-by-column comparison, over histories of updates.
#include "vh.h"
#include "src/agent/ConsoleLine.cc"
using namespace vh;
bool isTracingEnabled() { return false; }
void trace(const char *, ...) {}
void assertTrace(const char *, int, const char *) {}
void agentAssertFail(const char *, int, const char *) { abort(); }
void agentShutdown() {}

struct Cell { unsigned ch, at; bool operator==(const Cell &o) const { return ch == o.ch && at == o.at; } };
typedef std::vector<Cell> Row;
// the independent oracle
struct Oracle {
    Row st; int len = 0;
    bool update(const Row &n) {
        bool changed = len == 0;
        if (!changed) {
            Cell nb = {' ', n.back().at}, ob = {' ', st[len - 1].at};
            for (int c = 0; c < (int)std::max(n.size(), st.size()); ++c) {
                bool inOld = c < len, inNew = c < (int)n.size();
                if (inOld && inNew) changed |= !(st[c] == n[c]);
                else if (inOld) changed |= !(st[c] == nb);
                else if (inNew) { changed |= !(n[c] == ob); if (c < (int)st.size()) changed |= !(st[c] == ob); }
            }
        }
        if (st.size() < n.size()) st.resize(n.size());
        std::copy(n.begin(), n.end(), st.begin());
        len = n.size();
        return changed;
    }
};
static Row parse(const std::string &t) { Row r; for (size_t i = 0; i + 1 < t.size(); i += 2) { Cell c = {(unsigned)(t[i] == '_' ? ' ' : t[i]), (unsigned)(t[i + 1] - '0')}; r.push_back(c); } return r; }
// ops: d<row> detect, s<row> set, b<attr> blank, r reset
static void history(const std::string &c) {
    cur(c);
    ConsoleLine L; Oracle O; int n = 0;
    for (auto &op : split(c, ',')) {
        if (op.empty()) continue;
        ++n;
        if (op[0] == 'r') { L.reset(); O = Oracle(); continue; }
        if (op[0] == 'b') { L.blank(op[1] - '0'); O.st.assign(1, Cell{' ', (unsigned)(op[1] - '0')}); O.len = 1; continue; }
        Row r = parse(op.substr(1));
        if (r.empty()) continue;
        std::vector<CHAR_INFO> ci(r.size());
        for (size_t i = 0; i < r.size(); ++i) { ci[i].Char.UnicodeChar = r[i].ch; ci[i].Attributes = r[i].at; }
        Guarded gd(ci.data(), ci.size() * sizeof(CHAR_INFO));
        bool want = O.update(r);
        if (op[0] == 's') { L.setLine((const CHAR_INFO *)gd.p, r.size()); continue; }
        bool got = L.detectChangeAndSetLine((const CHAR_INFO *)gd.p, r.size());
        if (got != want) { fail(c, std::string(want ? "misses a change" : "reports an unchanged row") + " at step " + std::to_string(n)); return; }
    }
}
static std::string row(int maxn, int spaces) {
    std::string r; int n = 1 + rnd(maxn); int tail = rnd(n + 1); int a = rnd(2);
    for (int i = 0; i < n; ++i) { if (i >= tail || (int)rnd(10) < spaces) { r += '_'; r += (char)('0' + (rnd(12) ? a : rnd(2))); } else { r += (char)('a' + rnd(2)); r += (char)('0' + (rnd(6) ? a : rnd(2))); } }
    return r;
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { history(g_case); finish(); return g_fails != 0; }
    // all histories of three rows of up to three cells over two characters, one colour, then two
    std::vector<std::string> rows;
    for (int n = 1; n <= 3; ++n) for (int m = 0; m < 1 << (2 * n); ++m) { std::string r; for (int i = 0; i < n; ++i) { r += (m >> (2 * i)) & 1 ? 'a' : '_'; r += (m >> (2 * i)) & 2 ? '1' : '0'; } rows.push_back(r); }
    for (auto &a : rows) for (auto &b : rows) { history("d" + a + ",d" + b); for (int i = 0; i < 6; ++i) history("d" + a + ",d" + b + ",d" + rows[rnd(rows.size())]); }
    int N = g_thorough ? 600000 : 60000;
    for (int i = 0; i < N; ++i) {
        std::string c, prev; int n = 2 + rnd(6); int mx = rnd(4) ? 5 : 90, sp = rnd(10);
        for (int j = 0; j < n; ++j) {
            if (j) c += ',';
            int x = rnd(12);
            std::string r = row(mx, sp);
            if (!prev.empty() && rnd(2)) { r = prev; int y = rnd(4);
                if (y == 1 && r.size() > 2) r = r.substr(0, 2 * (1 + rnd(r.size() / 2)));
                if (y == 2) { int k = rnd(4); char at = r[r.size() - 1]; while (k--) { r += '_'; r += at; } }
                if (y == 3) r[2 * rnd(r.size() / 2)] = rnd(2) ? 'a' : '_'; }
            if (x == 0) c += "r"; else if (x == 1) { c += "b"; c += (char)('0' + rnd(2)); } else { c += x == 2 ? "s" : "d"; c += r; prev = r; }
        }
        history(c);
    }
    finish();
    return g_fails != 0;
}
