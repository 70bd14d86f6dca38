// LINUX
// FLAGS: -Wl,--unresolved-symbols=ignore-all -no-pie -Dmain=adapterMain
// argvToCommandLine against an independent splitter (Microsoft C runtime rules).
#include "vh.h"
#include "src/unix-adapter/main.cc"
#undef main
using namespace vh;
// splits into arguments by the rules for all arguments after the program name
static bool splitArgs(const std::string &s, std::vector<std::string> &out) {
    size_t i = 0;
    for (;;) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
        if (i >= s.size()) return true;
        std::string a; bool q = false;
        for (; i < s.size(); ++i) {
            if (!q && (s[i] == ' ' || s[i] == '\t')) break;
            size_t b = 0;
            while (i < s.size() && s[i] == '\\') { ++b; ++i; }
            if (i < s.size() && s[i] == '"') {
                a.append(b / 2, '\\');
                if (b % 2) { a += '"'; continue; }
                if (q && i + 1 < s.size() && s[i + 1] == '"') return false;   // meaning depends on the runtime version
                q = !q;
                continue;
            }
            a.append(b, '\\');
            if (i >= s.size() || (!q && (s[i] == ' ' || s[i] == '\t'))) break;
            a += s[i];
        }
        if (q) return false;
        out.push_back(a);
    }
}
static std::string enc(const std::vector<std::string> &v) { std::string r = "args"; for (auto &a : v) r += " " + (a.empty() ? std::string("-") : hex(a)); return r; }
static void one(const std::vector<std::string> &v) {
    std::string c = enc(v); cur(c);
    std::string r = argvToCommandLine(v);
    std::vector<std::string> back;
    if (!splitArgs(r, back)) { fail(c, "the command line is not well formed: " + vis(r)); return; }
    if (back != v) fail(c, "the command line splits into other arguments: " + vis(r));
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { auto p = split(g_case, ' '); std::vector<std::string> v; for (size_t i = 1; i < p.size(); ++i) v.push_back(p[i] == "-" ? "" : unhex(p[i])); one(v); finish(); return g_fails != 0; }
    const char al[] = "\\\" \tab";
    one({});
    // every argument of up to 6 characters over the alphabet of special characters
    for (int n = 0; n <= (g_thorough ? 8 : 6); ++n) {
        std::vector<int> x(n, 0);
        for (;;) {
            std::string a; for (int i : x) a += al[i];
            one({a}); one({"p", a, "q r"});
            int i = 0; for (; i < n; ++i) { if (++x[i] < 6) break; x[i] = 0; }
            if (i == n) break;
        }
    }
    for (int t = 0; t < (g_thorough ? 300000 : 40000); ++t) {
        std::vector<std::string> v(rnd(6));
        for (auto &a : v) { int n = rnd(rnd(2) ? 6 : 60); for (int i = 0; i < n; ++i) { char ch = chance(2, 3) ? al[rnd(6)] : (char)(rnd(255) + 1); a += ch; } }
        one(v);
    }
    finish();
    return g_fails != 0;
}
