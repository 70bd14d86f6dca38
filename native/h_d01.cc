// Integer formatting and the string builder against an independent formatter.
#include "vh.h"
#include "src/shared/StringBuilder.h"
using namespace vh;
void agentShutdown() {}
void agentAssertFail(const char *file, int line, const char *cond) { printf("ASSERT %s\n", cond); exit(3); }
void assertTrace(const char *file, int line, const char *cond) {}

// schoolbook: halve a binary number digit by digit, no division of the value itself
static std::string decU(uint64_t v) {
    std::vector<int> d(1, 0);
    for (int b = 63; b >= 0; --b) {
        int carry = (v >> b) & 1;
        for (auto &x : d) { x = x * 2 + carry; carry = x >= 10; if (carry) x -= 10; }
        if (carry) d.push_back(1);
    }
    std::string r;
    for (size_t i = d.size(); i-- > 0;) r += (char)('0' + d[i]);
    return r;
}
static std::string hexU(uint64_t v, int bits) {
    std::string r; bool on = false;
    for (int s = bits - 4; s >= 0; s -= 4) { int n = (v >> s) & 15; if (n || s == 0) on = true; if (on) r += "0123456789abcdef"[n]; }
    return r;
}
static std::wstring W(const std::string &s) { return std::wstring(s.begin(), s.end()); }
static char nm[200];
template <typename I> void one(const char *t, uint64_t raw) {
    const I v = (I)raw;
    ++g_evals; ++g_tick;
    if (g_distinct.size() < 2000000) g_distinct.insert(raw * 16 + sizeof(I));
    sprintf(nm, "%s %016llx", t, (unsigned long long)raw); g_cur = nm;
    std::string want;
    if (v < 0) { uint64_t m = (uint64_t)0 - (uint64_t)(int64_t)v; want = "-" + decU(m); } else want = decU((uint64_t)v);
    uint64_t u = (uint64_t)v; if (sizeof(I) < 8) u &= ((uint64_t)1 << (8 * sizeof(I))) - 1;
    const std::string wh = hexU(u, 8 * sizeof(I));
    auto a = decOfInt(v);
    if (a.str() != want || strlen(a.c_str()) != a.size()) fail(nm, "decOfInt gives " + a.str() + ", the value is " + want);
    auto b = wdecOfInt(v);
    if (b.str() != W(want) || wcslen(b.c_str()) != b.size()) fail(nm, "wdecOfInt is wrong");
    auto c = hexOfInt(v);
    if (c.str() != wh || strlen(c.c_str()) != c.size()) fail(nm, "hexOfInt gives " + c.str() + ", the value is " + wh);
    auto d = whexOfInt(v);
    if (d.str() != W(wh) || wcslen(d.c_str()) != d.size()) fail(nm, "whexOfInt is wrong");
}
template <typename I> void ins(const char *t, uint64_t raw) {
    const I v = (I)raw;
    sprintf(nm, "%s %016llx", t, (unsigned long long)raw); g_cur = nm;
    std::string want = v < 0 ? "-" + decU((uint64_t)0 - (uint64_t)(int64_t)v) : decU((uint64_t)v);
    StringBuilder sb; sb << "a=" << v << ';' << std::string("x\0y", 3);
    if (sb.str() != "a=" + want + ";" + std::string("x\0y", 3)) fail(nm, "StringBuilder gives " + vis(sb.str()));
    WStringBuilder wb(3); wb << L"a=" << v << L';' << std::wstring(L"zz");
    if (wb.str() != W("a=" + want + ";zz")) fail(nm, "WStringBuilder is wrong");
}
static void all(uint64_t r) {
    one<signed char>("schar", r); one<unsigned char>("uchar", r); one<short>("short", r); one<unsigned short>("ushort", r);
    one<int>("int", r); one<unsigned int>("uint", r); one<long>("long", r); one<unsigned long>("ulong", r);
    one<long long>("llong", r); one<unsigned long long>("ullong", r);
    ins<short>("short", r); ins<unsigned short>("ushort", r); ins<int>("int", r); ins<unsigned int>("uint", r); ins<long>("long", r); ins<unsigned long>("ulong", r);
    ins<long long>("llong", r); ins<unsigned long long>("ullong", r);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { char t[20]; unsigned long long v; if (sscanf(g_case.c_str(), "%19s %llx", t, &v) == 2) all(v); finish(); return g_fails != 0; }
    for (auto &m : g_models) for (auto &x : split(m, ';')) if (x.compare(0, 6, "value=") == 0) all(strtoull(x.c_str() + 6, 0, 10));
    for (int b = 0; b < 64; ++b) for (int d = -3; d <= 3; ++d) { all(((uint64_t)1 << b) + d); all(-(((uint64_t)1 << b) + d)); }
    uint64_t p = 1;
    for (int k = 0; k < 20; ++k, p *= 10) for (int d = -2; d <= 2; ++d) { all(p + d); all(-(p + d)); all(p * 9 + d); }
    for (int i = 0; i < 70000; i += 1) all(i);
    for (int i = 0; i < (g_thorough ? 3000000 : 150000); ++i) all(rnd() >> rnd(64));
    // a long random text
    for (int t = 0; t < 2000; ++t) {
        StringBuilder sb(rnd(50)); std::string want;
        g_cur = "builder";
        for (int i = 0; i < 40; ++i) switch (rnd(4)) {
        case 0: { char c = (char)rnd(); sb << c; want += c; break; }
        case 1: { std::string s; for (int j = rnd(30); j > 0; --j) s += (char)rnd(); sb << s; want += s; break; }
        case 2: { uint64_t v = rnd() >> rnd(64); sb << (unsigned long long)v; want += decU(v); break; }
        case 3: { uint32_t v = (uint32_t)(rnd() >> rnd(64)); sb << hexOfInt(v); want += hexU(v, 32); break; }
        }
        ++g_evals;
        if (sb.str() != want) fail("builder", "operands are not in order");
        if (sb.str_moved() != want) fail("builder", "str_moved gives another text");
    }
    printf("SAMPLE int 80000000\nSAMPLE llong 8000000000000000\nSAMPLE ullong ffffffffffffffff\n");
    finish();
    return g_fails != 0;
}
