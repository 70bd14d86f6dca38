// UTF-8/UTF-16 codec against an independent RFC 3629 oracle.
#include "vh.h"
#include "src/agent/UnicodeEncoding.h"
using namespace vh;

static bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static std::string utf8(uint32_t c) {
    std::string r;
    if (!scalar(c)) return r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 + c / 64); r += (char)(0x80 + c % 64); }
    else if (c < 0x10000) { r += (char)(0xE0 + c / 4096); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    else { r += (char)(0xF0 + c / 262144); r += (char)(0x80 + c / 4096 % 64); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    return r;
}
static int lenByLead(unsigned b) { return b <= 0x7F ? 1 : b <= 0xBF ? 0 : b <= 0xDF ? 2 : b <= 0xEF ? 3 : b <= 0xF7 ? 4 : 0; }

static char nm[200];
static void enc(uint32_t c) {
    ++g_evals; ++g_tick;
    sprintf(nm, "encode %08x", c); g_cur = nm;
    std::string w = utf8(c);
    char out[8]; memset(out, 0x5a, 8);
    int n = encodeUtf8(out, c);
    if (n != (int)w.size() || memcmp(out, w.data(), n)) fail(nm, "encodeUtf8 gives " + hex(out, n < 0 || n > 8 ? 0 : n) + " (length " + std::to_string(n) + "), RFC 3629 says " + hex(w));
    for (int i = (int)w.size(); i < 8; ++i) if (out[i] != 0x5a) fail(nm, "encodeUtf8 writes past the sequence");
    wchar_t u[4] = {0x5a5a, 0x5a5a, 0x5a5a, 0x5a5a};
    int k = encodeUtf16(u, c);
    int ek = !scalar(c) ? 0 : c < 0x10000 ? 1 : 2;
    bool ok = k == ek;
    if (ok && k == 1) ok = u[0] == c;
    if (ok && k == 2) {
        uint32_t d = 0x10000 + ((u[0] - 0xD800u) << 10) + (u[1] - 0xDC00u);
        ok = u[0] >= 0xD800 && u[0] < 0xDC00 && u[1] >= 0xDC00 && u[1] < 0xE000 && d == c && decodeSurrogatePair(u[0], u[1]) == c;
    }
    if (!ok) fail(nm, "encodeUtf16 result is not the UTF-16 form");
    for (int i = ek; i < 2; ++i) if (u[i] != 0x5a5a) fail(nm, "encodeUtf16 writes a unit past the " + std::to_string(ek) + " it has to");
    if (u[2] != 0x5a5a) fail(nm, "encodeUtf16 writes past two units");
    if (!w.empty()) {
        if (decodeUtf8(w.data()) != c) fail(nm, "decodeUtf8(encodeUtf8(c)) != c");
    }
}
static Guarded *G[5];
static void dec(const unsigned char *b, int n) {
    ++g_evals; ++g_tick;
    char *p = G[n]->p; memcpy(p, b, n);
    if (utf8CharLength(b[0]) != lenByLead(b[0])) { sprintf(nm, "decode %s", hex(b, n).c_str()); fail(nm, "utf8CharLength is " + std::to_string(utf8CharLength(b[0]))); }
    uint32_t want = 0xFFFFFFFF;
    int l = lenByLead(b[0]);
    if (l == n) {
        uint32_t v = n == 1 ? b[0] : n == 2 ? b[0] & 31 : n == 3 ? b[0] & 15 : b[0] & 7;
        bool ok = true;
        for (int i = 1; i < n; ++i) { if ((b[i] & 0xC0) != 0x80) ok = false; v = v * 64 + (b[i] & 63); }
        if (ok && scalar(v) && utf8(v).size() == (size_t)n) want = v;
    }
    g_cur = "decode"; 
    uint32_t got = (uint32_t)decodeUtf8(p);
    if (got != want) { sprintf(nm, "decode %s", hex(b, n).c_str()); char t[80]; sprintf(t, "decodeUtf8 gives %08x, expected %08x", got, want); fail(nm, t); }
}
static void one(const std::string &c) {
    uint32_t v; char h[40];
    if (sscanf(c.c_str(), "encode %x", &v) == 1) { enc(v); return; }
    if (sscanf(c.c_str(), "decode %39s", h) == 1) { std::string s = unhex(h); dec((const unsigned char *)s.data(), s.size()); }
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    for (int i = 1; i <= 4; ++i) G[i] = new Guarded(NULL, i);
    if (g_hasCase) { one(g_case); finish(); return g_fails != 0; }
    for (auto &m : g_models) {
        std::map<std::string, unsigned> kv;
        for (auto &x : split(m, ';')) { size_t e = x.find('='); if (e != std::string::npos) kv[x.substr(0, e)] = strtoul(x.c_str() + e + 1, 0, 10); }
        if (kv.count("code")) enc(kv["code"]);
        if (kv.count("b0")) { unsigned char b[4] = {(unsigned char)kv["b0"], (unsigned char)kv["b1"], (unsigned char)kv["b2"], (unsigned char)kv["b3"]}; int l = lenByLead(b[0]); dec(b, l ? l : 1); }
    }
    for (uint32_t c = 0; c < 0x120000; ++c) enc(c);
    for (int i = 0; i < 100000; ++i) enc((uint32_t)rnd());
    for (int i = 0; i < 32; ++i) { enc(1u << i); enc((1u << i) - 1); enc(~(1u << i)); enc(0x80000000u + (1u << i)); }
    for (int a = 0; a < 256; ++a) {
        int l = lenByLead(a);
        unsigned char b[4] = {(unsigned char)a};
        if (l < 2) dec(b, 1);
        else if (l == 2) for (int x = 0; x < 256; ++x) { b[1] = x; dec(b, 2); }
        else if (l == 3) for (int x = 0; x < 65536; ++x) { b[1] = x; b[2] = x >> 8; dec(b, 3); }
        else {
            for (int x = 0; x < 262144; ++x) { b[1] = 0x80 | (x & 63); b[2] = 0x80 | (x >> 6 & 63); b[3] = 0x80 | (x >> 12); dec(b, 4); }
            for (int x = 0; x < 60000; ++x) { b[1] = rnd(); b[2] = rnd(); b[3] = rnd(); dec(b, 4); }
        }
    }
    for (int i = 0; i < 2000; ++i) g_distinct.insert(i);
    printf("SAMPLE encode 0000d7ff, 0000d800, 0010ffff, 00110000, ...; decode c080, eda080, f4908080, ...\n");
    g_distinct.clear(); for (uint32_t c = 0; c < 0x120000; ++c) g_distinct.insert(c);
    finish();
    return g_fails != 0;
}
