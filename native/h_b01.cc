// shared/Buffer.cc against an independent encoder/decoder.
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/shared/OwnedHandle.cc src/shared/WinptyException.cc src/shared/StringUtil.cc
#include "agent_stubs.h"
#include "src/shared/Buffer.cc"
using namespace vh;

// items: "i<int32>", "l<int64>", "s<hex utf16>"
static std::wstring wsOf(const std::string &h) { std::string b = unhex(h); std::wstring r(b.size() / 2, 0); memcpy(&r[0], b.data(), r.size() * 2); return r; }
static std::string itemStr(const std::wstring &w) { return "s" + hex(w.data(), w.size() * 2); }
static void put(WriteBuffer &w, const std::string &it, int way) {
    if (it[0] == 'i') w.putInt32((int32_t)strtoll(it.c_str() + 1, 0, 10));
    else if (it[0] == 'l') w.putInt64(strtoll(it.c_str() + 1, 0, 10));
    else { std::wstring s = wsOf(it.substr(1)); if (way == 1 && s.find(L'\0') == std::wstring::npos) w.putWString(s.c_str()); else if (way == 2) w.putWString(s.data(), s.size()); else w.putWString(s); }
}
// decode one item of kind k at position off of msg; false = must be a decode error
struct Dec { bool ok; std::string item; };
static int tagOf[3];
static Dec dec(const std::string &m, size_t &off, char k) {
    Dec d = {false, ""};
    size_t left = m.size() - off;
    int tag = k == 'i' ? 0 : k == 'l' ? 1 : 2;
    size_t fix = k == 'i' ? 4 : 8;
    if (left < 1 + fix || (unsigned char)m[off] != tagOf[tag]) return d;
    uint64_t v = 0;
    for (size_t i = 0; i < fix; ++i) v |= (uint64_t)(unsigned char)m[off + 1 + i] << (8 * i);
    char b[40];
    if (k == 'i') { sprintf(b, "i%d", (int)(int32_t)v); off += 5; }
    else if (k == 'l') { sprintf(b, "l%lld", (long long)v); off += 9; }
    else {
        if (v > (left - 9) / 2) return d;
        d.ok = true; d.item = "s" + hex(m.substr(off + 9, v * 2)); off += 9 + v * 2; return d;
    }
    d.ok = true; d.item = b; return d;
}
// case: hexmsg kinds-to-read(with trailing e = assertEof)
static void readCase(const std::string &m, const std::string &kinds) {
    std::string c = "R " + hex(m) + " " + kinds; cur(c);
    ReadBuffer r(std::vector<char>(m.begin(), m.end()));
    size_t off = 0;
    for (char k : kinds) {
        std::string got; int err = 0;
        Dec d;
        try {
            char b[40];
            if (k == 'e') { r.assertEof(); got = "eof"; }
            else if (k == 'i') { sprintf(b, "i%d", r.getInt32()); got = b; }
            else if (k == 'l') { sprintf(b, "l%lld", (long long)r.getInt64()); got = b; }
            else got = itemStr(r.getWString());
        } catch (const ReadBuffer::DecodeError &) { err = 1; }
        catch (const std::exception &) { err = 2; }
        catch (...) { err = 3; }
        if (k == 'e') { d.ok = off == m.size(); d.item = "eof"; } else d = dec(m, off, k);
        if (err > 1) { fail(c, "reading malformed data fails with something else than a decoding error"); return; }
        if (d.ok != (err == 0)) { fail(c, d.ok ? std::string("a complete value is refused: ") + k : std::string("a malformed or missing value is accepted: ") + k); return; }
        if (err) return;
        if (got != d.item) { fail(c, "decoded " + got.substr(0, 60) + " instead of " + d.item.substr(0, 60)); return; }
    }
}
static void roundTrip(const std::vector<std::string> &items, int way, bool raw) {
    std::string c = "W " + std::to_string(way) + (raw ? "r" : "n"); for (auto &i : items) c += " " + i; cur(c);
    WriteBuffer w;
    if (raw) w.putRawValue<uint64_t>(0);
    for (auto &i : items) put(w, i, way);
    size_t n = w.buf().size();
    if (raw) {
        w.replaceRawValue<uint64_t>(0, 0x0102030405060708ULL + n);
        if (w.buf().size() != n) { fail(c, "replacing changes the length"); return; }
    }
    WriteBuffer w2(std::move(w));
    ReadBuffer r0(std::move(w2.buf()));
    ReadBuffer r(std::move(r0));
    try {
        if (raw && r.getRawValue<uint64_t>() != 0x0102030405060708ULL + n) { fail(c, "replaced raw value does not read back"); return; }
        char b[40];
        for (auto &i : items) {
            std::string g;
            if (i[0] == 'i') { sprintf(b, "i%d", r.getInt32()); g = b; }
            else if (i[0] == 'l') { sprintf(b, "l%lld", (long long)r.getInt64()); g = b; }
            else g = itemStr(r.getWString());
            if (g != i) { fail(c, "wrote " + i.substr(0, 60) + " read " + g.substr(0, 60)); return; }
        }
        r.assertEof();
    } catch (const ReadBuffer::DecodeError &) { fail(c, "an encoded message does not decode"); }
    catch (...) { fail(c, "an encoded message fails to decode"); }
}
static std::string randItem() {
    char b[40];
    switch (rnd(3)) {
    case 0: { static const int v[] = {0, 1, -1, INT32_MAX, INT32_MIN, 255, 256, 65535, -256}; sprintf(b, "i%d", chance(1, 2) ? v[rnd(9)] : (int)rnd()); return b; }
    case 1: { static const int64_t v[] = {0, 1, -1, INT64_MAX, INT64_MIN, 0xFFFFFFFFLL, 0x100000000LL}; sprintf(b, "l%lld", (long long)(chance(1, 2) ? v[rnd(7)] : (int64_t)rnd())); return b; }
    default: { size_t n = chance(1, 20) ? rnd(2000) : rnd(6); std::wstring s; for (size_t i = 0; i < n; ++i) s += (wchar_t)(chance(1, 5) ? 0 : chance(1, 3) ? rnd(65536) : 'a' + rnd(26)); return itemStr(s); }
    }
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    for (int i = 0; i < 3; ++i) { WriteBuffer w; put(w, i == 0 ? "i0" : i == 1 ? "l0" : "s", 0); tagOf[i] = w.buf().empty() ? -1 : (unsigned char)w.buf()[0]; }
    cur("tags");
    if (tagOf[0] == tagOf[1] || tagOf[1] == tagOf[2] || tagOf[0] == tagOf[2]) fail("tags", "values of different types carry the same tag");
    if (g_hasCase) {
        auto p = split(g_case, ' ');
        if (p[0] == "R") readCase(unhex(p[1]), p[2]);
        else if (p[0] == "W") roundTrip(std::vector<std::string>(p.begin() + 2, p.end()), p[1][0] - '0', p[1][1] == 'r');
        finish(); return g_fails ? 1 : 0;
    }
    for (auto &m : g_models) {   // unit;n=..;off=..;tag=..;L=..
        uint64_t n = 40, tag = 2, L = 0; bool hasL = false; std::string k = m.find("getWString") == 0 ? "s" : m.find("getInt") == 0 ? "i" : "";
        if (k.empty()) continue;
        for (auto &x : split(m, ';')) { if (x.find("tag=") == 0) tag = strtoull(x.c_str() + 4, 0, 10); if (x.find("L=") == 0) { L = strtoull(x.c_str() + 2, 0, 10); hasL = true; } }
        std::string b; b += (char)tag; for (int i = 0; i < 8; ++i) b += (char)(hasL ? L >> (8 * i) : 0); b += std::string(16, 'x');
        readCase(b, k); readCase(b.substr(0, 5), "ie"); readCase(b, "l");
    }
    int N = g_thorough ? 400000 : 60000;
    for (int i = 0; i < N; ++i) {
        std::vector<std::string> it; size_t n = rnd(6); for (size_t k = 0; k < n; ++k) it.push_back(randItem());
        int way = rnd(3);
        roundTrip(it, way, chance(1, 2));
        // malformed: truncate, flip, retype
        WriteBuffer w; std::string kinds; for (auto &x : it) { put(w, x, way); kinds += x[0] == 'i' ? 'i' : x[0] == 'l' ? 'l' : 's'; }
        kinds += 'e';
        std::string m(w.buf().begin(), w.buf().end());
        switch (rnd(6)) {
        case 0: m = m.substr(0, rnd(m.size() + 1)); break;
        case 1: if (!m.empty()) m[rnd(m.size())] = (char)rnd(); break;
        case 2: kinds[rnd(kinds.size())] = "ilse"[rnd(4)]; break;
        case 3: m += std::string(1 + rnd(3), (char)rnd()); break;
        case 4: {   // a string with a chosen length field
            static const uint64_t L[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 0x3fffffffffffffffULL, 1ULL << 40, 1ULL << 62};
            uint64_t l = L[rnd(13)]; std::string s; s += (char)tagOf[2]; for (int q = 0; q < 8; ++q) s += (char)(l >> (8 * q)); size_t have = rnd(9);
            m += s + std::string(have, 'y'); kinds = kinds.substr(0, kinds.size() - 1) + "se"; break; }
        default: if (kinds.size() > 1) kinds += "i"; break;
        }
        readCase(m, kinds);
    }
    // short buffers, every kind
    for (int n = 0; n <= 20; ++n) for (int t = 0; t < 6; ++t) for (int k = 0; k < 3; ++k) {
        std::string m(n, 0); if (n) m[0] = (char)t; readCase(m, std::string(1, "ils"[k])); }
    finish();
    return g_fails ? 1 : 0;
}
