// LINUX
// FLAGS: -Dwrite=fakeWrite -Dread=fakeRead -Wl,--unresolved-symbols=ignore-all -no-pie
// The adapter's writeAll and its two forwarding threads against scripted system calls.
#include <unistd.h>
#include <errno.h>
#include "vh.h"
#include <pthread.h>
#include "src/unix-adapter/Util.cc"
#include "src/unix-adapter/OutputHandler.cc"
#include "src/unix-adapter/InputHandler.cc"
using namespace vh;
bool isTracingEnabled() { return false; }
void trace(const char *, ...) {}

// what each system call does next
struct Step { int kind; size_t n; };   // 0: up to n bytes, 1: EINTR, 2: other error, 3: end (0)
static std::vector<Step> g_w, g_r;
static size_t g_wi, g_ri;
static std::string g_in, g_out;
static size_t g_inPos;
static std::string g_bad;
static bool g_fatal;
static int g_wfd = 7, g_rfd = 3;
static ssize_t doWriteCall(int fd, const void *p, size_t n, bool partial) {
    if (fd != g_wfd) g_bad = "writes to another descriptor";
    if (g_fatal) g_bad = "goes on writing after a real failure";
    Step s = g_wi < g_w.size() ? g_w[g_wi] : Step{0, n};
    ++g_wi;
    if (s.kind == 1) { errno = EINTR; return -1; }
    if (s.kind == 2) { errno = EIO; g_fatal = true; return -1; }
    if (s.kind == 3) { errno = 0; g_fatal = true; return 0; }
    size_t k = s.n < n ? s.n : n; if (!k) k = n ? 1 : 0;
    errno = rnd(2) ? EINTR : EIO;      // errno means nothing after success
    g_out.append((const char *)p, k);
    return k;
}
extern "C" ssize_t fakeWrite(int fd, const void *p, size_t n) { return doWriteCall(fd, p, n, true); }
static ssize_t doReadCall(void *p, size_t n) {
    Step s = g_ri < g_r.size() ? g_r[g_ri] : Step{3, 0};
    ++g_ri;
    if (s.kind == 1) { errno = EINTR; return -1; }
    if (s.kind == 2) { errno = EIO; return -1; }
    if (s.kind == 3) return 0;
    size_t k = s.n < n ? s.n : n; if (!k) k = 1;
    for (size_t i = 0; i < k; ++i) { char c = (char)rnd(); ((char *)p)[i] = c; g_in += c; }
    return k;
}
extern "C" ssize_t fakeRead(int fd, void *p, size_t n) { if (fd != g_rfd) g_bad = "reads from another descriptor"; return doReadCall(p, n); }
static DWORD g_err;
extern "C" {
DWORD GetLastError(void) { return g_err; }
BOOL ReadFile(HANDLE h, LPVOID p, DWORD n, LPDWORD got, LPOVERLAPPED) {
    if (h != (HANDLE)0x40) g_bad = "reads another pipe";
    ssize_t r = doReadCall(p, n);
    if (r <= 0) { *got = 0; g_err = r < 0 ? 5 : ERROR_BROKEN_PIPE; return r == 0 && rnd(2); }
    *got = r; return 1;
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD put, LPOVERLAPPED) {
    if (h != (HANDLE)0x44) g_bad = "writes another pipe";
    ssize_t r = g_fatal ? -1 : doWriteCall(g_wfd, p, n, false);
    if (r == (ssize_t)n) { *put = n; return 1; }
    *put = r < 0 ? 0 : r; g_fatal = true; g_err = ERROR_BROKEN_PIPE; return r >= 0 && rnd(2);
}
int select(int n, fd_set *r, fd_set *, fd_set *, struct timeval *) { if (rnd(8) == 0) { FD_CLR(g_rfd, r); return 1; } if (rnd(8) == 0) { errno = EINTR; return -1; } return 1; }
int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) { return 0; }
int pthread_join(pthread_t, void **) { return 0; }
}
static int g_woken; static WakeupFd *g_wakePtr;
WakeupFd::WakeupFd() { m_pipeReadFd = 9; m_pipeWriteFd = 10; } WakeupFd::~WakeupFd() {}
void WakeupFd::set() { if (this == g_wakePtr) ++g_woken; }
void WakeupFd::reset() {}
static void reset() { g_w.clear(); g_r.clear(); g_wi = g_ri = 0; g_in.clear(); g_out.clear(); g_bad.clear(); g_fatal = false; g_woken = 0; }
static std::vector<Step> steps(const std::string &t) {
    std::vector<Step> r;
    for (auto &x : split(t, ',')) if (!x.empty()) { Step s = {x[0] - '0', (size_t)strtoul(x.c_str() + 1, 0, 10)}; r.push_back(s); }
    return r;
}
static void caseWriteAll(size_t n, const std::string &st) {
    std::string c = "writeAll " + std::to_string(n) + " " + st; cur(c); reset();
    g_w = steps(st);
    std::string data; for (size_t i = 0; i < n; ++i) data += (char)rnd();
    bool r = writeAll(g_wfd, data.data(), n);
    if (!g_bad.empty()) fail(c, "writeAll " + g_bad);
    if (data.compare(0, g_out.size(), g_out) != 0 || g_out.size() > n) fail(c, "writeAll does not write the block's bytes in order");
    else if (r && g_out.size() != n) fail(c, "writeAll reports success but wrote " + std::to_string(g_out.size()) + " of " + std::to_string(n));
    if (!r && !g_fatal) fail(c, "writeAll fails without a real error");
}
static void caseLoop(bool out, const std::string &st) {
    std::string c = std::string(out ? "output " : "input ") + st; cur(c); reset();
    auto p = split(st, '/');
    g_r = steps(p[0]); g_w = steps(p.size() > 1 ? p[1] : "");
    WakeupFd wake; g_wakePtr = &wake;
    if (out) { for (auto &s : g_r) if (s.kind == 1) s.kind = 0; OutputHandler h((HANDLE)0x40, g_wfd, wake); h.threadProc(); if (!h.m_threadCompleted) fail(c, "completion is not recorded"); }
    else { for (auto &s : g_w) if (s.kind == 1 || s.kind == 0) s.kind = 0, s.n = 1 << 20; InputHandler h((HANDLE)0x44, g_rfd, wake); h.threadProc(); if (!h.m_threadCompleted) fail(c, "completion is not recorded"); }
    if (!g_bad.empty()) fail(c, "the loop " + g_bad);
    if (g_woken != 1) fail(c, "completion is signalled " + std::to_string(g_woken) + " times");
    if (g_in.compare(0, g_out.size(), g_out) != 0) fail(c, "bytes are not forwarded in order");
    else if (!g_fatal && g_out != g_in) fail(c, "only " + std::to_string(g_out.size()) + " of " + std::to_string(g_in.size()) + " bytes read were forwarded");
}
static std::string rsteps(int maxn, bool end) {
    std::string r; int k = rnd(8);
    for (int i = 0; i < k; ++i) { int x = rnd(20); int kind = x < 13 ? 0 : x < 18 ? 1 : x == 18 ? 2 : 3; if (!r.empty()) r += ','; r += (char)('0' + kind); r += std::to_string(rnd(maxn) + 1); }
    return r;
}
static void one(const std::string &c) {
    auto p = split(c, ' ');
    if (p[0] == "writeAll") caseWriteAll(strtoul(p[1].c_str(), 0, 10), p.size() > 2 ? p[2] : "");
    else if (p.size() > 1) caseLoop(p[0] == "output", p[1]);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { one(g_case); finish(); return g_fails != 0; }
    for (size_t n = 0; n < 4; ++n) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int d = 0; d < 4; ++d) for (int k = 1; k < 3; ++k)
        caseWriteAll(n, std::to_string(a * 10 + k) .insert(0, a ? "" : "0") + "," + (b ? "" : "0") + std::to_string(b * 10 + k) + "," + (d ? "" : "0") + std::to_string(d * 10 + k));
    for (int i = 0; i < (g_thorough ? 400000 : 40000); ++i) {
        size_t n = rnd(rnd(2) ? 20 : 9000);
        caseWriteAll(n, rsteps(n + 1, false));
    }
    for (int i = 0; i < (g_thorough ? 200000 : 20000); ++i) { caseLoop(true, rsteps(5000, true) + "/" + rsteps(5000, false)); caseLoop(false, rsteps(5000, true) + "/" + rsteps(5000, false)); }
    finish();
    return g_fails != 0;
}
