// agent/NamedPipe.cc over a simulated operating system.
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/shared/WinptyException.cc src/shared/StringUtil.cc
#include "agent_stubs.h"
using namespace vh;
#include <winnt.h>

// ---- simulated kernel: one pipe, one operation per direction
struct Op { bool active = false; char *buf; DWORD size; OVERLAPPED *ov; bool done; bool failed; DWORD actual; std::string snap; bool everIssued = false; OVERLAPPED *lastOv = nullptr; bool resultSet = false; };
static Op g_op[2];          // 0 read, 1 write
static std::string g_sent;  // bytes the system accepted
static std::string g_avail; // bytes the peer has sent and not been read
static bool g_broken, g_connected, g_connPending; static OVERLAPPED *g_connOv;
static std::set<HANDLE> g_open; static uintptr_t g_nextH = 0x1000; static HANDLE g_pipeH;
static DWORD g_err; static std::string *g_case_s; static bool g_bad; static std::string g_badWhat; static int g_pipeClosed; static bool g_cancelled;
static void bad(const std::string &w) { if (!g_bad) { g_bad = true; g_badWhat = w; } }
static int g_syncChance = 50;
static HANDLE newH() { HANDLE h = (HANDLE)(g_nextH += 8); g_open.insert(h); return h; }
static void finishOp(Op &o, bool isRead) {
    if (!o.active || o.done) return;
    if (!isRead && std::string(o.buf, o.size) != o.snap) bad("the data of a pending write changed");
    if (g_broken && (!isRead || g_avail.empty())) { o.done = true; o.failed = true; return; }
    if (isRead) {
        if (g_avail.empty()) return;
        size_t n = std::min<size_t>(o.size, g_avail.size());
        if (chance(1, 2)) n = 1 + rnd(n);
        memcpy(o.buf, g_avail.data(), n); g_avail.erase(0, n); o.actual = n;
    } else { g_sent += std::string(o.buf, o.size); o.actual = o.size; }
    o.done = true; o.failed = false;
}
static BOOL fakeIo(bool isRead, HANDLE h, char *buf, DWORD n, DWORD *actual, OVERLAPPED *ov) {
    Op &o = g_op[isRead ? 0 : 1];
    if (h != g_pipeH || !g_open.count(h)) bad("operation on another or closed handle");
    if (o.active) bad("a second operation while one is pending");
    if (n == 0) bad("empty operation");
    if (!ov->hEvent || !g_open.count(ov->hEvent)) bad("operation without a live event");
    if (g_connPending) bad("transfer before the connection");
    if (g_broken && (!isRead || g_avail.empty())) { g_err = ERROR_BROKEN_PIPE; return FALSE; }
    o.active = true; o.buf = buf; o.size = n; o.ov = ov; o.done = false; o.failed = false; o.everIssued = true; o.lastOv = ov;
    if (!isRead) o.snap.assign(buf, n);
    else if (n) { buf[0] = buf[0]; memset(buf, 0xEE, n); }
    if (chance(g_syncChance, 100)) finishOp(o, isRead);
    if (o.done && !o.failed) { *actual = o.actual; o.active = false; return TRUE; }
    if (o.done) { o.active = false; g_err = ERROR_BROKEN_PIPE; return FALSE; }
    g_err = ERROR_IO_PENDING; return FALSE;
}
static BOOL fake_ReadFile(HANDLE h, void *b, DWORD n, DWORD *a, OVERLAPPED *o) { return fakeIo(true, h, (char *)b, n, a, o); }
static BOOL fake_WriteFile(HANDLE h, const void *b, DWORD n, DWORD *a, OVERLAPPED *o) { return fakeIo(false, h, (char *)b, n, a, o); }
static BOOL fake_GetOverlappedResult(HANDLE h, OVERLAPPED *ov, DWORD *actual, BOOL wait) {
    if (h != g_pipeH || !g_open.count(h)) bad("result asked of a closed handle");
    if (g_connOv && ov == g_connOv) {
        if (wait) { g_connPending = false; return TRUE; }
        if (g_connPending) { g_err = ERROR_IO_INCOMPLETE; return FALSE; }
        if (chance(1, 4)) { g_err = ERROR_PIPE_CONNECTED; return FALSE; }
        return TRUE;
    }
    for (int i = 0; i < 2; ++i) if (g_op[i].lastOv == ov) {
        Op &o = g_op[i];
        if (!o.active) { if (!wait) bad("result asked without an operation"); g_err = ERROR_OPERATION_ABORTED; return FALSE; }
        if (!o.done && wait) { if (!g_cancelled) bad("blocks waiting for an operation that may never end"); o.active = false; g_err = ERROR_OPERATION_ABORTED; return FALSE; }
        if (!o.done) { g_err = ERROR_IO_INCOMPLETE; return FALSE; }
        o.active = false;
        if (o.failed) { g_err = ERROR_BROKEN_PIPE; return FALSE; }
        *actual = o.actual; return TRUE;
    }
    bad("result of an unknown operation"); g_err = 87; return FALSE;
}
static BOOL fake_CancelIo(HANDLE h) { g_cancelled = true; return TRUE; }
static BOOL fake_CloseHandle(HANDLE h) {
    if (!g_open.count(h)) bad("a handle is closed twice");
    g_open.erase(h);
    for (auto &o : g_op) if (o.active && !(o.done && o.failed) && (h == g_pipeH || h == o.ov->hEvent)) bad("closed or freed while an operation is running");
    if (h == g_pipeH) { ++g_pipeClosed; if (g_connPending) bad("closed while connecting"); }
    return TRUE;
}
static HANDLE fake_CreateEventW(void *, BOOL, BOOL, const wchar_t *) { return newH(); }
static BOOL fake_ResetEvent(HANDLE h) { if (!g_open.count(h)) bad("dead event reset"); return TRUE; }
static DWORD fake_GetLastError() { return g_err; }
static DWORD g_openMode, g_pipeMode, g_maxInst; static bool g_hadSd;
static HANDLE fake_CreateNamedPipeW(const wchar_t *n, DWORD om, DWORD pm, DWORD mi, DWORD, DWORD, DWORD, SECURITY_ATTRIBUTES *sa) { g_openMode = om; g_pipeMode = pm; g_maxInst = mi; g_hadSd = sa && sa->lpSecurityDescriptor; return g_pipeH = newH(); }
static HANDLE fake_CreateFileW(const wchar_t *, DWORD, DWORD, void *, DWORD, DWORD, HANDLE) { return g_pipeH = newH(); }
static BOOL fake_ConnectNamedPipe(HANDLE h, OVERLAPPED *ov) {
    g_connOv = ov; if (!ov->hEvent) bad("connect without event");
    switch (rnd(3)) { case 0: g_err = ERROR_PIPE_CONNECTED; return FALSE; case 1: return TRUE; default: g_connPending = true; g_err = ERROR_IO_PENDING; return FALSE; }
}
#define ReadFile fake_ReadFile
#define WriteFile fake_WriteFile
#define GetOverlappedResult fake_GetOverlappedResult
#define CancelIo fake_CancelIo
#define CloseHandle fake_CloseHandle
#define CreateEventW fake_CreateEventW
#define ResetEvent fake_ResetEvent
#define GetLastError fake_GetLastError
#define CreateNamedPipeW fake_CreateNamedPipeW
#define CreateFileW fake_CreateFileW
#define ConnectNamedPipe fake_ConnectNamedPipe
#include "src/shared/WindowsSecurity.h"
SecurityDescriptor createPipeSecurityDescriptorOwnerFullControl() { struct Impl : SecurityDescriptor::Impl {}; SecurityDescriptor r; static char x; r.m_v = (SECURITY_DESCRIPTOR *)&x; return r; }
DWORD rejectRemoteClientsPipeFlag() { return 8; }
#include "src/shared/OwnedHandle.cc"
#include "src/agent/NamedPipe.cc"
#undef GetLastError
#undef CloseHandle

static char streamByte(uint64_t i, int salt) { return (char)((i * 2654435761u) >> 11 ^ i ^ salt * 37); }
static void runCase(uint64_t seed) {
    std::string c = std::to_string(seed); cur(c);
    uint64_t save = g_state; g_state = seed * 0x9E3779B97F4A7C15ULL + 7;
    for (auto &o : g_op) o = Op();
    g_sent.clear(); g_avail.clear(); g_broken = false; g_connPending = false; g_connOv = nullptr; g_open.clear(); g_bad = false; g_pipeClosed = 0; g_cancelled = false;
    g_syncChance = (int)(rnd(4) * 33);
    std::string written, got; uint64_t peerSent = 0; bool closed = false; bool sawError = false;
    {
        NamedPipe p;
        if (chance(1, 2)) p.openServerPipe(L"x", NamedPipe::OpenMode::Duplex, 100, 100); else p.connectToServer(L"x", NamedPipe::OpenMode::Duplex);
        if (chance(1, 2)) p.setReadBufferSize(chance(1, 2) ? 1 + rnd(100) : rnd(200000));
        int steps = 3 + rnd(40); bool small = chance(2, 3);
        for (int k = 0; k < steps && !g_bad; ++k) {
            switch (rnd(9)) {
            case 0: case 1: { size_t n = small ? rnd(200) : rnd(150000); std::string d(n, 0); for (size_t i = 0; i < n; ++i) d[i] = streamByte(written.size() + i, 1);
                if (chance(1, 3)) { for (auto &ch : d) if (!ch) ch = 1; p.write(d.c_str()); } else { p.write(d.data(), d.size()); }
                written += d; if (!d.empty()) std::fill(d.begin(), d.end(), 'Z'); break; }
            case 2: { size_t n = small ? rnd(200) : rnd(150000); for (size_t i = 0; i < n; ++i) g_avail += streamByte(peerSent++, 2); break; }
            case 3: case 4: {
                std::vector<HANDLE> w; bool wasConn = g_connPending;
                size_t done0 = g_sent.size(), in0 = p.m_inQueue.size();
                bool r = p.serviceIo(&w);
                if (closed && (r || !w.empty())) bad("a closed pipe is serviced");
                if (p.isClosed() && !closed) { sawError = true; closed = true; if (!g_broken) bad("closed without an error"); if (!r) bad("an error is not reported as progress"); }
                if (!closed) {
                    for (int i = 0; i < 2; ++i) if (g_op[i].active && std::find(w.begin(), w.end(), g_op[i].ov->hEvent) == w.end()) bad("a pending operation is not waited for");
                    if (g_connPending && (w.empty())) bad("a pending connect is not waited for");
                    for (auto h : w) if (!g_open.count(h)) bad("waits on a dead handle");
                    if (!g_connPending && !g_op[1].active && !p.m_outQueue.empty()) bad("output is left unsent");
                    if (!g_connPending && !g_op[0].active && p.m_inQueue.size() < p.readBufferSize()) bad("reading stopped below the buffer limit");
                    if (!r && (p.m_inQueue.size() != in0)) bad("progress is not reported");
                }
                break; }
            case 5:
                for (int i = 0; i < 2; ++i) if (chance(2, 3)) finishOp(g_op[i], i == 0);
                if (chance(1, 2)) g_connPending = false;
                break;
            case 6: { size_t n = rnd(300); std::string b(n + 1, '\x55'); size_t r;
                size_t av = p.bytesAvailable();
                if (chance(1, 2)) { r = p.peek(&b[0], n); if (p.bytesAvailable() != av) bad("peek takes bytes");
                    for (size_t i = 0; i < r; ++i) if (b[i] != streamByte(got.size() + i, 2)) { bad("peek delivers wrong bytes"); break; } }
                else { r = p.read(&b[0], n); if (p.bytesAvailable() != av - r) bad("read takes a wrong amount"); for (size_t i = 0; i < r; ++i) if (b[i] != streamByte(got.size() + i, 2)) { bad("read delivers wrong bytes"); break; } got += b.substr(0, r); }
                if (r != std::min(n, av)) bad("read returns a wrong amount"); if (b[n] != '\x55') bad("read writes past the buffer"); break; }
            case 7: { size_t av = p.bytesAvailable(); size_t n = rnd(500); std::string s = chance(1, 2) ? (n = av, p.readAllToString()) : p.readToString(n);
                if (s.size() != std::min(n, av)) bad("readToString returns a wrong amount");
                if (p.bytesAvailable() != av - s.size()) bad("readToString takes a wrong amount");
                for (size_t i = 0; i < s.size(); ++i) if (s[i] != streamByte(got.size() + i, 2)) { bad("readToString delivers wrong bytes"); break; }
                got += s; break; }
            default: if (chance(1, 12)) g_broken = true; else if (chance(1, 25)) { p.closePipe(); closed = true; if (g_pipeClosed != 1) bad("closing does not close the handle once"); } break;
            }
            if (!closed && g_sent != written.substr(0, g_sent.size())) bad("the bytes sent are not the bytes written");
            if (!closed) { size_t unsent = written.size() - g_sent.size(); size_t pend = g_op[1].active && g_op[1].done && !g_op[1].failed ? g_op[1].size : 0; if (p.bytesToSend() != unsent + pend) bad("bytesToSend is wrong"); }
            if (closed != p.isClosed()) bad("closed state is wrong");
        }
        if (!closed && !g_bad && !g_broken) {   // drain
            g_connPending = false; g_syncChance = 50;
            for (int i = 0; i < 4000 && (p.bytesToSend() || !g_avail.empty()); ++i) { std::vector<HANDLE> w; p.serviceIo(&w); for (int j = 0; j < 2; ++j) finishOp(g_op[j], j == 0); got += p.readAllToString(); }
            { std::vector<HANDLE> w; p.serviceIo(&w); } got += p.readAllToString();
            if (g_sent != written) bad("written bytes are lost or changed");
            if (p.readBufferSize() > 0) { if (got.size() != peerSent) bad("delivered bytes are lost or repeated"); else for (size_t i = 0; i < got.size(); ++i) if (got[i] != streamByte(i, 2)) { bad("delivered bytes changed"); break; } }
        }
    }
    if (!g_bad && g_pipeClosed != 1) bad("the pipe handle is not closed exactly once");
    if (!g_bad && !g_open.empty()) bad("a handle is left open");
    g_state = save;
    if (g_bad) fail(c, g_badWhat);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { runCase(strtoull(g_case.c_str(), 0, 10)); finish(); return g_fails ? 1 : 0; }
    int N = g_thorough ? 200000 : 20000;
    for (int i = 0; i < N; ++i) runCase(rnd());
    finish();
    return g_fails ? 1 : 0;
}
