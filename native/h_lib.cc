// libwinpty/winpty.cc over a simulated operating system and agent.
// SRC: src/shared/Buffer.cc src/shared/WinptyException.cc src/shared/StringUtil.cc
// FLAGS: -DCOMPILING_WINPTY_DLL
#include "vh.h"
using namespace vh;
#include "src/shared/DebugClient.h"
#include "src/shared/Buffer.h"
#include "src/shared/AgentMsg.h"
static bool g_bad; static std::string g_badWhat; static int g_asserts; static std::wstring g_desktop; static int g_desktopAlive; static bool g_win7 = true; static std::set<std::string> g_dbg;
static bool g_internal;      // inside the simulation: allocations do not fail
struct Internal { bool was; Internal() : was(g_internal) { g_internal = true; } ~Internal() { g_internal = was; } };
static void bad(const std::string &w) { Internal in; if (!g_bad) { g_bad = true; g_badWhat = w; } }
static long g_failAlloc = 0, g_allocs = 0;
void *operator new(size_t n) {
    if (!g_internal && g_failAlloc && ++g_allocs == g_failAlloc) throw std::bad_alloc();
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

bool isTracingEnabled() { return false; }
bool hasDebugFlag(const char *f) { Internal in; return g_dbg.count(f) > 0; }
void trace(const char *, ...) {}
struct AssertFailed {};
void assertTrace(const char *, int, const char *) { ++g_asserts; throw AssertFailed(); }

// ---- handles
static std::map<HANDLE, int> g_open;   // kind: 1 pipe 2 event 3 agent process 4 agent thread 5 duplicate
static uintptr_t g_nextH = 0x1000; static DWORD g_err;
static HANDLE newH(int k) { Internal in; HANDLE h = (HANDLE)(g_nextH += 8); g_open[h] = k; return h; }
static bool live(HANDLE h, int k) { auto i = g_open.find(h); return i != g_open.end() && i->second == k; }
static BOOL fake_CloseHandle(HANDLE h) { Internal in; if (!g_open.erase(h)) bad("a handle that is not open is closed"); return TRUE; }

// ---- the pipe
static std::string g_sent, g_reply; static int g_ioCount, g_faultAt, g_fault; static std::vector<HANDLE> g_pipes;
// fault: 0 none, 1 immediate failure, 2 the wait says the agent died, 3 time out, 4 wait failure, 5 completion failure
static DWORD g_faultErr; static bool g_pendingIo; static OVERLAPPED *g_pov; static char *g_pbuf; static DWORD g_pn; static int g_pkind, g_pfault; static HANDLE g_ph;
static bool g_eofWait; static DWORD g_wantTimeout; static DWORD g_waitedResult;
static std::function<std::string(const std::string &)> g_agent;   // a request (without its length) gives a reply stream
static std::string g_reqBuf;
static void feed(const char *p, DWORD n) {
    g_sent.append(p, n); g_reqBuf.append(p, n);
    while (g_reqBuf.size() >= 8) { uint64_t l; memcpy(&l, g_reqBuf.data(), 8); if (l < 8) { bad("bad length sent"); break; } if (g_reqBuf.size() < l) break; std::string b = g_reqBuf.substr(8, l - 8); g_reqBuf.erase(0, l); if (g_agent) g_reply += g_agent(b); }
}
static DWORD take(char *p, DWORD n) { if (chance(1, 40)) return 0; DWORD m = std::min<size_t>(n, g_reply.size()); if (m > 1 && chance(1, 2)) m = 1 + rnd(m); memcpy(p, g_reply.data(), m); g_reply.erase(0, m); return m; }
static BOOL io(int kind, HANDLE h, char *buf, DWORD n, DWORD *actual, OVERLAPPED *ov) {
    Internal in;
    if (!live(h, 1)) bad("operation on a closed pipe");
    if (g_pendingIo) bad("a second operation while one is pending");
    if (!ov || !live(ov->hEvent, 2)) bad("operation without a live event");
    int f = ++g_ioCount == g_faultAt ? g_fault : 0;
    if (kind == 0 && g_reply.empty() && !f) f = g_eofWait ? 3 : 1;
    g_ph = h;
    if (f == 1) { g_err = g_faultErr; return FALSE; }
    if (f == 0 && chance(1, 2)) {
        if (kind == 0) *actual = take(buf, n); else if (kind == 1) { feed(buf, n); *actual = n; }
        return TRUE;
    }
    g_pendingIo = true; g_pov = ov; g_pbuf = buf; g_pn = n; g_pkind = kind; g_pfault = f; g_err = ERROR_IO_PENDING; return FALSE;
}
static BOOL fake_ReadFile(HANDLE h, void *b, DWORD n, DWORD *a, OVERLAPPED *o) { if (n == 0) bad("an empty read"); return io(0, h, (char *)b, n, a, o); }
static BOOL fake_WriteFile(HANDLE h, const void *b, DWORD n, DWORD *a, OVERLAPPED *o) { return io(1, h, (char *)b, n, a, o); }
static BOOL fake_ConnectNamedPipe(HANDLE h, OVERLAPPED *o) { DWORD a; if (chance(1, 3) && g_ioCount + 1 != g_faultAt) { ++g_ioCount; if (!live(h, 1)) bad("connect on a closed pipe"); g_err = ERROR_PIPE_CONNECTED; return FALSE; } return io(2, h, nullptr, 0, &a, o); }
static bool g_cancelled; static HANDLE g_agentProc;
static BOOL fake_CancelIo(HANDLE h) { if (h != g_ph) bad("another handle cancelled"); g_cancelled = true; return TRUE; }
static DWORD fake_WaitForMultipleObjects(DWORD n, const HANDLE *h, BOOL all, DWORD ms) {
    if (!g_pendingIo) bad("waits without an operation");
    if (n != 2 || all || h[0] != g_pov->hEvent || !live(h[1], 3)) bad("waits for something else");
    if (ms != g_wantTimeout) bad("waits for another time than the configured one");
    g_cancelled = false;
    switch (g_pfault) { case 2: return 1; case 3: return WAIT_TIMEOUT; case 4: g_err = 6; return WAIT_FAILED; default: return 0; }
}
static BOOL fake_GetOverlappedResult(HANDLE h, OVERLAPPED *ov, DWORD *actual, BOOL wait) {
    Internal in;
    if (!g_pendingIo || ov != g_pov || h != g_ph || !wait) { bad("result of an unknown operation"); g_err = 6; return FALSE; }
    g_pendingIo = false;
    if (g_pfault >= 2 && g_pfault <= 4) { if (!g_cancelled) bad("blocks for an operation that may never end"); g_err = ERROR_OPERATION_ABORTED; return FALSE; }
    if (g_pfault == 5) { g_err = g_faultErr; return FALSE; }
    if (g_pkind == 0) *actual = take(g_pbuf, g_pn); else if (g_pkind == 1) { feed(g_pbuf, g_pn); *actual = g_pn; }
    g_err = 0; return TRUE;
}
static HANDLE fake_CreateEventW(void *, BOOL, BOOL, const wchar_t *) { return newH(2); }
static std::wstring g_pipeName; static bool g_pipeFails, g_procFails; static DWORD g_procErr;
static HANDLE fake_CreateNamedPipeW(const wchar_t *n, DWORD om, DWORD pm, DWORD mi, DWORD, DWORD, DWORD, SECURITY_ATTRIBUTES *sa) {
    Internal in; g_pipeName = n; if (om != (PIPE_ACCESS_DUPLEX | FILE_FLAG_FIRST_PIPE_INSTANCE | FILE_FLAG_OVERLAPPED) || pm != 8 || mi != 1 || !sa || !sa->lpSecurityDescriptor || sa->bInheritHandle) bad("the control pipe is not private");
    if (g_pipeFails) { g_err = 5; return INVALID_HANDLE_VALUE; } return newH(1); }
static std::wstring g_cmdline, g_appSeen, g_deskSeen; static DWORD g_flagsSeen, g_pid; static bool g_deskNull; static std::vector<std::wstring> g_cmdlines; static std::string g_greet[2];
static BOOL fake_CreateProcessW(const wchar_t *app, wchar_t *cmd, void *, void *, BOOL inherit, DWORD flags, void *env, const wchar_t *cwd, STARTUPINFOW *si, PROCESS_INFORMATION *pi) {
    Internal in; g_appSeen = app; g_cmdline = cmd; g_flagsSeen = flags; g_deskNull = !si->lpDesktop; g_deskSeen = si->lpDesktop ? si->lpDesktop : L"";
    if (inherit || env || cwd) bad("the agent inherits something");
    g_cmdlines.push_back(g_cmdline);
    if (g_procFails) { g_err = g_procErr; return FALSE; }
    pi->hProcess = newH(3); pi->hThread = newH(4); pi->dwProcessId = ++g_pid;
    bool desk = g_cmdline.find(L"--create-desktop") != std::wstring::npos;
    g_reply = g_greet[desk];
    return TRUE; }
static std::set<HANDLE> g_remote; static int g_dupFailAt, g_dups; static std::map<HANDLE, HANDLE> g_dupOf;
static BOOL fake_DuplicateHandle(HANDLE sp, HANDLE s, HANDLE tp, HANDLE *out, DWORD acc, BOOL inh, DWORD opt) {
    Internal in; if (!live(sp, 3) || tp != GetCurrentProcess() || inh || opt != (DUPLICATE_CLOSE_SOURCE | DUPLICATE_SAME_ACCESS)) bad("a handle is taken over wrongly");
    if (!g_remote.erase(s)) bad("a handle is taken that the agent did not give");
    if (++g_dups == g_dupFailAt) { g_err = 6; return FALSE; }
    *out = newH(5); g_dupOf[*out] = s; return TRUE; }
static DWORD fake_GetLastError() { return g_err; }
static DWORD fake_GetEnvironmentVariableA(const char *, char *, DWORD) { return 0; }
#define ReadFile fake_ReadFile
#define WriteFile fake_WriteFile
#define GetOverlappedResult fake_GetOverlappedResult
#define CancelIo fake_CancelIo
#define CloseHandle fake_CloseHandle
#define CreateEventW fake_CreateEventW
#define GetLastError fake_GetLastError
#define CreateNamedPipeW fake_CreateNamedPipeW
#define ConnectNamedPipe fake_ConnectNamedPipe
#define WaitForMultipleObjects fake_WaitForMultipleObjects
#define CreateProcessW fake_CreateProcessW
#define DuplicateHandle fake_DuplicateHandle
#define GetEnvironmentVariableA fake_GetEnvironmentVariableA
#include "src/shared/OwnedHandle.cc"
#include "src/libwinpty/winpty.cc"
#undef CloseHandle
static int g_sdMissing; static int g_pidMode;
SecurityDescriptor createPipeSecurityDescriptorOwnerFullControl() { SecurityDescriptor r; static char x; r.m_v = g_sdMissing ? nullptr : (SECURITY_DESCRIPTOR *)&x; return r; }
DWORD rejectRemoteClientsPipeFlag() { return 8; }
std::tuple<GetNamedPipeClientProcessId_Result, DWORD, DWORD> getNamedPipeClientProcessId(HANDLE h) {
    if (!live(h, 1)) bad("client of a closed pipe");
    typedef GetNamedPipeClientProcessId_Result R;
    return std::make_tuple(g_pidMode == 0 || g_pidMode == 1 ? R::Success : g_pidMode == 2 ? R::Failure : R::UnsupportedOs, g_pidMode == 0 ? g_pid : g_pid + 1, (DWORD)5); }
GenRandom::GenRandom() : m_advapi32(L"advapi32.dll") {} GenRandom::~GenRandom() {} static int g_uniq;
std::wstring GenRandom::uniqueName() { wchar_t b[40]; wsprintfW(b, L"u%d", ++g_uniq); return b; }
bool isAtLeastWindows7() { return g_win7; }
bool isAtLeastWindowsVista() { return true; }
bool isAtLeastWindows8() { return g_win7; }
void dumpWindowsVersion() {}
void dumpVersionToTrace() {}
std::wstring findAgentProgram() { return L"C:\\a dir\\winpty-agent.exe"; }
static bool g_bgFails; static int g_bgAlive;
BackgroundDesktop::BackgroundDesktop() { if (g_bgFails) throwWinptyException(L"no desktop"); m_newDesktopName = L"st\\Curproc"; m_newDesktop = (HDESK)1; ++g_bgAlive; }
void BackgroundDesktop::dispose() WINPTY_NOEXCEPT { if (m_newDesktop) { --g_bgAlive; m_newDesktop = nullptr; } }
std::wstring getCurrentDesktopName() { return L"orig\\Default"; }

static std::string pkt(const std::string &b) { uint64_t n = b.size() + 8; std::string r((char *)&n, 8); return r + b; }
static std::string body(WriteBuffer &w) { return std::string(w.buf().begin(), w.buf().end()); }
static std::wstring rndW(int n) { std::wstring r; for (int i = 0; i < n; ++i) r += (wchar_t)(chance(1, 4) ? 1 + rnd(65535) : 'a' + rnd(26)); return r; }
static winpty_t *mkwp() {
    auto *wp = new winpty_t; wp->agentProcess = OwnedHandle(newH(3)); wp->controlPipe = OwnedHandle(newH(1)); wp->ioEvent = OwnedHandle(newH(2)); wp->agentTimeoutMs = g_wantTimeout = 1 + rnd(100000);
    wp->spawnDesktopName = chance(1, 2) ? L"" : L"d\\x"; return wp; }
static void reset() {
    g_open.clear(); g_sent.clear(); g_reply.clear(); g_reqBuf.clear(); g_ioCount = 0; g_faultAt = 0; g_fault = 0; g_faultErr = ERROR_BROKEN_PIPE; g_pendingIo = false; g_eofWait = false; g_agent = nullptr; g_cmdlines.clear();
    g_bad = false; g_asserts = 0; g_failAlloc = 0; g_allocs = 0; g_remote.clear(); g_dupFailAt = 0; g_dups = 0; g_dupOf.clear(); g_procFails = g_pipeFails = false; g_sdMissing = 0; g_pidMode = 0; g_dbg.clear(); g_win7 = true; g_bgFails = false; g_bgAlive = 0; }
// an error object is filled in exactly on failure
static void checkErr(bool failed, winpty_error_ptr_t e, bool given = true) {
    if (!failed) { if (given && e) bad("an error object after success"); if (winpty_error_code(nullptr) != 0) bad("no error has a code"); return; }
    if (!given) return;
    if (!e) { bad("no error object after a failure"); return; }
    if (winpty_error_code(e) == 0) bad("an error without a code");
    LPCWSTR m = winpty_error_msg(e); if (!m || !*m) bad("an error without a message");
    winpty_error_free(e);
}
static const winpty_error_ptr_t STALE = (winpty_error_ptr_t)&kBadRpcPacket;
static DWORD wantCode(int fault, DWORD ferr) { switch (fault) { case 2: return WINPTY_ERROR_AGENT_DIED; case 3: return WINPTY_ERROR_AGENT_TIMEOUT; case 4: return WINPTY_ERROR_UNSPECIFIED; }
    return ferr == ERROR_BROKEN_PIPE || ferr == ERROR_NO_DATA || ferr == ERROR_PIPE_NOT_CONNECTED ? WINPTY_ERROR_LOST_CONNECTION : WINPTY_ERROR_UNSPECIFIED; }

struct Call { int kind; std::string reply; bool ok; int count; std::vector<int> list, arr; int room; bool wp_, wt_; HANDLE rp, rt; int64_t result; DWORD cpe; };
// one call; returns success
static bool doCall(winpty_t *wp, int kind, bool mangle, const char *mode) {
    Call c; c.kind = kind; WriteBuffer rep; std::string want; WriteBuffer req; HANDLE hp = (HANDLE)-3, ht = (HANDLE)-3; DWORD cpe = 77; winpty_spawn_config_t *cfg = nullptr; int cols = 0, rows = 0;
    c.wp_ = chance(1, 2); c.wt_ = chance(1, 2); c.result = 0; c.rp = c.rt = nullptr; bool giveCpe = chance(2, 3), giveErr = chance(5, 6);
    std::wstring s[4]; std::wstring envBlock; bool has[4]; uint64_t flags = rnd(4);
    {
        Internal in;
        if (kind == 0) { cols = 1 + rnd(40000); rows = 1 + rnd(40000); req.putInt32(AgentMsg::SetSize); req.putInt32(cols); req.putInt32(rows); }
        else if (kind == 1) {
            req.putInt32(AgentMsg::GetConsoleProcessList); int n = rnd(chance(1, 2) ? 5 : 60); for (int i = 0; i < n; ++i) c.list.push_back(rnd());
            c.room = chance(1, 3) ? n : rnd(n + 4); if (chance(1, 20)) c.room = -(int)rnd(3); rep.putInt32(n); for (int x : c.list) rep.putInt32(x);
        } else {
            for (int i = 0; i < 3; ++i) { has[i] = chance(2, 3); if (has[i]) s[i] = rndW(rnd(20)); }
            has[3] = chance(2, 3); if (has[3]) { int n = rnd(4); for (int i = 0; i < n; ++i) envBlock += rndW(1 + rnd(9)) + std::wstring(1, 0); envBlock += std::wstring(n ? 1 : 1, 0); if (!n) envBlock += std::wstring(1, 0); s[3] = envBlock; }
            req.putInt32(AgentMsg::StartProcess); req.putInt64(flags); req.putInt32(c.wp_); req.putInt32(c.wt_); for (auto &x : s) req.putWString(x); req.putWString(wp->spawnDesktopName);
            c.result = rnd(3) ? (int)StartProcessResult::ProcessCreated : (int)StartProcessResult::CreateProcessFailed;
            if (chance(1, 25)) c.result = chance(1, 2) ? 9 : -1;
            rep.putInt32(c.result);
            if (c.result == (int)StartProcessResult::CreateProcessFailed) { c.cpe = 1 + rnd(2000); rep.putInt32(c.cpe); }
            else { bool odd = chance(1, 10);
                if (c.wp_ || odd) { c.rp = (HANDLE)(intptr_t)(int32_t)(0x40000 + rnd(1000) * 4); g_remote.insert(c.rp); } if (c.wt_ || odd) { c.rt = (HANDLE)(intptr_t)(int32_t)(0x50000 + rnd(1000) * 4); g_remote.insert(c.rt); }
                rep.putInt64((int64_t)c.rp); rep.putInt64((int64_t)c.rt); }
        }
        want = pkt(body(req)); std::string b = body(rep); std::string full = pkt(b);
        if (mangle) switch (rnd(6)) {
        case 0: full.resize(rnd(full.size())); break;
        case 1: b.resize(rnd(b.size() + 1)); full = pkt(b); if (kind == 0) full = pkt("x"); else if (b.size() == body(rep).size()) full = pkt(b + "x"); break;
        case 2: full = pkt(b + std::string(1 + rnd(20), 'x')); break;
        case 3: { uint64_t n = rnd(8); memcpy(&full[0], &n, 8); break; }
        case 4: { uint64_t n = ~(uint64_t)rnd(1000); memcpy(&full[0], &n, 8); break; }
        default: full = pkt(std::string(1 + rnd(9), (char)(1 + rnd(255)))); break; }
        g_sent.clear(); std::string *keep = new std::string(full);
        g_agent = [keep](const std::string &) { return *keep; };
    }
    winpty_error_ptr_t e = STALE; bool failed; int r = 0; std::vector<int> arr; { Internal in; arr.assign(80, 0x5a5a5a5a); }
    size_t io0 = g_ioCount; bool wasDead = wp->controlPipe.get() == nullptr; if (!wasDead && !live(wp->controlPipe.get(), 1)) bad("the library keeps a closed pipe");
    HANDLE pipe = wp->controlPipe.get();
    try {
        if (kind == 0) failed = !winpty_set_size(wp, cols, rows, giveErr ? &e : nullptr);
        else if (kind == 1) { r = winpty_get_console_process_list(wp, arr.data() + 1, c.room, giveErr ? &e : nullptr); failed = giveErr ? e != nullptr : false; if (!giveErr) failed = wp->controlPipe.get() == nullptr; }
        else {
            winpty_error_ptr_t e2 = STALE; cfg = winpty_spawn_config_new(flags, has[0] ? s[0].c_str() : nullptr, has[1] ? s[1].c_str() : nullptr, has[2] ? s[2].c_str() : nullptr, has[3] ? s[3].c_str() : nullptr, &e2);
            checkErr(!cfg, e2); if (!cfg) { if (!g_failAlloc) bad("no spawn configuration"); return true; }
            failed = !winpty_spawn(wp, cfg, c.wp_ ? &hp : nullptr, c.wt_ ? &ht : nullptr, giveCpe ? &cpe : nullptr, giveErr ? &e : nullptr);
            winpty_spawn_config_free(cfg);
        }
    } catch (...) { bad("an exception leaves the library"); return false; }
    Internal in;
    if (g_pendingIo) { bad("an operation is pending after the call"); g_pendingIo = false; }
    DWORD code = giveErr && e && failed ? winpty_error_code(e) : 0;
    checkErr(failed, e, giveErr);
    bool faulted = g_faultAt && (int)io0 < g_faultAt && g_faultAt <= g_ioCount; bool mem = g_failAlloc && g_allocs >= g_failAlloc;
    if (wasDead) { if (!failed && giveErr) bad("success without an agent"); if ((int)io0 != g_ioCount) bad("a dead session is used"); }
    else {
        bool created = c.result == (int)StartProcessResult::ProcessCreated;
        bool soft = kind == 2 && c.result == (int)StartProcessResult::CreateProcessFailed && !mangle && !faulted && !mem;
        bool shouldFail = mangle || faulted || (kind == 2 && !created) || (kind == 2 && g_dupFailAt && g_dups >= g_dupFailAt);
        if (!mem && failed != shouldFail && (giveErr || kind != 1)) bad(failed ? "fails without a reason" : "succeeds although the reply is missing or bad");
        if (!mem && giveErr && faulted && g_faultErr != 1 && code != wantCode(g_fault, g_faultErr)) bad("the error code is wrong");
        if (failed && !soft && live(pipe, 1) && !mem) bad("the connection stays open after a failure");
        if (failed && !soft && wp->controlPipe.get() && !mem) bad("the session goes on after a failure");
        if (mem && failed && giveErr && code != WINPTY_ERROR_OUT_OF_MEMORY && !shouldFail) bad("memory exhaustion is reported as something else");
        if ((!failed || soft) && wp->controlPipe.get() == nullptr && !mem) bad("a working session is closed");
        if (!failed || soft) { if (g_sent != want) bad("the request is not exactly what was asked"); if (!g_reply.empty() || !g_reqBuf.empty()) bad("the reply is not used up"); }
        else if (want.compare(0, g_sent.size(), g_sent) != 0) bad("something else was sent");
        if (wp->controlPipe.get() && (!g_reply.empty() || !g_reqBuf.empty())) bad("an open session keeps a stale reply");
        if (kind == 1) {
            if (!failed && r != (int)c.list.size()) bad("the count is wrong"); if (failed && r != 0) bad("a failure returns a count");
            bool fits = (int)c.list.size() <= c.room;
            for (int i = -1; i < 78; ++i) { bool in = !failed && fits && i >= 0 && i < (int)c.list.size(); if (!failed || i < 0 || i >= c.room) if (arr[i + 1] != (in ? c.list[i] : 0x5a5a5a5a)) bad(in ? "a process id is wrong" : "written outside the list"); }
        }
        if (kind == 2) {
            for (HANDLE h : {c.wp_ ? hp : nullptr, c.wt_ ? ht : nullptr}) if (h && (failed || !live(h, 5))) bad("a handle with a failure, or a dead handle");
            if (!failed) { if (c.wp_ && g_dupOf[hp] != c.rp) bad("the process handle is another one"); if (c.wt_ && g_dupOf[ht] != c.rt) bad("the thread handle is another one"); }
            if (giveCpe && cpe != (soft || (mem && cpe == c.cpe && c.result == (int)StartProcessResult::CreateProcessFailed) ? c.cpe : 0)) bad("the CreateProcess error is wrong");
            if (soft && giveErr && code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) bad("a failed CreateProcess has another code");
            if (!soft && !mem && giveErr && code == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) bad("another failure is taken for CreateProcess");
            int dups = 0; for (auto &o : g_open) dups += o.second == 5; int kept = failed ? 0 : (c.wp_ && hp) + (c.wt_ && ht); if (dups != kept) bad("a process handle is leaked or lost");
            for (auto i = g_open.begin(); i != g_open.end();) if (i->second == 5) i = g_open.erase(i); else ++i;
        }
    }
    if (g_asserts) bad("a run-time assertion fails");
    g_remote.clear();
    return !failed;
}
static void seqCase() {
    winpty_t *wp = mkwp(); bool mem = g_mode == "l02";
    int n = 1 + rnd(6);
    if (chance(1, 2)) { g_faultAt = 1 + rnd(12); g_fault = 1 + rnd(5); static const DWORD E[] = {ERROR_BROKEN_PIPE, ERROR_NO_DATA, ERROR_PIPE_NOT_CONNECTED, 5, 87}; g_faultErr = E[rnd(5)]; }
    g_eofWait = chance(1, 3);
    if (chance(1, 6)) g_dupFailAt = 1 + rnd(3);
    for (int k = 0; k < n && !g_bad; ++k) {
        int kind = g_mode == "l04" ? 2 : g_mode == "g01" ? 1 : (int)rnd(3);
        if (mem && chance(2, 3)) { g_failAlloc = 1 + rnd(40); g_allocs = 0; } else g_failAlloc = 0;
        if (g_dupFailAt && g_dups >= g_dupFailAt) { g_dupFailAt = 0; }
        doCall(wp, kind, chance(1, 5), nullptr);
    }
    g_failAlloc = 0;
    winpty_free(wp);
    if (!g_open.empty()) bad("a handle stays open after the session was freed");
}
static void openCase() {
    // configuration
    bool mem = g_mode == "l02"; winpty_error_ptr_t e = STALE;
    if (g_mode == "l03" && chance(1, 3)) {
        uint64_t f = chance(1, 2) ? rnd(32) : 1ull << rnd(64); int a0 = g_asserts; auto *c = winpty_config_new(f, &e);
        if ((c != nullptr) != (f < 16)) bad("flags outside the documented set are accepted, or documented ones refused"); if ((g_asserts > a0) != (f >= 16)) bad("no assertion on bad flags");
        if (c && (c->flags != f || c->cols != 80 || c->rows != 25 || c->mouseMode != WINPTY_MOUSE_MODE_AUTO || c->timeoutMs != 30000)) bad("the defaults are wrong");
        checkErr(!c, e);
        if (c) {
            int x = chance(1, 2) ? (int)rnd() : (int)rnd(5) - 2, y = chance(1, 2) ? (int)rnd() : (int)rnd(5) - 2, m = (int)rnd(6) - 1; DWORD t = chance(1, 4) ? 0 : rnd();
            bool ok = true; try { winpty_config_set_initial_size(c, x, y); } catch (AssertFailed &) { ok = false; } if (ok != (x > 0 && y > 0)) bad("sizes outside the range are accepted, or sizes in it refused"); if (c->cols != (ok ? x : 80) || c->rows != (ok ? y : 25)) bad("the size is not kept");
            ok = true; try { winpty_config_set_mouse_mode(c, m); } catch (AssertFailed &) { ok = false; } if (ok != (m >= 0 && m <= 2) || c->mouseMode != (ok ? m : 1)) bad("the mouse mode is not kept");
            ok = true; try { winpty_config_set_agent_timeout(c, t); } catch (AssertFailed &) { ok = false; } if (ok != (t > 0) || c->timeoutMs != (ok ? t : 30000)) bad("the time limit is not kept");
            if (c->flags != f) bad("the flags are not kept");
            winpty_config_free(c);
        }
        f = chance(1, 2) ? rnd(8) : 1ull << rnd(64); a0 = g_asserts; e = STALE; auto *s = winpty_spawn_config_new(f, nullptr, nullptr, nullptr, nullptr, &e);
        if ((s != nullptr) != (f < 4) || (g_asserts > a0) != (f >= 4)) bad("spawn flags outside the documented set are accepted, or documented ones refused"); checkErr(!s, e); if (s) winpty_spawn_config_free(s);
        g_asserts = 0; return;
    }
    if (mem && chance(1, 2)) { g_failAlloc = 1 + rnd(120); g_allocs = 0; }
    uint64_t f = rnd(16); auto *c = winpty_config_new(f, &e); checkErr(!c, e); if (!c) { if (!g_failAlloc) bad("no configuration"); return; }
    int cols = 80, rows = 25, mm = 1; DWORD tmo = 30000;
    if (chance(2, 3)) winpty_config_set_initial_size(c, cols = 1 + rnd(chance(1, 2) ? 300 : 0x7ffffff), rows = 1 + rnd(chance(1, 2) ? 100 : 0x7fffff));
    if (chance(2, 3)) winpty_config_set_mouse_mode(c, mm = rnd(3));
    if (chance(2, 3)) winpty_config_set_agent_timeout(c, tmo = chance(1, 2) ? INFINITE : 1 + rnd(99999));
    g_wantTimeout = tmo;
    std::wstring in, out, er, dn; int desk = 0; bool mangle = chance(1, 6); bool emptyDesk = chance(1, 5);
    {
        Internal i2;
        in = rndW(1 + rnd(20)); out = rndW(1 + rnd(20)); er = rndW(1 + rnd(20)); dn = L"st\\" + rndW(3);
        WriteBuffer w; w.putWString(in); w.putWString(out); if (f & WINPTY_FLAG_CONERR) w.putWString(er);
        std::string b = body(w); if (mangle) { if (chance(1, 2)) b += "xx"; else b.resize(rnd(b.size())); } g_greet[0] = pkt(b);
        WriteBuffer w2; w2.putWString(emptyDesk ? L"" : dn); g_greet[1] = pkt(body(w2));
        g_win7 = chance(2, 3); int forced = 0; if (chance(1, 4)) { static const char *F[] = {"force_desktop", "force_desktop_spawn", "force_desktop_curproc", "no_desktop"}; forced = 1 + rnd(4); g_dbg.insert(F[forced - 1]); }
        bool agentDesk = !(f & WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION); if (forced == 2) agentDesk = true; if (forced == 3) agentDesk = false;
        bool use = !g_win7; if (forced >= 1 && forced <= 3) use = true; if (forced == 4) use = false;
        desk = !use ? 0 : agentDesk ? 1 : 2; g_bgFails = chance(1, 4);
        if (chance(1, 6)) { g_faultAt = 1 + rnd(8); g_fault = 1 + rnd(5); g_faultErr = chance(1, 2) ? ERROR_BROKEN_PIPE : 5; }
        if (chance(1, 12)) { g_procFails = true; g_procErr = 2; } else if (chance(1, 12)) g_pipeFails = true; else if (chance(1, 12)) g_sdMissing = 1; g_pidMode = chance(1, 4) ? rnd(4) : 0;
    }
    winpty_t *wp = nullptr; e = STALE; bool giveErr = chance(5, 6);
    try { wp = winpty_open(c, giveErr ? &e : nullptr); } catch (...) { bad("an exception leaves the library"); }
    long used = g_allocs; g_failAlloc && used >= g_failAlloc; bool memHit = g_failAlloc && used >= g_failAlloc; g_failAlloc = 0;
    DWORD code = !wp && giveErr && e ? winpty_error_code(e) : 0; checkErr(!wp, e, giveErr);
    bool faulted = g_faultAt && g_faultAt <= g_ioCount;
    bool should = faulted || g_procFails || g_pipeFails || g_sdMissing || g_pidMode == 1 || g_pidMode == 2 || mangle;
    if (!memHit && (wp != nullptr) == should) bad(wp ? "opens although something failed" : "does not open without a reason");
    if (!wp && !memHit && giveErr && g_procFails && !faulted && !g_pipeFails && !g_sdMissing && code != WINPTY_ERROR_AGENT_CREATION_FAILED) bad("a missing agent has another code");
    if (wp) {
        bool useName = desk == 1 ? !emptyDesk : desk == 2 ? !g_bgFails : false; std::wstring name = useName ? (desk == 1 ? dn : L"st\\Curproc") : L"";
        wchar_t b[200]; wsprintfW(b, L"\"C:\\a dir\\winpty-agent.exe\" %s %d %d %d %d", g_pipeName.c_str(), (int)f, mm, cols, rows);
        if (g_cmdline != b || g_appSeen != L"C:\\a dir\\winpty-agent.exe") bad("the agent command line does not carry the configuration");
        if (g_flagsSeen != CREATE_NEW_CONSOLE) bad("the agent has no console of its own");
        if (g_deskSeen != name && !memHit) bad("the agent is on another desktop");
        if (wp->spawnDesktopName != (g_deskSeen.empty() ? L"" : L"orig\\Default")) bad("children are on another desktop");
        if (in != winpty_conin_name(wp) || out != winpty_conout_name(wp)) bad("the pipe names are wrong");
        LPCWSTR en = winpty_conerr_name(wp); if (f & WINPTY_FLAG_CONERR ? !en || er != en : en != nullptr) bad("the error pipe name is wrong");
        if (!live(winpty_agent_process(wp), 3)) bad("no agent process handle");
        if (!g_reply.empty()) bad("the greeting is not used up");
        if (wp->agentTimeoutMs != tmo) bad("the time limit is not used");
        g_faultAt = 0; if (!memHit) doCall(wp, rnd(3), false, nullptr);
        winpty_free(wp);
    }
    winpty_config_free(c);
    if (g_pendingIo) bad("an operation is pending after the call");
    if (g_bgAlive) bad("the background desktop stays");
    if (!g_open.empty()) bad("a handle stays open");
    if (g_asserts) bad("a run-time assertion fails");
}
static void runCase(uint64_t seed) {
    std::string c = std::to_string(seed); cur(c);
    uint64_t save = g_state; g_state = seed * 0x9E3779B97F4A7C15ULL + 7; reset();
    if (g_mode == "l03") openCase(); else if (g_mode == "l02" || g_mode == "l01") { if (chance(1, 3)) openCase(); else seqCase(); } else seqCase();
    // error objects can always be inspected and freed
    if (winpty_error_code(nullptr) != 0 || !winpty_error_msg(nullptr) || !*winpty_error_msg(nullptr)) bad("no error cannot be inspected");
    winpty_error_free(nullptr); for (auto *k : {&kOutOfMemory, &kBadRpcPacket, &kUncaughtException}) { winpty_error_free((winpty_error_ptr_t)k); if (!winpty_error_code((winpty_error_ptr_t)k) || !*winpty_error_msg((winpty_error_ptr_t)k)) bad("a static error is empty"); }
    g_state = save; g_failAlloc = 0;
    if (g_bad) fail(c, g_badWhat);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { runCase(strtoull(g_case.c_str(), 0, 10)); finish(); return g_fails ? 1 : 0; }
    int N = g_thorough ? 1000000 : 60000;
    for (int i = 0; i < N; ++i) runCase(rnd());
    finish();
    return g_fails ? 1 : 0;
}
