// The real agent (agent/Agent.cc, Win32Console.cc, Buffer.cc) among recording stand-ins.
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/shared/WinptyException.cc src/shared/StringUtil.cc src/agent/InputMap.cc src/agent/ConsoleLine.cc

#define OWN_ASSERT
#include "agent_stubs.h"
using namespace vh;
#include <winnt.h>
static bool g_bad; static std::string g_badWhat; static bool g_expectAssert;
static void bad(const std::string &w) { if (!g_bad) { g_bad = true; g_badWhat = w; } }
struct Asserted {};
void agentShutdown() {}
void agentAssertFail(const char *, int, const char *cond) { if (!g_expectAssert) bad(std::string("run-time assertion fails: ") + cond); throw Asserted(); }

// ---- the simulated world
typedef std::vector<std::string> Log;
static Log g_log;
static DWORD g_err; static DWORD fake_GetLastError() { return g_err; }
static void clobber() { g_err = 0xBAD; }
static bool g_selected; static bool g_newW10; static int g_throwAt; // console selection active
static LRESULT fake_SendMessageW(HWND h, UINT m, WPARAM w, LPARAM) {
    if (h != (HWND)0x1234) bad("a message to another window");
    if (m == WM_SYSCOMMAND && (w == 0xFFF2 || w == 0xFFF5)) { if (g_selected) bad("selects twice"); g_selected = true; }
    else if (m == WM_CHAR && w == 27) { if (!g_selected) bad("escape without a selection"); g_selected = false; }
    else bad("another message to the console window");
    return 0;
}
static HWND fake_GetConsoleWindow() { return (HWND)0x1234; }
static std::wstring g_title = L"t";
static DWORD fake_GetConsoleTitleW(wchar_t *b, DWORD n) { if (n) { size_t m = std::min<size_t>(g_title.size(), n / 2 ? n / 2 - 1 : 0); memcpy(b, g_title.data(), 2 * m); b[m] = 0; } return g_title.size(); }
static BOOL fake_SetConsoleTitleW(const wchar_t *t) { g_title = t; return TRUE; }
static std::vector<DWORD> g_procs; static int g_growth;
static DWORD fake_GetConsoleProcessList(DWORD *l, DWORD n) {
    if (g_growth > 0) { --g_growth; for (int i = 0; i < 50; ++i) g_procs.push_back(7000 + g_procs.size()); }
    if (g_procs.size() <= n) for (size_t i = 0; i < g_procs.size(); ++i) l[i] = g_procs[i];
    return g_procs.size();
}
static std::map<uintptr_t, int> g_handles; static uintptr_t g_next = 0x2000; // open handles -> what they are
static HANDLE newH(int kind) { g_next += 4; g_handles[g_next] = kind; return (HANDLE)g_next; }
static BOOL fake_CloseHandle(HANDLE h) { clobber(); if (!g_handles.count((uintptr_t)h)) bad("closes a handle that is not open"); g_handles.erase((uintptr_t)h); return TRUE; }
static BOOL fake_DuplicateHandle(HANDLE, HANDLE h, HANDLE, HANDLE *o, DWORD, BOOL, DWORD opt) { clobber(); auto it = g_handles.find((uintptr_t)h); if (it == g_handles.end() || opt != DUPLICATE_SAME_ACCESS) { bad("wrong handle duplicated"); return FALSE; } *o = newH(it->second + 10); return TRUE; }
static HANDLE fake_GetStdHandle(DWORD n) { clobber(); return (HANDLE)(uintptr_t)(0x500 - (int)n); }
static bool g_childEnded; static uintptr_t g_child; static bool g_waited;
static DWORD fake_WaitForSingleObject(HANDLE h, DWORD t) { clobber(); if ((uintptr_t)h != g_child || !g_handles.count(g_child)) bad("waits on something else than the child"); if (t) bad("waits for the child"); g_waited = true; return g_childEnded ? WAIT_OBJECT_0 : WAIT_TIMEOUT; }
static BOOL fake_WriteConsoleInputW(HANDLE, const INPUT_RECORD *r, DWORD n, DWORD *a) { if (n != 1 || r->EventType != WINDOW_BUFFER_SIZE_EVENT) bad("not a window size record"); g_log.push_back("event " + std::to_string(r->Event.WindowBufferSizeEvent.dwSize.X)); *a = n; return TRUE; }
static BOOL fake_SetConsoleCtrlHandler(PHANDLER_ROUTINE, BOOL) { return TRUE; }
static COORD fake_GetLargestConsoleWindowSize(HANDLE) { COORD c = {200, 100}; return c; }
// spawn requests
struct Req { uint64_t flags; int wp, wt; std::wstring s[5]; DWORD err; };
static Req g_req; static int g_creates; static bool g_conerr;
static BOOL fake_CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES pa, LPSECURITY_ATTRIBUTES ta, BOOL inherit, DWORD fl, LPVOID env, LPCWSTR cwd, STARTUPINFOW *si, PROCESS_INFORMATION *pi) {
    ++g_creates;
    auto same = [](const wchar_t *p, const std::wstring &w) { return w.empty() ? p == nullptr : p && w == p; };
    if (!same(app, g_req.s[0])) bad("wrong program"); if (!same(cmd, g_req.s[1])) bad("wrong command line");
    if (!same(cwd, g_req.s[2])) bad("wrong directory"); if (!same(si->lpDesktop, g_req.s[4])) bad("wrong desktop");
    if (g_req.s[3].empty() ? env != nullptr : !env || memcmp(env, g_req.s[3].data(), 2 * g_req.s[3].size())) bad("wrong environment");
    if (pa || ta || fl != CREATE_UNICODE_ENVIRONMENT) bad("wrong creation arguments");
    if (inherit != (BOOL)g_conerr || ((si->dwFlags & STARTF_USESTDHANDLES) != 0) != g_conerr || si->cb != sizeof(*si)) bad("wrong start-up information");
    if (cmd) cmd[0] = 'X';
    if (g_req.err) { g_err = g_req.err; return FALSE; }
    clobber();
    pi->hProcess = newH(1); pi->hThread = newH(2); pi->dwProcessId = 77; g_child = (uintptr_t)pi->hProcess;
    return TRUE;
}
bool g_traceNoise;
#define SendMessageW fake_SendMessageW
#define GetConsoleWindow fake_GetConsoleWindow
#define GetConsoleTitleW fake_GetConsoleTitleW
#define SetConsoleTitleW fake_SetConsoleTitleW
#define GetConsoleProcessList fake_GetConsoleProcessList
#define CloseHandle fake_CloseHandle
#define DuplicateHandle fake_DuplicateHandle
#define GetStdHandle fake_GetStdHandle
#define WaitForSingleObject fake_WaitForSingleObject
#define WriteConsoleInputW fake_WriteConsoleInputW
#define SetConsoleCtrlHandler fake_SetConsoleCtrlHandler
#define GetLargestConsoleWindowSize fake_GetLargestConsoleWindowSize
#define CreateProcessW fake_CreateProcessW
#define GetLastError fake_GetLastError
#define LoadLibraryW(x) ((HMODULE)1)
#define FreeLibrary(x) TRUE
#define trace agent_trace
static void agent_trace(const char *, ...) { clobber(); }
#include "src/shared/Buffer.cc"
#include "src/agent/Win32Console.cc"
#include "src/agent/Agent.cc"
#undef trace
void setSmallFont(HANDLE, int, bool) {}
bool isAtLeastWindows8() { return g_newW10; }
static Agent *g_agent; static bool g_ctor;

// ---- stand-ins for the agent's parts
void OwnedHandle::dispose(bool) { m_h = nullptr; }
struct FakePipe { std::string in, out; size_t rbs = 0, left = 0; };
static std::map<NamedPipe *, FakePipe> g_pipes; static std::vector<NamedPipe *> g_order; static bool g_down;
static void setState(NamedPipe *p, int st) { p->m_handle = st ? (HANDLE)0x99 : nullptr; p->m_connectEvent.m_h = st == 1 ? (HANDLE)0x98 : nullptr; } // 0 closed 1 connecting 2 connected
EventLoop::~EventLoop() {}
void EventLoop::shutdown() { g_down = true; }
void EventLoop::setPollInterval(int) {}
NamedPipe &EventLoop::createNamedPipe() { NamedPipe *p = new NamedPipe; setState(p, 1); g_pipes[p]; g_order.push_back(p); return *p; }
void NamedPipe::openServerPipe(LPCWSTR n, OpenMode::t, int, int) { m_name = n; }
void NamedPipe::connectToServer(LPCWSTR n, OpenMode::t) { m_name = n; setState(this, 2); }
size_t NamedPipe::bytesToSend() { return g_pipes[this].left; }
size_t NamedPipe::bytesAvailable() { return g_pipes[this].in.size(); }
size_t NamedPipe::readBufferSize() { return g_pipes[this].rbs; }
void NamedPipe::setReadBufferSize(size_t n) { g_pipes[this].rbs = n; }
void NamedPipe::write(const void *d, size_t n) { if (isClosed()) bad("writes to a closed pipe"); g_pipes[this].out.append((const char *)d, n); g_pipes[this].left += n; }
void NamedPipe::write(const char *t) { write(t, strlen(t)); }
size_t NamedPipe::peek(void *d, size_t n) { auto &q = g_pipes[this].in; n = std::min(n, q.size()); memcpy(d, q.data(), n); return n; }
size_t NamedPipe::read(void *d, size_t n) { n = peek(d, n); g_pipes[this].in.erase(0, n); return n; }
std::string NamedPipe::readAllToString() { std::string r; r.swap(g_pipes[this].in); return r; }
static bool g_expectClose;
void NamedPipe::closePipe() {
    if (!g_agent) return;
    if (this != g_agent->m_conoutPipe && this != g_agent->m_conerrPipe) bad("closes a pipe that carries no output");
    if (!isConnected()) bad("closes a pipe that is not connected");
    if (g_pipes[this].left) bad("closes an output pipe before its output was sent");
    if (!g_expectClose) bad("closes an output pipe while the child runs");
    setState(this, 0); g_log.push_back("close");
}
std::wstring GenRandom::uniqueName() { static int n; return std::to_wstring((long long)++n); }
GenRandom::GenRandom() : m_advapi32(L"advapi32.dll") {} GenRandom::~GenRandom() {}
std::unique_ptr<Win32ConsoleBuffer> Win32ConsoleBuffer::openConout() { if (g_conerr) bad("wrong primary buffer"); return std::unique_ptr<Win32ConsoleBuffer>(new Win32ConsoleBuffer((HANDLE)0x600, false)); }
std::unique_ptr<Win32ConsoleBuffer> Win32ConsoleBuffer::openStdout() { if (!g_conerr) bad("wrong primary buffer"); return std::unique_ptr<Win32ConsoleBuffer>(new Win32ConsoleBuffer((HANDLE)0x600, false)); }
std::unique_ptr<Win32ConsoleBuffer> Win32ConsoleBuffer::createErrorBuffer() { return std::unique_ptr<Win32ConsoleBuffer>(new Win32ConsoleBuffer((HANDLE)0x601, false)); }
HANDLE Win32ConsoleBuffer::conout() { return m_conout; }
static ConsoleScreenBufferInfo someInfo(int k) { ConsoleScreenBufferInfo i; i.dwSize.X = 80; i.dwSize.Y = 3000; i.srWindow.Left = 0; i.srWindow.Top = k; i.srWindow.Right = 79 + k; i.srWindow.Bottom = 24 + k; return i; }
ConsoleScreenBufferInfo Win32ConsoleBuffer::bufferInfo() { return someInfo(0); }
Coord Win32ConsoleBuffer::bufferSize() { return Coord(4321, 1); }
void Win32ConsoleBuffer::moveWindow(const SmallRect &) {}
void Win32ConsoleBuffer::resizeBuffer(const Coord &) {}
bool Win32ConsoleBuffer::resizeBufferRange(const Coord &, Coord &) { return true; }
void Win32ConsoleBuffer::setTextAttribute(WORD) {}
void Win32ConsoleBuffer::clearAllLines(const ConsoleScreenBufferInfo &) {}
SmallRect Win32ConsoleBuffer::windowRect() { return someInfo(0).windowRect(); }
static Coord g_cursor;
Coord Win32ConsoleBuffer::cursorPosition() { return g_selected && !chance(1, 2) ? Coord(0, 0) : g_cursor; }
void Win32ConsoleBuffer::setCursorPosition(const Coord &c) { g_cursor = c; }
Scraper::Scraper(Win32Console &c, Win32ConsoleBuffer &, std::unique_ptr<Terminal> t, Coord sz) : m_console(c), m_terminal(std::move(t)), m_ptySize(sz) {}
Scraper::~Scraper() {}
static int g_infoNo; static SmallRect g_lastPrimary;
static void scraped(Scraper *s, const char *what, Win32ConsoleBuffer &b, Coord sz, ConsoleScreenBufferInfo &info) {
    bool prim = s == g_agent->m_primaryScraper.get();
    if (prim != (b.m_conout == (HANDLE)0x600)) bad("a scraper gets the wrong buffer");
    if (g_selected != s->m_console.m_frozen) bad("the recorded frozen state is not the real one");
    for (int i = rnd(3); i > 0; --i) s->m_console.setFrozen(chance(1, 2));
    if (g_throwAt > 0 && --g_throwAt == 0) throw std::bad_alloc();
    info = someInfo(++g_infoNo); if (prim) g_lastPrimary = info.windowRect();
    g_log.push_back(std::string(what) + (prim ? " p " : " e ") + std::to_string(sz.X) + "x" + std::to_string(sz.Y));
    if (!strcmp(what, "scrape")) { if (g_waited && g_childEnded) g_log.push_back("lastscrape"); NamedPipe *p = prim ? g_agent->m_conoutPipe : g_agent->m_conerrPipe; if (!p->isClosed() && chance(1, 2)) p->write("out"); }
}
void Scraper::resizeWindow(Win32ConsoleBuffer &b, Coord s, ConsoleScreenBufferInfo &i) { scraped(this, "resize", b, s, i); }
void Scraper::scrapeBuffer(Win32ConsoleBuffer &b, ConsoleScreenBufferInfo &i) { scraped(this, "scrape", b, Coord(0, 0), i); }
static int g_mouse = -1; static bool g_wantMouse;
void Terminal::enableMouseMode(bool on) { g_mouse = on; if (on && g_expectClose) bad("mouse mode stays on after the end"); }
void Terminal::reset(SendClearFlag, int64_t) {}
ConsoleInput::ConsoleInput(HANDLE h, int mm, DsrSender &d, Win32Console &c) : m_console(c), m_conin(h), m_mouseMode(mm), m_dsrSender(d) {}
static std::string g_fed;
void ConsoleInput::writeInput(const std::string &s) { g_fed += s; }
void ConsoleInput::flushIncompleteEscapeCode() { g_log.push_back("flush"); }
void ConsoleInput::updateInputFlags(bool) {}
bool ConsoleInput::shouldActivateTerminalMouse() { return g_wantMouse; }

std::string controlKeyStatePrefix(DWORD) { return ""; }
LargeConsoleReadBuffer::LargeConsoleReadBuffer() : m_rect(0, 0, 0, 0) {}

// ---- cases
static std::string le(uint64_t v, int n) { return std::string((char *)&v, n); }
static std::string pkt(const std::string &body) { return le(body.size() + 8, 8) + body; }
// wire form of the typed values: written by the real WriteBuffer

static std::string body(WriteBuffer &b) { return std::string(b.buf().begin(), b.buf().end()); }
static std::wstring randStr(bool env) { std::wstring s; int n = chance(1, 4) ? 0 : rnd(40); for (int i = 0; i < n; ++i) s += (wchar_t)(1 + rnd(chance(1, 3) ? 0xFFFE : 100)); if (env && n) { s += L'\0'; if (chance(1, 2)) { s += L"B=c"; s += L'\0'; } s += L'\0'; } return s; }
static void setup(uint64_t flags) {
    g_log.clear(); g_selected = false; g_throwAt = 0; g_title = L"t"; g_procs.clear(); g_growth = 0; g_handles.clear(); g_childEnded = false; g_child = 0; g_waited = false; g_creates = 0;
    for (auto p : g_order) { p->m_handle = nullptr; p->m_connectEvent.m_h = nullptr; }
    g_pipes.clear(); g_order.clear(); g_down = false; g_fed.clear(); g_mouse = -1; g_expectClose = false; g_expectAssert = false;
    g_conerr = (flags & 1) != 0; g_newW10 = chance(1, 2);
    g_agent = nullptr;
}
struct Inst {
    std::unique_ptr<Agent> a; FakePipe *ctl;
    Inst(uint64_t flags) {
        setup(flags);
        a.reset(new Agent(L"ctl", flags, 0, 80, 25)); g_agent = a.get();
        if (g_selected || a->m_console.m_frozen) bad("the console is left frozen after start-up");
        ctl = &g_pipes[a->m_controlPipe];
        // the start-up packet: the names of the data pipes
        std::string o = ctl->out; ctl->out.clear();
        uint64_t len = 0; if (o.size() >= 8) memcpy(&len, o.data(), 8);
        if (len != o.size()) { bad("the start-up packet's length is wrong"); return; }
        try {
            ReadBuffer r(std::vector<char>(o.begin() + 8, o.end()));
            if (r.getWString() != a->m_coninPipe->m_name || r.getWString() != a->m_conoutPipe->m_name) bad("wrong pipe names in the start-up packet");
            if (g_conerr && r.getWString() != a->m_conerrPipe->m_name) bad("wrong pipe names in the start-up packet");
            r.assertEof();
        } catch (const ReadBuffer::DecodeError &) { bad("the start-up packet is malformed"); }
        if (a->m_coninPipe->m_name == a->m_conoutPipe->m_name) bad("two pipes with one name");
        for (auto &p : g_pipes) p.second.left = 0;
        g_log.clear();
    }
    ~Inst() { g_agent = nullptr; for (auto p : g_order) { p->m_handle = nullptr; } a.reset(); }
    // replies so far, as bodies
    std::vector<std::string> replies() {
        std::vector<std::string> r; std::string &o = ctl->out;
        while (!o.empty()) { uint64_t l = 0; if (o.size() >= 8) memcpy(&l, o.data(), 8); if (o.size() < 8 || l < 8 || l > o.size()) { bad("a reply's length is wrong"); break; } r.push_back(o.substr(8, l - 8)); o.erase(0, l); }
        o.clear(); return r;
    }
    bool send(const std::string &s) { try { ctl->in += s; a->onPipeIo(*a->m_controlPipe); return true; } catch (const Asserted &) { return false; } catch (const std::bad_alloc &) { return false; } }
};
static std::string spawnBody(bool valid) {
    g_req = Req(); g_req.flags = rnd(4); g_req.wp = chance(1, 2) ? 0 : (chance(1, 2) ? 1 : 256); g_req.wt = chance(1, 2); for (int i = 0; i < 5; ++i) g_req.s[i] = randStr(i == 3);
    g_req.err = chance(1, 2) ? 1 + rnd(0xFFFF) : 0;
    WriteBuffer w; w.putInt32(AgentMsg::StartProcess); w.putInt64(g_req.flags); w.putInt32(g_req.wp); w.putInt32(g_req.wt); for (auto &s : g_req.s) w.putWString(s);
    return body(w);
}
static void checkSpawn(Inst &I, const std::string &rep) {
    if (g_creates != 1) { bad("the process is not created exactly once"); return; }
    try {
        ReadBuffer r(std::vector<char>(rep.begin(), rep.end()));
        int res = r.getInt32();
        if (g_req.err) {
            if (res != (int)StartProcessResult::CreateProcessFailed) bad("a failure is not reported"); else if ((DWORD)r.getInt32() != g_req.err) bad("wrong error code");
            if (!g_handles.empty()) bad("handles are open after a failure");
        } else {
            if (res != (int)StartProcessResult::ProcessCreated) bad("success is not reported");
            else {
                int64_t p = r.getInt64(), t = r.getInt64();
                auto kind = [](int64_t h) { auto it = g_handles.find((uintptr_t)h); return h == 0 ? 0 : it == g_handles.end() ? -1 : it->second; };
                if (kind(p) != (g_req.wp ? 11 : 0)) bad("wrong process handle"); if (kind(t) != (g_req.wt ? 12 : 0)) bad("wrong thread handle");
                size_t want = 1 + (g_req.wp != 0) + (g_req.wt != 0);
                if (!g_handles.count(g_child)) bad("the agent gave up the child"); else if (g_handles.size() != want) bad("a handle is left open or lost");
                if (I.a->m_childProcess != (HANDLE)g_child) bad("the agent does not keep the child");
                if (I.a->m_autoShutdown != ((g_req.flags & 1) != 0) || I.a->m_exitAfterShutdown != ((g_req.flags & 2) != 0)) bad("the spawn flags do not take effect");
            }
        }
        r.assertEof();
    } catch (const ReadBuffer::DecodeError &) { bad("the reply is malformed"); }
}
static std::string listBody() { WriteBuffer w; w.putInt32(AgentMsg::GetConsoleProcessList); return body(w); }
static void checkList(const std::string &rep) {
    std::string want; { WriteBuffer w; w.putInt32(g_procs.size()); for (auto p : g_procs) w.putInt32(p); want = body(w); }
    if (rep != want) bad("the process list is wrong");
}
static void runCase(uint64_t seed) {
    std::string c = std::to_string(seed); cur(c);
    uint64_t save = g_state; g_state = seed * 0x9E3779B97F4A7C15ULL + 7; g_bad = false;
    {
        uint64_t flags = rnd(2); Inst I(flags);
        if (g_mode == "l04") {
            std::string b = spawnBody(true); I.send(pkt(b));
            auto r = I.replies();
            if (r.size() != 1) bad("not exactly one reply"); else checkSpawn(I, r[0]);
            g_handles[g_child] = 1;
        } else if (g_mode == "g01") {
            for (int k = 0; k < 3; ++k) {
                g_procs.clear(); int n = chance(1, 2) ? rnd(6) : rnd(200); for (int i = 0; i < n; ++i) g_procs.push_back(chance(1, 3) ? rnd() : i); g_growth = chance(1, 2) ? rnd(4) : 0;
                I.send(pkt(listBody())); g_growth = 0;
                auto r = I.replies(); if (r.size() != 1) bad("not exactly one reply"); else checkList(r[0]);
            }
        } else if (g_mode == "c01") {
            for (int k = 0; k < 6 && !g_bad; ++k) {
                bool f0 = chance(1, 2); I.a->m_console.setFrozen(f0); g_throwAt = chance(1, 2) ? 1 + rnd(2) : 0;
                if (g_selected != f0) bad("the console is not in the wanted state");
                try { if (chance(1, 2)) I.a->scrapeBuffers(); else I.a->resizeWindow(1 + rnd(4000), 1 + rnd(4000)); } catch (const std::bad_alloc &) {}
                g_throwAt = 0;
                if (I.a->m_console.m_frozen != f0 || g_selected != f0) bad("the frozen state is not what it was before");
            }
        } else if (g_mode == "b02") {
            struct E { int kind; int a, b; }; std::vector<E> want; std::string stream;
            int n = 1 + rnd(8);
            for (int i = 0; i < n; ++i) {
                WriteBuffer w; E e = {(int)rnd(4), 0, 0};
                if (e.kind == 0 || e.kind == 3) { e.kind = 0; e.a = 1 + rnd(chance(1, 3) ? 40000 : 300); e.b = 1 + rnd(chance(1, 3) ? 40000 : 300); w.putInt32(AgentMsg::SetSize); w.putInt32(e.a); w.putInt32(e.b); }
                else if (e.kind == 1) w.putInt32(AgentMsg::GetConsoleProcessList);
                else { w.putInt32(50 + rnd(100)); std::string junk(rnd(300), 'j'); w.putRawData(junk.data(), junk.size()); }
                want.push_back(e); stream += pkt(body(w));
            }
            std::string tail; if (chance(1, 2)) { tail = pkt(std::string(chance(1, 2) ? 100 : 90000, 'x')); tail.resize(rnd(tail.size())); }
            g_procs.assign(3, 9);
            stream += tail; bool poked = false;
            while (!stream.empty()) { size_t m = chance(1, 3) ? stream.size() : 1 + rnd(std::min<size_t>(stream.size(), 40)); I.send(stream.substr(0, m)); stream.erase(0, m); if (g_bad) break; }
            if (I.ctl->in != tail) bad("bytes of an incomplete packet are lost, or a complete packet waits");
            uint64_t need = 0; if (tail.size() >= 8) { memcpy(&need, tail.data(), 8); if (I.ctl->rbs < need) bad("the pipe makes no room for the next packet"); }
            auto r = I.replies(); size_t ri = 0, li = 0;
            for (auto &e : want) {
                if (e.kind == 2) continue;
                if (ri >= r.size()) { bad("a packet is not answered"); break; }
                if (e.kind == 0) {
                    if (!r[ri].empty()) bad("a resize answer is not empty");
                    std::string s = std::to_string(std::min(e.a, 2500)) + "x" + std::to_string(std::min(e.b, 2000));
                    for (int q = 0; q < 2 + (int)flags; ++q) { std::string x = q == 0 ? "resize p " + s : q == 1 + (int)flags ? std::string("event 4321") : "resize e " + s; if (li >= g_log.size() || g_log[li] != x) bad("a resize request is not applied as asked"); ++li; }
                } else checkList(r[ri]);
                ++ri;
            }
            if (ri != r.size()) bad("more replies than packets"); if (li != g_log.size()) bad("more is done than was asked");
            if (!g_bad && g_infoNo && !want.empty()) { SmallRect m = I.a->m_consoleInput->m_mouseWindowRect; bool any = false; for (auto &e : want) any |= e.kind == 0; if (any && !(m == g_lastPrimary)) bad("mouse positions are relative to another window"); }
            if (g_down) bad("the agent ends");
            setState(I.a->m_controlPipe, 0); I.send(""); if (!g_down) bad("the agent goes on without a control pipe");
        } else if (g_mode == "x01") {
            bool autoS = chance(3, 4), exitS = chance(1, 2); bool spawned = false, ended = false;
            int steps = 5 + rnd(40);
            for (int k = 0; k < steps && !g_bad; ++k) {
                NamedPipe *ps[2] = {I.a->m_conoutPipe, I.a->m_conerrPipe};
                switch (rnd(7)) {
                case 0: if (!spawned) { spawned = true; g_req = Req(); g_req.flags = (autoS ? 1 : 0) | (exitS ? 2 : 0); WriteBuffer w; w.putInt32(AgentMsg::StartProcess); w.putInt64(g_req.flags); w.putInt32(0); w.putInt32(0); for (int i = 0; i < 5; ++i) w.putWString(L""); I.send(pkt(body(w))); } break;
                case 1: if (spawned && !ended && chance(1, 3)) { ended = true; g_childEnded = true; } break;
                case 2: for (auto p : ps) if (p && p->isConnecting() && chance(1, 2)) setState(p, 2); break;
                case 3: for (auto p : ps) if (p && !p->isClosed() && chance(1, 2)) { auto &f = g_pipes[p]; f.left = chance(1, 2) ? 0 : rnd(f.left + 1); }
                    for (auto p : ps) if (p && chance(1, 2)) I.a->onPipeIo(*p);
                    break;
                case 4: g_wantMouse = chance(1, 2); if (chance(1, 3)) g_title += L"x"; break;
                case 5: g_fed.clear(); { std::string d(rnd(20), 'd'); for (auto &x : d) x = (char)rnd(256); g_pipes[I.a->m_coninPipe].in = d; I.a->onPipeIo(*I.a->m_coninPipe); if (g_fed != d) bad("input bytes are lost or changed"); } break;
                default: {
                    bool was = I.a->m_closingOutputPipes; g_log.clear(); g_waited = false;
                    if (ended && autoS) g_expectClose = true;
                    g_mouse = -1; I.a->onPollTimeout();
                    size_t scr = 0; bool last = false; for (auto &l : g_log) { scr += l.substr(0, 8) == "scrape p"; last |= l == "lastscrape"; }
                    if (scr != (was ? 0u : 1u)) bad("the console is not scraped once per turn");
                    if (I.a->m_closingOutputPipes != (was || (ended && autoS))) bad("output does not end exactly when the child has ended");
                    if (!was && I.a->m_closingOutputPipes && !last) bad("the console is not scraped after the child ended");
                    if (g_mouse != (g_wantMouse && !I.a->m_closingOutputPipes)) bad("wrong mouse mode");
                    if (I.a->m_closingOutputPipes && g_handles.count(g_child)) bad("the child handle stays open");
                    break; }
                }
                if (I.a->m_closingOutputPipes) { bool all = true; for (auto p : ps) if (p) { all &= p->isClosed(); } if (g_down != (all && exitS)) { I.a->autoClosePipesForShutdown(); if (g_down != (all && exitS)) bad("the agent does not end exactly after its output was delivered"); } }
                else if (g_down) bad("the agent ends while the child runs");
            }
            // everything is accepted in the end
            if (!g_bad && I.a->m_closingOutputPipes) {
                for (NamedPipe *p : {I.a->m_conoutPipe, I.a->m_conerrPipe}) if (p && !p->isClosed()) { setState(p, 2); g_pipes[p].left = 0; I.a->onPipeIo(*p); if (!p->isClosed()) bad("a delivered output pipe stays open"); }
                if (exitS && !g_down) bad("the agent does not end");
            }
            if (g_child && g_handles.count(g_child) == 0 && I.a->m_childProcess) g_handles[g_child] = 1;
        }
    }
    g_state = save;
    if (g_bad) fail(c, g_badWhat);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { runCase(strtoull(g_case.c_str(), 0, 10)); finish(); return g_fails ? 1 : 0; }
    int N = g_thorough ? 400000 : 40000;
    for (int i = 0; i < N; ++i) runCase(rnd());
    finish();
    return g_fails ? 1 : 0;
}
