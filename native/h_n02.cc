// Security descriptors, pipe creation and unique names over a simulated system whose every call may fail.
// FLAGS: -DWINPTY_AGENT_ASSERT
// SRC: src/shared/WinptyException.cc src/shared/StringUtil.cc
#define OWN_ASSERT
#include "agent_stubs.h"
using namespace vh;
#include <aclapi.h>
#include <wincrypt.h>
#include <winnt.h>
#include "src/shared/WinptyException.h"
static bool g_bad; static std::string g_badWhat; static int g_failAt, g_call; static DWORD g_err; static bool g_failed, g_asserted;
static void bad(const std::string &w) { if (!g_bad) { g_bad = true; g_badWhat = w; } }
void agentShutdown() {}
void agentAssertFail(const char *, int, const char *) { g_asserted = true; throw AssertFailed(); }
static bool failNow() { if (++g_call == g_failAt) { g_failed = true; g_err = 5; return true; } return false; }
struct Thing { int kind; std::string what; bool alive; std::vector<std::string> acl; Thing *dacl; bool init, present; };   // 0 sid 1 acl 2 sd
static std::map<void *, Thing> g_things; static uintptr_t g_next;
static void *mk(int kind, const std::string &w) { void *p = (void *)(g_next += 64); Thing t; t.kind = kind; t.what = w; t.alive = true; t.dacl = nullptr; t.init = t.present = false; g_things[p] = t; return p; }
static Thing *get(void *p, int kind) { auto i = g_things.find(p); if (i == g_things.end() || i->second.kind != kind) return nullptr; if (!i->second.alive) { bad("something already released is used"); return nullptr; } return &i->second; }
static void drop(void *p, int kind) { auto i = g_things.find(p); if (i == g_things.end() || !i->second.alive || (kind == 0) != (i->second.kind == 0)) { bad("something is released wrongly"); return; } i->second.alive = false; }
static bool g_thread; static int g_tokens; static void *g_owner; static char *g_ownerBuf;
static BOOL f_AllocateAndInitializeSid(PSID_IDENTIFIER_AUTHORITY a, BYTE n, DWORD x0, DWORD x1, DWORD x2, DWORD x3, DWORD x4, DWORD x5, DWORD x6, DWORD x7, PSID *r) {
    if (failNow()) return FALSE;
    DWORD x[] = {x0, x1, x2, x3, x4, x5, x6, x7}; std::string s = "S-1-"; for (int i = 0; i < 5; ++i) if (a->Value[i]) s += "?"; s += std::to_string(a->Value[5]);
    for (int i = 0; i < n && i < 8; ++i) s += "-" + std::to_string(x[i]);
    *r = mk(0, s); return TRUE;
}
static void *f_FreeSid(PSID p) { drop(p, 0); return nullptr; }
static void *f_LocalFree(void *p) { drop(p, 1); return nullptr; }
static void *f_LocalAlloc(UINT, SIZE_T n) { if (failNow()) return nullptr; if (n < 40) bad("no room for a descriptor"); return mk(2, "sd"); }
static BOOL f_OpenThreadToken(HANDLE, DWORD acc, BOOL, HANDLE *t) { if (failNow()) return FALSE; if (acc != TOKEN_QUERY) bad("token opened for more than queries"); if (!g_thread) { g_err = ERROR_NO_TOKEN; return FALSE; } ++g_tokens; *t = (HANDLE)0x111; return TRUE; }
static BOOL f_OpenProcessToken(HANDLE, DWORD acc, HANDLE *t) { if (failNow()) return FALSE; if (g_thread) bad("the token of the process is used though the thread has its own"); ++g_tokens; *t = (HANDLE)0x222; return TRUE; }
static int g_size; static std::map<void *, int> g_dummy;
static BOOL f_GetTokenInformation(HANDLE t, TOKEN_INFORMATION_CLASS c, void *p, DWORD n, DWORD *need) {
    if (c != TokenOwner) bad("not the owner"); if (t != (HANDLE)(uintptr_t)(g_thread ? 0x111 : 0x222)) bad("the wrong token");
    if (failNow()) return FALSE;
    *need = g_size; if ((int)n < g_size) { g_err = ERROR_INSUFFICIENT_BUFFER; return FALSE; }
    memset(p, 0xAA, g_size); g_owner = (char *)p + 16; ((TOKEN_OWNER *)p)->Owner = g_owner; memcpy(g_owner, "OWNERSID", 8); return TRUE;
}
static DWORD f_SetEntriesInAclW(ULONG n, PEXPLICIT_ACCESSW e, PACL old, PACL *r) {
    if (failNow()) return 87;
    std::vector<std::string> v; if (old) bad("an older list is extended");
    for (ULONG i = 0; i < n; ++i) {
        std::string who = "?"; void *p = e[i].Trustee.ptstrName;
        if (e[i].Trustee.TrusteeForm != TRUSTEE_IS_SID || e[i].Trustee.pMultipleTrustee) bad("an entry names no identifier");
        if (p == g_owner) { if (memcmp(p, "OWNERSID", 8)) bad("the owner is gone"); else who = "owner"; } else if (Thing *t = get(p, 0)) who = t->what;
        if (e[i].grfAccessPermissions != GENERIC_ALL || e[i].grfAccessMode == DENY_ACCESS || e[i].grfAccessMode == REVOKE_ACCESS || e[i].grfInheritance) who += " (other rights)";
        v.push_back(who);
    }
    std::sort(v.begin(), v.end()); void *p = mk(1, "acl"); g_things[p].acl = v; *r = (PACL)p; return 0;
}
static BOOL f_InitializeSecurityDescriptor(void *sd, DWORD rev) { if (failNow()) return FALSE; if (Thing *t = get(sd, 2)) t->init = true; else bad("no descriptor"); return TRUE; }
static BOOL f_SetSecurityDescriptorDacl(void *sd, BOOL present, PACL a, BOOL dflt) { if (failNow()) return FALSE; Thing *t = get(sd, 2); if (!t || !t->init) { bad("descriptor not initialized"); return TRUE; } t->present = present; t->dacl = a ? get(a, 1) : nullptr; return TRUE; }
static void checkSd(void *sd) {
    Thing *t = get(sd, 2); if (!t) { bad("no security descriptor"); return; }
    if (!t->init || !t->present || !t->dacl) { bad("the descriptor has no access list (everyone has access)"); return; }
    if (!t->dacl->alive) { bad("the access list is gone"); return; }
    std::vector<std::string> want = {"S-1-5-18", "S-1-5-32-544", "owner"}; if (t->dacl->acl != want) { std::string s; for (auto &x : t->dacl->acl) s += x + "; "; bad("access is granted to: " + s); }
}
static bool g_vista; bool isAtLeastWindowsVista() { return g_vista; }
static bool g_proc; static int g_mods; static HANDLE g_pipe; static ULONG g_pid;
static BOOL WINAPI fakeClientPid(HANDLE h, PULONG p) { if (h != g_pipe) bad("another pipe"); if (failNow()) return FALSE; *p = g_pid; return TRUE; }
static BOOLEAN WINAPI fakeRtl(void *p, ULONG n) { if (failNow()) return 0; for (ULONG i = 0; i < n; ++i) ((char *)p)[i] = (char)(0x80 + i * 29); return 1; }
static HMODULE f_LoadLibraryW(const wchar_t *) { ++g_mods; return (HMODULE)0x333; }
static BOOL f_FreeLibrary(HMODULE) { --g_mods; return TRUE; }
static FARPROC f_GetProcAddress(HMODULE, const char *n) { if (!g_proc) return nullptr; if (!strcmp(n, "GetNamedPipeClientProcessId")) return (FARPROC)fakeClientPid; if (!strcmp(n, "SystemFunction036")) return (FARPROC)fakeRtl; return nullptr; }
static BOOL f_CryptAcquireContext(HCRYPTPROV *h, const wchar_t *, const wchar_t *, DWORD, DWORD fl) { if (fl != CRYPT_VERIFYCONTEXT) bad("a key container is used"); if (failNow()) return FALSE; *h = 77; return TRUE; }
static BOOL f_CryptReleaseContext(HCRYPTPROV, DWORD) { return TRUE; }
static BOOL f_CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE *p) { if (h != 77) bad("no provider"); return fakeRtl(p, n); }
static DWORD g_curPid; static uint64_t g_time;
static DWORD f_GetCurrentProcessId() { return g_curPid; }
static void f_GetSystemTimeAsFileTime(FILETIME *f) { f->dwLowDateTime = (DWORD)g_time; f->dwHighDateTime = (DWORD)(g_time >> 32); }
// pipes
static int g_made; static int g_want; static std::wstring g_name; static bool g_server; static int g_events; static int g_how; static HANDLE g_evt;
static HANDLE f_CreateEventW(SECURITY_ATTRIBUTES *, BOOL, BOOL, const wchar_t *n) { if (failNow()) return nullptr; if (n) bad("a named event"); ++g_events; return (HANDLE)(uintptr_t)(0x1000 + g_events * 8); }
static HANDLE f_CreateNamedPipeW(const wchar_t *n, DWORD om, DWORD pm, DWORD mi, DWORD, DWORD, DWORD, SECURITY_ATTRIBUTES *sa) {
    if (g_name != n) bad("another name"); if (!(om & FILE_FLAG_FIRST_PIPE_INSTANCE)) bad("not the first instance of its name"); if ((om & 3) != (DWORD)g_want) bad("other directions");
    if (!(om & FILE_FLAG_OVERLAPPED)) bad("not overlapped");
    if (om & ~(DWORD)(3 | FILE_FLAG_FIRST_PIPE_INSTANCE | FILE_FLAG_OVERLAPPED)) bad("other flags"); if (g_vista && !(pm & 8)) bad("remote clients are not refused"); if (pm & ~8u) bad("other pipe mode"); if (mi != 1) bad("more than one instance");
    if (!sa || !sa->lpSecurityDescriptor || sa->nLength != sizeof(*sa)) bad("no security descriptor"); else { checkSd(sa->lpSecurityDescriptor); if (sa->bInheritHandle) bad("inherited"); }
    if (failNow()) return INVALID_HANDLE_VALUE; ++g_made; return (HANDLE)0x5000;
}
static HANDLE f_CreateFileW(const wchar_t *n, DWORD acc, DWORD share, void *, DWORD disp, DWORD fl, HANDLE) {
    if (g_name != n || acc != (GENERIC_READ | GENERIC_WRITE) || share || disp != OPEN_EXISTING) bad("opened differently");
    if (!(fl & SECURITY_SQOS_PRESENT) || (fl & 0x30000) != SECURITY_IDENTIFICATION) bad("the server may impersonate this process");
    if (failNow()) return INVALID_HANDLE_VALUE; ++g_made; return (HANDLE)0x5000;
}
static BOOL f_ConnectNamedPipe(HANDLE h, OVERLAPPED *o) { if (h != (HANDLE)0x5000 || !o->hEvent) bad("connects something else"); if (failNow()) return FALSE; if (g_how == 0) return TRUE; g_err = g_how == 1 ? ERROR_PIPE_CONNECTED : ERROR_IO_PENDING; return FALSE; }
static BOOL f_CloseHandle(HANDLE h) { if (h == (HANDLE)0x111 || h == (HANDLE)0x222) --g_tokens; return TRUE; }
static BOOL f_CancelIo(HANDLE) { return TRUE; }
static BOOL f_GetOverlappedResult(HANDLE, OVERLAPPED *, DWORD *, BOOL) { return TRUE; }
static DWORD f_GetLastError() { return g_err; }
#define AllocateAndInitializeSid f_AllocateAndInitializeSid
#define FreeSid f_FreeSid
#define LocalFree f_LocalFree
#define LocalAlloc f_LocalAlloc
#define OpenThreadToken f_OpenThreadToken
#define OpenProcessToken f_OpenProcessToken
#define GetTokenInformation f_GetTokenInformation
#define SetEntriesInAclW f_SetEntriesInAclW
#define InitializeSecurityDescriptor f_InitializeSecurityDescriptor
#define SetSecurityDescriptorDacl f_SetSecurityDescriptorDacl
#define LoadLibraryW f_LoadLibraryW
#define FreeLibrary f_FreeLibrary
#define GetProcAddress f_GetProcAddress
#undef CryptAcquireContext
#define CryptAcquireContext f_CryptAcquireContext
#define CryptReleaseContext f_CryptReleaseContext
#define CryptGenRandom f_CryptGenRandom
#define GetCurrentProcessId f_GetCurrentProcessId
#define GetSystemTimeAsFileTime f_GetSystemTimeAsFileTime
#define CreateEventW f_CreateEventW
#define CreateNamedPipeW f_CreateNamedPipeW
#define CreateFileW f_CreateFileW
#define ConnectNamedPipe f_ConnectNamedPipe
#define CloseHandle f_CloseHandle
#define CancelIo f_CancelIo
#define GetOverlappedResult f_GetOverlappedResult
#define GetLastError f_GetLastError
#include "src/shared/OwnedHandle.cc"
#include "src/shared/WindowsSecurity.cc"
#include "src/shared/GenRandom.cc"
#include "src/agent/NamedPipe.cc"
#undef GetLastError
#undef CloseHandle

static void leaks() { for (auto &x : g_things) if (x.second.alive) bad("something is never released"); if (g_tokens) bad("the token is not closed"); }
static std::set<std::wstring> g_names;
static void runCase(uint64_t seed) {
    std::string c = std::to_string(seed); cur(c);
    uint64_t save = g_state; g_state = seed * 0x9E3779B97F4A7C15ULL + 7;
    g_bad = g_failed = g_asserted = false; g_things.clear(); g_next = 0x100000; g_tokens = 0; g_owner = nullptr; g_call = 0; g_failAt = chance(1, 2) ? 0 : 1 + (int)rnd(12); g_thread = chance(1, 2); g_size = 24 + 8 * (int)rnd(5); g_vista = chance(1, 2); g_proc = chance(2, 3); g_mods = 0; g_made = 0; g_events = 0;
    bool threw = false;
    switch (rnd(4)) {
    case 0:
        try { SecurityDescriptor sd = createPipeSecurityDescriptorOwnerFullControl(); checkSd(sd.get()); SecurityDescriptor b = std::move(sd); checkSd(b.get()); } catch (const WinptyException &) { threw = true; }
        if (threw != g_failed) bad(threw ? "fails without cause" : "a failure goes unnoticed");
        leaks();
        break;
    case 1: {
        g_server = chance(2, 3); g_want = 1 + (int)rnd(3); g_name = L"\\\\.\\pipe\\x" + std::wstring(rnd(20), L'y'); g_how = (int)rnd(3);
        NamedPipe *p = new NamedPipe();
        try { if (g_server) p->openServerPipe(g_name.c_str(), g_want, 100, 100); else p->connectToServer(g_name.c_str(), g_want);
            if (p->isClosed() || p->name() != g_name || p->m_openMode != g_want) bad("the pipe is not set up");
            bool later = g_server && g_how == 2; if (p->isConnecting() != later) bad("the connection state is wrong");
            if ((p->m_inputWorker != nullptr) != (!later && (g_want & 1)) || (p->m_outputWorker != nullptr) != (!later && (g_want & 2))) bad("the transfers are wrong");
            if (!later) {} delete p;
        } catch (const AssertFailed &) { threw = true; } catch (const WinptyException &) { threw = true; }
        if (threw != g_failed) bad(threw ? "fails without cause" : "a failure goes unnoticed");
        if (!threw) leaks();
        break; }
    case 2: {
        g_curPid = (DWORD)rnd(); g_time = rnd(); LONG before = g_pipeCounter; if (chance(1, 4)) g_pipeCounter = before = (LONG)rnd(); std::wstring n; bool have;
        { GenRandom r; n = r.uniqueName(); have = r.valid(); }
        char b[100]; snprintf(b, sizeof b, "%u-%d-%llx", (unsigned)g_curPid, (int)(before + 1), (unsigned long long)g_time); std::string s(b);
        std::string got(n.begin(), n.end());
        if (have && !g_failed) { s += "-"; for (int i = 0; i < 16; ++i) { char h[3]; snprintf(h, 3, "%02x", (0x80 + i * 29) & 255); s += h; } if (got != s) bad("the name is " + got + " and not " + s); }
        else if (got.substr(0, s.size()) != s || (g_failed && !g_proc && have == false && got != s)) bad("the name is " + got);
        if (g_mods) bad("the module is not released");
        break; }
    default: {
        g_pipe = (HANDLE)(rnd() | 1); g_pid = (ULONG)rnd();
        auto t = getNamedPipeClientProcessId(g_pipe);
        auto w = !g_proc ? GetNamedPipeClientProcessId_Result::UnsupportedOs : g_failed ? GetNamedPipeClientProcessId_Result::Failure : GetNamedPipeClientProcessId_Result::Success;
        if (std::get<0>(t) != w) bad("the outcome is wrong"); if (g_proc && !g_failed && std::get<1>(t) != g_pid) bad("the process id is wrong"); if (g_proc && g_failed && std::get<2>(t) != 5) bad("the error is wrong");
        if ((rejectRemoteClientsPipeFlag() != 0) != g_vista || (g_vista && rejectRemoteClientsPipeFlag() != 8)) bad("remote clients are not refused");
        if (g_mods) bad("the module is not released");
        break; }
    }
    g_state = save;
    if (g_bad) fail(c, g_badWhat);
}
int main(int argc, char **argv) {
    options(argc, argv); install();
    if (g_hasCase) { runCase(strtoull(g_case.c_str(), 0, 10)); finish(); return g_fails ? 1 : 0; }
    int N = g_thorough ? 400000 : 40000;
    for (int i = 0; i < N; ++i) runCase(rnd());
    finish();
    return g_fails ? 1 : 0;
}
