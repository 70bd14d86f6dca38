// What the agent's translation units need from the rest of the agent.
#pragma once
#include "vh.h"
#include "src/shared/DebugClient.h"
#include "src/shared/WinptyAssert.h"
bool isTracingEnabled() { return false; }
bool hasDebugFlag(const char *) { return false; }
void trace(const char *, ...) {}
static std::string g_assertText;
struct AssertFailed {};
#ifndef OWN_ASSERT
#ifdef WINPTY_AGENT_ASSERT
void agentShutdown() { vh::fail(vh::g_cur, "the agent shuts itself down"); vh::finish(); fflush(stdout); ExitProcess(1); }
void agentAssertFail(const char *file, int line, const char *cond) {
    vh::fail(vh::g_cur, std::string("run-time assertion fails: ") + cond);
    vh::finish(); fflush(stdout); ExitProcess(1);
}
#else
void assertTrace(const char *file, int line, const char *cond) {
    vh::fail(vh::g_cur, std::string("run-time assertion fails: ") + cond);
    vh::finish(); fflush(stdout); ExitProcess(1);
}
#endif
#endif
