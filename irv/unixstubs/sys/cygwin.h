#pragma once
#include <stddef.h>
#include <sys/types.h>
extern "C" { unsigned long cygwin_internal(int, ...); ssize_t cygwin_conv_path(unsigned, const void *, void *, size_t); int cygwin_conv_to_full_win32_path(const char *, char *); int cygwin_conv_to_win32_path(const char *, char *); }
enum { CW_SYNC_WINENV = 1, CW_STRACE_ACTIVE = 2, CW_GETPINFO = 3 };
enum { CCP_POSIX_TO_WIN_A = 0, CCP_POSIX_TO_WIN_W = 1, CCP_WIN_A_TO_POSIX = 2, CCP_RELATIVE = 0x100, CCP_ABSOLUTE = 0 };
