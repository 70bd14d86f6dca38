/* just enough of windows.h for the Cygwin adapter's sources to be compiled here */
#pragma once
#include <limits.h>
#include <stdint.h>
#include <stddef.h>
typedef void *HANDLE; typedef uint32_t DWORD; typedef int BOOL; typedef uint32_t UINT; typedef const wchar_t *LPCWSTR; typedef wchar_t *LPWSTR;
typedef char *LPSTR; typedef const char *LPCSTR; typedef void *LPVOID; typedef const void *LPCVOID; typedef int32_t LONG; typedef unsigned char BYTE; typedef uint16_t WORD; typedef uint64_t UINT64, ULONG_PTR; typedef wchar_t WCHAR;
typedef char CHAR; typedef DWORD *LPDWORD; typedef void VOID; typedef int64_t INT64; typedef uint64_t DWORD64; typedef HANDLE HMODULE; typedef HANDLE HLOCAL;
#define TRUE 1
#define FALSE 0
#define WINAPI
#define CALLBACK
#define INFINITE 0xFFFFFFFFu
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define WAIT_OBJECT_0 0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define OPEN_EXISTING 3
#define MAX_PATH 260
#define ERROR_BROKEN_PIPE 109u
#define ERROR_FILE_NOT_FOUND 2u
#define ERROR_PATH_NOT_FOUND 3u
#define STILL_ACTIVE 259u
#define CP_UTF8 65001
#define FORMAT_MESSAGE_ALLOCATE_BUFFER 0x100u
#define FORMAT_MESSAGE_FROM_SYSTEM 0x1000u
#define FORMAT_MESSAGE_IGNORE_INSERTS 0x200u
#define MAKELANGID(a, b) 0
#define LANG_NEUTRAL 0
#define SUBLANG_DEFAULT 1
typedef struct { DWORD nLength; LPVOID lpSecurityDescriptor; BOOL bInheritHandle; } SECURITY_ATTRIBUTES, *LPSECURITY_ATTRIBUTES;
typedef struct { uint64_t a, b; HANDLE hEvent; } OVERLAPPED, *LPOVERLAPPED;
extern "C" {
DWORD GetLastError(void); void SetLastError(DWORD); BOOL CloseHandle(HANDLE); DWORD WaitForSingleObject(HANDLE, DWORD);
DWORD WaitForMultipleObjects(DWORD, const HANDLE *, BOOL, DWORD);
BOOL ReadFile(HANDLE, LPVOID, DWORD, LPDWORD, LPOVERLAPPED); BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, LPOVERLAPPED);
HANDLE CreateFileW(LPCWSTR, DWORD, DWORD, SECURITY_ATTRIBUTES *, DWORD, DWORD, HANDLE); HANDLE CreateEvent(void *, BOOL, BOOL, void *);
HANDLE CreateEventA(void *, BOOL, BOOL, void *); HANDLE CreateEventW(void *, BOOL, BOOL, void *); BOOL SetEvent(HANDLE); BOOL ResetEvent(HANDLE);
BOOL GetExitCodeProcess(HANDLE, LPDWORD); DWORD GetCurrentProcessId(void); BOOL SetEnvironmentVariableA(LPCSTR, LPCSTR); BOOL SetEnvironmentVariableW(LPCWSTR, LPCWSTR);
DWORD FormatMessageA(DWORD, LPCVOID, DWORD, DWORD, LPSTR, DWORD, void *); DWORD FormatMessageW(DWORD, LPCVOID, DWORD, DWORD, LPWSTR, DWORD, void *); HLOCAL LocalFree(HLOCAL); DWORD GetFileAttributesA(LPCSTR); DWORD GetFileAttributesW(LPCWSTR);
DWORD GetCurrentThreadId(void); void Sleep(DWORD); UINT GetConsoleOutputCP(void); DWORD GetModuleFileNameW(HMODULE, LPWSTR, DWORD);
BOOL GetOverlappedResult(HANDLE, LPOVERLAPPED, LPDWORD, BOOL); BOOL CancelIo(HANDLE);
}
#define GetFileAttributes GetFileAttributesA
#define SetEnvironmentVariable SetEnvironmentVariableA
#define FormatMessage FormatMessageA
#define INVALID_FILE_ATTRIBUTES 0xFFFFFFFFu
#define FILE_ATTRIBUTE_DIRECTORY 0x10u
