// Emits the bounded copying and formatting functions, from the /repo sources.
#include <stdarg.h>
#include "shared/StringUtil.cc"
#include "shared/winpty_snprintf.h"
int e_vsn(char *o, size_t n, const char *f, va_list a) { return winpty_vsnprintf(o, n, f, a); }
int e_sn(char *o, size_t n, const char *f, int x) { return winpty_snprintf(o, n, f, x); }
int e_sn1(char (&o)[1], const char *f, int x) { return winpty_snprintf(o, f, x); }
int e_sn16(char (&o)[16], const char *f, int x) { return winpty_snprintf(o, f, x); }
int e_vsn1(char (&o)[1], const char *f, va_list a) { return winpty_vsnprintf(o, f, a); }
int e_vsn16(char (&o)[16], const char *f, va_list a) { return winpty_vsnprintf(o, f, a); }
wchar_t *e_cpy1(wchar_t (&d)[1], const wchar_t *s) { return winpty_wcsncpy(d, s); }
wchar_t *e_cpy32(wchar_t (&d)[32], const wchar_t *s) { return winpty_wcsncpy(d, s); }
wchar_t *e_cpyn1(wchar_t (&d)[1], const wchar_t *s) { return winpty_wcsncpy_nul(d, s); }
wchar_t *e_cpyn32(wchar_t (&d)[32], const wchar_t *s) { return winpty_wcsncpy_nul(d, s); }
void e_vec(std::vector<wchar_t> *r, const std::wstring &s) { new (r) std::vector<wchar_t>(vectorFromString(s)); }
void e_vecnul(std::vector<wchar_t> *r, const std::wstring &s) { new (r) std::vector<wchar_t>(vectorWithNulFromString(s)); }
