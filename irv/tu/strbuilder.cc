// Emits the formatting functions of StringBuilder.h for every integer type and
// both character types.  Nothing is restated here: the bodies come from the header.
#include <stdint.h>
#include "shared/StringBuilder.h"
template class GStringBuilder<char>;
template class GStringBuilder<wchar_t>;
#define FORALL(X) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned int) X(long) X(unsigned long) X(long long) X(unsigned long long)
#define X(I) (void*)&gdecOfInt<char, I>, (void*)&gdecOfInt<wchar_t, I>, (void*)&ghexOfInt<char, false, I>, (void*)&ghexOfInt<wchar_t, false, I>, (void*)&ghexOfInt<char, true, I>, (void*)&ghexOfInt<wchar_t, true, I>, \
    (void*)&decOfInt<I>, (void*)&wdecOfInt<I>, (void*)(decltype(hexOfInt<false, I>(0))(*)(I))&hexOfInt<false, I>, (void*)(decltype(whexOfInt<false, I>(0))(*)(I))&whexOfInt<false, I>,
extern void *const keep_strbuilder[];
void *const keep_strbuilder[] = { FORALL(X) };
#define Y(I, n) void emit_append_##n(StringBuilder &b, const ValueString<char, n> &v) { b << v; } void emit_wappend_##n(WStringBuilder &b, const ValueString<wchar_t, n> &v) { b << v; }
Y(0, 8) Y(0, 11) Y(0, 14) Y(0, 26)
