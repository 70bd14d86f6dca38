// Emits every function of UnicodeEncoding.h.  Nothing is restated here: the
// bodies come from the /repo header.
#include <stdint.h>
#include "agent/UnicodeEncoding.h"
extern void *const keep_unicode[];
void *const keep_unicode[] = {
    (void*)encodeUtf8, (void*)encodeUtf16, (void*)utf8CharLength, (void*)decodeUtf8, (void*)decodeSurrogatePair
};
