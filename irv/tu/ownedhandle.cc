// Emits the OwnedHandle members, from the /repo sources.
#include <new>
#include <utility>
#include "shared/OwnedHandle.cc"
void e_default(OwnedHandle *p) { new (p) OwnedHandle(); }
void e_ctor(OwnedHandle *p, HANDLE h) { new (p) OwnedHandle(h); }
void e_dtor(OwnedHandle *p) { p->~OwnedHandle(); }
void e_move(OwnedHandle *p, OwnedHandle *q) { new (p) OwnedHandle(std::move(*q)); }
void e_assign(OwnedHandle *p, OwnedHandle *q) { *p = std::move(*q); }
HANDLE e_release(OwnedHandle *p) { return p->release(); }
HANDLE e_get(OwnedHandle *p) { return p->get(); }
