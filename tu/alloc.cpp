#include <il/core/memory/allocate.h>
struct S12 { int a, b, c; }; struct S24 { double a, b, c; }; struct S16 { long a, b; }; struct S40 { long a[5]; };
#define G(n, T) extern "C" { extern const long K_##n[]; const long K_##n[] = {(long)sizeof(T), (long)alignof(T)}; \
T* n##_alloc(il::int_t k) { return il::allocateArray<T>(k); } \
T* n##_alloca(il::int_t k, il::int_t r, il::int_t m, il::int_t* shift) { return il::allocateArray<T>(k, r, m, il::io, *shift); } \
void n##_free(T* p) { il::deallocate(p); } }
G(c, char) G(s, short) G(i, int) G(d, double) G(s12, S12) G(s16, S16) G(s24, S24) G(s40, S40)
