#include <il/Array3D.h>
#include <il/Array3C.h>
#include "obj.h"
#define LAY(sfx, A) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(A), (long)offsetof(A, data_), (long)offsetof(A, size_), (long)offsetof(A, capacity_), (long)offsetof(A, alignment_), (long)offsetof(A, align_r_), (long)offsetof(A, align_mod_), (long)offsetof(A, shift_)}; }
#define COMMON(sfx, C, T) \
typedef il::C<T> sfx; LAY(sfx, sfx) \
extern "C" { \
void sfx##_ctor0(sfx* a) { new (a) sfx(); } \
void sfx##_ctorn(sfx* a, il::int_t n, il::int_t p, il::int_t q) { new (a) sfx(n, p, q); } \
void sfx##_ctornx(sfx* a, il::int_t n, il::int_t p, il::int_t q, const T* x) { new (a) sfx(n, p, q, *x); } \
void sfx##_ctorcopy(sfx* a, const sfx* b) { new (a) sfx(*b); } \
void sfx##_ctormove(sfx* a, sfx* b) { new (a) sfx(std::move(*b)); } \
void* sfx##_assign(sfx* a, const sfx* b) { return &(*a = *b); } \
void* sfx##_moveassign(sfx* a, sfx* b) { return &(*a = std::move(*b)); } \
void sfx##_dtor(sfx* a) { a->~C(); } \
il::int_t sfx##_size(const sfx* a, il::int_t d) { return a->size(d); } \
il::int_t sfx##_capacity(const sfx* a, il::int_t d) { return a->capacity(d); } \
il::int_t sfx##_stride(const sfx* a, il::int_t d) { return a->stride(d); } \
il::int_t sfx##_alignment(const sfx* a) { return a->alignment(); } \
const T* sfx##_data(const sfx* a) { return a->data(); } \
T* sfx##_Data(sfx* a) { return a->Data(); } \
const T* sfx##_at(const sfx* a, il::int_t i, il::int_t j, il::int_t k) { return &(*a)(i, j, k); } \
T* sfx##_At(sfx* a, il::int_t i, il::int_t j, il::int_t k) { return &(*a)(i, j, k); } \
}
COMMON(Dd, Array3D, double)
COMMON(Do, Array3D, Obj)
COMMON(Cd, Array3C, double)
COMMON(Co, Array3C, Obj)
#define ALIGNED(sfx, T) extern "C" { \
void sfx##_ctornal(sfx* a, il::int_t n, il::int_t p, il::int_t q, il::int_t al) { new (a) sfx(n, p, q, il::align, al); } \
void sfx##_ctornalr(sfx* a, il::int_t n, il::int_t p, il::int_t q, il::int_t al, il::int_t r, il::int_t m) { new (a) sfx(n, p, q, il::align, al, r, m); } \
void sfx##_ctornxal(sfx* a, il::int_t n, il::int_t p, il::int_t q, const T* x, il::int_t al) { new (a) sfx(n, p, q, *x, il::align, al); } \
void sfx##_ctornxalr(sfx* a, il::int_t n, il::int_t p, il::int_t q, const T* x, il::int_t al, il::int_t r, il::int_t m) { new (a) sfx(n, p, q, *x, il::align, al, r, m); } \
}
ALIGNED(Dd, double)
ALIGNED(Cd, double)
