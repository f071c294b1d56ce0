#include <il/Array2D.h>
#include <il/Array2C.h>
#include "obj.h"
#define LAY(sfx, A) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(A), (long)offsetof(A, data_), (long)offsetof(A, size_), (long)offsetof(A, capacity_), (long)offsetof(A, alignment_), (long)offsetof(A, align_r_), (long)offsetof(A, align_mod_), (long)offsetof(A, shift_)}; }
#define VLAY(sfx, A) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(A), (long)offsetof(A, data_), (long)offsetof(A, size_), (long)offsetof(A, stride_)}; }
#define COMMON(sfx, C, T) \
typedef il::C<T> sfx; typedef il::C##View<T> sfx##V; typedef il::C##Edit<T> sfx##E; \
LAY(sfx, sfx) VLAY(sfx##V, sfx##V) \
extern "C" { \
void sfx##_ctor0(sfx* a) { new (a) sfx(); } \
void sfx##_ctorn(sfx* a, il::int_t n, il::int_t p) { new (a) sfx(n, p); } \
void sfx##_ctornx(sfx* a, il::int_t n, il::int_t p, const T* x) { new (a) sfx(n, p, *x); } \
void sfx##_ctorlist(sfx* a, std::initializer_list<std::initializer_list<T>>* l) { new (a) sfx(il::value, *l); } \
void sfx##_ctorcopy(sfx* a, const sfx* b) { new (a) sfx(*b); } \
void sfx##_ctormove(sfx* a, sfx* b) { new (a) sfx(std::move(*b)); } \
void* sfx##_assign(sfx* a, const sfx* b) { return &(*a = *b); } \
void* sfx##_moveassign(sfx* a, sfx* b) { return &(*a = std::move(*b)); } \
void sfx##_dtor(sfx* a) { a->~C(); } \
il::int_t sfx##_size(const sfx* a, il::int_t d) { return a->size(d); } \
il::int_t sfx##_capacity(const sfx* a, il::int_t d) { return a->capacity(d); } \
il::int_t sfx##_stride(const sfx* a, il::int_t d) { return a->stride(d); } \
il::int_t sfx##_alignment(const sfx* a) { return a->alignment(); } \
void sfx##_resize(sfx* a, il::int_t n, il::int_t p) { a->Resize(n, p); } \
void sfx##_reserve(sfx* a, il::int_t n, il::int_t p) { a->Reserve(n, p); } \
const T* sfx##_data(const sfx* a) { return a->data(); } \
T* sfx##_Data(sfx* a) { return a->Data(); } \
const T* sfx##_datai(const sfx* a, il::int_t i) { return a->data(i); } \
T* sfx##_Datai(sfx* a, il::int_t i) { return a->Data(i); } \
const T* sfx##_at(const sfx* a, il::int_t i, il::int_t j) { return &(*a)(i, j); } \
T* sfx##_At(sfx* a, il::int_t i, il::int_t j) { return &(*a)(i, j); } \
void sfx##_view(sfx##V* r, const sfx* a) { new (r) sfx##V(a->view()); } \
void sfx##_viewr(sfx##V* r, const sfx* a, il::int_t b0, il::int_t e0, il::int_t b1, il::int_t e1) { new (r) sfx##V(a->view(il::Range{b0, e0}, il::Range{b1, e1})); } \
void sfx##_edit(sfx##E* r, sfx* a) { new (r) sfx##E(a->Edit()); } \
il::int_t sfx##V_size(const sfx##V* v, il::int_t d) { return v->size(d); } \
il::int_t sfx##V_stride(const sfx##V* v, il::int_t d) { return v->stride(d); } \
const T* sfx##V_data(const sfx##V* v) { return v->data(); } \
T* sfx##E_Data(sfx##E* v) { return v->Data(); } \
const T* sfx##V_at(const sfx##V* v, il::int_t i, il::int_t j) { return &(*v)(i, j); } \
T* sfx##E_At(sfx##E* v, il::int_t i, il::int_t j) { return &(*v)(i, j); } \
void sfx##E_editr(sfx##E* r, sfx##E* v, il::int_t b0, il::int_t e0, il::int_t b1, il::int_t e1) { new (r) sfx##E(v->Edit(il::Range{b0, e0}, il::Range{b1, e1})); } \
void sfx##V_ctor0(sfx##V* v) { new (v) sfx##V(); } \
void sfx##V_ctor4(sfx##V* v, const T* p, il::int_t n0, il::int_t n1, il::int_t st) { new (v) sfx##V(p, n0, n1, st); } \
void sfx##E_ctor6(sfx##E* v, T* p, il::int_t n0, il::int_t n1, il::int_t st) { new (v) sfx##E(p, n0, n1, st, 0, 0); } \
}
#define DONLY(sfx, T) \
extern "C" { \
void sfx##_ctornemp(sfx* a, il::int_t n, il::int_t p, const T* x) { new (a) sfx(n, p, il::emplace, *x); } \
void sfx##_resizex(sfx* a, il::int_t n, il::int_t p, const T* x) { a->Resize(n, p, *x); } \
void sfx##_resizeemp(sfx* a, il::int_t n, il::int_t p, const T* x) { a->Resize(n, p, il::emplace, *x); } \
void sfx##_editr(sfx##E* r, sfx* a, il::int_t b0, il::int_t e0, il::int_t b1, il::int_t e1) { new (r) sfx##E(a->Edit(il::Range{b0, e0}, il::Range{b1, e1})); } \
void sfx##_viewc(il::ArrayView<T>* r, const sfx* a, il::int_t b, il::int_t e, il::int_t j) { new (r) il::ArrayView<T>(a->view(il::Range{b, e}, j)); } \
void sfx##_editc(il::ArrayEdit<T>* r, sfx* a, il::int_t b, il::int_t e, il::int_t j) { new (r) il::ArrayEdit<T>(a->Edit(il::Range{b, e}, j)); } \
void sfx##V_viewr(sfx##V* r, const sfx##V* v, il::int_t b0, il::int_t e0, il::int_t b1, il::int_t e1) { new (r) sfx##V(v->view(il::Range{b0, e0}, il::Range{b1, e1})); } \
void sfx##V_copy(const sfx##V* v, sfx##E* w) { il::copy(*v, il::io, *w); } \
}
#define CONLY(sfx, T) \
extern "C" { \
void sfx##_set(sfx* a, const T* x) { a->Set(*x); } \
void sfx##_viewc(il::ArrayView<T>* r, const sfx* a, il::int_t b, il::int_t e, il::int_t i) { new (r) il::ArrayView<T>(a->view(i, il::Range{b, e})); } \
}
#define ALIGNED(sfx, T) \
extern "C" { \
void sfx##_ctornal(sfx* a, il::int_t n, il::int_t p, il::int_t al) { new (a) sfx(n, p, il::align, al); } \
void sfx##_ctornalr(sfx* a, il::int_t n, il::int_t p, il::int_t al, il::int_t r, il::int_t m) { new (a) sfx(n, p, il::align, al, r, m); } \
void sfx##_ctornxal(sfx* a, il::int_t n, il::int_t p, const T* x, il::int_t al) { new (a) sfx(n, p, *x, il::align, al); } \
void sfx##_ctornxalr(sfx* a, il::int_t n, il::int_t p, const T* x, il::int_t al, il::int_t r, il::int_t m) { new (a) sfx(n, p, *x, il::align, al, r, m); } \
}
COMMON(Dd, Array2D, double)
DONLY(Dd, double)
ALIGNED(Dd, double)
COMMON(Do, Array2D, Obj)
DONLY(Do, Obj)
COMMON(Cd, Array2C, double)
CONLY(Cd, double)
ALIGNED(Cd, double)
COMMON(Co, Array2C, Obj)
CONLY(Co, Obj)
