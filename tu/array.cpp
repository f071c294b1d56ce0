#include <initializer_list>
#include <il/Array.h>
#include "obj.h"
template <typename T> struct LA {
  static const long k[8];
};
#define LAY(sfx, T) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(il::Array<T>), (long)offsetof(il::Array<T>, data_), (long)offsetof(il::Array<T>, size_), (long)offsetof(il::Array<T>, capacity_), (long)offsetof(il::Array<T>, alignment_), (long)offsetof(il::Array<T>, align_r_), (long)offsetof(il::Array<T>, align_mod_), (long)offsetof(il::Array<T>, shift_), (long)sizeof(T), (long)alignof(T)}; }
#define COMMON(sfx, T) \
LAY(sfx, T) \
extern "C" { \
void sfx##_ctor0(il::Array<T>* a) { new (a) il::Array<T>(); } \
void sfx##_ctorn(il::Array<T>* a, il::int_t n) { new (a) il::Array<T>(n); } \
void sfx##_ctornx(il::Array<T>* a, il::int_t n, const T* x) { new (a) il::Array<T>(n, *x); } \
void sfx##_ctornemp(il::Array<T>* a, il::int_t n, const T* x) { new (a) il::Array<T>(n, il::emplace, *x); } \
void sfx##_ctorview(il::Array<T>* a, const T* p, il::int_t n) { new (a) il::Array<T>(il::ArrayView<T>(p, n)); } \
void sfx##_ctorlist(il::Array<T>* a, std::initializer_list<T>* l) { new (a) il::Array<T>(il::value, *l); } \
void sfx##_ctorcopy(il::Array<T>* a, const il::Array<T>* b) { new (a) il::Array<T>(*b); } \
void sfx##_ctormove(il::Array<T>* a, il::Array<T>* b) { new (a) il::Array<T>(std::move(*b)); } \
void* sfx##_assign(il::Array<T>* a, const il::Array<T>* b) { return &(*a = *b); } \
void* sfx##_moveassign(il::Array<T>* a, il::Array<T>* b) { return &(*a = std::move(*b)); } \
void sfx##_dtor(il::Array<T>* a) { a->~Array(); } \
il::int_t sfx##_size(const il::Array<T>* a) { return a->size(); } \
il::int_t sfx##_capacity(const il::Array<T>* a) { return a->capacity(); } \
il::int_t sfx##_alignment(const il::Array<T>* a) { return a->alignment(); } \
void sfx##_resize(il::Array<T>* a, il::int_t n) { a->Resize(n); } \
void sfx##_resizex(il::Array<T>* a, il::int_t n, const T* x) { a->Resize(n, *x); } \
void sfx##_resizeemp(il::Array<T>* a, il::int_t n, const T* x) { a->Resize(n, il::emplace, *x); } \
void sfx##_reserve(il::Array<T>* a, il::int_t n) { a->Reserve(n); } \
void sfx##_append(il::Array<T>* a, const T* x) { a->Append(*x); } \
void sfx##_appendmove(il::Array<T>* a, T* x) { a->Append(std::move(*x)); } \
void sfx##_appendemp(il::Array<T>* a, const T* x) { a->Append(il::emplace, *x); } \
void sfx##_set(il::Array<T>* a, const T* x) { a->Set(*x); } \
const T* sfx##_data(const il::Array<T>* a) { return a->data(); } \
T* sfx##_Data(il::Array<T>* a) { return a->Data(); } \
const T* sfx##_begin(const il::Array<T>* a) { return a->begin(); } \
const T* sfx##_cbegin(const il::Array<T>* a) { return a->cbegin(); } \
T* sfx##_Begin(il::Array<T>* a) { return a->begin(); } \
const T* sfx##_end(const il::Array<T>* a) { return a->end(); } \
const T* sfx##_cend(const il::Array<T>* a) { return a->cend(); } \
T* sfx##_End(il::Array<T>* a) { return a->end(); } \
const T* sfx##_at(const il::Array<T>* a, il::int_t i) { return &(*a)[i]; } \
T* sfx##_At(il::Array<T>* a, il::int_t i) { return &(*a)[i]; } \
const T* sfx##_back(const il::Array<T>* a) { return &a->back(); } \
T* sfx##_Back(il::Array<T>* a) { return &a->Back(); } \
void sfx##_view(il::ArrayView<T>* r, const il::Array<T>* a) { new (r) il::ArrayView<T>(a->view()); } \
void sfx##_viewr(il::ArrayView<T>* r, const il::Array<T>* a, il::int_t b, il::int_t e) { new (r) il::ArrayView<T>(a->view(il::Range{b, e})); } \
void sfx##_edit(il::ArrayEdit<T>* r, il::Array<T>* a) { new (r) il::ArrayEdit<T>(a->Edit()); } \
void sfx##_editr(il::ArrayEdit<T>* r, il::Array<T>* a, il::int_t b, il::int_t e) { new (r) il::ArrayEdit<T>(a->Edit(il::Range{b, e})); } \
il::int_t sfx##_vsize(const il::ArrayView<T>* v) { return v->size(); } \
const T* sfx##_vat(const il::ArrayView<T>* v, il::int_t i) { return &(*v)[i]; } \
il::int_t sfx##_esize(const il::ArrayEdit<T>* v) { return v->size(); } \
T* sfx##_eat(il::ArrayEdit<T>* v, il::int_t i) { return &(*v)[i]; } \
}
#define ALIGNED(sfx, T) \
extern "C" { \
void sfx##_ctornal(il::Array<T>* a, il::int_t n, il::int_t al) { new (a) il::Array<T>(n, il::align, al); } \
void sfx##_ctornalr(il::Array<T>* a, il::int_t n, il::int_t al, il::int_t r, il::int_t m) { new (a) il::Array<T>(n, il::align, al, r, m); } \
void sfx##_ctornxal(il::Array<T>* a, il::int_t n, const T* x, il::int_t al) { new (a) il::Array<T>(n, *x, il::align, al); } \
void sfx##_ctornxalr(il::Array<T>* a, il::int_t n, const T* x, il::int_t al, il::int_t r, il::int_t m) { new (a) il::Array<T>(n, *x, il::align, al, r, m); } \
}
COMMON(Ad, double)
ALIGNED(Ad, double)
COMMON(Ao, Obj)
