#include <initializer_list>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include "obj.h"
#define SM(sfx, T, N) \
typedef il::SmallArray<T, N> sfx; \
extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(sfx), (long)offsetof(sfx, data_), (long)offsetof(sfx, size_), (long)offsetof(sfx, capacity_), (long)offsetof(sfx, small_data_), N}; \
void sfx##_ctor0(sfx* a) { new (a) sfx(); } \
void sfx##_ctorn(sfx* a, il::int_t n) { new (a) sfx(n); } \
void sfx##_ctornx(sfx* a, il::int_t n, const T* x) { new (a) sfx(n, *x); } \
void sfx##_ctorlist(sfx* a, std::initializer_list<T>* l) { new (a) sfx(il::value, *l); } \
void sfx##_ctorcopy(sfx* a, const sfx* b) { new (a) sfx(*b); } \
void sfx##_ctormove(sfx* a, sfx* b) { new (a) sfx(std::move(*b)); } \
void* sfx##_assign(sfx* a, const sfx* b) { return &(*a = *b); } \
void* sfx##_moveassign(sfx* a, sfx* b) { return &(*a = std::move(*b)); } \
void sfx##_dtor(sfx* a) { a->~SmallArray(); } \
il::int_t sfx##_size(const sfx* a) { return a->size(); } \
il::int_t sfx##_capacity(const sfx* a) { return a->capacity(); } \
void sfx##_resize(sfx* a, il::int_t n) { a->Resize(n); } \
void sfx##_reserve(sfx* a, il::int_t n) { a->Reserve(n); } \
void sfx##_append(sfx* a, const T* x) { a->Append(*x); } \
void sfx##_appendvar(sfx* a, T* x) { a->Append(*x); } \
const T* sfx##_data(const sfx* a) { return a->data(); } \
T* sfx##_Data(sfx* a) { return a->Data(); } \
const T* sfx##_at(const sfx* a, il::int_t i) { return &(*a)[i]; } \
T* sfx##_At(sfx* a, il::int_t i) { return &(*a)[i]; } \
const T* sfx##_back(const sfx* a) { return &a->back(); } \
T* sfx##_Back(sfx* a) { return &a->Back(); } \
void sfx##_view(il::ArrayView<T>* r, const sfx* a) { new (r) il::ArrayView<T>(a->view()); } \
void sfx##_viewr(il::ArrayView<T>* r, const sfx* a, il::int_t b, il::int_t e) { new (r) il::ArrayView<T>(a->view(il::Range{b, e})); } \
void sfx##_edit(il::ArrayEdit<T>* r, sfx* a) { new (r) il::ArrayEdit<T>(a->Edit()); } \
void sfx##_editr(il::ArrayEdit<T>* r, sfx* a, il::int_t b, il::int_t e) { new (r) il::ArrayEdit<T>(a->Edit(il::Range{b, e})); } \
}
#define ST(sfx, T, N) \
typedef il::StaticArray<T, N> sfx; \
extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(sfx), (long)offsetof(sfx, data_), (long)offsetof(sfx, size_), N}; \
void sfx##_ctor0(sfx* a) { new (a) sfx(); } \
void sfx##_ctorx(sfx* a, const T* x) { new (a) sfx(*x); } \
void sfx##_ctorlist(sfx* a, std::initializer_list<T>* l) { new (a) sfx(il::value, *l); } \
void sfx##_ctorcopy(sfx* a, const sfx* b) { new (a) sfx(*b); } \
void* sfx##_assign(sfx* a, const sfx* b) { return &(*a = *b); } \
void sfx##_dtor(sfx* a) { a->~StaticArray(); } \
il::int_t sfx##_size(const sfx* a) { return a->size(); } \
const T* sfx##_data(const sfx* a) { return a->data(); } \
T* sfx##_Data(sfx* a) { return a->Data(); } \
const T* sfx##_at(const sfx* a, il::int_t i) { return &(*a)[i]; } \
T* sfx##_At(sfx* a, il::int_t i) { return &(*a)[i]; } \
void sfx##_view(il::ArrayView<T>* r, const sfx* a) { new (r) il::ArrayView<T>(a->view()); } \
void sfx##_viewr(il::ArrayView<T>* r, const sfx* a, il::int_t b, il::int_t e) { new (r) il::ArrayView<T>(a->view(il::Range{b, e})); } \
void sfx##_edit(il::ArrayEdit<T>* r, sfx* a) { new (r) il::ArrayEdit<T>(a->Edit()); } \
void sfx##_editr(il::ArrayEdit<T>* r, sfx* a, il::int_t b, il::int_t e) { new (r) il::ArrayEdit<T>(a->Edit(il::Range{b, e})); } \
}
#define STB(sfx, T) extern "C" { const T* sfx##_back(const sfx* a) { return &a->back(); } T* sfx##_Back(sfx* a) { return &a->Back(); } }
SM(S1d, double, 1)
SM(S4d, double, 4)
SM(S1o, Obj, 1)
SM(S4o, Obj, 4)
ST(T0d, double, 0)
ST(T1d, double, 1)
ST(T5d, double, 5)
STB(T1d, double)
STB(T5d, double)
ST(T3o, Obj, 3)
STB(T3o, Obj)
