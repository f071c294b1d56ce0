#include <cstring>
#include <initializer_list>
#include <new>
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/LowerArray2D.h>
#include <il/UpperArray2D.h>
#include <il/BandArray2C.h>
#include <il/TriDiagonal.h>
#include "obj.h"
#define TRI(sfx, C, T) \
extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(C<T>), (long)offsetof(C<T>, data_), (long)offsetof(C<T>, size_), (long)offsetof(C<T>, capacity_)}; \
void sfx##_ctor0(C<T>* a) { new (a) C<T>(); } \
void sfx##_ctorn(C<T>* a, il::int_t n) { new (a) C<T>(n); } \
void sfx##_ctorcopy(C<T>* a, const C<T>* v) { new (a) C<T>(*v); } \
void sfx##_ctormove(C<T>* a, C<T>* v) { new (a) C<T>(std::move(*v)); } \
C<T>* sfx##_assign(C<T>* a, const C<T>* v) { return &(*a = *v); } \
C<T>* sfx##_moveassign(C<T>* a, C<T>* v) { return &(*a = std::move(*v)); } \
void sfx##_dtor(C<T>* a) { typedef C<T> X; a->~X(); } \
const T* sfx##_at(const C<T>* a, il::int_t i, il::int_t j) { return &(*a)(i, j); } \
T* sfx##_At(C<T>* a, il::int_t i, il::int_t j) { return &(*a)(i, j); } \
il::int_t sfx##_size(const C<T>* a) { return a->size(); } \
il::int_t sfx##_capacity(const C<T>* a) { return a->capacity(); } \
T* sfx##_Data(C<T>* a) { return a->Data(); } \
}
TRI(Ld, il::LowerArray2D, double)
TRI(Lo, il::LowerArray2D, Obj)
TRI(Ud, il::UpperArray2D, double)
TRI(Uo, il::UpperArray2D, Obj)
#define LAYA(sfx, T) extern "C" { extern const long K_A##sfx[]; const long K_A##sfx[] = {(long)sizeof(il::Array<T>), (long)offsetof(il::Array<T>, data_), (long)offsetof(il::Array<T>, size_), (long)offsetof(il::Array<T>, capacity_), (long)offsetof(il::Array<T>, alignment_), (long)offsetof(il::Array<T>, align_r_), (long)offsetof(il::Array<T>, align_mod_), (long)offsetof(il::Array<T>, shift_), (long)sizeof(T), (long)alignof(T)}; }
LAYA(d, double)
#define LAYC(sfx, A) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(A), (long)offsetof(A, data_), (long)offsetof(A, size_), (long)offsetof(A, capacity_), (long)offsetof(A, alignment_), (long)offsetof(A, align_r_), (long)offsetof(A, align_mod_), (long)offsetof(A, shift_)}; }
#define LAYV(sfx, A) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(A), (long)offsetof(A, data_), (long)offsetof(A, size_), (long)offsetof(A, stride_)}; }
LAYC(Cd, il::Array2C<double>)
LAYV(CdV, il::Array2CView<double>)
typedef il::BandArray2C<double> Band;
typedef il::TriDiagonal<double> Tri;
extern "C" {
extern const long K_Band[]; const long K_Band[] = {(long)sizeof(Band), (long)offsetof(Band, n0_), (long)offsetof(Band, n1_), (long)offsetof(Band, width_left_), (long)offsetof(Band, width_right_), (long)offsetof(Band, capacity_right_), (long)offsetof(Band, element_)};
extern const long K_Tri[]; const long K_Tri[] = {(long)sizeof(Tri), (long)offsetof(Tri, size_), (long)offsetof(Tri, data_)};
void Bd_ctor2(Band* a, il::int_t n, il::int_t w) { new (a) Band(n, w); }
void Bd_ctor4(Band* a, il::int_t n0, il::int_t n1, il::int_t l, il::int_t r) { new (a) Band(n0, n1, l, r); }
void Bd_ctorcopy(Band* a, const Band* v) { new (a) Band(*v); }
Band* Bd_assign(Band* a, const Band* v) { return &(*a = *v); }
void Bd_dtor(Band* a) { a->~BandArray2C(); }
const double* Bd_at(const Band* a, il::int_t i, il::int_t k) { return &(*a)(i, k); }
double* Bd_At(Band* a, il::int_t i, il::int_t k) { return &(*a)(i, k); }
il::int_t Bd_size(const Band* a, il::int_t d) { return a->size(d); }
il::int_t Bd_left(const Band* a) { return a->widthLeft(); }
il::int_t Bd_right(const Band* a) { return a->widthRight(); }
il::int_t Bd_capright(const Band* a) { return a->capacityRight(); }
double* Bd_Data(Band* a) { return a->Data(); }
void Td_ctorn(Tri* a, il::int_t n) { new (a) Tri(n); }
void Td_ctorcopy(Tri* a, const Tri* v) { new (a) Tri(*v); }
Tri* Td_assign(Tri* a, const Tri* v) { return &(*a = *v); }
void Td_dtor(Tri* a) { a->~TriDiagonal(); }
const double* Td_at(const Tri* a, il::int_t i, il::int_t k) { return &(*a)(i, k); }
double* Td_At(Tri* a, il::int_t i, il::int_t k) { return &(*a)(i, k); }
il::int_t Td_size(const Tri* a) { return a->size(); }
double* Td_lower(Tri* a) { return a->LowerData(); }
double* Td_diag(Tri* a) { return a->DiagonalData(); }
double* Td_upper(Tri* a) { return a->UpperData(); }
}
