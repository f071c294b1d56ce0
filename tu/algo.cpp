#include <initializer_list>
#include <il/Array.h>
#include <il/algorithm/algorithmArray.h>
#include "obj.h"
#define LAY(sfx, T) extern "C" { extern const long K_##sfx[]; const long K_##sfx[] = {(long)sizeof(il::Array<T>), (long)offsetof(il::Array<T>, data_), (long)offsetof(il::Array<T>, size_), (long)offsetof(il::Array<T>, capacity_), (long)offsetof(il::Array<T>, alignment_), (long)offsetof(il::Array<T>, align_r_), (long)offsetof(il::Array<T>, align_mod_), (long)offsetof(il::Array<T>, shift_), (long)sizeof(T), (long)alignof(T)}; }
#define ALGO(sfx, T) \
LAY(sfx, T) \
extern "C" { \
T sfx##_min(const il::Array<T>* v) { return il::min(*v); } \
T sfx##_max(const il::Array<T>* v) { return il::max(*v); } \
T sfx##_maxabs(const il::Array<T>* v) { return il::maxAbs(*v); } \
il::int_t sfx##_imin(const il::Array<T>* v) { return il::indexMin(*v); } \
il::int_t sfx##_imax(const il::Array<T>* v) { return il::indexMax(*v); } \
il::int_t sfx##_imaxabs(const il::Array<T>* v) { return il::indexMaxAbs(*v); } \
void sfx##_minmax(T* r, const il::Array<T>* v) { il::MinMax<T> m = il::minMax(*v); r[0] = m.min; r[1] = m.max; } \
T sfx##_minr(const il::Array<T>* v, il::int_t b, il::int_t e) { return il::min(*v, il::Range{b, e}); } \
T sfx##_maxr(const il::Array<T>* v, il::int_t b, il::int_t e) { return il::max(*v, il::Range{b, e}); } \
T sfx##_maxabsr(const il::Array<T>* v, il::int_t b, il::int_t e) { return il::maxAbs(*v, il::Range{b, e}); } \
il::int_t sfx##_iminr(const il::Array<T>* v, il::int_t b, il::int_t e) { return il::indexMin(*v, il::Range{b, e}); } \
il::int_t sfx##_imaxr(const il::Array<T>* v, il::int_t b, il::int_t e) { return il::indexMax(*v, il::Range{b, e}); } \
il::int_t sfx##_imaxabsr(const il::Array<T>* v, il::int_t b, il::int_t e) { return il::indexMaxAbs(*v, il::Range{b, e}); } \
void sfx##_minmaxr(T* r, const il::Array<T>* v, il::int_t b, il::int_t e) { il::MinMax<T> m = il::minMax(*v, il::Range{b, e}); r[0] = m.min; r[1] = m.max; } \
void sfx##_sortaux(il::Array<T>* v, il::int_t b, il::int_t e) { il::sort_aux(il::Range{b, e}, il::io, *v); } \
void sfx##_sort(il::Array<T>* v) { il::sort(il::io, *v); } \
void sfx##_sorts(il::StaticArray<T, 7>* v) { il::sort(il::io, *v); } \
void sfx##_sortc(il::Array<T>* r, il::Array<T>* v) { new (r) il::Array<T>(il::sort(*v)); } \
void sfx##_sortcc(il::Array<T>* r, const il::Array<T>* v) { new (r) il::Array<T>(il::sort(*v)); } \
il::int_t sfx##_bsearch(const il::Array<T>* v, T x) { return il::binarySearch(*v, x); } \
}
ALGO(Ad, double)
ALGO(Al, il::int_t)
