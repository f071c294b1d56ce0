#include <initializer_list>
#include <new>
#include <il/Array.h>
#include <il/container/deque/Deque.h>
#include "obj.h"
#define LAY(sfx, T) extern "C" { extern const long K_A##sfx[]; const long K_A##sfx[] = {(long)sizeof(il::Array<T>), (long)offsetof(il::Array<T>, data_), (long)offsetof(il::Array<T>, size_), (long)offsetof(il::Array<T>, capacity_), (long)offsetof(il::Array<T>, alignment_), (long)offsetof(il::Array<T>, align_r_), (long)offsetof(il::Array<T>, align_mod_), (long)offsetof(il::Array<T>, shift_), (long)sizeof(T), (long)alignof(T)}; \
extern const long K_Q##sfx[]; const long K_Q##sfx[] = {(long)sizeof(il::Deque<T>), (long)offsetof(il::Deque<T>, data_), (long)offsetof(il::Deque<T>, front_), (long)offsetof(il::Deque<T>, back_)}; }
#define DEQUE(sfx, T) \
LAY(sfx, T) \
extern "C" { \
void Q##sfx##_ctor0(il::Deque<T>* q) { new (q) il::Deque<T>(); } \
void Q##sfx##_ctorn(il::Deque<T>* q, il::int_t n) { new (q) il::Deque<T>(n); } \
void Q##sfx##_ctorcopy(il::Deque<T>* q, const il::Deque<T>* v) { new (q) il::Deque<T>(*v); } \
void Q##sfx##_assign(il::Deque<T>* q, const il::Deque<T>* v) { *q = *v; } \
void Q##sfx##_dtor(il::Deque<T>* q) { q->~Deque(); } \
il::int_t Q##sfx##_size(const il::Deque<T>* q) { return q->size(); } \
il::int_t Q##sfx##_capacity(const il::Deque<T>* q) { return q->capacity(); } \
void Q##sfx##_reserve(il::Deque<T>* q, il::int_t n) { q->Reserve(n); } \
void Q##sfx##_pushfront(il::Deque<T>* q, const T* x) { q->PushFront(*x); } \
void Q##sfx##_pushfrontemp(il::Deque<T>* q, const T* x) { q->PushFront(il::emplace, *x); } \
void Q##sfx##_pushback(il::Deque<T>* q, const T* x) { q->PushBack(*x); } \
void Q##sfx##_pushbackemp(il::Deque<T>* q, const T* x) { q->PushBack(il::emplace, *x); } \
void Q##sfx##_popfront(il::Deque<T>* q) { q->PopFront(); } \
void Q##sfx##_popback(il::Deque<T>* q) { q->PopBack(); } \
const T* Q##sfx##_front(const il::Deque<T>* q) { return &q->front(); } \
T* Q##sfx##_Front(il::Deque<T>* q) { return &q->Front(); } \
const T* Q##sfx##_back(const il::Deque<T>* q) { return &q->back(); } \
T* Q##sfx##_Back(il::Deque<T>* q) { return &q->Back(); } \
}
DEQUE(d, double)
DEQUE(o, Obj)
