#include <initializer_list>
#include <new>
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/Tree.h>
#include "obj.h"
#define LAY(X, T, n) extern "C" { typedef il::Tree<T, n> Tree##X; typedef Tree##X::Node Node##X; typedef il::Array<Node##X> Arr##X; \
extern const long K_AN##X[]; const long K_AN##X[] = {(long)sizeof(Arr##X), (long)offsetof(Arr##X, data_), (long)offsetof(Arr##X, size_), (long)offsetof(Arr##X, capacity_), (long)offsetof(Arr##X, alignment_), (long)offsetof(Arr##X, align_r_), (long)offsetof(Arr##X, align_mod_), (long)offsetof(Arr##X, shift_), (long)sizeof(Node##X), (long)alignof(Node##X)}; \
extern const long K_T##X[]; const long K_T##X[] = {(long)sizeof(Tree##X), (long)offsetof(Tree##X, tree_), n, (long)sizeof(Node##X), (long)offsetof(Node##X, value), (long)offsetof(Node##X, flag), (long)sizeof(Node##X::flag)}; \
typedef il::SmallArray<il::int_t, n> Small##X; \
extern const long K_S##X[]; const long K_S##X[] = {(long)sizeof(Small##X), (long)offsetof(Small##X, data_), (long)offsetof(Small##X, size_), (long)offsetof(Small##X, capacity_), (long)offsetof(Small##X, small_data_)}; }
#define TREE(X, T, n) \
LAY(X, T, n) \
extern "C" { \
void W##X##_ctor0(Tree##X* t) { new (t) Tree##X(); } \
void W##X##_ctorn(Tree##X* t, il::int_t d) { new (t) Tree##X(d); } \
il::int_t W##X##_root(const Tree##X* t) { return t->root().index; } \
il::int_t W##X##_parent(const Tree##X* t, il::int_t s) { return t->parent(il::spot_t{s}).index; } \
il::int_t W##X##_child(const Tree##X* t, il::int_t s, il::int_t i) { return t->child(il::spot_t{s}, i).index; } \
int W##X##_hasany(const Tree##X* t, il::int_t s) { return t->hasChild(il::spot_t{s}); } \
int W##X##_has(const Tree##X* t, il::int_t s, il::int_t i) { return t->hasChild(il::spot_t{s}, i); } \
void W##X##_children(Small##X* r, const Tree##X* t, il::int_t s) { new (r) Small##X(t->children(il::spot_t{s})); } \
void W##X##_set(Tree##X* t, il::int_t s, const T* x) { t->Set(il::spot_t{s}, *x); } \
void W##X##_add(Tree##X* t, il::int_t s, il::int_t i) { t->AddChild(il::spot_t{s}, i); } \
const T* W##X##_value(const Tree##X* t, il::int_t s) { return &t->value(il::spot_t{s}); } \
}
TREE(d2, double, 2)
TREE(d3, double, 3)
TREE(d4, double, 4)
TREE(d8, double, 8)
TREE(o2, Obj, 2)
TREE(o4, Obj, 4)
