// Random histories over il::Array3D / il::Array3C against a mathematical cube.
#include "rt.h"
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <il/Array3D.h>
#include <il/Array3C.h>
using rt::tr;
struct Cube { long n[3]; std::vector<long> v; Cube() { n[0] = n[1] = n[2] = 0; } Cube(const long* m, long x) { for (int d = 0; d < 3; ++d) n[d] = m[d]; v.assign(n[0] * n[1] * n[2], x); }
  long& at(long i, long j, long k) { return v[(i * n[1] + j) * n[2] + k]; } };
template <typename T, typename A, int M> struct Test {      // M: the contiguous dimension
  typedef El<T> E; static const char* name() { return M ? "Array3C" : "Array3D"; }
  A* a[3]; Cube m[3]; long al[3], r[3], mod[3];
  T* cell(A& x, long i, long j, long k) { long c1 = x.capacity_[1] - x.data_, c = x.capacity_[M] - x.data_; return M ? x.data_ + (i * c1 + j) * c + k : x.data_ + (k * c1 + j) * c + i; }
  void check(int q) {
    A& x = *a[q]; const A& c = x; Cube& w = m[q];
    for (int d = 0; d < 3; ++d) { CHECK(c.size(d) == w.n[d], "array %d: size(%d) is %ld, expected %ld", q, d, (long)c.size(d), w.n[d]); CHECK(c.capacity(d) >= c.size(d), "array %d: capacity(%d) below the size", q, d); }
    CHECK(c.stride(M) == 1 && c.stride(1) == c.capacity(M) && c.stride(2 - M) == c.capacity(1) * c.capacity(M), "array %d: strides", q);
    CHECK((long)c.alignment() == al[q], "array %d: alignment %ld, expected %ld", q, (long)c.alignment(), al[q]);
    if (mod[q] > 0 && c.data()) CHECK((size_t)c.data() % (size_t)mod[q] == (size_t)r[q], "array %d: address residue", q);
    for (long i = 0; i < w.n[0]; ++i) for (long j = 0; j < w.n[1]; ++j) for (long k = 0; k < w.n[2]; ++k) { const T* p = &c(i, j, k); CHECK(p == cell(x, i, j, k), "array %d: element (%ld,%ld,%ld) at the wrong address", q, i, j, k); CHECK(E::get(*p) == w.at(i, j, k), "array %d: element (%ld,%ld,%ld) is %ld, expected %ld", q, i, j, k, E::get(*p), w.at(i, j, k)); }
  }
  void checkall() { long n = 0; for (int q = 0; q < 3; ++q) { check(q); n += m[q].v.size(); } if (E::obj) CHECK(rt::nlive == n, "%ld elements are alive, the arrays hold %ld", rt::nlive, n); }
  void fill(int q) { Cube& w = m[q]; long v = rt::pick(1000); tr("a%d: write every element from %ld", q, v); for (long i = 0; i < w.n[0]; ++i) for (long j = 0; j < w.n[1]; ++j) for (long k = 0; k < w.n[2]; ++k) { (*a[q])(i, j, k) = E::make(v); w.at(i, j, k) = v++; } }
  template <typename U> typename std::enable_if<std::is_trivial<U>::value>::type aligned(int q, void* p, const long* n) {
    long u = alignof(T), l = u << rt::pick(4), mm = l << rt::pick(3), rr = l * rt::pick(mm / l), x = rt::pick(1000); if (rt::coin()) { l = u * (1 + rt::pick(6)); mm = l * (1 + rt::pick(6)); rr = l * rt::pick(mm / l); }
    int w = rt::pick(4); tr("a%d: %s(%ld, %ld, %ld%s, align, %ld, %ld, %ld)", q, name(), n[0], n[1], n[2], w < 2 ? "" : ", x", l, rr, mm); al[q] = l; mod[q] = w % 2 ? mm : l; r[q] = w % 2 ? rr : 0;
    if (w == 0) new (p) A(n[0], n[1], n[2], il::align, l);
    if (w == 1) new (p) A(n[0], n[1], n[2], il::align, l, rr, mm);
    if (w == 2) new (p) A(n[0], n[1], n[2], E::make(x), il::align, l);
    if (w == 3) new (p) A(n[0], n[1], n[2], E::make(x), il::align, l, rr, mm);
    m[q] = Cube(n, x); if (w < 2) fill(q);
  }
  template <typename U> typename std::enable_if<!std::is_trivial<U>::value>::type aligned(int q, void* p, const long* n) { make(q, p); }
  void make(int q, void* p) {
    long n[3], x = rt::pick(1000); for (int d = 0; d < 3; ++d) n[d] = rt::coin(8) ? rt::range(0, 14) : rt::range(0, 5); al[q] = r[q] = mod[q] = 0; a[q] = (A*)p;
    switch (rt::pick(5)) {
      case 0: tr("a%d: %s()", q, name()); new (p) A(); m[q] = Cube(); break;
      case 1: tr("a%d: %s(%ld, %ld, %ld)", q, name(), n[0], n[1], n[2]); new (p) A(n[0], n[1], n[2]); m[q] = Cube(n, -7); if (!E::obj) fill(q); break;
      case 2: case 3: { tr("a%d: %s(%ld, %ld, %ld, %ld)", q, name(), n[0], n[1], n[2], x); T t = E::make(x); new (p) A(n[0], n[1], n[2], t); m[q] = Cube(n, x); break; }
      default: aligned<T>(q, p, n);
    }
  }
  void tags(int q, int s) { al[q] = al[s]; r[q] = r[s]; mod[q] = mod[s]; }
  void step() {
    int q = rt::pick(3), s = rt::pick(3); A& x = *a[q]; A& y = *a[s]; static const long odd[] = {-1, -2, 1L << 31, 1L << 32, 1L << 62, LONG_MIN, LONG_MAX};
    switch (rt::pick(10)) {
      case 0: tr("a%d: destroy", q); x.~A(); make(q, a[q]); break;
      case 1: if (q == s) break; x.~A(); tr("a%d: copy of a%d", q, s); new (a[q]) A(y); m[q] = m[s]; tags(q, s); break;
      case 2: if (q == s) break; x.~A(); tr("a%d: moved from a%d", q, s); new (a[q]) A(std::move(y)); m[q] = m[s]; tags(q, s); m[s] = Cube(); al[s] = r[s] = mod[s] = 0; break;
      case 3: case 4: case 5: tr("a%d = a%d", q, s); CHECK(&(x = y) == &x, "operator= returns another object"); if (q != s) { m[q] = m[s]; tags(q, s); } break;
      case 6: tr("a%d = move(a%d)", q, s); CHECK(&(x = std::move(y)) == &x, "operator= returns another object"); if (q != s) { m[q] = m[s]; tags(q, s); m[s] = Cube(); al[s] = r[s] = mod[s] = 0; } break;
      case 7: fill(q); break;
      default: for (int t = 0; t < 4; ++t) {
        long i[3]; bool ok = true; for (int d = 0; d < 3; ++d) { i[d] = rt::coin(6) ? odd[rt::pick(7)] : rt::range(-1, m[q].n[d]); ok = ok && 0 <= i[d] && i[d] < m[q].n[d]; }
        tr("a%d(%ld,%ld,%ld) of size (%ld,%ld,%ld)", q, i[0], i[1], i[2], m[q].n[0], m[q].n[1], m[q].n[2]); const A& c = x; const T* got = 0;
        bool ab = rt::aborts([&] { got = rt::coin() ? &c(i[0], i[1], i[2]) : &x(i[0], i[1], i[2]); }); CHECK(ab == !ok, "the access %s", ab ? "aborts" : "returns"); if (ok) CHECK(got == cell(x, i[0], i[1], i[2]), "element at the wrong address");
        long d = rt::coin() ? odd[rt::pick(7)] : rt::range(-1, 3); ab = rt::aborts([&] { (void)c.size(d); }); CHECK(ab == !(0 <= d && d < 3), "size(%ld) %s", d, ab ? "aborts" : "returns");
        if (ok && rt::coin()) { long v = rt::pick(1000); tr("write %ld there", v); x(i[0], i[1], i[2]) = E::make(v); m[q].at(i[0], i[1], i[2]) = v; } }
    }
    checkall();
  }
  void run() {
    for (int q = 0; q < 3; ++q) make(q, ::operator new(sizeof(A)));
    checkall(); int n = rt::range(1, 24); for (int i = 0; i < n; ++i) step();
    for (int q = 0; q < 3; ++q) { tr("a%d: destroy", q); a[q]->~A(); ::operator delete(a[q]); }
    if (E::obj) CHECK(rt::nlive == 0, "%ld elements are never destroyed", rt::nlive);
  }
};
template <typename T, typename A, int M> void episode() { size_t b = __sanitizer_get_current_allocated_bytes(); { Test<T, A, M> t; t.run(); } size_t e = __sanitizer_get_current_allocated_bytes(); CHECK(b == e, "%ld bytes of storage leaked (or released twice)", (long)(e - b)); }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { switch (rt::episodes % 6) { case 0: episode<double, il::Array3D<double>, 0>(); break; case 1: episode<Tr, il::Array3D<Tr>, 0>(); break; case 2: episode<double, il::Array3C<double>, 2>(); break; case 3: episode<Tr, il::Array3C<Tr>, 2>(); break; case 4: episode<int, il::Array3D<int>, 0>(); break; default: episode<int, il::Array3C<int>, 2>(); } }
  return rt::finish();
}
