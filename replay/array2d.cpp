// Random histories over il::Array2D / il::Array2C against a mathematical matrix.
#include "rt.h"
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <type_traits>
using rt::tr;
struct Mat { long n, p; std::vector<long> v; Mat() : n(0), p(0) {} Mat(long n_, long p_, long x) : n(n_), p(p_), v(n_ * p_, x) {} long& at(long i, long j) { return v[i * p + j]; } long at(long i, long j) const { return v[i * p + j]; } };
template <typename A> struct Slot { A* a; Mat m; long c0, c1, al, r, mod; };
template <typename T> struct DD { typedef il::Array2D<T> A; typedef il::Array2DView<T> V; typedef il::Array2DEdit<T> E; enum { major = 0 };
  static void rx(A& a, long n, long p, const T& x) { if (rt::coin()) a.Resize(n, p, x); else a.Resize(n, p, il::emplace, x); } static const char* name() { return "Array2D"; } enum { hasx = 1 };
  static void emp(void* q, long n, long p, const T& x) { new (q) A(n, p, il::emplace, x); }
  static V vv(const V& v, il::Range a, il::Range b) { return v.view(a, b); }
  static il::ArrayView<T> line(A& a, il::Range r, long j) { if (rt::coin()) return ((const A&)a).view(r, j); il::ArrayEdit<T> e = a.Edit(r, j); return il::ArrayView<T>(e.data(), e.size()); }
  static E ed(A& a, il::Range x, il::Range y) { return a.Edit(x, y); } static void set(A& a, const T& x) {} enum { hasset = 0 }; };
template <typename T> struct CC { typedef il::Array2C<T> A; typedef il::Array2CView<T> V; typedef il::Array2CEdit<T> E; enum { major = 1 };
  static void rx(A& a, long n, long p, const T& x) {} static const char* name() { return "Array2C"; } enum { hasx = 0 };
  static void emp(void* q, long n, long p, const T& x) { new (q) A(n, p, x); }
  static V vv(const V& v, il::Range a, il::Range b) { E e(const_cast<T*>(v.data()), v.size(0), v.size(1), v.stride(0), 0, 0); E f = e.Edit(a, b); return V(f.data(), f.size(0), f.size(1), f.stride(0)); }
  static il::ArrayView<T> line(A& a, il::Range r, long j) { return ((const A&)a).view(j, r); }
  static E ed(A& a, il::Range x, il::Range y) { return a.Edit().Edit(x, y); } static void set(A& a, const T& x) { a.Set(x); } enum { hasset = 1 }; };
template <typename T, template <typename> class X> struct Test {
  typedef El<T> E; typedef typename X<T>::A A; typedef typename X<T>::V V; typedef typename X<T>::E Ed; enum { M = X<T>::major };
  Slot<A> s[3]; bool ready[3];
  T* cell(A& a, long i, long j) { long st = a.capacity_[M] - a.data_; return M ? a.data_ + i * st + j : a.data_ + j * st + i; }
  void check(int k) {
    Slot<A>& x = s[k]; A& a = *x.a; const A& c = a;
    CHECK(c.size(0) == x.m.n && c.size(1) == x.m.p, "array %d: size (%ld,%ld), expected (%ld,%ld)", k, (long)c.size(0), (long)c.size(1), x.m.n, x.m.p);
    CHECK(c.capacity(0) >= c.size(0) && c.capacity(1) >= c.size(1), "array %d: capacity (%ld,%ld) below the size", k, (long)c.capacity(0), (long)c.capacity(1));
    if (x.c0 >= 0) CHECK(c.capacity(0) == x.c0 && c.capacity(1) == x.c1, "array %d: capacity (%ld,%ld), expected (%ld,%ld)", k, (long)c.capacity(0), (long)c.capacity(1), x.c0, x.c1);
    x.c0 = c.capacity(0); x.c1 = c.capacity(1);
    for (long i = 0; i < x.m.n; ++i) for (long j = 0; j < x.m.p; ++j) { const T* q = cell(a, i, j); CHECK(E::get(*q) == x.m.at(i, j), "array %d: element (%ld,%ld) is %ld, expected %ld", k, i, j, E::get(*q), x.m.at(i, j)); }
    if (c.data() == 0) { x.al = a.alignment(); x.mod = a.align_mod_; x.r = a.align_r_; }
    CHECK((long)c.alignment() == x.al, "array %d: alignment %ld, expected %ld", k, (long)c.alignment(), x.al);
    if (x.mod > 0 && c.data()) {
      CHECK((size_t)c.data() % (size_t)x.mod == (size_t)x.r, "array %d: address residue %zu modulo %ld, expected %ld", k, (size_t)c.data() % (size_t)x.mod, x.mod, x.r);
      for (long j = 0; j < c.capacity(1 - M); ++j) { size_t q = (size_t)(M ? cell(a, j, 0) : cell(a, 0, j)); CHECK(q % (size_t)x.al == 0, "array %d: line %ld is not %ld-byte aligned", k, j, x.al); }
    }
  }
  void checkall() { long n = 0; for (int k = 0; k < 3; ++k) { check(k); n += s[k].m.v.size(); } if (E::obj) CHECK(rt::nlive == n, "%ld elements are alive, the arrays hold %ld", rt::nlive, n); }
  long sz() { return rt::coin(12) ? rt::range(0, 40) : rt::range(0, 6); }
  void adopt(int k, long n, long p) { A& a = *s[k].a; Mat& m = s[k].m; if (a.size(0) != m.n || a.size(1) != m.p) return; for (long i = 0; i < m.n; ++i) for (long j = 0; j < m.p; ++j) if (i >= n || j >= p) m.at(i, j) = E::get(*cell(a, i, j)); }
  template <typename U> typename std::enable_if<std::is_trivial<U>::value>::type aligned(int k, void* q, long n, long p) {
    long u = alignof(T), al = u * (1 + rt::pick(6)), m = al * (1 + rt::pick(6)), r = al * rt::pick(m / al), x = rt::pick(1000); if (rt::coin()) { al = u << rt::pick(4); m = al << rt::pick(3); r = al * rt::pick(m / al); }
    int w = rt::pick(4); s[k].al = al;
    if (w == 0) { tr("a%d: %s(%ld, %ld, align, %ld)", k, X<T>::name(), n, p, al); new (q) A(n, p, il::align, al); m = al; r = 0; }
    if (w == 1) { tr("a%d: %s(%ld, %ld, align, %ld, %ld, %ld)", k, X<T>::name(), n, p, al, r, m); new (q) A(n, p, il::align, al, r, m); }
    if (w == 2) { tr("a%d: %s(%ld, %ld, x=%ld, align, %ld)", k, X<T>::name(), n, p, x, al); new (q) A(n, p, E::make(x), il::align, al); m = al; r = 0; }
    if (w == 3) { tr("a%d: %s(%ld, %ld, x=%ld, align, %ld, %ld, %ld)", k, X<T>::name(), n, p, x, al, r, m); new (q) A(n, p, E::make(x), il::align, al, r, m); }
    s[k].m = Mat(n, p, x); s[k].mod = m; s[k].r = r; s[k].c0 = -1; if (w < 2) adopt(k, 0, 0);
  }
  template <typename U> typename std::enable_if<!std::is_trivial<U>::value>::type aligned(int k, void* q, long n, long p) { make(k, q); }
  void make(int k, void* q) {
    Slot<A>& x = s[k]; x.al = x.r = x.mod = 0; long n = sz(), p = sz(), v = rt::pick(1000); bool full = n && p; x.c0 = full ? n : -1; x.c1 = p;
    switch (rt::pick(7)) {
      case 0: tr("a%d: %s()", k, X<T>::name()); new (q) A(); x.m = Mat(); x.c0 = x.c1 = 0; break;
      case 1: tr("a%d: %s(%ld, %ld)", k, X<T>::name(), n, p); new (q) A(n, p); x.m = Mat(n, p, -7); if (!E::obj) adopt(k, 0, 0); break;
      case 2: { tr("a%d: %s(%ld, %ld, %ld)", k, X<T>::name(), n, p, v); T t = E::make(v); new (q) A(n, p, t); x.m = Mat(n, p, v); break; }
      case 3: { tr("a%d: %s(%ld, %ld, emplace, %ld)", k, X<T>::name(), n, p, v); T t = E::make(v); X<T>::emp(q, n, p, t); x.m = Mat(n, p, v); break; }
      case 4: { tr("a%d: %s(value, {{1,2,3},{4,5,6}})", k, X<T>::name()); new (q) A(il::value, {{E::make(1), E::make(2), E::make(3)}, {E::make(4), E::make(5), E::make(6)}}); x.m = M ? Mat(2, 3, 0) : Mat(3, 2, 0);
        for (int b = 0; b < 2; ++b) for (int c = 0; c < 3; ++c) (M ? x.m.at(b, c) : x.m.at(c, b)) = 3 * b + c + 1; x.c0 = -1; break; }
      default: aligned<T>(k, q, n, p);
    }
  }
  void kill(int k) { tr("a%d: destroy", k); s[k].a->~A(); }
  void grow(int k, long n, long p, long v) { Mat& o = s[k].m; Mat w(n, p, v); for (long i = 0; i < n && i < o.n; ++i) for (long j = 0; j < p && j < o.p; ++j) w.at(i, j) = o.at(i, j); o = w; }
  void step() {
    int k = rt::pick(3), q = rt::pick(3); Slot<A>& x = s[k]; Slot<A>& y = s[q]; A& a = *x.a; long n = sz(), p = sz(), v = rt::pick(1000), on = x.m.n, op = x.m.p, c0 = x.c0, c1 = x.c1; bool fits = n <= c0 && p <= c1;
    if (rt::coin(3)) n = on; if (rt::coin(4)) p = op; if (rt::coin(8)) { n = c0; p = c1; } fits = n <= c0 && p <= c1;
    switch (rt::pick(16)) {
      case 0: kill(k); make(k, x.a); break;
      case 1: if (k == q) break; kill(k); tr("a%d: copy of a%d", k, q); new (x.a) A(*y.a); x.m = y.m; x.c0 = -1; x.al = y.al; x.r = y.r; x.mod = y.mod; break;
      case 2: if (k == q) break; kill(k); tr("a%d: moved from a%d", k, q); new (x.a) A(std::move(*y.a)); x.m = y.m; x.c0 = y.c0; x.c1 = y.c1; x.al = y.al; x.r = y.r; x.mod = y.mod; y.m = Mat(); y.c0 = y.c1 = 0; y.al = y.r = y.mod = 0; break;
      case 3: case 4: { tr("a%d = a%d", k, q); bool same = x.al == y.al && x.r == y.r && x.mod == y.mod && y.m.n <= c0 && y.m.p <= c1; a = *y.a; if (k == q) break; x.m = y.m; if (!same) x.c0 = -1; x.al = y.al; x.r = y.r; x.mod = y.mod; break; }
      case 5: tr("a%d = move(a%d)", k, q); a = std::move(*y.a); if (k == q) break; x.m = y.m; x.c0 = y.c0; x.c1 = y.c1; x.al = y.al; x.r = y.r; x.mod = y.mod; y.m = Mat(); y.c0 = y.c1 = 0; y.al = y.r = y.mod = 0; break;
      case 6: case 7: case 8: tr("a%d.Resize(%ld, %ld) from (%ld, %ld), capacity (%ld, %ld)", k, n, p, on, op, c0, c1); a.Resize(n, p); grow(k, n, p, -7); if (!fits) x.c0 = -1; if (!E::obj) adopt(k, on, op); break;
      case 9: case 10: case 11: if (X<T>::hasx) { tr("a%d.Resize(%ld, %ld, %ld) from (%ld, %ld), capacity (%ld, %ld)", k, n, p, v, on, op, c0, c1); T t = E::make(v); X<T>::rx(a, n, p, t); grow(k, n, p, v); if (!fits) x.c0 = -1; }
        else { tr("a%d.Set(%ld)", k, v); T t = E::make(v); X<T>::set(a, t); x.m = Mat(on, op, v); } break;
      case 12: case 13: tr("a%d.Reserve(%ld, %ld) from (%ld, %ld), capacity (%ld, %ld)", k, n, p, on, op, c0, c1); a.Reserve(n, p); if (!fits) x.c0 = -1; CHECK(a.capacity(0) >= n && a.capacity(1) >= p, "Reserve(%ld, %ld) leaves capacity (%ld, %ld)", n, p, (long)a.capacity(0), (long)a.capacity(1)); break;
      default: access(k);
    }
    checkall();
  }
  long odd() { static const long o[] = {-1, -2, 1L << 31, 1L << 32, (1L << 62), -(1L << 62), LONG_MIN, LONG_MAX}; return o[rt::pick(8)]; }
  void access(int k) {
    A& a = *s[k].a; const A& c = a; long n = s[k].m.n, p = s[k].m.p; const T* got = 0;
    for (int t = 0; t < 4; ++t) {
      long i = rt::coin(3) ? odd() : rt::range(-1, n), j = rt::coin(3) ? odd() : rt::range(-1, p); bool ok = 0 <= i && i < n && 0 <= j && j < p;
      tr("a%d(%ld,%ld) (size (%ld,%ld))", k, i, j, n, p);
      bool ab = rt::aborts([&] { got = rt::coin() ? &c(i, j) : &a(i, j); });
      CHECK(ab == !ok, "index (%ld,%ld) of size (%ld,%ld): %s", i, j, n, p, ab ? "aborts" : "returns"); if (ok) CHECK(got == cell(a, i, j), "element (%ld,%ld) at the wrong address", i, j);
      long d = rt::coin() ? odd() : rt::range(-1, 2); ab = rt::aborts([&] { d == c.size(d); }); CHECK(ab == !(d == 0 || d == 1), "size(%ld): %s", d, ab ? "aborts" : "returns");
      long u = M ? i : j, un = M ? n : p; (void)u; (void)un;
      ab = rt::aborts([&] { got = rt::coin() ? c.data(u) : a.Data(u); }); CHECK(ab == !(0 <= u && u < un), "data(%ld): %s", u, ab ? "aborts" : "returns"); if (!ab) CHECK(got == a.data_ + u * (a.capacity_[M] - a.data_), "data(%ld)", u);
    }
    CHECK(c.data() == a.data_ && a.Data() == a.data_, "data()");
    long b0 = rt::range(-1, n + 1), e0 = rt::range(b0, n + 1), b1 = rt::range(-1, p + 1), e1 = rt::range(b1, p + 1); if (rt::coin(6)) (rt::coin() ? b0 : e1) = odd(); if (rt::coin(8)) std::swap(b0, e0);
    bool legal = 0 <= b0 && b0 <= e0 && e0 <= n && 0 <= b1 && b1 <= e1 && e1 <= p, inner = legal && b0 < e0 && b1 < e1; long st = a.capacity_[M] - a.data_;
    V v, v2; Ed e; bool ed = rt::coin();
    tr("a%d.%s({%ld,%ld},{%ld,%ld}) (size (%ld,%ld))", k, ed ? "Edit" : "view", b0, e0, b1, e1, n, p);
    bool ab = rt::aborts([&] { if (ed) { e = X<T>::ed(a, il::Range{b0, e0}, il::Range{b1, e1}); v = e; } else v = c.view(il::Range{b0, e0}, il::Range{b1, e1}); });
    if (!legal) CHECK(ab, "illegal ranges do not abort"); if (inner) CHECK(!ab, "legal ranges abort");
    if (!ab && legal) {
      CHECK(v.size(0) == e0 - b0 && v.size(1) == e1 - b1, "view size (%ld,%ld)", (long)v.size(0), (long)v.size(1));
      for (long i = -1; i <= v.size(0); ++i) for (long j = -1; j <= v.size(1); ++j) { bool ok = i >= 0 && j >= 0 && i < v.size(0) && j < v.size(1); ab = rt::aborts([&] { got = ed ? &e(i, j) : &v(i, j); }); CHECK(ab == !ok, "view index (%ld,%ld) %s", i, j, ab ? "aborts" : "returns"); if (ok) CHECK(got == cell(a, b0 + i, b1 + j), "view element (%ld,%ld) at the wrong address", i, j); }
      if (inner) {
        long x0 = rt::pick(v.size(0)), y0 = rt::range(x0 + 1, v.size(0)), x1 = rt::pick(v.size(1)), y1 = rt::range(x1 + 1, v.size(1)); tr("sub-view ({%ld,%ld},{%ld,%ld})", x0, y0, x1, y1);
        if (rt::coin()) { short am = (short)rt::pick(65), ar = (short)rt::pick(am + 1); if (ed) { e = Ed(&e(0, 0), e.size(0), e.size(1), st, am, ar); v = e; } else v = V(&v(0, 0), v.size(0), v.size(1), st, am, ar); }
        if (ed) { Ed f = e.Edit(il::Range{x0, y0}, il::Range{x1, y1}); v2 = f; } else v2 = X<T>::vv(v, il::Range{x0, y0}, il::Range{x1, y1});
        CHECK(v2.size(0) == y0 - x0 && v2.size(1) == y1 - x1, "sub-view size");
        for (long i = 0; i < v2.size(0); ++i) for (long j = 0; j < v2.size(1); ++j) CHECK(&v2(i, j) == cell(a, b0 + x0 + i, b1 + x1 + j), "sub-view element (%ld,%ld) at the wrong address", i, j);
        ab = rt::aborts([&] { v2(v2.size(0), 0); }); CHECK(ab, "sub-view index past the end returns"); ab = rt::aborts([&] { v2(0, v2.size(1)); }); CHECK(ab, "sub-view index past the end returns");
      }
    }
    if (st > 0 && n && p) { V w = rt::coin() ? c.view() : V(a.Edit()); CHECK(w.size(0) == n && w.size(1) == p && &w(n - 1, p - 1) == cell(a, n - 1, p - 1), "full view"); }
    long len = M ? p : n, num = M ? n : p, u = rt::coin(4) ? odd() : rt::range(-1, num), lb = rt::range(-1, len), le = rt::coin(6) ? odd() : rt::range(lb, len + 1); bool lok = 0 <= u && u < num && 0 <= lb && lb <= le && le <= len;
    tr("a%d line %ld range {%ld,%ld} (size (%ld,%ld))", k, u, lb, le, n, p); il::ArrayView<T> l;
    ab = rt::aborts([&] { l = X<T>::line(a, il::Range{lb, le}, u); });
    if (!lok) CHECK(ab, "illegal line range does not abort"); if (lok && lb < le) CHECK(!ab, "legal line range aborts");
    if (!ab && lok) { CHECK(l.size() == le - lb, "line size"); for (long i = 0; i < l.size(); ++i) CHECK(&l[i] == (M ? cell(a, u, lb + i) : cell(a, lb + i, u)), "line element %ld at the wrong address", i); }
  }
  void run() {
    long base = rt::nlive;
    for (int k = 0; k < 3; ++k) { s[k].a = 0; ready[k] = false; }
    for (int k = 0; k < 3; ++k) { void* p = ::operator new(sizeof(A)); s[k].a = (A*)p; make(k, p); ready[k] = true; }
    checkall(); int n = rt::range(1, 24); for (int i = 0; i < n; ++i) step();
    for (int k = 0; k < 3; ++k) { kill(k); ::operator delete(s[k].a); }
    if (E::obj) CHECK(rt::nlive == base, "%ld elements are never destroyed", rt::nlive - base);
  }
};
template <typename T, template <typename> class X> void episode() { size_t b = __sanitizer_get_current_allocated_bytes(); { Test<T, X> t; t.run(); } size_t e = __sanitizer_get_current_allocated_bytes(); CHECK(b == e, "%ld bytes of storage leaked (or released twice)", (long)(e - b)); }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { switch (rt::episodes % 6) { case 0: episode<double, DD>(); break; case 1: episode<Tr, DD>(); break; case 2: episode<double, CC>(); break; case 3: episode<Tr, CC>(); break; case 4: episode<int, DD>(); break; default: episode<int, CC>(); } }
  return rt::finish();
}
