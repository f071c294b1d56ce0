// Random histories over il::Array against a mathematical sequence.
#include "rt.h"
#include <il/Array.h>
#include <type_traits>
using rt::tr;
template <typename T> struct Slot { il::Array<T>* a; std::vector<long> m; long cap; long al, r, mod; };
static const bool known = true;
template <typename T> struct Test {
  typedef El<T> E;
  Slot<T> s[4]; bool ready[4];
  long id(int k) { return k; }
  void check(int k) {
    Slot<T>& x = s[k]; il::Array<T>& a = *x.a; const il::Array<T>& c = a;
    CHECK(c.size() == (long)x.m.size(), "array %d: size %ld, expected %zu", k, (long)c.size(), x.m.size());
    CHECK(c.capacity() >= c.size(), "array %d: capacity %ld below size %ld", k, (long)c.capacity(), (long)c.size());
    if (x.cap >= 0) CHECK(c.capacity() == x.cap, "array %d: capacity %ld, expected %ld", k, (long)c.capacity(), x.cap);
    x.cap = c.capacity();
    for (long i = 0; i < c.size(); ++i) CHECK(E::get(c.data()[i]) == x.m[i], "array %d: element %ld is %ld, expected %ld", k, i, E::get(c.data()[i]), x.m[i]);
    CHECK(c.alignment() == x.al || c.capacity() == 0, "array %d: alignment %ld, expected %ld", k, (long)c.alignment(), x.al);
    if (x.mod > 0 && c.capacity() > 0) CHECK((size_t)c.data() % (size_t)x.mod == (size_t)x.r, "array %d: address residue %zu modulo %ld, expected %ld", k, (size_t)c.data() % (size_t)x.mod, x.mod, x.r);
    if (x.mod > 0 && c.capacity() == 0) { if (c.alignment() != x.al) { x.al = c.alignment(); x.mod = a.align_mod_; x.r = a.align_r_; } }
  }
  void checkall() { long n = 0; for (int k = 0; k < 4; ++k) { check(k); n += s[k].m.size(); } if (E::obj) CHECK(rt::nlive == n, "%ld elements are alive, the arrays hold %ld", rt::nlive, n); }
  long sz() { return rt::coin(8) ? rt::range(0, 120) : rt::range(0, 9); }
  void adopt(int k, size_t from) { for (size_t i = from; i < s[k].m.size() && (long)i < s[k].a->size(); ++i) s[k].m[i] = E::get(s[k].a->data()[i]); }
  template <typename U> typename std::enable_if<std::is_trivial<U>::value>::type aligned(int k, void* p, long n) {
    long u = alignof(T), al = u << rt::pick(6), m = al << rt::pick(3), r = al * rt::pick(m / al), x = rt::pick(1000); if (sizeof(T) > u) { al = u; m = u; r = 0; }
    int w = rt::pick(4); s[k].al = al;
    if (w == 0) { tr("a%d: Array(%ld, align, %ld)", k, n, al); new (p) il::Array<U>(n, il::align, al); m = al; r = 0; }
    if (w == 1) { tr("a%d: Array(%ld, align, %ld, %ld, %ld)", k, n, al, r, m); new (p) il::Array<U>(n, il::align, al, r, m); }
    if (w == 2) { tr("a%d: Array(%ld, x=%ld, align, %ld)", k, n, x, al); new (p) il::Array<U>(n, E::make(x), il::align, al); m = al; r = 0; }
    if (w == 3) { tr("a%d: Array(%ld, x=%ld, align, %ld, %ld, %ld)", k, n, x, al, r, m); new (p) il::Array<U>(n, E::make(x), il::align, al, r, m); }
    s[k].m.assign(n, x); s[k].mod = m; s[k].r = r; s[k].cap = n; if (w < 2) adopt(k, 0);
  }
  template <typename U> typename std::enable_if<!std::is_trivial<U>::value>::type aligned(int k, void* p, long n) { make(k, p); }
  void make(int k, void* p) {
    Slot<T>& x = s[k]; x.al = x.r = x.mod = 0; long n = sz(), v = rt::pick(1000);
    switch (rt::pick(8)) {
      case 0: tr("a%d: Array()", k); new (p) il::Array<T>(); x.m.clear(); x.cap = 0; break;
      case 1: tr("a%d: Array(%ld)", k, n); new (p) il::Array<T>(n); x.m.assign(n, -7); x.cap = n; if (!E::obj) adopt(k, 0); break;
      case 2: { tr("a%d: Array(%ld, %ld)", k, n, v); T t = E::make(v); new (p) il::Array<T>(n, t); x.m.assign(n, v); x.cap = n; break; }
      case 3: { tr("a%d: Array(%ld, emplace, %ld)", k, n, v); T t = E::make(v); new (p) il::Array<T>(n, il::emplace, t); x.m.assign(n, v); x.cap = n; break; }
      case 4: { int q = rt::pick(4); if (q == k || !ready[q]) { new (p) il::Array<T>(); x.m.clear(); x.cap = 0; break; } tr("a%d: Array(view of a%d)", k, q); std::vector<long> mm = s[q].m; new (p) il::Array<T>(s[q].a->view()); x.m = mm; x.cap = mm.size(); break; }
      case 5: { tr("a%d: Array(value, {1,2,3})", k); new (p) il::Array<T>(il::value, {E::make(1), E::make(2), E::make(3)}); x.m.clear(); for (int i = 1; i < 4; ++i) x.m.push_back(i); x.cap = 3; break; }
      default: aligned<T>(k, p, n);
    }
  }
  void kill(int k) { tr("a%d: destroy", k); s[k].a->~Array(); }
  void step() {
    int k = rt::pick(4), q = rt::pick(4); Slot<T>& x = s[k]; Slot<T>& y = s[q]; il::Array<T>& a = *x.a; long n = sz(), v = rt::pick(1000); long oldcap = a.capacity(), oldsz = a.size(), sm = x.m.size();
    bool al = sm > 0 && rt::coin(); long j = rt::pick(sm);
    switch (rt::pick(20)) {
      case 0: kill(k); make(k, x.a); break;
      case 1: if (k == q) break; kill(k); tr("a%d: Array(a%d)", k, q); new (x.a) il::Array<T>(*y.a); x.m = y.m; x.cap = y.m.size(); x.al = y.al; x.r = y.r; x.mod = y.mod; break;
      case 2: if (k == q) break; kill(k); tr("a%d: Array(move a%d)", k, q); new (x.a) il::Array<T>(std::move(*y.a)); x.m = y.m; x.cap = y.cap; x.al = y.al; x.r = y.r; x.mod = y.mod; y.m.clear(); y.cap = 0; y.al = y.r = y.mod = 0; break;
      case 3: case 4: { tr("a%d = a%d", k, q); bool same = x.al == y.al && x.r == y.r && x.mod == y.mod; *x.a = *y.a; if (k == q) break; x.m = y.m; x.cap = same ? (long(y.m.size()) > oldcap ? y.m.size() : oldcap) : -1; x.al = y.al; x.r = y.r; x.mod = y.mod; break; }
      case 5: tr("a%d = move(a%d)", k, q); *x.a = std::move(*y.a); if (k == q) break; x.m = y.m; x.cap = y.cap; x.al = y.al; x.r = y.r; x.mod = y.mod; y.m.clear(); y.cap = 0; y.al = y.r = y.mod = 0; break;
      case 6: case 7: tr("a%d.Resize(%ld)", k, n); a.Resize(n); x.m.resize(n, -7); x.cap = n > oldcap ? n : oldcap; if (!E::obj) adopt(k, sm); break;
      case 8: case 9: if (al) { tr("a%d.Resize(%ld, a%d[%ld])", k, n, k, j); v = x.m[j]; a.Resize(n, a[j]); } else { tr("a%d.Resize(%ld, %ld)", k, n, v); T t = E::make(v); a.Resize(n, t); } x.m.resize(n, v); x.cap = n > oldcap ? n : oldcap; break;
      case 10: if (al) { tr("a%d.Resize(%ld, emplace, a%d[%ld])", k, n, k, j); v = x.m[j]; a.Resize(n, il::emplace, a[j]); } else { tr("a%d.Resize(%ld, emplace, %ld)", k, n, v); T t = E::make(v); a.Resize(n, il::emplace, t); } x.m.resize(n, v); x.cap = n > oldcap ? n : oldcap; break;
      case 11: case 12: tr("a%d.Reserve(%ld)", k, n); a.Reserve(n); x.cap = n > oldcap ? n : oldcap; break;
      case 13: case 14: if (al) { tr("a%d.Append(a%d[%ld])", k, k, j); v = x.m[j]; const T& t = a[j]; a.Append(t); } else { tr("a%d.Append(%ld)", k, v); const T t = E::make(v); a.Append(t); } x.m.push_back(v); x.cap = oldsz < oldcap ? oldcap : -1; break;
      case 15: if (al) { tr("a%d.Append(move(a%d[%ld]))", k, k, j); v = x.m[j]; a.Append(std::move(a[j])); if (E::obj) x.m[j] = kMoved; } else { tr("a%d.Append(move(%ld))", k, v); a.Append(E::make(v)); } x.m.push_back(v); x.cap = oldsz < oldcap ? oldcap : -1; break;
      case 16: if (al) { tr("a%d.Append(emplace, a%d[%ld])", k, k, j); v = x.m[j]; a.Append(il::emplace, a[j]); } else { tr("a%d.Append(emplace, %ld)", k, v); T t = E::make(v); a.Append(il::emplace, t); } x.m.push_back(v); x.cap = oldsz < oldcap ? oldcap : -1; break;
      case 17: if (al) { tr("a%d.Set(a%d[%ld])", k, k, j); v = x.m[j]; a.Set(a[j]); } else { tr("a%d.Set(%ld)", k, v); T t = E::make(v); a.Set(t); } x.m.assign(sm, v); break;
      default: access(k);
    }
    checkall();
  }
  void access(int k) {
    il::Array<T>& a = *s[k].a; const il::Array<T>& c = a; long n = s[k].m.size(); T* d = a.data_;
    static const long odd[] = {-1, -2, 1L << 31, 1L << 32, (1L << 62), -(1L << 62), LONG_MIN, LONG_MAX};
    long i = rt::coin() ? rt::range(-2, n + 2) : odd[rt::pick(8)]; bool ok = 0 <= i && i < n; const T* got = 0;
    tr("a%d[%ld] (size %ld)", k, i, n);
    bool ab = rt::aborts([&] { got = rt::coin() ? &c[i] : &a[i]; });
    CHECK(ab == !ok, "index %ld of an array of size %ld: %s", i, n, ab ? "aborts" : "returns"); if (ok) CHECK(got == d + i, "element %ld at the wrong address", i);
    ab = rt::aborts([&] { got = rt::coin() ? &c.back() : &a.Back(); }); CHECK(ab == (n == 0), "last element of an array of size %ld: %s", n, ab ? "aborts" : "returns"); if (n) CHECK(got == d + n - 1, "Back() is not the last element");
    CHECK(c.begin() == d && c.cbegin() == d && a.begin() == d && c.end() == d + n && c.cend() == d + n && a.end() == d + n && c.data() == d && a.Data() == d, "begin/end/data");
    il::ArrayView<T> v = c.view(); il::ArrayEdit<T> e = a.Edit(); CHECK(v.size() == n && e.size() == n, "size of the view");
    if (n) CHECK(&v[0] == d && &e[n - 1] == d + n - 1 , "view element");
    long b = rt::range(-1, n + 1), f = rt::coin(6) ? odd[rt::pick(8)] : rt::range(-1, n + 1); bool legal = 0 <= b && b <= f && f <= n;
    tr("a%d.view(Range{%ld,%ld}) (size %ld)", k, b, f, n);
    bool ed = rt::coin(); const T* p0 = 0; long vs = -1; il::ArrayView<T> rv; il::ArrayEdit<T> re;
    ab = rt::aborts([&] { if (ed) re = a.Edit(il::Range{b, f}); else rv = c.view(il::Range{b, f}); });
    if (!legal) CHECK(ab, "view of range [%ld,%ld) of an array of size %ld does not abort", b, f, n);
    else if (b < f) { CHECK(!ab, "view of legal range [%ld,%ld) aborts", b, f); }
    if (!ab && legal) {
      vs = ed ? re.size() : rv.size(); CHECK(vs == f - b, "view of [%ld,%ld) has size %ld", b, f, vs);
      for (long i = -1; i <= vs; ++i) { const T* g = 0; bool q = rt::aborts([&] { g = ed ? &re[i] : &rv[i]; }); CHECK(q == !(0 <= i && i < vs), "view index %ld of %ld: %s", i, vs, q ? "aborts" : "returns"); if (!q) CHECK(g == d + b + i, "view element %ld at the wrong place", i); }
      if (vs) { const T* g = ed ? &re.back() : &rv.back(); CHECK(g == d + f - 1, "last element of the view"); }
      if (vs) { long b2 = rt::range(0, vs), f2 = rt::range(b2, vs); if (b2 < f2) { if (ed) { il::ArrayEdit<T> z = re.Edit(il::Range{b2, f2}); CHECK(z.size() == f2 - b2 && &z[0] == d + b + b2, "edit of an edit"); } else { il::ArrayView<T> z = rv.view(il::Range{b2, f2}); CHECK(z.size() == f2 - b2 && &z[0] == d + b + b2, "view of a view"); } } }
    }
  }
  void run() {
    long base = rt::nlive;
    for (int k = 0; k < 4; ++k) { s[k].a = 0; ready[k] = false; }
    for (int k = 0; k < 4; ++k) { void* p = ::operator new(sizeof(il::Array<T>)); s[k].a = (il::Array<T>*)p; make(k, p); ready[k] = true; }
    checkall(); int n = rt::range(1, 30); for (int i = 0; i < n; ++i) step();
    for (int k = 0; k < 4; ++k) { kill(k); ::operator delete(s[k].a); }
    if (E::obj) CHECK(rt::nlive == base, "%ld elements are never destroyed", rt::nlive - base);
  }
};
template <typename T> void episode() { size_t b = __sanitizer_get_current_allocated_bytes(); { Test<T> t; t.run(); } size_t e = __sanitizer_get_current_allocated_bytes(); CHECK(b == e, "%ld bytes of storage leaked (or released twice)", (long)(e - b)); }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { switch (rt::episodes % 3) { case 0: episode<double>(); break; case 1: episode<Tr>(); break; default: episode<int>(); } }
  return rt::finish();
}
