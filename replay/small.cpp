// Random histories over il::SmallArray and il::StaticArray against a mathematical sequence.
#include "rt.h"
#include <il/SmallArray.h>
#include <il/StaticArray.h>
using rt::tr;
static const long odd[] = {-1, -2, 1L << 31, 1L << 32, (1L << 62), -(1L << 62), LONG_MIN, LONG_MAX};
template <typename C, typename T> void access(C& a, long n) {
  const C& c = a; T* d = a.Data(); CHECK(c.data() == d && c.size() == n, "data/size");
  long i = rt::coin() ? rt::range(-2, n + 2) : odd[rt::pick(8)]; bool ok = 0 <= i && i < n; const T* got = 0;
  tr("a[%ld] (size %ld)", i, n); bool ab = rt::aborts([&] { got = rt::coin() ? &c[i] : &a[i]; });
  CHECK(ab == !ok, "index %ld of an array of size %ld: %s", i, n, ab ? "aborts" : "returns"); if (ok) CHECK(got == d + i, "element %ld at the wrong address", i);
  il::ArrayView<T> v = c.view(); il::ArrayEdit<T> e = a.Edit(); CHECK(v.size() == n && e.size() == n, "size of the view"); if (n) CHECK(&v[0] == d && &e[n - 1] == d + n - 1, "view element");
  long b = rt::range(-1, n + 1), f = rt::coin(6) ? odd[rt::pick(8)] : rt::range(-1, n + 1); bool legal = 0 <= b && b <= f && f <= n, ed = rt::coin(); il::ArrayView<T> rv; il::ArrayEdit<T> re;
  tr("a.view(Range{%ld,%ld}) (size %ld)", b, f, n); ab = rt::aborts([&] { if (ed) re = a.Edit(il::Range{b, f}); else rv = c.view(il::Range{b, f}); });
  if (!legal) CHECK(ab, "view of range [%ld,%ld) of an array of size %ld does not abort", b, f, n); else if (b < f) CHECK(!ab, "view of legal range [%ld,%ld) aborts", b, f);
  if (!ab && legal) { long vs = ed ? re.size() : rv.size(); CHECK(vs == f - b, "view of [%ld,%ld) has size %ld", b, f, vs); for (long j = 0; j < vs; ++j) CHECK((ed ? &re[j] : &rv[j]) == d + b + j, "view element %ld at the wrong place", j); }
}
template <typename T, long N> struct Small {
  typedef El<T> E; typedef il::SmallArray<T, N> A;
  A* a[3]; std::vector<long> m[3]; long cap[3];
  void back(int k) {
    A& x = *a[k]; const A& c = x; long n = m[k].size(); const T* got = 0; bool ab = rt::aborts([&] { got = rt::coin() ? &c.back() : &x.Back(); });
    CHECK(ab == (n == 0), "last element of an array of size %ld: %s", n, ab ? "aborts" : "returns"); if (n) CHECK(got == x.data() + n - 1, "Back() is not the last element");
  }
  void check() {
    long live = 0;
    for (int k = 0; k < 3; ++k) {
      const A& c = *a[k]; CHECK(c.size() == (long)m[k].size(), "array %d: size %ld, expected %zu", k, (long)c.size(), m[k].size());
      if (cap[k] >= 0) CHECK(c.capacity() == cap[k], "array %d: capacity %ld, expected %ld", k, (long)c.capacity(), cap[k]); cap[k] = c.capacity();
      CHECK(cap[k] >= c.size() && cap[k] >= N, "array %d: capacity %ld", k, cap[k]);
      for (long i = 0; i < c.size(); ++i) CHECK(E::get(c.data()[i]) == m[k][i], "array %d: element %ld is %ld, expected %ld", k, i, E::get(c.data()[i]), m[k][i]);
      const char* p = (const char*)c.data(); bool in = p >= (const char*)&c && p < (const char*)(&c + 1); CHECK(in == (cap[k] == N), "array %d: capacity %ld held %s", k, cap[k], in ? "inline" : "on the heap");
      live += c.size();
    }
    if (E::obj) CHECK(rt::nlive == live, "%ld elements are alive, the arrays hold %ld", rt::nlive, live);
  }
  void adopt(int k, size_t from) { for (size_t i = from; i < m[k].size() && (long)i < a[k]->size(); ++i) m[k][i] = E::get(a[k]->data()[i]); }
  long sz() { return rt::range(0, rt::coin(4) ? 3 * N + 6 : N + 3); }
  long c0(long n) { return n > N ? n : N; }
  void make(int k) {
    void* p = a[k]; long n = sz(), v = rt::pick(1000);
    switch (rt::pick(4)) {
      case 0: tr("a%d: SmallArray()", k); new (p) A(); m[k].clear(); break;
      case 1: tr("a%d: SmallArray(%ld)", k, n); new (p) A(n); m[k].assign(n, -7); if (!E::obj) adopt(k, 0); break;
      case 2: { tr("a%d: SmallArray(%ld, %ld)", k, n, v); T t = E::make(v); new (p) A(n, t); m[k].assign(n, v); break; }
      default: if (rt::coin()) { tr("a%d: SmallArray(value, {1})", k); new (p) A(il::value, {E::make(1)}); m[k].assign(1, 1); } else { tr("a%d: SmallArray(value, {1,2,3,4,5})", k); new (p) A(il::value, {E::make(1), E::make(2), E::make(3), E::make(4), E::make(5)}); m[k].clear(); for (int i = 1; i < 6; ++i) m[k].push_back(i); }
    }
    cap[k] = c0(m[k].size());
  }
  void step() {
    int k = rt::pick(3), q = rt::pick(3); A& x = *a[k]; long n = sz(), v = rt::pick(1000), oc = x.capacity(), os = m[k].size(); bool al = os > 0 && rt::coin(); long j = rt::pick(os);
    switch (rt::pick(11)) {
      case 0: tr("a%d: destroy", k); x.~A(); make(k); break;
      case 1: if (k == q) break; tr("a%d: destroy, SmallArray(a%d)", k, q); x.~A(); new (&x) A(*a[q]); m[k] = m[q]; cap[k] = c0(m[q].size()); break;
      case 2: if (k == q) break; tr("a%d: destroy, SmallArray(move a%d)", k, q); x.~A(); new (&x) A(std::move(*a[q])); m[k] = m[q]; cap[k] = cap[q]; m[q].clear(); cap[q] = N; break;
      case 3: tr("a%d = a%d", k, q); x = *a[q]; m[k] = m[q]; cap[k] = (long)m[q].size() > oc ? m[q].size() : oc; break;
      case 4: tr("a%d = move(a%d)", k, q); x = std::move(*a[q]); if (k == q) break; m[k] = m[q]; cap[k] = cap[q]; m[q].clear(); cap[q] = N; break;
      case 5: tr("a%d.Resize(%ld)", k, n); x.Resize(n); m[k].resize(n, -7); cap[k] = n > oc ? n : oc; if (!E::obj) adopt(k, os); break;
      case 6: tr("a%d.Reserve(%ld)", k, n); x.Reserve(n); cap[k] = n > oc ? n : oc; break;
      case 7: case 8: if (al) { tr("a%d.Append(a%d[%ld])", k, k, j); v = m[k][j]; x.Append(x[j]); } else { tr("a%d.Append(%ld)", k, v); T t = E::make(v); x.Append(t); } m[k].push_back(v); cap[k] = os < oc ? oc : -1; break;
      case 9: if (al) { tr("a%d.AppendVariadic(a%d[%ld])", k, k, j); v = m[k][j]; x.Append(static_cast<T&>(x[j])); } else { tr("a%d.AppendVariadic(%ld)", k, v); T t = E::make(v); x.Append(t); } m[k].push_back(v); cap[k] = os < oc ? oc : -1; break;
      default: access<A, T>(x, os); back(k);
    }
    check();
  }
  void run() {
    long base = rt::nlive; for (int k = 0; k < 3; ++k) { a[k] = (A*)::operator new(sizeof(A)); make(k); } check();
    int n = rt::range(1, 30); for (int i = 0; i < n; ++i) step();
    for (int k = 0; k < 3; ++k) { tr("a%d: destroy", k); a[k]->~A(); ::operator delete(a[k]); }
    if (E::obj) CHECK(rt::nlive == base, "%ld elements are never destroyed", rt::nlive - base);
  }
};
template <typename T> void stat() {
  typedef El<T> E; typedef il::StaticArray<T, 3> A; typedef il::StaticArray<T, 1> B; long v = rt::pick(1000), base = rt::nlive;
  { tr("StaticArray<3>(%ld)", v); T t = E::make(v); A x(t); for (int i = 0; i < 3; ++i) CHECK(E::get(x.data()[i]) == v, "element %d", i);
    tr("StaticArray<3>(value, {4,5,6})"); A y(il::value, {E::make(4), E::make(5), E::make(6)}); for (int i = 0; i < 3; ++i) CHECK(E::get(y.data()[i]) == 4 + i, "element %d", i);
    bool ab = E::obj || rt::aborts([&] { A z(il::value, {}); }); CHECK(ab, "a list of length 0 is accepted for 3 elements");
    A z(y); for (int i = 0; i < 3; ++i) CHECK(E::get(z.data()[i]) == 4 + i, "element %d of the copy", i); z = x; for (int i = 0; i < 3; ++i) CHECK(E::get(z.data()[i]) == v, "element %d after assignment", i);
    if (E::obj) { A w; for (int i = 0; i < 3; ++i) CHECK(E::get(w.data()[i]) == -7, "default element %d", i); }
    access<A, T>(y, 3); const A& cy = y; CHECK(&cy.back() == y.Data() + 2 && &y.Back() == y.Data() + 2, "last element"); B b(t); access<B, T>(b, 1); CHECK(&b.Back() == b.Data(), "last element"); }
  CHECK(!E::obj || rt::nlive == base, "%ld elements are never destroyed", rt::nlive - base);
}
template <typename F> void ep(F f) { size_t b = __sanitizer_get_current_allocated_bytes(); f(); size_t e = __sanitizer_get_current_allocated_bytes(); CHECK(b == e, "%ld bytes of storage leaked (or released twice)", (long)(e - b)); }
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) switch (rt::episodes % 6) {
    case 0: ep([] { Small<double, 4> t; t.run(); }); break; case 1: ep([] { Small<Tr, 4> t; t.run(); }); break; case 2: ep([] { Small<double, 1> t; t.run(); }); break; case 3: ep([] { Small<Tr, 1> t; t.run(); }); break;
    case 4: ep([] { stat<Tr>(); }); break; default: ep([] { stat<double>(); });
  }
  return rt::finish();
}
