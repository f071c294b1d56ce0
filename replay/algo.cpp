// Random arrays and sub-ranges against the mathematical definitions of the array algorithms.
#include "rt.h"
#include <algorithm>
#include <il/Array.h>
#include <il/StaticArray.h>
#include <il/algorithm/algorithmArray.h>
using rt::tr;
template <typename T> struct Run {
  typedef std::vector<T> M;
  static T ab(T x) { return x >= 0 ? x : -x; }
  static T val(long spread) { T x = T(rt::range(-spread, spread)); if (T(0.5) != T(0)) x += T(0.25 * rt::pick(4)); return x; }
  static void go() {
    long n = rt::coin(10) ? 0 : rt::coin(4) ? rt::pick(200) : rt::pick(24), spread = rt::coin() ? 3 : rt::coin() ? 20 : 1000000; M m; for (long i = 0; i < n; ++i) m.push_back(val(spread));
    int shape = rt::pick(6); if (shape == 0) std::sort(m.begin(), m.end()); if (shape == 1) std::sort(m.rbegin(), m.rend()); if (shape == 2 && n) { T x = m[0]; for (auto& y : m) y = x; } if (shape == 3 && n) { std::sort(m.begin(), m.end()); std::swap(m[rt::pick(n)], m[rt::pick(n)]); }
    il::Array<T> a(n); for (long i = 0; i < n; ++i) a[i] = m[i]; const il::Array<T>& ca = a;
    tr("array of %ld elements", n); for (long i = 0; i < n && i < 60; ++i) tr("  [%ld] = %.2f", i, double(m[i]));
    auto same = [&](const char* w) { CHECK(a.size() == n, "%s changes the size", w); for (long i = 0; i < n; ++i) CHECK(a[i] == m[i], "%s changes element %ld", w, i); };
    for (int whole = 0; whole < 2; ++whole) {
      long b = rt::range(rt::coin(6) ? -2 : 0, n), e = rt::coin(6) ? rt::range(-1, n + 2) : rt::range(b > 0 ? b : 0, n); if (whole) { b = 0; e = n; } il::Range r{b, e}; bool ok = 0 <= b && b < e && e <= n; tr("range [%ld, %ld)", b, e);
      T lo = 0, hi = 0, ha = 0; if (ok) { lo = *std::min_element(m.begin() + b, m.begin() + e); hi = *std::max_element(m.begin() + b, m.begin() + e); ha = ab(m[b]); for (long i = b; i < e; ++i) ha = std::max(ha, ab(m[i])); }
      T x = 0; il::int_t k = 0; il::MinMax<T> mm{}; bool z;
#define V(w, r_, call, cond) z = rt::aborts([&] { r_ = call; }); CHECK(z == !ok, "%s over [%ld, %ld) of %ld %s", w, b, e, n, z ? "aborts" : "returns"); if (ok) CHECK(cond, "%s over [%ld, %ld) of %ld is wrong", w, b, e, n);
      V("min", x, whole ? il::min(ca) : il::min(ca, r), x == lo) V("max", x, whole ? il::max(ca) : il::max(ca, r), x == hi) V("maxAbs", x, whole ? il::maxAbs(ca) : il::maxAbs(ca, r), x == ha)
      V("indexMin", k, whole ? il::indexMin(ca) : il::indexMin(ca, r), b <= k && k < e && m[k] == lo) V("indexMax", k, whole ? il::indexMax(ca) : il::indexMax(ca, r), b <= k && k < e && m[k] == hi) V("indexMaxAbs", k, whole ? il::indexMaxAbs(ca) : il::indexMaxAbs(ca, r), b <= k && k < e && ab(m[k]) == ha)
      V("minMax", mm, whole ? il::minMax(ca) : il::minMax(ca, r), mm.min == lo && mm.max == hi) same("an extremum");
    }
    M s = m; std::sort(s.begin(), s.end());
    { il::Array<T> w = il::sort(a), u = il::sort(ca); CHECK(w.size() == n && u.size() == n, "size of the sorted copy"); for (long i = 0; i < n; ++i) { CHECK(w[i] == s[i], "sort: element %ld of the copy", i); CHECK(u[i] == s[i], "sort (const): element %ld of the copy", i); } same("sorting a copy");
      long b = rt::pick(n + 1), e = b + rt::pick(n - b + 1); M p = m; std::sort(p.begin() + b, p.begin() + e); il::Array<T> v = a; tr("sort_aux [%ld, %ld)", b, e); il::sort_aux(il::Range{b, e}, il::io, v); for (long i = 0; i < n; ++i) CHECK(v[i] == p[i], "sorting [%ld, %ld) of %ld: element %ld", b, e, n, i); }
    tr("sort"); il::sort(il::io, a); for (long i = 0; i < n; ++i) CHECK(a[i] == s[i], "sort: element %ld of %ld", i, n); CHECK(a.size() == n, "sort changes the size");
    for (int t = 0; t < 6; ++t) { T x = n && rt::coin() ? s[rt::pick(n)] : val(spread + 1); long k = il::binarySearch(ca, x); bool in = std::binary_search(s.begin(), s.end(), x); tr("binarySearch %.2f", double(x)); CHECK(in ? 0 <= k && k < n && s[k] == x : k == -1, "binarySearch(%.2f) gives %ld", double(x), k); }
    il::StaticArray<T, 7> f; M g; for (int i = 0; i < 7; ++i) { f[i] = val(5); g.push_back(f[i]); } std::sort(g.begin(), g.end()); il::sort(il::io, f); for (int i = 0; i < 7; ++i) CHECK(f[i] == g[i], "sort of a static array");
  }
};
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { size_t b = __sanitizer_get_current_allocated_bytes(); switch (rt::pick(3)) { case 0: Run<double>::go(); break; case 1: Run<il::int_t>::go(); break; default: Run<int>::go(); } (void)b; }
  return rt::finish();
}
