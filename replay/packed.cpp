// Random packed matrices: every legal pair has its own cell, copies and assignments carry every cell.
#include "rt.h"
#include <initializer_list>
#include <map>
#include <utility>
#include <il/Array.h>
#include <il/Array2C.h>
#include <il/LowerArray2D.h>
#include <il/UpperArray2D.h>
#include <il/BandArray2C.h>
#include <il/TriDiagonal.h>
using rt::tr;
typedef std::map<std::pair<long, long>, long> M;
template <typename A, typename T, bool LOWER> struct Tria {
  static bool ok(long n, long i, long j) { return LOWER ? 0 <= j && j <= i && i < n : 0 <= i && i <= j && j < n; }
  static void fill(A& a, M& m, long n) { m.clear(); long v = rt::pick(1000); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) if (ok(n, i, j)) { a(i, j) = El<T>::make(v); m[{i, j}] = v++; } }
  static void same(A& a, const M& m, long n, const char* w) {
    CHECK(a.size() == n, "%s: size %ld, expected %ld", w, long(a.size()), n); CHECK(a.capacity() >= n, "%s: capacity", w); const A& ca = a;
    for (auto& x : m) CHECK(El<T>::get(ca(x.first.first, x.first.second)) == x.second, "%s: element (%ld, %ld) of size %ld", w, x.first.first, x.first.second, n);
    for (int t = 0; t < 3; ++t) { long i = rt::range(-1, n), j = rt::range(-1, n); bool z = rt::aborts([&] { (void)ca(i, j); }); CHECK(z == !ok(n, i, j), "%s: (%ld, %ld) of size %ld %s", w, i, j, n, z ? "aborts" : "returns"); }
  }
  static void go() {
    long base = rt::nlive;
    { long n = rt::pick(9); tr("%s<%s> of size %ld", LOWER ? "LowerArray2D" : "UpperArray2D", El<T>::name(), n); A a(n); M m; fill(a, m, n); same(a, m, n, "filling");
    for (int t = 0; t < 8; ++t) {
      long p = rt::pick(9); M mb; tr("other matrix of size %ld", p); A b(p); fill(b, mb, p);
      switch (rt::pick(6)) {
        case 0: { tr("copy"); A x(a); same(x, m, n, "copy"); fill(x, mb, n); same(a, m, n, "source after writing the copy"); break; }
        case 1: tr("a = b"); a = b; same(b, mb, p, "source of the assignment"); m = mb; n = p; same(a, m, n, "assignment"); break;
        case 2: { tr("move"); A x(std::move(a)); same(x, m, n, "move"); CHECK(a.size() == 0, "moved-from size"); a = std::move(x); same(a, m, n, "move assignment"); CHECK(x.size() == 0, "moved-from size"); break; }
        case 3: tr("a = std::move(b)"); a = std::move(b); m = mb; n = p; same(a, m, n, "move assignment"); CHECK(b.size() == 0, "moved-from size"); break;
        case 4: tr("a = a"); a = a; same(a, m, n, "self assignment"); break;
        default: { tr("default construction, assignment"); A x; CHECK(x.size() == 0, "default size"); x = a; same(x, m, n, "assignment to an empty matrix"); }
      }
      same(a, m, n, "end of the step");
    } }
    CHECK(rt::nlive == base, "%ld elements never destroyed", rt::nlive - base);
  }
};
static void band() {
  long n0 = rt::range(1, 7), n1 = n0, l = rt::pick(4), r = l; il::BandArray2C<double>* a;
  if (rt::coin()) { tr("BandArray2C(%ld, %ld)", n0, l); a = new il::BandArray2C<double>(n0, l); } else { n1 = rt::pick(8); r = rt::pick(4); tr("BandArray2C(%ld, %ld, %ld, %ld)", n0, n1, l, r); a = new il::BandArray2C<double>(n0, n1, l, r); }
  auto ok = [&](long i, long k) { return 0 <= i && i < n0 && 0 <= i + k && i + k < n1 && -l <= k && k <= r; };
  CHECK(a->size(0) == n0 && a->size(1) == n1 && a->widthLeft() == l && a->widthRight() == r, "sizes of the band matrix"); M m; long v = 1;
  for (long i = 0; i < n0; ++i) for (long k = -l; k <= r; ++k) if (ok(i, k)) CHECK((*a)(i, k) == 0, "a new band matrix is zero");
  for (long i = 0; i < n0; ++i) for (long k = -l; k <= r; ++k) if (ok(i, k)) { (*a)(i, k) = v; m[{i, k}] = v++; }
  il::BandArray2C<double> b(*a), c(rt::range(1, 4), rt::pick(3)); c = b;
  for (auto& x : m) { long i = x.first.first, k = x.first.second; CHECK((*a)(i, k) == x.second, "(%ld, %ld) of the band", i, k); CHECK(b(i, k) == x.second, "(%ld, %ld) of the copied band", i, k); CHECK(c(i, k) == x.second, "(%ld, %ld) of the assigned band", i, k); }
  for (int t = 0; t < 8; ++t) { long i = rt::range(-1, n0), k = rt::range(-l - 2, r + 2); const il::BandArray2C<double>& ca = *a; bool z = rt::aborts([&] { (void)ca(i, k); }); CHECK(z == !ok(i, k), "(%ld, %ld) of the band %s", i, k, z ? "aborts" : "returns"); }
  delete a;
}
static void tri() {
  long n = rt::range(1, 9); tr("TriDiagonal(%ld)", n); il::TriDiagonal<double> a(n); M m; long v = 1; CHECK(a.size() == n, "size");
  for (long i = 0; i < n; ++i) for (long k = -1; k <= 1; ++k) { a(i, k) = v; m[{i, k}] = v++; }
  il::TriDiagonal<double> b(a), c(rt::range(1, 9)); c = b;
  for (auto& x : m) { long i = x.first.first, k = x.first.second; CHECK(a(i, k) == x.second, "(%ld, %ld)", i, k); CHECK(b(i, k) == x.second, "(%ld, %ld) of the copy", i, k); CHECK(c(i, k) == x.second, "(%ld, %ld) of the assigned copy", i, k); }
  CHECK(a.DiagonalData() == &a(0, 0) && a.UpperData() == &a(0, 1), "diagonals"); if (n > 1) CHECK(a.LowerData() == &a(1, -1), "lower diagonal");
  for (int t = 0; t < 6; ++t) { long i = rt::range(-1, n), k = rt::range(-2, 2); bool z = rt::aborts([&] { (void)a(i, k); }); CHECK(z == !(0 <= i && i < n && -1 <= k && k <= 1), "(%ld, %ld) %s", i, k, z ? "aborts" : "returns"); }
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) switch (rt::pick(6)) {
    case 0: Tria<il::LowerArray2D<double>, double, true>::go(); break; case 1: Tria<il::LowerArray2D<Tr>, Tr, true>::go(); break;
    case 2: Tria<il::UpperArray2D<double>, double, false>::go(); break; case 3: Tria<il::UpperArray2D<Tr>, Tr, false>::go(); break;
    case 4: band(); break; default: tri();
  }
  return rt::finish();
}
