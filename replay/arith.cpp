// Checked arithmetic and integer helpers against 128-bit arithmetic on boundary and random operands.
#include "rt.h"
#include <limits>
#include <type_traits>
#include <il/core.h>
#include <il/core/math/safe_arithmetic.h>
#include <il/math.h>
typedef __int128 W;
static const char* str(W x) { static char b[8][64]; static int k = 0; char* p = b[k++ & 7] + 63; *p = 0; bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x; do { *--p = '0' + int(u % 10); u /= 10; } while (u); if (n) *--p = '-'; return p; }
template <typename T> T gen() {
  typedef std::numeric_limits<T> L; W lo = L::min(), hi = L::max(); int bits = sizeof(T) * 8; W v;
  switch (rt::pick(6)) {
    case 0: v = lo + rt::pick(4); break; case 1: v = hi - rt::pick(4); break; case 2: v = rt::range(-4, 4); break;
    case 3: v = (W(1) << rt::pick(bits)) + rt::range(-2, 2); break; case 4: v = -(W(1) << rt::pick(bits)) + rt::range(-2, 2); break;
    default: v = W(int64_t(rt::next())) >> rt::pick(bits); }
  if (rt::coin(6)) { W d = rt::range(1, 3000); v = hi / d + rt::range(-1, 1); if (rt::coin() && lo < 0) v = -v; }
  return T(v < lo ? lo : v > hi ? hi : v);
}
template <typename T> bool rep(W x) { return x >= W(std::numeric_limits<T>::min()) && x <= W(std::numeric_limits<T>::max()); }
template <typename T> void verdict(const char* f, W a, W b, W ex, bool legal, T r, bool err, bool complete = true) {
  bool ok = legal && rep<T>(ex);
  CHECK(err || ok, "%s(%s, %s): success on an unrepresentable result", f, str(a), str(b));
  if (complete) CHECK(!err || !ok, "%s(%s, %s): error although the result %s is representable", f, str(a), str(b), str(ex));
  CHECK(err || W(r) == ex, "%s(%s, %s) = %s, expected %s", f, str(a), str(b), str(r), str(ex));
}
template <typename T> void common() {
  T a = gen<T>(), b = gen<T>(); bool e = rt::coin();
  rt::tr("operands %s %s (%zu bytes)", str(a), str(b), sizeof(T));
  { T r = il::safeSum(a, b, il::io, e); verdict<T>("safeSum", a, b, W(a) + b, true, r, e); }
  { W p; bool big = __builtin_mul_overflow(W(a), W(b), &p); e = rt::coin(); T r = il::safeProduct(a, b, il::io, e); verdict<T>("safeProduct", a, b, p, !big, r, e); }
}
template <typename T> void sgn() {
  common<T>(); T a = gen<T>(), b = gen<T>(), c = gen<T>(), d = gen<T>(); bool e = rt::coin();
  rt::tr("operands %s %s %s %s (%zu bytes)", str(a), str(b), str(c), str(d), sizeof(T));
  { T r = il::safeDifference(a, b, il::io, e); verdict<T>("safeDifference", a, b, W(a) - b, true, r, e); }
  { e = rt::coin(); T r = il::safeDivision(a, b, il::io, e); verdict<T>("safeDivision", a, b, b ? W(a) / b : 0, b != 0, r, e); }
  if (rt::coin()) { a = T(gen<T>() >> rt::pick(sizeof(T) * 8)); b = T(rt::range(-9, 9)); c = T(rt::range(-9, 9)); d = T(rt::range(-9, 9)); }
  { e = rt::coin(); W ab, abc; bool o = !rep<T>(ab = W(a) * b) ; bool o2 = __builtin_mul_overflow(ab, W(c), &abc); T r = il::safeProduct(a, b, c, il::io, e); verdict<T>("safeProduct of three", a, b, abc, !o2, r, e, !o); }
  { e = rt::coin(); W ab = W(a) * b, cd = W(c) * d, x; bool o = !rep<T>(ab) || !rep<T>(cd); bool o2 = __builtin_mul_overflow(ab, cd, &x); T r = il::safeProduct(a, b, c, d, il::io, e); verdict<T>("safeProduct of four", ab, cd, x, !o2, r, e, !o); }
  if (a < 0) a = ~a; if (b < 0) b = ~b; if (b == 0) b = 1;
  { e = rt::coin(); W ex = (W(a) + b - 1) / b * b; T r = il::safeUpperRound(a, b, il::io, e); verdict<T>("safeUpperRound", a, b, ex, true, r, e); }
}
template <typename S, typename U> void conv() {
  S s = gen<S>(); U u = gen<U>(); bool e = rt::coin(); rt::tr("convert %s / %s", str(s), str(u));
  { U r = il::safeConvert<U>(s, il::io, e); verdict<U>("safeConvert to unsigned", s, 0, s, true, r, e); }
  { e = rt::coin(); S r = il::safeConvert<S>(u, il::io, e); verdict<S>("safeConvert to signed", u, 0, u, true, r, e); }
}
template <il::int_t N, typename T> void stat(T x) { W p = 1; for (int i = 0; i < N; ++i) { if (__builtin_mul_overflow(p, W(x), &p) || !rep<T>(p)) return; } rt::tr("ipow<%d>(%s)", int(N), str(x)); T r = il::ipow<N>(x); CHECK(W(r) == p, "ipow<%d>(%s) = %s, expected %s", int(N), str(x), str(r), str(p)); }
template <typename T> void pw() {
  T x = rt::coin() ? gen<T>() : T(rt::range(-40, 40)); long n = rt::coin(5) ? long(rt::next() >> 1) : rt::pick(66); W p = 1; bool ok = true;
  if (x == 0 || x == 1 || x == -1) p = x == 0 ? n == 0 : x == 1 ? 1 : (n & 1) ? -1 : 1; else for (long i = 0; i < n && ok; ++i) ok = !__builtin_mul_overflow(p, W(x), &p) && rep<T>(p);
  if (ok) { rt::tr("ipow(%s, %ld)", str(x), n); T r = il::ipow<T>(x, il::int_t(n)); CHECK(W(r) == p, "ipow(%s, %ld) = %s, expected %s", str(x), n, str(r), str(p)); }
  x = rt::coin() ? T(rt::range(-9, 9)) : gen<T>();
  stat<0>(x); stat<1>(x); stat<2>(x); stat<3>(x); stat<4>(x); stat<5>(x); stat<6>(x); stat<7>(x); stat<8>(x); stat<9>(x); stat<10>(x); stat<11>(x); stat<12>(x); stat<13>(x); stat<14>(x); stat<15>(x); stat<16>(x); stat<17>(x); stat<20>(x); stat<24>(x); stat<29>(x); stat<30>(x); stat<31>(x); stat<32>(x);
}
template <typename T> bool pow2(T r) { return r != 0 && (r & (r - 1)) == 0; }
static void helpers() {
  { int a = gen<int>(); if (a != INT_MIN) { rt::tr("abs(%d)", a); CHECK(il::abs(a) == (a < 0 ? -a : a), "abs(%d)", a); } il::int_t b = gen<long>(); if (b != LONG_MIN) { rt::tr("abs(%ld)", b); CHECK(il::abs(b) == (b < 0 ? -b : b), "abs(%ld)", (long)b); } }
  { il::int_t a = gen<long>(); if (a < 0) a = ~a; int b = gen<int>(); if (b <= 0) b = -(b + 1) / 2 + 1; il::int_t c = gen<long>(); if (c <= 0) c = -(c + 1) / 2 + 1; rt::tr("floor(%ld, %d), floor(%ld, %ld)", (long)a, b, (long)a, (long)c); CHECK(il::floor(a, b) == a - a % b, "floor(%ld, %d) = %ld", (long)a, b, (long)il::floor(a, b)); CHECK(il::floor(a, c) == a - a % c, "floor(%ld, %ld) = %ld", (long)a, (long)c, (long)il::floor(a, c)); }
  { unsigned x = gen<unsigned>(); if (x) { rt::tr("32-bit helpers of %u", x); unsigned p = il::previous_power_of_2_32(x); CHECK(pow2(p) && p <= x && p > x / 2, "previous_power_of_2_32(%u) = %u", x, p); }
    if (x && x <= 1u << 31) { unsigned p = il::next_power_of_2_32(x); CHECK(pow2(p) && p >= x && (p == 1 || p / 2 < x), "next_power_of_2_32(%u) = %u", x, p); }
    if (x <= 1u << 31) { int k = il::next_log2_32(x); CHECK(k >= 0 && k < 32 && (1u << k) >= x && (k == 0 || (1u << (k - 1)) < x), "next_log2_32(%u) = %d", x, k); } }
  { unsigned long x = gen<unsigned long>(); if (x) { rt::tr("64-bit helpers of %lu", x); unsigned long p = il::previous_power_of_2_64(x); CHECK(pow2(p) && p <= x && p > x / 2, "previous_power_of_2_64(%lu) = %lu", x, p); }
    if (x && x <= 1ul << 63) { unsigned long p = il::next_power_of_2_64(x); CHECK(pow2(p) && p >= x && (p == 1 || p / 2 < x), "next_power_of_2_64(%lu) = %lu", x, p); }
    if (x <= 1ul << 63) { int k = il::nextLog2(x); CHECK(k >= 0 && k < 64 && (1ul << k) >= x && (k == 0 || (1ul << (k - 1)) < x), "nextLog2(%lu) = %d", x, k); } }
}
int main(int argc, char** argv) {
  rt::init(argc, argv, 20, 60);
  while (rt::more()) for (int i = 0; i < 200; ++i) {
    rt::reset();
    if (rt::is("C24")) { pw<int>(); pw<il::int_t>(); helpers(); continue; }
    sgn<int>(); sgn<long>(); sgn<long long>(); common<unsigned>(); common<unsigned long>(); common<unsigned long long>();
    conv<int, unsigned>(); conv<long, unsigned long>(); conv<long long, unsigned long long>();
    long a = gen<long>(); if (a < 0) a = ~a; bool e = rt::coin(); rt::tr("safeProduct2Positive(%ld)", a); long r = il::safeProduct2Positive(a, il::io, e); verdict<long>("safeProduct2Positive", a, 2, W(a) * 2, true, r, e);
  }
  return rt::finish();
}
