#include <il/core.h>
#include <il/core/math/safe_arithmetic.h>
#include <il/math.h>
#define F2(sfx, T, name, f) extern "C" T sfx##_##name(T a, T b, bool* e) { return il::f(a, b, il::io, *e); }
#define SIGNED(sfx, T) F2(sfx, T, sum, safeSum) F2(sfx, T, diff, safeDifference) F2(sfx, T, prod, safeProduct) F2(sfx, T, div, safeDivision) F2(sfx, T, round, safeUpperRound) \
extern "C" T sfx##_prod3(T a, T b, T c, bool* e) { return il::safeProduct(a, b, c, il::io, *e); } \
extern "C" T sfx##_prod4(T a, T b, T c, T d, bool* e) { return il::safeProduct(a, b, c, d, il::io, *e); }
#define UNSIGNED(sfx, T) F2(sfx, T, sum, safeSum) F2(sfx, T, prod, safeProduct)
SIGNED(i, int) SIGNED(l, long) SIGNED(ll, long long)
UNSIGNED(ui, unsigned) UNSIGNED(ul, unsigned long) UNSIGNED(ull, unsigned long long)
#define CONV(sfx, U, S) \
extern "C" S sfx##_u2s(U a, bool* e) { return il::safeConvert<S>(a, il::io, *e); } \
extern "C" U sfx##_s2u(S a, bool* e) { return il::safeConvert<U>(a, il::io, *e); }
CONV(i, unsigned, int) CONV(l, unsigned long, long) CONV(ll, unsigned long long, long long)
extern "C" long l_prod2(long a, bool* e) { return il::safeProduct2Positive(a, il::io, *e); }
extern "C" {
unsigned prev32(unsigned x) { return il::previous_power_of_2_32(x); }
unsigned next32(unsigned x) { return il::next_power_of_2_32(x); }
std::uint64_t prev64(std::uint64_t x) { return il::previous_power_of_2_64(x); }
std::uint64_t next64(std::uint64_t x) { return il::next_power_of_2_64(x); }
int nlog64(std::size_t x) { return il::nextLog2(x); }
int nlog32(unsigned x) { return il::next_log2_32(x); }
int abs_i(int x) { return il::abs(x); }
il::int_t abs_l(il::int_t x) { return il::abs(x); }
il::int_t floor_i(il::int_t a, int b) { return il::floor(a, b); }
il::int_t floor_l(il::int_t a, il::int_t b) { return il::floor(a, b); }
int ipow_i(int x, il::int_t n) { return il::ipow<int>(x, n); }
il::int_t ipow_l(il::int_t x, il::int_t n) { return il::ipow<il::int_t>(x, n); }
}
#define IP(n) extern "C" int ipow_i_##n(int x) { return il::ipow<n>(x); } extern "C" il::int_t ipow_l_##n(il::int_t x) { return il::ipow<n>(x); }
IP(0) IP(1) IP(2) IP(3) IP(4) IP(5) IP(6) IP(7) IP(8) IP(9) IP(10) IP(11) IP(12) IP(13) IP(14) IP(15) IP(16) IP(17) IP(20) IP(24) IP(29) IP(30) IP(31) IP(32)
