// Allocation requests of every size class and alignment; sizes that cannot exist must stop the program.
#include "rt.h"
#include <il/core/memory/allocate.h>
struct S12 { int a, b, c; }; struct S16 { long a, b; }; struct S40 { long a[5]; };
template <typename T> void one() {
  static const long huge[] = {1L << 32, 1L << 46, 1L << 47, (1L << 58) + 1, (1L << 59) + 1, (1L << 60) - 1, (1L << 60) + 1, (1L << 61) + 1, 1L << 61, 1L << 62, (1L << 62) + 3, LONG_MAX, LONG_MAX - 7, LONG_MAX / 8, LONG_MAX / (long)sizeof(T) + 1, long(ULONG_MAX / sizeof(T)), long(ULONG_MAX / sizeof(T)) + 1, long(ULONG_MAX / sizeof(T)) + 2};
  long es = sizeof(T), al = alignof(T), n;
  bool big = rt::coin(4); n = big ? huge[rt::pick(sizeof huge / sizeof *huge)] : rt::coin() ? rt::pick(8) : rt::pick(5000);
  if (rt::coin(30)) n = -rt::range(1, 5);
  if (n >= (1L << 32) && (unsigned __int128)n * es < ((unsigned __int128)1 << 47)) n = 3;
  bool impossible = n < 0 || n > 100000;
  T* p = 0; il::int_t shift = -1;
  if (rt::coin()) {
    rt::tr("allocateArray<%ld bytes>(%ld)", es, n);
    bool ab = rt::aborts([&] { p = il::allocateArray<T>(n); });
    if (impossible) CHECK(ab, "a request for %ld elements of %ld bytes returns", n, es); else { CHECK(!ab, "a request for %ld elements of %ld bytes aborts", n, es); if (n) { memset((void*)p, 1, n * es); } il::deallocate(p); }
  } else {
    long m = al * (1 + rt::pick(rt::coin() ? 4 : 64)); if (rt::coin()) m = al << rt::pick(8); long r = al * rt::pick(m / al);
    rt::tr("allocateArray<%ld bytes>(%ld, %ld, %ld)", es, n, r, m);
    bool ab = rt::aborts([&] { p = il::allocateArray<T>(n, r, m, il::io, shift); });
    if (impossible) { CHECK(ab, "a request for %ld elements of %ld bytes returns", n, es); return; }
    if (ab) { CHECK(es > al, "a request for %ld elements aligned on %ld modulo %ld aborts", n, r, m); return; }
    CHECK(size_t(p) % size_t(m) == size_t(r), "address %% %ld = %zu, expected %ld", m, size_t(p) % size_t(m), r); CHECK(shift >= 0, "negative shift");
    if (n) memset((void*)p, 1, n * es);
    il::deallocate(p - shift);
  }
}
int main(int argc, char** argv) {
  rt::init(argc, argv, 15, 45); if (!freopen("/dev/null", "w", stderr)) return 99;
  while (rt::more()) { size_t b = __sanitizer_get_current_allocated_bytes(); (void)b; switch (rt::pick(8)) { case 0: one<char>(); break; case 1: one<short>(); break; case 2: one<int>(); break; case 3: one<double>(); break; case 4: one<S12>(); break; case 5: one<S16>(); break; case 6: one<S24>(); break; default: one<S40>(); } }
  return rt::finish();
}
