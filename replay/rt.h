// Runtime of the replay drivers: deterministic random source, trace of the executed calls, interception of il::abort,
// element type that tracks construction and destruction, leak accounting.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace rt {
static char buf[1 << 16];
static size_t pos = 0, wrapped = 0;
static const char* pid = "";
static unsigned long long seed = 1, steps = 0, episodes = 0;
static double limit = 30;
static time_t t0;
static void reset() { pos = 0; wrapped = 0; }
static void tr(const char* f, ...) {
  char line[400]; va_list ap; va_start(ap, f); int n = vsnprintf(line, sizeof line - 2, f, ap); va_end(ap);
  if (n < 0) return; if (n > 396) n = 396; line[n++] = '\n'; ++steps;
  if (pos + n > sizeof buf) { pos = 0; wrapped = 1; }
  memcpy(buf + pos, line, n); pos += n;
}
static void dump() {
  fprintf(stdout, "calls of the failing history (seed %llu, episode %llu)%s:\n", seed, episodes, wrapped ? ", oldest calls dropped" : "");
  size_t st = 0; if (pos > 5000) { st = pos - 5000; while (st < pos && buf[st] != '\n') ++st; ++st; }
  fwrite(buf + st, 1, pos - st, stdout); fflush(stdout);
}
__attribute__((noreturn)) static void fail(const char* f, ...) {
  dump(); va_list ap; va_start(ap, f); fprintf(stdout, "VIOLATED: "); vfprintf(stdout, f, ap); fprintf(stdout, "\n"); va_end(ap); fflush(stdout); _exit(1);
}
static sigjmp_buf jb; static volatile int armed = 0;
static void onabort(int) {
  if (armed) { armed = 0; siglongjmp(jb, 1); }
  dump(); fprintf(stdout, "VIOLATED: the program aborts on a legal call\n"); fflush(stdout); _exit(1);
}
static void ondeath() { dump(); }
template <typename F> static bool aborts(F f) {
  if (sigsetjmp(jb, 1) == 0) { armed = 1; f(); armed = 0; return false; }
  return true;
}
static uint64_t s = 1;
static uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static long pick(long n) { return n <= 0 ? 0 : long(next() % uint64_t(n)); }
static long range(long a, long b) { return a + pick(b - a + 1); }
static bool coin(int n = 2) { return pick(n) == 0; }
static void init(int argc, char** argv, double quick = 25, double thorough = 60) {
  pid = argc > 1 ? argv[1] : ""; seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1; s = seed * 7919 + 13;
  limit = (argc > 3 && !strcmp(argv[3], "thorough")) ? thorough : quick; t0 = time(0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onabort; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, 0);
  __sanitizer_set_death_callback(ondeath); setvbuf(stdout, 0, _IOFBF, 1 << 16);
}
static bool more() { ++episodes; reset(); return difftime(time(0), t0) < limit; }
static bool is(const char* p) { return !strcmp(pid, p); }
static int finish() { printf("no failing input: %llu histories, %llu calls\n", episodes, steps); fflush(stdout); return 0; }
// ---- ghost liveness
static const size_t NL = 1 << 20;
static const void* tab[NL]; static long nlive = 0;
static size_t slot(const void* p) { return (size_t(p) >> 3) * 0x9E3779B97F4A7C15ull >> 44; }
static bool live(const void* p) { for (size_t i = slot(p) & (NL - 1);; i = (i + 1) & (NL - 1)) { if (tab[i] == p) return true; if (!tab[i]) return false; } }
static void born(const void* p, const char* w) {
  if (live(p)) fail("%s on storage that already holds a live element", w);
  size_t i = slot(p) & (NL - 1); while (tab[i] && tab[i] != (void*)1) i = (i + 1) & (NL - 1);
  tab[i] = p; ++nlive;
}
static void died(const void* p) {
  for (size_t i = slot(p) & (NL - 1); tab[i]; i = (i + 1) & (NL - 1)) if (tab[i] == p) { tab[i] = (void*)1; --nlive;
    if (!tab[(i + 1) & (NL - 1)]) { for (size_t j = i; tab[j] == (void*)1; j = (j - 1) & (NL - 1)) tab[j] = 0; } return; }
  fail("destruction of an element that is not alive");
}
static void use(const void* p, const char* w) { if (!live(p)) fail("%s an element that is not alive", w); }
}  // namespace rt
#define CHECK(c, ...) do { if (!(c)) rt::fail(__VA_ARGS__); } while (0)
static const long kMoved = 1L << 40;
struct Tr {
  long v; long w;
  Tr() { rt::born(this, "default construction"); v = -7; w = 0; }
  explicit Tr(long x) { rt::born(this, "construction"); v = x; w = 0; }
  Tr(const Tr& o) { rt::use(&o, "copying from"); long x = o.v; rt::born(this, "copy construction"); v = x; w = 0; }
  Tr(Tr&& o) { rt::use(&o, "moving from"); long x = o.v; rt::born(this, "move construction"); v = x; w = 0; o.v = kMoved; }
  Tr& operator=(const Tr& o) { rt::use(&o, "assigning from"); rt::use(this, "assigning to"); v = o.v; return *this; }
  Tr& operator=(Tr&& o) { rt::use(&o, "move-assigning from"); rt::use(this, "move-assigning to"); long x = o.v; o.v = kMoved; v = x; return *this; }
  ~Tr() { rt::died(this); }
};
inline bool operator==(const Tr& a, const Tr& b) { rt::use(&a, "comparing"); rt::use(&b, "comparing"); return a.v == b.v; }
struct S24 { long a, b, c; };
inline bool operator==(const S24& x, const S24& y) { return x.a == y.a; }
template <typename T> struct El { static T make(long x) { return T(x); } static long get(const T& t) { return long(t); } static const bool obj = false; static const char* name() { return "number"; } };
template <> struct El<Tr> { static Tr make(long x) { return Tr(x); } static long get(const Tr& t) { rt::use(&t, "reading"); return t.v; } static const bool obj = true; static const char* name() { return "class type"; } };
template <> struct El<S24> { static S24 make(long x) { S24 r = {x, x, x}; return r; } static long get(const S24& t) { return t.a; } static const bool obj = false; static const char* name() { return "24-byte struct"; } };
namespace il { template <typename T> T defaultValue(); template <> inline S24 defaultValue<S24>() { S24 r = {0, 0, 0}; return r; } }
