// Random histories of pushes, pops and reservations against std::deque.
#include "rt.h"
#include <deque>
#include <initializer_list>
#include <il/Array.h>
#include <il/container/deque/Deque.h>
#include <string>
using rt::tr;
template <typename T> struct Val;
template <> struct Val<double> { static double get() { return rt::range(-50, 50) * 0.5; } };
template <> struct Val<std::string> { static std::string get() { return std::string(rt::pick(40), char('a' + rt::pick(26))); } };
template <typename T> struct Run {
  typedef std::deque<T> M;
  static void same(const il::Deque<T>& q, const M& m, long cap, const char* w) {
    CHECK(q.size() == long(m.size()), "%s: size %ld, expected %ld", w, long(q.size()), long(m.size()));
    CHECK(q.capacity() == cap, "%s: capacity %ld, expected %ld", w, long(q.capacity()), cap);
    if (m.size()) { CHECK(q.front() == m.front(), "%s: front", w); CHECK(q.back() == m.back(), "%s: back", w); }
    il::Deque<T> c(q); for (size_t i = 0; i < m.size(); ++i) { CHECK(c.front() == m[i], "%s: element %ld", w, long(i)); c.PopFront(); }
    CHECK(c.size() == 0, "%s: elements left", w);
  }
  static void go() {
    long cap = rt::pick(6); il::Deque<T>* q; M m;
    if (rt::coin()) { tr("Deque(%ld)", cap); q = new il::Deque<T>(cap); } else { tr("Deque(); Reserve(%ld)", cap); q = new il::Deque<T>(); q->Reserve(cap); }
    same(*q, m, cap, "construction"); int ops = rt::pick(30);
    for (int t = 0; t < ops; ++t) {
      int op = rt::pick(7); long n = m.size(); bool full = n == cap, empty = n == 0, z = false; T x = Val<T>::get(); const T* p = &x; bool self = !empty && rt::coin(5); if (self) { x = m.front(); p = &q->Front(); }
      switch (op) {
        case 0: tr("PushBack%s", self ? " (own front)" : ""); z = rt::aborts([&] { q->PushBack(*p); }); CHECK(z == full, "PushBack with %ld of %ld %s", n, cap, z ? "aborts" : "returns"); if (!full) m.push_back(x); break;
        case 1: tr("PushFront%s", self ? " (own front)" : ""); z = rt::aborts([&] { q->PushFront(*p); }); CHECK(z == full, "PushFront with %ld of %ld %s", n, cap, z ? "aborts" : "returns"); if (!full) m.push_front(x); break;
        case 2: tr("PushBack(emplace)"); z = rt::aborts([&] { q->PushBack(il::emplace, *p); }); CHECK(z == full, "PushBack(emplace) with %ld of %ld %s", n, cap, z ? "aborts" : "returns"); if (!full) m.push_back(x); break;
        case 3: tr("PushFront(emplace)"); z = rt::aborts([&] { q->PushFront(il::emplace, *p); }); CHECK(z == full, "PushFront(emplace) with %ld of %ld %s", n, cap, z ? "aborts" : "returns"); if (!full) m.push_front(x); break;
        case 4: tr("PopFront"); z = rt::aborts([&] { q->PopFront(); }); CHECK(z == empty, "PopFront of %ld %s", n, z ? "aborts" : "returns"); if (!empty) m.pop_front(); break;
        case 5: tr("PopBack"); z = rt::aborts([&] { q->PopBack(); }); CHECK(z == empty, "PopBack of %ld %s", n, z ? "aborts" : "returns"); if (!empty) m.pop_back(); break;
        default: { tr("copy, assign"); il::Deque<T> c(*q); il::Deque<T> d(rt::pick(4)); if (d.capacity() && rt::coin()) d.PushBack(x); d = c; same(d, m, cap, "assigned copy"); same(c, m, cap, "copy"); if (!empty) { if (rt::coin()) { q->Front() = x; m.front() = x; } else { q->Back() = x; m.back() = x; } } }
      }
      same(*q, m, cap, "after the operation");
    }
    delete q;
  }
};
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { if (rt::coin()) Run<double>::go(); else Run<std::string>::go(); }
  return rt::finish();
}
