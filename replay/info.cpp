// Random histories of il::Info and il::Status against an association list and a three-field model.
#include "rt.h"
#include <il/Status.h>
#include <string>
using rt::tr;
struct Rec { std::string k; int t; long i; double d; std::string s; };
struct M { std::vector<Rec> r; };
static std::string word() { static const char* w[] = {"", "a", "ab", "abc", "b", "key", "keys", "\xc3\xa9", "source_file"}; return rt::coin(4) ? std::string(rt::pick(60), 'x') : w[rt::pick(9)]; }
static const Rec* find(const M& m, const std::string& k) { for (auto& r : m.r) if (r.k == k) return &r; return 0; }
template <typename I> static void same(I& x, const M& m, const char* w) {
  std::vector<std::string> ks; for (int t = 0; t < 4; ++t) ks.push_back(word()); for (auto& r : m.r) ks.push_back(r.k);
  for (auto& k : ks) {
    const Rec* r = find(m, k); tr("%s: read \"%s\"", w, k.c_str());
    long v = 0; double d = 0; std::string s; bool z;
    z = rt::aborts([&] { v = x.toInteger(k.c_str()); }); CHECK(z == !(r && r->t == 0), "toInteger(\"%s\") %s", k.c_str(), z ? "aborts" : "returns"); if (!z) CHECK(v == r->i, "integer of \"%s\": %ld, stored %ld", k.c_str(), v, r->i);
    z = rt::aborts([&] { d = x.toDouble(k.c_str()); }); CHECK(z == !(r && r->t == 1), "toDouble(\"%s\") %s", k.c_str(), z ? "aborts" : "returns"); if (!z) CHECK(d == r->d, "double of \"%s\"", k.c_str());
    z = rt::aborts([&] { s = x.asCString(k.c_str()); }); CHECK(z == !(r && r->t == 2), "asCString(\"%s\") %s", k.c_str(), z ? "aborts" : "returns"); if (!z) CHECK(s == r->s, "string of \"%s\"", k.c_str());
  }
}
static Rec rec() { Rec r; r.k = word(); r.t = rt::pick(3); r.i = rt::coin() ? rt::pick(100) - 50 : long(0x8000000000000000UL >> rt::pick(64)); r.d = rt::range(-50, 50) * 0.37; r.s = word(); return r; }
static void putInfo(il::Info& x, Rec& r) {
  if (r.t == 0) { if (rt::coin()) { r.i = int(r.i); tr("Set(\"%s\", int %ld)", r.k.c_str(), r.i); x.Set(r.k.c_str(), int(r.i)); } else { tr("Set(\"%s\", int_t %ld)", r.k.c_str(), r.i); x.Set(r.k.c_str(), il::int_t(r.i)); } }
  else if (r.t == 1) { tr("Set(\"%s\", double)", r.k.c_str()); x.Set(r.k.c_str(), r.d); }
  else { tr("Set(\"%s\", \"%s\")", r.k.c_str(), r.s.c_str()); x.Set(r.k.c_str(), r.s.c_str()); }
}
static void goInfo() {
  long base = __sanitizer_get_current_allocated_bytes();
  { il::Info a, b; M ma, mb; 
  }
  {
    il::Info* a = new il::Info(); M ma; int ops = rt::pick(14); M mb; il::Info* b = new il::Info();
    for (int t = 0; t < ops; ++t) {
      switch (rt::pick(9)) {
        case 0: case 1: case 2: case 3: { Rec r = rec(); if (find(ma, r.k)) break; putInfo(*a, r); ma.r.push_back(r); break; }
        case 4: tr("a = b"); *a = *b; ma = mb; break;
        case 5: tr("a = move(b)"); *a = std::move(*b); ma = mb; delete b; b = new il::Info(); mb.r.clear(); break;
        case 6: { tr("b' (copy of a)"); il::Info* c = new il::Info(*a); delete b; b = c; mb = ma; break; }
        case 7: { tr("move construct from b"); il::Info* c = new il::Info(std::move(*b)); delete b; b = c; break; }
        default: if (rt::coin()) { tr("clear"); a->clear(); ma.r.clear(); } else { tr("a = a"); il::Info& q = *a; *a = q; }
      }
      CHECK(a->isEmpty() == ma.r.empty(), "isEmpty"); same(*a, ma, "a"); same(*b, mb, "b");
    }
    delete a; delete b;
  }
  CHECK(__sanitizer_get_current_allocated_bytes() == size_t(base), "%ld bytes leaked", long(__sanitizer_get_current_allocated_bytes() - base));
}
struct St { alignas(8) unsigned char raw[sizeof(il::Status)]; il::Status* s; bool ok, chk; int e; M m; };
static void init(St& x) { x.s = new (x.raw) il::Status(); x.ok = true; x.chk = false; x.e = int(il::Error::Undefined); x.m.r.clear(); }
static void goStatus() {
  St v[2]; init(v[0]); init(v[1]); int ops = rt::pick(20); bool z;
  for (int t = 0; t < ops; ++t) {
    St &a = v[rt::pick(2)], &b = v[0].s == a.s ? v[1] : v[0];
    switch (rt::pick(9)) {
      case 0: tr("SetOk"); z = rt::aborts([&] { a.s->SetOk(); }); CHECK(z == a.chk, "SetOk on a%schecked status %s", a.chk ? "n un" : " ", z ? "aborts" : "returns"); if (!z) { a.ok = true; a.chk = true; } break;
      case 1: { static const il::Error es[] = {il::Error::ParseInt, il::Error::Unimplemented, il::Error::FilesystemFileNotFound, il::Error::MatrixSingular}; il::Error e = es[rt::pick(4)]; tr("SetError(%d)", int(e)); z = rt::aborts([&] { a.s->SetError(e); }); CHECK(z == a.chk, "SetError %s", z ? "aborts" : "returns"); if (!z) { a.ok = false; a.chk = true; a.e = int(e); a.m.r.clear(); } break; }
      case 2: tr("Rearm"); z = rt::aborts([&] { a.s->Rearm(); }); CHECK(z == a.chk, "Rearm %s", z ? "aborts" : "returns"); a.chk = true; break;
      case 3: { bool r = false; tr("Ok"); z = rt::aborts([&] { r = a.s->Ok(); }); CHECK(z == !a.chk, "Ok of a%schecked status %s", a.chk ? "n un" : " ", z ? "aborts" : "returns"); if (!z) CHECK(r == a.ok, "Ok() is %d", int(r)); a.chk = false; break; }
      case 4: tr("IgnoreError"); z = rt::aborts([&] { a.s->IgnoreError(); }); CHECK(z == !a.chk, "IgnoreError %s", z ? "aborts" : "returns"); a.chk = false; break;
      case 5: if (a.chk && !a.ok) break; tr("AbortOnError"); z = rt::aborts([&] { a.s->AbortOnError(); }); CHECK(z == !a.chk, "AbortOnError %s", z ? "aborts" : "returns"); a.chk = false; break;
      case 6: { Rec r = rec(); if (find(a.m, r.k)) break; bool bad = !a.chk || a.ok; tr("SetInfo(\"%s\")", r.k.c_str()); if (r.t == 0 && rt::coin()) { r.i = int(r.i); z = rt::aborts([&] { a.s->SetInfo(r.k.c_str(), int(r.i)); }); } else z = rt::aborts([&] { if (r.t == 0) a.s->SetInfo(r.k.c_str(), il::int_t(r.i)); else if (r.t == 1) a.s->SetInfo(r.k.c_str(), r.d); else a.s->SetInfo(r.k.c_str(), r.s.c_str()); }); CHECK(z == bad, "SetInfo %s", z ? "aborts" : "returns"); if (!bad) a.m.r.push_back(r); break; }
      case 7: { tr("a = move(b)"); z = rt::aborts([&] { *a.s = std::move(*b.s); }); CHECK(z == a.chk, "move assignment to a%schecked status %s", a.chk ? "n un" : " ", z ? "aborts" : "returns"); if (z) break; if (!b.chk) { a.s->IgnoreError(); a.chk = false; } else a.chk = true; a.ok = b.ok; a.e = b.e; a.m = b.m; b.chk = false; b.m = a.m; break; }
      default: { tr("destroy, construct"); z = rt::aborts([&] { a.s->~Status(); }); CHECK(z == a.chk, "destruction of a%schecked status %s", a.chk ? "n un" : " ", z ? "aborts" : "returns"); if (!z) { init(a); if (rt::coin()) { tr("move construct"); a.s->~Status(); a.s = new (a.raw) il::Status(std::move(*b.s)); if (!b.chk) { a.s->IgnoreError(); a.chk = false; } else a.chk = true; a.ok = b.ok; a.e = b.e; a.m = b.m; b.chk = false; } } }
    }
    for (int i = 0; i < 2; ++i) {
      int e = 0; z = rt::aborts([&] { e = int(v[i].s->error()); }); CHECK(z == v[i].chk, "error() %s", z ? "aborts" : "returns"); if (!z && !v[i].ok) CHECK(e == v[i].e, "error is %d, set was %d", e, v[i].e);
      if (!v[i].ok) same(*v[i].s, v[i].m, "status");
    }
  }
  for (int i = 0; i < 2; ++i) { if (v[i].chk) v[i].s->IgnoreError(); v[i].s->~Status(); }
}
int main(int argc, char** argv) {
  rt::init(argc, argv);
  while (rt::more()) { if (rt::coin()) goInfo(); else goStatus(); }
  return rt::finish();
}
