// Random histories over il::String, il::StringView and il::UTF16String against std::string; all code points through both encodings.
#include "rt.h"
#include <il/String.h>
#include <il/container/string/algorithmString.h>
#include <il/container/string/unicode.h>
using rt::tr;
typedef il::String S; typedef il::StringView V; typedef il::StringType T; typedef il::UTF16String U; typedef std::string M; typedef std::u16string W;
static const long odd[] = {-1, -2, 1L << 31, 1L << 32, (1L << 62), -(1L << 62), LONG_MIN, LONG_MAX};
static T ty() { return T(32 * rt::pick(4)); }
static T mx(T a, T b) { if ((int)a == 255 || (int)b == 255) return T(255); return (int)a > (int)b ? a : b; }
static bool valid(long r) { return 0 <= r && r <= 0x10FFFF && !(0xD800 <= r && r <= 0xDFFF); }
static M enc(int r) {
  M m; if (r < 0x80) m += char(r); else if (r < 0x800) { m += char(0xC0 | r >> 6); m += char(0x80 | (r & 63)); } else if (r < 0x10000) { m += char(0xE0 | r >> 12); m += char(0x80 | (r >> 6 & 63)); m += char(0x80 | (r & 63)); }
  else { m += char(0xF0 | r >> 18); m += char(0x80 | (r >> 12 & 63)); m += char(0x80 | (r >> 6 & 63)); m += char(0x80 | (r & 63)); } return m;
}
static W enc16(int r) { W w; if (r < 0x10000) w += char16_t(r); else { r -= 0x10000; w += char16_t(0xD800 | r >> 10); w += char16_t(0xDC00 | (r & 1023)); } return w; }
static int rrune() { for (;;) { static const long e[] = {0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF}; long r = rt::coin() ? e[rt::pick(10)] : rt::coin() ? rt::pick(0x10000) : rt::pick(0x110000); if (valid(r)) return r; } }
static long len() { return rt::coin(5) ? rt::pick(80) : rt::coin() ? rt::range(18, 28) : rt::pick(12); }
static M bytes(long n) { M m; for (long i = 0; i < n; ++i) m += char(rt::coin(4) ? rt::range(-128, 127) : rt::range('a', 'c')); return m; }
static V view(const M& m, T t) { return V(t, m.data(), m.size()); }
struct Hist {
  S* a[3]; M m[3]; T t[3]; long cap[3];
  void check() {
    for (int k = 0; k < 3; ++k) {
      const S& c = *a[k]; CHECK(c.size() == (long)m[k].size(), "string %d: size %ld, expected %zu", k, (long)c.size(), m[k].size()); CHECK(c.capacity() >= c.size() && c.capacity() >= 22, "string %d: capacity %ld", k, (long)c.capacity());
      CHECK(c.data() == c.asCString() && c.data() == a[k]->Data(), "string %d: data()", k); CHECK(!memcmp(c.data(), m[k].data(), m[k].size()), "string %d: the bytes differ from the expected ones", k);
      CHECK(c.data()[m[k].size()] == 0, "string %d is not terminated", k); if (cap[k] >= 0) CHECK(c.capacity() == cap[k], "string %d: capacity %ld, expected %ld", k, (long)c.capacity(), cap[k]); cap[k] = c.capacity();
      const char* p = c.data(); bool in = p >= (const char*)&c && p < (const char*)(&c + 1); CHECK(in == c.isSmall() && in == (cap[k] == 22), "string %d: capacity %ld held %s", k, cap[k], in ? "inline" : "on the heap");
      CHECK(c.isEmpty() == m[k].empty(), "isEmpty"); if ((int)t[k] != 255) CHECK(c.type() == t[k], "string %d: kind %d, expected %d", k, (int)c.type(), (int)t[k]); t[k] = c.type();
    }
  }
  void make(int k) {
    void* p = a[k]; M b = bytes(len()); t[k] = ty(); m[k] = b;
    switch (rt::pick(6)) {
      case 0: tr("s%d: String()", k); new (p) S(); m[k].clear(); t[k] = T::Ascii; break;
      case 1: tr("s%d: String('x')", k); new (p) S('x'); m[k] = "x"; t[k] = T::Ascii; break;
      case 2: tr("s%d: String(type %d, data, %zu)", k, (int)t[k], b.size()); new (p) S(t[k], b.data(), b.size()); break;
      case 3: tr("s%d: String(view of %zu bytes)", k, b.size()); new (p) S(view(b, t[k])); break;
      case 4: if (rt::coin()) { tr("s%d: String(\"hello\")", k); new (p) S("hello"); m[k] = "hello"; } else { tr("s%d: String(\"...23 bytes...\")", k); new (p) S("abcdefghijklmnopqrstuvw"); m[k] = "abcdefghijklmnopqrstuvw"; } t[k] = T::Utf8; break;
      default: tr("s%d: String(default view)", k); new (p) S(V()); m[k].clear(); t[k] = T::Ascii;
    }
    cap[k] = -1;
  }
  void step() {
    int k = rt::pick(3), q = rt::pick(3); S& x = *a[k]; long oc = x.capacity(), n = len(); M b = bytes(rt::coin(6) ? 0 : n); T u = ty(); M o = m[k];
    bool al = rt::coin(3) && !o.empty(); long j = rt::pick(o.size() + 1), l = rt::pick(o.size() - j + 1); V own(u, x.data() + j, al ? l : 0); M om = o.substr(j, l);
    switch (rt::pick(20)) {
      case 0: tr("s%d: destroy", k); x.~S(); make(k); break;
      case 1: if (k == q) break; tr("s%d: destroy, String(s%d)", k, q); x.~S(); new (&x) S(*a[q]); m[k] = m[q]; t[k] = t[q]; cap[k] = -1; break;
      case 2: if (k == q) break; tr("s%d: destroy, String(move s%d)", k, q); x.~S(); new (&x) S(std::move(*a[q])); m[k] = m[q]; t[k] = t[q]; cap[k] = -1; m[q] = M(a[q]->data(), a[q]->size()); t[q] = T(255); cap[q] = -1; break;
      case 3: tr("s%d = s%d", k, q); x = *a[q]; m[k] = m[q]; t[k] = t[q]; cap[k] = -1; break;
      case 4: tr("s%d = move(s%d)", k, q); x = std::move(*a[q]); if (k == q) break; m[k] = m[q]; t[k] = t[q]; cap[k] = -1; m[q] = M(a[q]->data(), a[q]->size()); t[q] = T(255); cap[q] = -1; break;
      case 5: if (rt::coin()) { tr("s%d = \"world\"", k); x = "world"; m[k] = "world"; } else { tr("s%d = \"...23 bytes...\"", k); x = "abcdefghijklmnopqrstuvw"; m[k] = "abcdefghijklmnopqrstuvw"; } t[k] = T::Utf8; cap[k] = -1; break;
      case 6: tr("s%d.Reserve(%ld)", k, n); x.Reserve(n); cap[k] = n <= oc ? oc : -1; CHECK(x.capacity() >= n, "capacity after Reserve(%ld)", n); break;
      case 7: if (rt::coin(3)) { tr("s%d.Clear()", k); x.Clear(); m[k].clear(); t[k] = T(255); } break;
      case 8: case 9: tr("s%d.Append('q')", k); x.Append('q'); m[k] += 'q'; break;
      case 10: { int r = rrune(); tr("s%d.Append(U+%X)", k, r); x.Append(r); m[k] += enc(r); t[k] = T(255); break; }
      case 11: tr("s%d.Append(%ld, 'r')", k, n); x.Append(n, 'r'); m[k] += M(n, 'r'); break;
      case 12: { int r = rrune(); tr("s%d.Append(%ld, U+%X)", k, n, r); x.Append(n, r); for (long i = 0; i < n; ++i) m[k] += enc(r); t[k] = T(255); break; }
      case 13: if (rt::coin()) { tr("s%d.Append(\"lit\")", k); x.Append("lit"); m[k] += "lit"; t[k] = mx(t[k], T::Utf8); } else { tr("s%d.Append(type, \"...23 bytes...\")", k); x.Append(u, "abcdefghijklmnopqrstuvw"); m[k] += "abcdefghijklmnopqrstuvw"; t[k] = mx(t[k], u); } break;
      case 14: if (al) { tr("s%d.Append(type %d, its own bytes %ld, %ld)", k, (int)u, j, l); x.Append(u, x.data() + j, l); m[k] += om; } else { tr("s%d.Append(type %d, %zu bytes)", k, (int)u, b.size()); x.Append(u, b.data(), b.size()); m[k] += b; } t[k] = mx(t[k], u); break;
      case 15: { V v = al ? own : view(b, u); tr("s%d.Append(%s view of %ld)", k, al ? "own" : "other", (long)v.size()); x.Append(v); m[k] += al ? om : b; t[k] = mx(t[k], u); break; }
      case 16: { V v = al ? own : view(b, u), w = rt::coin() ? v : view(o, u); M wm = &*w.data() == v.data() ? (al ? om : b) : o; if (w.size() != (long)wm.size()) { w = v; wm = al ? om : b; } tr("s%d.Append(view of %ld%s, view of %ld)", k, (long)v.size(), al ? " own" : "", (long)w.size()); x.Append(v, w); m[k] += (al ? om : b) + wm; t[k] = mx(t[k], u); break; }
      case 17: { V v = al ? own : view(b, u); tr("s%d.Append(view of %ld%s, view of %zu, the first again)", k, (long)v.size(), al ? " own" : "", o.size()); x.Append(v, view(o, u), v); M vm = al ? om : b; m[k] += vm + o + vm; t[k] = mx(t[k], u); break; }
      case 18: tr("s%d.Append(s%d)", k, q); { M qm = m[q]; T qt = t[q]; x.Append(*a[q]); m[k] += qm; t[k] = mx(t[k], qt); } break;
      default: { tr("join"); V v = view(o, u), w = view(b, T::Ascii); S r2 = il::join(v, w), r3 = il::join(v, w, v), r4 = il::join(v, w, w, v), r5 = il::join(v, w, v, w, v), r6 = il::join(v, w, v, w, v, w); const S* rs[] = {&r2, &r3, &r4, &r5, &r6}; M ms[] = {o + b, o + b + o, o + b + b + o, o + b + o + b + o, o + b + o + b + o + b};
        for (int i = 0; i < 5; ++i) CHECK(rs[i]->size() == (long)ms[i].size() && !memcmp(rs[i]->data(), ms[i].data(), ms[i].size()) && rs[i]->data()[ms[i].size()] == 0 && rs[i]->type() == u, "join of %d", i + 2); }
    }
    if ((long)m[k].size() <= oc && cap[k] == oc) cap[k] = oc; else if ((long)m[k].size() > oc) cap[k] = -1;
    if (m[k].size() > 3000) { x.Clear(); m[k].clear(); t[k] = T(255); }
    check();
  }
  void run() { for (int k = 0; k < 3; ++k) { a[k] = (S*)::operator new(sizeof(S)); make(k); } check(); int n = rt::range(1, 40); for (int i = 0; i < n; ++i) step(); for (int k = 0; k < 3; ++k) { tr("s%d: destroy", k); a[k]->~S(); ::operator delete(a[k]); } }
};
static void exactview(const M& m, T t, char*& mem, V& v) { mem = (char*)malloc(m.size() ? m.size() : 1); memcpy(mem, m.data(), m.size()); v = V(t, mem, m.size()); }
static void search() {
  M a, b; long na = rt::coin() ? rt::pick(8) : len(), nb = rt::coin() ? rt::pick(4) : len(); int al = rt::range(1, 3); for (long i = 0; i < na; ++i) a += char(rt::coin(20) ? -3 : 'a' + rt::pick(al)); for (long i = 0; i < nb; ++i) b += char('a' + rt::pick(al));
  if (rt::coin(3)) b = a; if (rt::coin(4) && na) b = a.substr(rt::pick(na)); if (rt::coin(4)) b = a.substr(0, rt::pick(na + 1)); if (rt::coin(6) && b.size()) b[b.size() - 1] ^= 1; if (rt::coin(8) && b.size()) b[rt::pick(b.size())] ^= 3;
  tr("a = \"%s\", b = \"%s\"", a.c_str(), b.c_str()); T t = ty(); char *ma, *mb; V va, vb; exactview(a, t, ma, va); exactview(b, t, mb, vb); char* cb = strdup(b.c_str()); S x(t, a.data(), a.size()), y(t, b.data(), b.size()); if (rt::coin()) x.Reserve(40); if (rt::coin()) y.Reserve(40); bool e = a == b;
  CHECK((x == y) == e, "a == b is %d", !e); CHECK((x == (const char*)cb) == e && ((const char*)cb == x) == e && (x != (const char*)cb) == !e && ((const char*)cb != x) == !e, "comparison with a C string"); CHECK((va == (const char*)cb) == e, "view == C string");
  CHECK(x.isEqual(cb) == e, "isEqual(C string)"); CHECK(x.isEqual(mb, b.size()) == e, "isEqual(bytes, n)"); bool pre = b.size() <= a.size() && !a.compare(0, b.size(), b), suf = b.size() <= a.size() && !a.compare(a.size() - b.size(), b.size(), b);
  CHECK(x.startsWith(vb) == pre, "startsWith is %d", !pre); CHECK(x.endsWith(vb) == suf, "endsWith is %d", !suf); char c = 'a' + rt::pick(3); CHECK(x.endsWith(c) == (!a.empty() && a.back() == c), "endsWith('%c')", c);
  long f = (long)a.find(b); CHECK(x.search(vb) == f, "search gives %ld, expected %ld", (long)x.search(vb), f); CHECK(il::search(vb, va) == f, "il::search gives %ld, expected %ld", (long)il::search(vb, va), f); CHECK(il::search(y, x) == f && il::search((const char*)cb, va) == f, "il::search"); 
  long n = 0; for (char d : a) n += d == c; CHECK(x.count(c) == n, "count gives %ld, expected %ld", (long)x.count(c), n); CHECK(il::count(c, va) == n, "il::count"); CHECK(il::view(cb).size() == (long)strlen(cb), "il::view");
  long i = rt::pick(a.size() + 2), r = -1; for (long j = i; j < (long)a.size(); ++j) if (a[j] == c) { r = j; break; } CHECK(va.nextChar(i, c) == r, "nextChar(%ld) gives %ld, expected %ld", i, (long)va.nextChar(i, c), r);
  free(ma); free(mb); free(cb);
}
static void access() {
  M m; long n = rt::coin(8) ? 0 : rt::coin() ? rt::pick(6) : len(); for (long i = 0; i < n; ++i) m += " \t\n\r\f\v019aFgG~\x80\xC3\xBF/:@`"[rt::pick(21)]; T t = rt::coin() ? T::Byte : ty(); char* mem; V v; exactview(m, t, mem, v); if (!n && rt::coin()) v = V(); S x(t, m.data(), n); const char* d = v.data(); CHECK(v.size() == n && v.isEmpty() == !n, "size of a view");
  long i = rt::coin(3) ? odd[rt::pick(8)] : rt::range(-2, n + 2), j = rt::coin(4) ? odd[rt::pick(8)] : rt::range(-1, n + 1); bool ok = 0 <= i && i < n; tr("view of %ld bytes, position %ld", n, i); unsigned char c = ok ? m[i] : 0; const char* p = 0; bool b = false, ab;
  ab = rt::aborts([&] { p = &v[i]; }); CHECK(ab == !ok, "v[%ld] of %ld %s", i, n, ab ? "aborts" : "returns"); if (ok) CHECK(p == d + i, "v[%ld] at the wrong address", i);
  ab = rt::aborts([&] { p = &v.back(i); }); CHECK(ab == !ok, "v.back(%ld) of %ld %s", i, n, ab ? "aborts" : "returns"); if (ok) CHECK(p == d + n - 1 - i, "v.back(%ld) at the wrong address", i);
  struct { const char* w; bool (V::*f)(il::int_t) const; bool r; } fs[] = {{"hasSpace", &V::hasSpace, c == 32 || (9 <= c && c <= 13)}, {"hasDigit", &V::hasDigit, '0' <= c && c <= '9'}, {"hasHexaDecimal", &V::hasHexaDecimal, ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')}, {"hasNewLine", &V::hasNewLine, c == '\n' || (c == '\r' && i + 1 < n && m[i + 1] == '\n')}};
  for (auto& f : fs) { ab = rt::aborts([&] { b = (v.*f.f)(i); }); CHECK(ab == !ok, "%s(%ld) of %ld bytes %s", f.w, i, n, ab ? "aborts" : "returns"); if (ok) CHECK(b == f.r, "%s(%ld) is %d for byte %d", f.w, i, b, c); }
  ab = rt::aborts([&] { b = v.startsWithDigit(); }); CHECK(ab == !n, "startsWithDigit of %ld bytes", n); if (n) CHECK(b == ('0' <= m[0] && m[0] <= '9'), "startsWithDigit");
  bool legal = 0 <= i && i <= j && j <= n; V r; tr("subview(%ld, %ld) of %ld", i, j, n); ab = rt::aborts([&] { r = v.subview(i, j); }); CHECK(ab == !legal, "subview(%ld, %ld) of %ld bytes %s", i, j, n, ab ? "aborts" : "returns"); if (legal) CHECK(r.size() == j - i && r.data() == d + i, "subview(%ld, %ld) is not the range", i, j);
  bool u8 = t == T::Utf8; auto bd = [&](long k) { return k == n || (m[k] & 0xC0) != 0x80; }; S s; bool may = legal && u8 && !(bd(i) && bd(j)); ab = rt::aborts([&] { r = x.subview(i, j); }); CHECK(legal ? may || !ab : ab, "String::subview(%ld, %ld) of %ld bytes %s", i, j, n, ab ? "aborts" : "returns"); if (legal && !ab) CHECK(r.size() == j - i && r.data() == x.data() + i, "String::subview(%ld, %ld)", i, j);
  ab = rt::aborts([&] { s = x.substring(i, j); }); CHECK(legal ? may || !ab : ab, "substring(%ld, %ld) of %ld bytes %s", i, j, n, ab ? "aborts" : "returns"); if (legal && !ab) CHECK(s.size() == j - i && !memcmp(s.data(), m.data() + i, j - i) && s.type() == t, "substring(%ld, %ld)", i, j);
  bool ok1 = 0 <= i && i <= n; V w = v; ab = rt::aborts([&] { w.removePrefix(i); }); CHECK(ab == !ok1, "removePrefix(%ld) of %ld", i, n); if (ok1) CHECK(w.data() == d + i && w.size() == n - i, "removePrefix(%ld)", i); w = v; ab = rt::aborts([&] { w.removeSuffix(i); }); CHECK(ab == !ok1, "removeSuffix(%ld) of %ld", i, n); if (ok1) CHECK(w.data() == d && w.size() == i, "removeSuffix(%ld)", i);
  V z = x.view(), y = x; CHECK(z.data() == x.data() && z.size() == n && y.data() == x.data() && y.size() == n && z.type() == t, "view of a string"); long k = 0; while (k < n && (m[k] == ' ' || m[k] == '\t')) ++k; w = v; w.trimPrefix(); CHECK(w.data() == d + k && w.size() == n - k, "trimPrefix"); w = il::removeWhitespaceLeft(v); CHECK(w.data() == d + k && w.size() == n - k, "removeWhitespaceLeft");
  k = rt::pick(n + 1); long e = k; while (e < n && !(m[e] >= '0' && m[e] <= '9')) ++e; CHECK(v.nextDigit(k) == (e < n ? e : -1), "nextDigit(%ld)", k); free(mem);
}
static void unicode() {
  for (int rep = 0; rep < 400; ++rep) {
    long r = rt::coin() ? rrune() : rt::coin() ? rt::range(-5, 0x110005) : rt::range(0xD7F0, 0xE010); bool ok = valid(r); CHECK(il::isRune(r) == ok, "isRune(0x%lX)", r); U probe; CHECK(probe.validRune(r) == ok, "validRune(0x%lX)", r);
    S s; U u; M m; W w; long g = rt::pick(25); for (long i = 0; i < g; ++i) { s.Append('x'); u.Append('x'); m += 'x'; w += u'x'; } tr("Append(0x%lX) at %ld", r, g); bool ab = rt::aborts([&] { s.Append((int)r); }), ab2 = rt::aborts([&] { u.Append((int)r); }); CHECK(ab == !ok && ab2 == !ok, "Append(0x%lX) %s", r, ab ? "aborts" : "returns"); if (!ok) continue;
    m += enc(r); w += enc16(r); CHECK(s.size() == (long)m.size() && !memcmp(s.data(), m.data(), m.size()), "UTF-8 form of U+%lX", r); CHECK(u.size() == (long)w.size() && !memcmp(u.data(), w.data(), 2 * w.size()) && u.data()[w.size()] == 0, "UTF-16 form of U+%lX", r);
    V v = s.view(); CHECK(v.rune(g) == r, "U+%lX is decoded as %X", r, v.rune(g)); CHECK(v.nextRune(g) == (long)m.size(), "step after U+%lX is %ld", r, (long)v.nextRune(g) - g); CHECK(u.rune(g) == r && u.nextRune(g) == (long)w.size(), "UTF-16 decoding of U+%lX", r); int q = rrune(); s.Append(q); u.Append(q); v = s.view(); CHECK(v.nextRune(g) == (long)m.size() && v.rune(m.size()) == q && u.rune(w.size()) == q, "code point after U+%lX", r); long c = rt::pick(6); S s1; s1.Append(c, (int)r); CHECK(s1.size() == c * (long)enc(r).size(), "repeated U+%lX", r); for (long i = 0; i < c; ++i) CHECK(!memcmp(s1.data() + i * enc(r).size(), enc(r).data(), enc(r).size()), "repeated U+%lX", r);
    U t16 = il::toUtf16(s); S t8 = il::toUtf8(u); CHECK(t16 == u && t8 == s, "conversion between the encodings of U+%lX", r); U uc(u), um; um = u; CHECK(uc == u && um == u, "copy"); um = std::move(uc); CHECK(um == u, "move"); um.Append(u); CHECK(um.size() == 2 * u.size(), "append"); um.Append(um); CHECK(um.size() == 4 * u.size() && !memcmp(um.data() + 3 * u.size(), u.data(), 2 * u.size()), "append to itself");
  }
}
template <typename F> void ep(F f) { size_t b = __sanitizer_get_current_allocated_bytes(); f(); size_t e = __sanitizer_get_current_allocated_bytes(); CHECK(b == e, "%ld bytes of storage leaked (or released twice)", (long)(e - b)); }
int main(int argc, char** argv) {
  rt::init(argc, argv); bool h = !rt::is("C16") && !rt::is("C17") && !rt::is("C05") && !rt::is("C06"), u = rt::is("C16"), q = rt::is("C17"), x = rt::is("C05") || rt::is("C06");
  while (rt::more()) { if (u) { ep([] { unicode(); }); continue; } if (q && rt::coin()) { ep([] { search(); }); continue; } if ((x || q)) { ep([] { access(); }); continue; } ep([] { Hist t; t.run(); }); }
  return rt::finish();
}
