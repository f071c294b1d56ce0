#include <string>
#include <initializer_list>
#include <il/String.h>
#include <il/container/string/algorithmString.h>
typedef il::String S; typedef il::StringView V; typedef il::StringType T;
#define LIT(m) \
void s_lit##m(S* a, const char (*s)[m]) { new (a) S(*s); } \
void s_tlit##m(S* a, int t, const char (*s)[m]) { new (a) S(T(t), *s); } \
void* s_asglit##m(S* a, const char (*s)[m]) { return &(*a = *s); } \
void s_applit##m(S* a, const char (*s)[m]) { a->Append(*s); } \
void s_apptlit##m(S* a, int t, const char (*s)[m]) { a->Append(T(t), *s); } \
void v_lit##m(V* r, const char (*s)[m]) { new (r) V(*s); }
extern "C" {
extern const long K_string[]; const long K_string[] = {(long)sizeof(S), (long)sizeof(V), (long)offsetof(V, data_), (long)offsetof(V, size_), (long)offsetof(V, type_)};
LIT(1) LIT(6) LIT(23) LIT(24) LIT(40)
void s_ctor0(S* a) { new (a) S(); }
void s_ctorchar(S* a, char c) { new (a) S(c); }
void s_ctordata(S* a, int t, const char* s, il::int_t n) { new (a) S(T(t), s, n); }
void s_ctorview(S* a, const V* v) { new (a) S(*v); }
void s_ctorcopy(S* a, const S* b) { new (a) S(*b); }
void s_ctormove(S* a, S* b) { new (a) S(std::move(*b)); }
void* s_assign(S* a, const S* b) { return &(*a = *b); }
void* s_moveassign(S* a, S* b) { return &(*a = std::move(*b)); }
void s_dtor(S* a) { a->~String(); }
il::int_t s_size(const S* a) { return a->size(); }
il::int_t s_capacity(const S* a) { return a->capacity(); }
int s_type(const S* a) { return int(a->type()); }
bool s_isempty(const S* a) { return a->isEmpty(); }
bool s_issmall(const S* a) { return a->isSmall(); }
bool s_isutf8(const S* a) { return a->isUtf8(); }
bool s_isascii(const S* a) { return a->isAscii(); }
const char* s_data(const S* a) { return a->data(); }
const char* s_cstr(const S* a) { return a->asCString(); }
char* s_Data(S* a) { return a->Data(); }
void s_reserve(S* a, il::int_t r) { a->Reserve(r); }
void s_clear(S* a) { a->Clear(); }
void s_appchar(S* a, char c) { a->Append(c); }
void s_apprune(S* a, int r) { a->Append(r); }
void s_appnchar(S* a, il::int_t n, char c) { a->Append(n, c); }
void s_appnrune(S* a, il::int_t n, int r) { a->Append(n, r); }
void s_appdata(S* a, int t, const char* s, il::int_t n) { a->Append(T(t), s, n); }
void s_appview(S* a, const V* v) { a->Append(*v); }
void s_appview2(S* a, const V* v, const V* w) { a->Append(*v, *w); }
void s_appview3(S* a, const V* v, const V* w, const V* x) { a->Append(*v, *w, *x); }
void s_appstr(S* a, const S* b) { a->Append(*b); }
void s_substring(S* r, const S* a, il::int_t i, il::int_t j) { new (r) S(a->substring(i, j)); }
void s_subview(V* r, const S* a, il::int_t i, il::int_t j) { new (r) V(a->subview(i, j)); }
void s_view(V* r, const S* a) { new (r) V(a->view()); }
void s_asview(V* r, const S* a) { new (r) V(*a); }
void s_join2(S* r, const V* a, const V* b) { new (r) S(il::join(*a, *b)); }
void s_join3(S* r, const V* a, const V* b, const V* c) { new (r) S(il::join(*a, *b, *c)); }
void s_join4(S* r, const V* a, const V* b, const V* c, const V* d) { new (r) S(il::join(*a, *b, *c, *d)); }
void s_join5(S* r, const V* a, const V* b, const V* c, const V* d, const V* e) { new (r) S(il::join(*a, *b, *c, *d, *e)); }
void s_join6(S* r, const V* a, const V* b, const V* c, const V* d, const V* e, const V* f) { new (r) S(il::join(*a, *b, *c, *d, *e, *f)); }
// comparison and search
bool s_eqss(const S* a, const S* b) { return *a == *b; }
bool s_eqcs(const char* a, const S* b) { return a == *b; }
bool s_eqsc(const S* a, const char* b) { return *a == b; }
bool s_neqcs(const char* a, const S* b) { return a != *b; }
bool s_neqsc(const S* a, const char* b) { return *a != b; }
bool s_isequal(const S* a, const char* b) { return a->isEqual(b); }
bool s_isequaln(const S* a, const char* b, il::int_t n) { return a->isEqual(b, n); }
bool s_startswith(const S* a, const V* v) { return a->startsWith(*v); }
bool s_endswith(const S* a, const V* v) { return a->endsWith(*v); }
bool s_endswithc(const S* a, char c) { return a->endsWith(c); }
il::int_t s_count(const S* a, char c) { return a->count(c); }
il::int_t s_search(const S* a, const V* v) { return a->search(*v); }
bool s_boundary(const S* a, il::int_t i) { return a->isRuneBoundary(i); }
// views
void v_ctor0(V* r) { new (r) V(); }
void v_ctor(V* r, int t, const char* s, il::int_t n) { new (r) V(T(t), s, n); }
il::int_t v_size(const V* a) { return a->size(); }
bool v_isempty(const V* a) { return a->isEmpty(); }
int v_type(const V* a) { return int(a->type()); }
const char* v_data(const V* a) { return a->data(); }
const char* v_cstr(const V* a) { return a->asCString(); }
bool v_eqc(const V* a, const char* s) { return *a == s; }
const char* v_at(const V* a, il::int_t i) { return &(*a)[i]; }
const char* v_back(const V* a, il::int_t i) { return &a->back(i); }
bool v_hasspace(const V* a, il::int_t i) { return a->hasSpace(i); }
bool v_hasdigit(const V* a, il::int_t i) { return a->hasDigit(i); }
bool v_hashexa(const V* a, il::int_t i) { return a->hasHexaDecimal(i); }
bool v_hasnewline(const V* a, il::int_t i) { return a->hasNewLine(i); }
bool v_startsdigit(const V* a) { return a->startsWithDigit(); }
bool v_startsnewline(const V* a) { return a->startsWithNewLine(); }
il::int_t v_nextchar(const V* a, il::int_t i, char c) { return a->nextChar(i, c); }
il::int_t v_nextdigit(const V* a, il::int_t i) { return a->nextDigit(i); }
void v_removeprefix(V* a, il::int_t i) { a->removePrefix(i); }
void v_removesuffix(V* a, il::int_t i) { a->removeSuffix(i); }
void v_trimprefix(V* a) { a->trimPrefix(); }
void v_subview(V* r, const V* a, il::int_t i, il::int_t j) { new (r) V(a->subview(i, j)); }
int v_rune(const V* a, il::int_t i) { return a->rune(i); }
il::int_t v_nextrune(const V* a, il::int_t i) { return a->nextRune(i); }
il::int_t v_search(const V* a, const V* b) { return il::search(*a, *b); }
il::int_t v_count(char c, const V* a) { return il::count(c, *a); }
void v_remws(V* r, const V* a) { new (r) V(il::removeWhitespaceLeft(*a)); }
void v_view(V* r, const char* s) { new (r) V(il::view(s)); }
bool u_isrune(int r) { return il::isRune(r); }
bool u_isascii(const char* s, il::int_t n) { return il::isAscii(s, n); }
// encode then decode: the code point is appended, then read back from the view of the string
int u_roundtrip(S* a, int r) { const il::int_t n = a->size(); a->Append(r); return a->view().rune(n); }
il::int_t u_step(S* a, int r) { const il::int_t n = a->size(); a->Append(r); return a->view().nextRune(n) - n; }
}
