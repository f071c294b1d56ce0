#include <string>
#include <il/String.h>
#include <il/container/string/unicode.h>
typedef il::UTF16String U; typedef il::String S;
extern "C" {
extern const long K_utf16[]; const long K_utf16[] = {(long)sizeof(U)};
void x_ctor0(U* a) { new (a) U(); }
void x_ctorcstr(U* a, const char16_t* s) { new (a) U(s); }
void x_ctorcopy(U* a, const U* b) { new (a) U(*b); }
void x_ctormove(U* a, U* b) { new (a) U(std::move(*b)); }
void* x_assign(U* a, const U* b) { return &(*a = *b); }
void* x_moveassign(U* a, U* b) { return &(*a = std::move(*b)); }
void x_dtor(U* a) { a->~UTF16String(); }
il::int_t x_size(const U* a) { return a->size(); }
il::int_t x_capacity(const U* a) { return a->capacity(); }
bool x_issmall(const U* a) { return a->isSmall(); }
bool x_isempty(const U* a) { return a->isEmpty(); }
const unsigned short* x_data(const U* a) { return a->data(); }
const char16_t* x_wstr(const U* a) { return a->asWString(); }
void x_reserve(U* a, il::int_t r) { a->Reserve(r); }
void x_appstr(U* a, const U* b) { a->Append(*b); }
void x_appcstr(U* a, const char16_t* s) { a->Append(s); }
void x_appchar(U* a, char c) { a->Append(c); }
void x_apprune(U* a, int r) { a->Append(r); }
void x_appnchar(U* a, il::int_t n, char c) { a->Append(n, c); }
il::int_t x_nextrune(const U* a, il::int_t i) { return a->nextRune(i); }
int x_rune(const U* a, il::int_t i) { return a->rune(i); }
bool x_eq(const U* a, const U* b) { return *a == *b; }
bool x_valid(const U* a, int r) { return a->validRune(r); }
int x_roundtrip(U* a, int r) { const il::int_t n = a->size(); a->Append(r); return a->rune(n); }
il::int_t x_step(U* a, int r) { const il::int_t n = a->size(); a->Append(r); return a->nextRune(n) - n; }
}
