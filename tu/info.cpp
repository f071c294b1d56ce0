#include <new>
#include <utility>
#include <il/Info.h>
#include <il/Status.h>
typedef il::Info I; typedef il::Status S;
extern "C" {
extern const long K_info[]; const long K_info[] = {(long)sizeof(I), (long)sizeof(S), (long)offsetof(S, ok_), (long)offsetof(S, to_check_), (long)offsetof(S, error_), (long)offsetof(S, info_)};
void i_ctor0(I* a) { new (a) I(); }
void i_ctorcopy(I* a, const I* b) { new (a) I(*b); }
void i_ctormove(I* a, I* b) { new (a) I(std::move(*b)); }
void* i_assign(I* a, const I* b) { return &(*a = *b); }
void* i_moveassign(I* a, I* b) { return &(*a = std::move(*b)); }
void i_dtor(I* a) { a->~I(); }
bool i_isempty(const I* a) { return a->isEmpty(); }
void i_clear(I* a) { a->clear(); }
void i_setint(I* a, const char* k, int v) { a->Set(k, v); }
void i_setinteger(I* a, const char* k, il::int_t v) { a->Set(k, v); }
void i_setdouble(I* a, const char* k, double v) { a->Set(k, v); }
void i_setstring(I* a, const char* k, const char* v) { a->Set(k, v); }
il::int_t i_search(const I* a, const char* k) { return a->search(k); }
bool i_found(const I* a, il::int_t i) { return a->found(i); }
bool i_isinteger(const I* a, il::int_t i) { return a->isInteger(i); }
bool i_isdouble(const I* a, il::int_t i) { return a->isDouble(i); }
bool i_isstring(const I* a, il::int_t i) { return a->isString(i); }
il::int_t i_tointeger(const I* a, il::int_t i) { return a->toInteger(i); }
double i_todouble(const I* a, il::int_t i) { return a->toDouble(i); }
const char* i_ascstring(const I* a, il::int_t i) { return a->asCString(i); }
il::int_t i_ktointeger(const I* a, const char* k) { return a->toInteger(k); }
double i_ktodouble(const I* a, const char* k) { return a->toDouble(k); }
const char* i_kascstring(const I* a, const char* k) { return a->asCString(k); }
void t_ctor0(S* a) { new (a) S(); }
void t_ctormove(S* a, S* b) { new (a) S(std::move(*b)); }
void* t_moveassign(S* a, S* b) { return &(*a = std::move(*b)); }
void t_dtor(S* a) { a->~S(); }
void t_setok(S* a) { a->SetOk(); }
void t_seterror(S* a, int e) { a->SetError(il::Error(e)); }
void t_setint(S* a, const char* k, int v) { a->SetInfo(k, v); }
void t_setinteger(S* a, const char* k, il::int_t v) { a->SetInfo(k, v); }
void t_setdouble(S* a, const char* k, double v) { a->SetInfo(k, v); }
void t_setstring(S* a, const char* k, const char* v) { a->SetInfo(k, v); }
void t_source(S* a, const char* f, il::int_t l) { a->setSource(f, l); }
il::int_t t_tointeger(const S* a, const char* k) { return a->toInteger(k); }
double t_todouble(const S* a, const char* k) { return a->toDouble(k); }
const char* t_ascstring(const S* a, const char* k) { return a->asCString(k); }
void t_rearm(S* a) { a->Rearm(); }
bool t_ok(S* a) { return a->Ok(); }
void t_abort(S* a) { a->AbortOnError(); }
void t_ignore(S* a) { a->IgnoreError(); }
int t_error(const S* a) { return int(a->error()); }
int e_domain(int e) { return int(il::domain(il::Error(e))); }
}
