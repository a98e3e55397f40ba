// Errors: a number with its text and parameters, by reference
#include <new>
#include <error.h>
extern "C" {
unsigned long s_err() { return sizeof(Error); }
void x_new(Error* e, int n, const char* d, const void* p) { new (e) Error(n, d, p); }
void x_only(Error* e, int n) { new (e) Error(n); }
void x_num(Error* e, int n, const char* d) { new (e) Error(ErrNum(n), d); }
void x_none(Error* e) { new (e) Error(); }
void x_copy(Error* e, const Error* o) { new (e) Error(*o); }
const Error* x_assign(Error* e, const Error* o) { return &(*e = *o); }
void x_un(Error* e) { e->~Error(); }
int x_err(const Error* e) { return e->operator ErrNum(); }
int x_int(const Error* e) { return e->operator int32_t(); }
const char* x_text(const Error* e) { return e->default_text(); }
const void* x_params(const Error* e) { return e->parameters(); }
}
