// Guarded text pointers, for the analysis. Never run.
#include <new>
#include <char_encoding.h>
#include <utf8_ptr.h>
#include <char_ptr.h>
typedef const char* C;
#define COMMON(X, T) \
C X##_cstr(const T& p) { return p; } \
void X##_ctor(T* m, C s) { new(m) T(s); } \
void X##_ctor0(T* m) { new(m) T(); } \
void X##_copy(T* m, const T& p) { new(m) T(p); } \
void X##_copym(T* m, T& p) { new(m) T(p); } \
void X##_assign(T* m, const T& p) { *m = p; } \
bool X##_eof(T& p) { return p.at_eof(); } \
C X##_preincr(T& p) { T& q = ++p; return &q == &p ? (C)p : 0; } \
void X##_postincr(T* m, T& p) { new(m) T(p++); } \
C X##_predecr(T& p) { auto& q = --p; return (void*)&q == (void*)&p ? (C)p : 0; } \
void X##_postdecr(T* m, T& p) { new(m) T(p--); } \
C X##_preincrf(T& p) { T& q = p.preincr(); return &q == &p ? (C)p : 0; } \
void X##_postincrf(T* m, T& p) { new(m) T(p.postincr()); } \
C X##_predecrf(T& p) { auto& q = p.predecr(); return (void*)&q == (void*)&p ? (C)p : 0; } \
void X##_postdecrf(T* m, T& p) { new(m) T(p.postdecr()); } \
C X##_pluseq(T& p, int i) { T& q = p += i; return &q == &p ? (C)p : 0; } \
void X##_minuseq(T* m, T& p, int i) { new(m) T(p -= i); } \
void X##_plus(T* m, T& p, int i) { new(m) T(p + i); } \
void X##_minus(T* m, T& p, int i) { new(m) T(p - i); } \
long X##_diff(T& p, T& q) { return p - q; } \
long X##_diffc(T& p, C q) { return p - q; }
#define CHARS(X, T) COMMON(X, T) char X##_deref(const T& p) { return *p; }
#define UTF(X, T) COMMON(X, T) UCS4 X##_deref(T& p) { return *p; } int X##_len(T& p) { return p.len(); } bool X##_1st(T& p) { return p.is1st(); } \
bool X##_1sts(C s) { return T::is1st(s); } int X##_lenof(UCS4 ch) { return T::len(ch); }
extern "C" {
CHARS(a, UnGuardedCharPtr)
CHARS(b, NulGuardedCharPtr)
CHARS(c, GuardedCharPtr)
UTF(d, NulGuardedUTF8Ptr)
UTF(e, GuardedUTF8Ptr)
bool c_bot(GuardedCharPtr& p) { return p.at_bot(); }
bool e_bot(GuardedUTF8Ptr& p) { return p.at_bot(); }
}
