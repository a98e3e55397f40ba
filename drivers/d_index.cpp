// Arrays and strings whose Index can count no more than 255 or 65535
#include <new>
#include <cstdint>
#include <array.h>
#include <strval.h>

#define ARRAY(X, E, I) \
using X = Array<E, I>; \
unsigned long s_##X() { return sizeof(X); } \
void X##_new(X* a, const E* p, int n, int room) { new (a) X(p, n, room); } \
void X##_none(X* a) { new (a) X(); } \
void X##_un(X* a) { a->~X(); } \
void X##_copy(X* a, const X* b) { new (a) X(*b); } \
long X##_length(const X* a) { return a->length(); } \
E X##_get(const X* a, int i) { return (*a)[i]; } \
const E* X##_elements(const X* a) { return a->asElements(); } \
void X##_push(X* a, const E* e) { a->push(*e); } \
void X##_unshift(X* a, const E* e) { a->unshift(*e); } \
void X##_append(X* a, const X* b) { a->append(*b); } \
void X##_add(X* a, const X* b) { *a += *b; } \
void X##_plus(X* r, const X* a, const X* b) { new (r) X(*a + *b); } \
void X##_pluse(X* r, const X* a, const E* e) { new (r) X(*a + *e); } \
void X##_insert(X* a, int at, const X* b) { a->insert(at, *b); } \
void X##_remove(X* a, int at, int n) { a->remove(at, n); } \
void X##_sub(X* r, const X* a, int at, int n) { new (r) X(a->slice(at, n)); } \
void X##_tail(X* r, const X* a, int n) { new (r) X(a->tail(n)); } \
void X##_shorter(X* r, const X* a, int n) { new (r) X(a->shorter(n)); } \
void X##_drop(X* r, const X* a, int n) { new (r) X(a->drop(n)); } \
void X##_reverse(X* a) { a->reverse(); } \
void X##_set(X* a, int i, const E* e) { a->set(i, *e); } \
void X##_delete(X* a, int i) { a->delete_at(i); } \
void X##_pull(X* a) { a->pull(); } \
void X##_shift(X* a) { a->shift(); } \
int X##_find(const X* a, const E* e, int after) { return a->find(*e, after); } \
int X##_rfind(const X* a, const E* e, int before) { return a->rfind(*e, before); } \
int X##_compare(const X* a, const X* b) { return a->compare(*b); } \
bool X##_equal(const X* a, const X* b) { return *a == *b; }

#define STRING(X, I) \
using X = StrValI<I>; \
unsigned long s_##X() { return sizeof(X); } \
void X##_new(X* s, const char* p, int n, long room) { new (s) X(p, n, room); } \
void X##_text(X* s, const char* p) { new (s) X(p); } \
void X##_raw(X* s, const char* p) { new (s) X(p, StrRawBinary); } \
void X##_none(X* s) { new (s) X(); } \
void X##_un(X* s) { s->~X(); } \
void X##_copy(X* s, const X* o) { new (s) X(*o); } \
long X##_length(const X* s) { return s->length(); } \
long X##_bytes(const X* s) { return s->numBytes(); } \
const char* X##_utf8(X* s) { return s->asUTF8(); } \
unsigned X##_at(const X* s, int i) { return (*s)[i]; } \
void X##_add(X* s, const X* o) { *s += *o; } \
void X##_addc(X* s, unsigned c) { *s += (UCS4)c; } \
void X##_plus(X* r, const X* s, const X* o) { new (r) X(*s + *o); } \
void X##_insert(X* s, int at, const X* o) { s->insert(at, *o); } \
void X##_prepend(X* s, const X* o) { s->prepend(*o); } \
void X##_sub(X* r, const X* s, int at, int n) { new (r) X(s->substr(at, n)); } \
void X##_times(X* r, X* s, int n) { new (r) X(*s * n); } \
void X##_upper(X* s) { s->toUpper(); } \
void X##_json(X* s) { s->toJSON(); } \
void X##_lower(X* s) { s->toLower(); } \
void X##_tail(X* r, const X* s, int n) { new (r) X(s->tail(n)); } \
void X##_head(X* r, const X* s, int n) { new (r) X(s->head(n)); } \
void X##_shorter(X* r, const X* s, int n) { new (r) X(s->shorter(n)); } \
int X##_rfind(const X* s, const X* o, int before) { return s->rfind(*o, before); } \
int X##_seek(const X* s, unsigned c, int after) { return s->find((UCS4)c, after); } \
int X##_rseek(const X* s, unsigned c, int before) { return s->rfind((UCS4)c, before); } \
int X##_find(const X* s, const X* o, int after) { return s->find(*o, after); } \
int X##_compare(const X* s, const X* o) { return s->compare(*o); }

extern "C" {
ARRAY(ab, int, uint8_t)
ARRAY(ac, char, uint8_t)
ARRAY(aw, short, uint16_t)
STRING(tb, uint8_t)
STRING(tw, uint16_t)
}
