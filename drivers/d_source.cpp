// The places in a text that a Pegexp works through, and arrays of strings
#include <new>
#include <variant.h>
#include <pegexp.h>
#include <peg_ast.h>

using Sm = PegMemorySource;
using Su = PegexpPointerSource<>;
using Sg = PegexpPointerSource<GuardedUTF8Ptr>;
using Sb = PegexpPointerSource<const UTF8*, char>;


#define SOURCE(X) \
unsigned long s_S##X() { return sizeof(S##X); } \
void s##X##_new(S##X* s, const char* text) { new (s) S##X(text); } \
void s##X##_null(S##X* s) { new (s) S##X(); } \
void s##X##_copy(S##X* s, const S##X* o) { new (s) S##X(*o); } \
void s##X##_set(S##X* s, const S##X* o) { *s = *o; } \
unsigned s##X##_char(S##X* s) { return s->get_char(); } \
int s##X##_byte(S##X* s) { return s->get_byte(); } \
bool s##X##_eof(const S##X* s) { return s->at_eof(); } \
bool s##X##_bol(const S##X* s) { return s->at_bol(); } \
bool s##X##_isnull(const S##X* s) { return s->is_null(); } \
bool s##X##_same(const S##X* s, const S##X* o) { return s->same(*o); } \
bool s##X##_less(S##X* s, S##X* o) { return *s < *o; } \
long s##X##_minus(S##X* s, S##X* o) { return *s - *o; } \
long s##X##_from(S##X* s, S##X* o) { return s->bytes_from(*o); } \
long s##X##_bytes(const S##X* s) { return s->current_byte(); } \
long s##X##_line(const S##X* s) { return s->current_line(); } \
long s##X##_column(const S##X* s) { return s->current_column(); } \
void s##X##_string(StrVal* r, const S##X* s, const S##X* o) { new (r) StrVal(s->string_to(*o)); } \
void s##X##_un(S##X* s) { s->~S##X(); }

extern "C" {
SOURCE(m)
SOURCE(u)
SOURCE(g)
SOURCE(b)
const char* sm_peek(const Sm* s) { return s->peek(); }

unsigned long s_str() { return sizeof(StrVal); }
unsigned long s_args() { return sizeof(VariantArray); }
unsigned long s_strs() { return sizeof(StringArray); }
void f_str(StrVal* s, const char* text, int bytes) { new (s) StrVal(text, bytes); }
void f_sub(StrVal* s, const StrVal* of, int at, int len) { new (s) StrVal(of->substr(at, len)); }
void f_copy(StrVal* s, const StrVal* of) { new (s) StrVal(*of); }
void f_unstr(StrVal* s) { s->~StrVal(); }
int f_length(const StrVal* s) { return s->length(); }
int f_bytes(const StrVal* s) { return s->numBytes(); }
const char* f_text(StrVal* s) { return s->asUTF8(); }
void a_vals(StringArray* a, const StrVal* v, int n, int room) { new (a) StringArray(v, n, room); }
void a_chars(StringArray* a, const char** v, int n) { new (a) StringArray(Array<const char*>(v, n)); }
void a_none(StringArray* a) { new (a) StringArray(); }
void a_append(StringArray* a, const StrVal* s) { a->append(*s); }
void a_copy(StringArray* a, const StringArray* o) { new (a) StringArray(*o); }
void a_sub(StringArray* r, const StringArray* a, int at, int len) { new (r) StringArray(a->slice(at, len)); }
int a_length(const StringArray* a) { return a->length(); }
void a_at(StrVal* r, const StringArray* a, int i) { new (r) StrVal((*a)[i]); }
void a_elem(StrVal* r, const StringArray* a, int i) { new (r) StrVal(a->elem(i)); }
void a_last(StrVal* r, StringArray* a) { new (r) StrVal(a->last()); }
void a_pull(StrVal* r, StringArray* a) { new (r) StrVal(a->pull()); }
void a_delete(StrVal* r, StringArray* a, int i) { new (r) StrVal(a->delete_at(i)); }
void a_shift(StrVal* r, StringArray* a) { new (r) StrVal(a->shift()); }
void a_unshift(StringArray* a, const StrVal* s) { a->unshift(*s); }
void a_set(StringArray* a, int i, const StrVal* s) { a->set(i, *s); }
void a_move(StringArray* a, int i, int k) { a->set(i, (*a)[k]); }
void a_reverse(StringArray* a) { a->reverse(); }
void a_plus(StringArray* a, const StringArray* o) { *a += *o; }
void a_un(StringArray* a) { a->~StringArray(); }
void a_variant(StringArray* r, StrVal* v, int n) { Variant x(v, n); new (r) StringArray(x.as_string_array()); }
}
