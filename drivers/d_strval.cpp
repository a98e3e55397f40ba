// Every public operation of StrVal, for the analysis. Never run.
#include <new>
#include <strval.h>	// compiled with -fno-access-control
typedef StrVal T;
typedef StrValIndex N;
extern "C" {
void f_null(T* res) { new(res) T(); }
void f_cstr(T* res, const char* t) { new(res) T(t); }
void f_data(T* res, const char* t, N len, unsigned long alloc) { new(res) T(t, len, alloc); }
void f_char(T* res, UCS4 ch) { new(res) T(ch); }
void f_copy(T* res, const T& m) { new(res) T(m); }
void f_ofref(T* res, const StrRef& m) { new(res) T(m); }
void f_ref(StrRef* res, const StrRef& m) { new(res) StrRef(m); }
void f_refassign(StrRef& m, const StrRef& o) { m = o; }
void f_dtor(T& m) { m.~T(); }
T* f_assign(T& m, const T& o) { return &(m = o); }
N f_numbytes(const T& m) { return m.numBytes(); }
N f_length(const T& m) { return m.length(); }
bool f_empty(const T& m) { return m.isEmpty(); }
UCS4 f_index(const T& m, int i) { return m[i]; }
const char* f_utf8(T& m) { return m.asUTF8(); }
const char* f_utf8n(const T& m, N& bytes) { return m.asUTF8(bytes); }
int f_compare(const T& m, const T& o) { return m.compare(o); }
bool f_eq(const T& m, const T& o) { return m == o; }
bool f_ne(const T& m, const T& o) { return m != o; }
bool f_lt(const T& m, const T& o) { return m < o; }
bool f_le(const T& m, const T& o) { return m <= o; }
bool f_gt(const T& m, const T& o) { return m > o; }
bool f_ge(const T& m, const T& o) { return m >= o; }
void f_substr(T* res, const T& m, N at, int len) { new(res) T(m.substr(at, len)); }
void f_head(T* res, const T& m, N n) { new(res) T(m.head(n)); }
void f_tail(T* res, const T& m, N n) { new(res) T(m.tail(n)); }
void f_shorter(T* res, const T& m, N n) { new(res) T(m.shorter(n)); }
int f_findc(const T& m, UCS4 ch, int from) { return m.find(ch, from); }
int f_rfindc(const T& m, UCS4 ch, int from) { return m.rfind(ch, from); }
int f_find(const T& m, const T& o, int from) { return m.find(o, from); }
int f_rfind(const T& m, const T& o, int from) { return m.rfind(o, from); }
int f_findany(const T& m, const T& o, int from) { return m.findAny(o, from); }
int f_rfindany(const T& m, const T& o, int from) { return m.rfindAny(o, from); }
int f_findnot(const T& m, const T& o, int from) { return m.findNot(o, from); }
int f_rfindnot(const T& m, const T& o, int from) { return m.rfindNot(o, from); }
void f_pluscstr(T* res, const T& m, const char* t) { new(res) T(m + t); }
void f_plus(T* res, const T& m, const T& o) { new(res) T(m + o); }
void f_plusc(T* res, const T& m, UCS4 ch) { new(res) T(m + ch); }
void f_cstrplus(T* res, const char* t, const T& m) { new(res) T(t + m); }
T* f_pluseq(T& m, const T& o) { return &(m += o); }
T* f_pluseqc(T& m, UCS4 ch) { return &(m += ch); }
void f_times(T* res, T& m, int n) { new(res) T(m * n); }
T* f_insert(T& m, N at, const T& o) { return &m.insert(at, o); }
T* f_append(T& m, const T& o) { return &m.append(o); }
T* f_prepend(T& m, const T& o) { return &m.prepend(o); }
T* f_lower(T& m) { return &m.toLower(); }
T* f_upper(T& m) { return &m.toUpper(); }
void f_aslower(T* res, const T& m) { new(res) T(m.asLower()); }
void f_asupper(T* res, const T& m) { new(res) T(m.asUpper()); }
T* f_transform(T& m, const std::function<T(const char*& cp, const char* ep)>& f, int after) { return &m.transform(f, after); }
T* f_json(T& m) { return &m.toJSON(); }
void f_asjson(T* res, const T& m) { new(res) T(m.asJSON()); }

void b_static(StrBody* b, const char* t, N len) { new(b) StrBody(t, StrStatic, len); }

unsigned long s_val() { return sizeof(T); }
unsigned long s_ref() { return sizeof(StrRef); }
unsigned long s_body() { return sizeof(StrBody); }
unsigned long o_body() { return __builtin_offsetof(T, body); }
unsigned long o_offset() { return __builtin_offsetof(T, offset); }
unsigned long o_num_chars() { return __builtin_offsetof(T, num_chars); }
unsigned long o_mark_char() { return __builtin_offsetof(T, mark.char_num); }
unsigned long o_mark_byte() { return __builtin_offsetof(T, mark.byte_num); }
unsigned long o_b_count() { return __builtin_offsetof(StrBody, ref_count); }
unsigned long o_b_start() { return __builtin_offsetof(StrBody, start); }
unsigned long o_b_elements() { return __builtin_offsetof(StrBody, num_elements); }
unsigned long o_b_alloc() { return __builtin_offsetof(StrBody, num_alloc); }
unsigned long o_b_chars() { return __builtin_offsetof(StrBody, num_chars); }
}

const void* nulls[] = { &StrVal::null, &StrBody::nullBody };	// they are there, whoever uses them
