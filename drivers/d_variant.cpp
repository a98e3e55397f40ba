// Every public operation of Variant, for the analysis. Never run.
#include <new>
#include <variant.h>
typedef Variant T;
extern "C" {
void f_none(T* res) { new(res) T(); }
void f_int(T* res, int x) { new(res) T(x); }
void f_long(T* res, long x) { new(res) T(x); }
void f_longlong(T* res, long long x) { new(res) T(x); }
void f_str(T* res, const StrVal& x) { new(res) T(x); }
void f_cstr(T* res, const char* x) { new(res) T(x); }
void f_strarr(T* res, const StringArray& x) { new(res) T(x); }
void f_vararr(T* res, const VariantArray& x) { new(res) T(x); }
void f_map(T* res, const StrVariantMap& x) { new(res) T(x); }
void f_strs(T* res, StrVal* x, int count) { new(res) T(x, count); }
void f_vars(T* res, Variant* x, int count) { new(res) T(x, count); }
void f_pairs(T* res, StrVal* x, Variant* y, int count) { new(res) T(x, y, count); }
void f_typed(T* res, int t) { new(res) T((T::VariantType)t); }
void f_copy(T* res, const T& m) { new(res) T(m); }
void f_dtor(T& m) { m.~T(); }
T* f_assign(T& m, const T& o) { return &(m = o); }
int f_type(const T& m) { return m.type(); }
bool f_isnull(const T& m) { return m.is_null(); }
const char* f_name(const T& m) { return m.type_name(); }
int f_asint(T& m) { return m.as_int(); }
long f_aslong(T& m) { return m.as_long(); }
long long f_aslonglong(T& m) { return m.as_longlong(); }
void f_asstr(StrVal* res, T& m) { new(res) StrVal(m.as_strval()); }
void f_asstrarr(StringArray* res, T& m) { new(res) StringArray(m.as_string_array()); }
void f_asvararr(VariantArray* res, T& m) { new(res) VariantArray(m.as_variant_array()); }
void f_asmap(StrVariantMap* res, T& m) { new(res) StrVariantMap(m.as_variant_map()); }
int f_casint(const T& m) { return m.as_int(); }
long f_caslong(const T& m) { return m.as_long(); }
long long f_caslonglong(const T& m) { return m.as_longlong(); }
void f_casstr(StrVal* res, const T& m) { new(res) StrVal(m.as_strval()); }
void f_casstrarr(StringArray* res, const T& m) { new(res) StringArray(m.as_string_array()); }
void f_casvararr(VariantArray* res, const T& m) { new(res) VariantArray(m.as_variant_array()); }
void f_casmap(StrVariantMap* res, const T& m) { new(res) StrVariantMap(m.as_variant_map()); }
void f_join(VariantArray* res, const T& m, const T& o) { new(res) VariantArray(m << o); }
void f_json(StrVal* res, const T& m, int indent) { new(res) StrVal(m.as_json(indent)); }
void f_jsonof(StrVal* res, const T& m) { new(res) StrVal(m.as_json()); }
}
extern "C" {
unsigned long s_str() { return sizeof(StrRef); }
unsigned long s_val() { return sizeof(StrVal); }
unsigned long s_arr() { return sizeof(StringArray); }
unsigned long s_map() { return sizeof(StrVariantMap); }
unsigned long s_variant() { return sizeof(Variant); }
unsigned long s_second() { typedef std::pair<const StrVal, Variant> X; return __builtin_offsetof(X, second); }
}
