// Numbers in text, JSON text, formatting and joining
#include <new>
#include <variant.h>
#include <strformat.h>

extern "C" {
unsigned long s_str() { return sizeof(StrVal); }
unsigned long s_args() { return sizeof(VariantArray); }
unsigned long s_strs() { return sizeof(StringArray); }
void f_str(StrVal* s, const char* text, int bytes) { new (s) StrVal(text, bytes); }
void f_empty(StrVal* s) { new (s) StrVal(); }
void f_sub(StrVal* s, const StrVal* of, int at, int len) { new (s) StrVal(of->substr(at, len)); }
void f_copy(StrVal* s, const StrVal* of) { new (s) StrVal(*of); }
void f_unstr(StrVal* s) { s->~StrVal(); }
int f_length(const StrVal* s) { return s->length(); }
int f_bytes(const StrVal* s) { return s->numBytes(); }
const char* f_text(StrVal* s) { return s->asUTF8(); }
int f_number(const StrVal* s, int* error, int radix, unsigned* scanned)
{
	ErrNum	e(1, 1);
	int	r = s->asInt32(error ? &e : 0, radix, scanned);
	if (error)
		*error = (int)e;
	return r;
}
void f_json(StrVal* r, const StrVal* s) { new (r) StrVal(s->asJSON()); }
void f_tojson(StrVal* s) { s->toJSON(); }
void f_args(VariantArray* a) { new (a) VariantArray(); }
void f_args_str(VariantArray* a, const StrVal* s) { a->append(Variant(*s)); }
void f_args_int(VariantArray* a, int i) { a->append(Variant(i)); }
void f_unargs(VariantArray* a) { a->~VariantArray(); }
void f_format(StrVal* r, const StrVal* f, const VariantArray* a) { new (r) StrVal(StrVal::format(*f, *a)); }
void f_strs(StringArray* a) { new (a) StringArray(); }
void f_strs_str(StringArray* a, const StrVal* s) { a->append(*s); }
void f_strs_sub(StringArray* r, const StringArray* a, int at, int len) { new (r) StringArray(a->slice(at, len)); }
void f_unstrs(StringArray* a) { a->~StringArray(); }
void f_join(StrVal* r, const StringArray* a, const StrVal* by) { new (r) StrVal(a->join(*by)); }
}
