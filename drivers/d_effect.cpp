// Effects: each function here uses an operation that may not have a certain effect
#include <peg.h>
#include <pegexp.h>
#include <utf8_ptr.h>
#include <char_ptr.h>
#include <char_encoding.h>
#include <strval.h>
#include <array.h>
#include <cowmap.h>
#include <variant.h>
#include <error.h>
#include <lockfree.h>
#include <condition.h>

// Own source, so that nothing but the matcher remains
struct Own {
	using Char = UCS4;
	Own(const char* p = 0) : at(p) {}
	bool	is_null() const { return at == 0; }
	char	get_byte() { return *at++; }
	Char	get_char() { return (unsigned char)*at++; }
	bool	at_eof() const { return !*at; }
	bool	at_bol() const { return false; }
	bool	same(const Own& o) const { return at == o.at; }
	bool	operator<(const Own& o) const { return at < o.at; }
	int	operator-(const Own& o) const { return at - o.at; }
	const char*	at;
};
using Thing = struct { StrVal s; };
typedef CowMap<int>	IntMap;

extern "C" {
// na_: allocates nothing
bool na_pegexp_match(Pegexp<>& p, Pegexp<>::Source s, Pegexp<>::Context* c) { return p.match(s, c).is_failure(); }
bool na_pegexp_match_here(Pegexp<>& p, Pegexp<>::Source s, Pegexp<>::Context* c) { return p.match_here(s, c).is_failure(); }
bool na_pegexp_make(const char* t) { Pegexp<> p(t); Pegexp<>::Context c; return p.pattern == t; }
bool na_pegexp_guarded(Pegexp<PegexpDefaultContext<PegexpDefaultMatch<PegexpState<PegexpPointerSource<GuardedUTF8Ptr>>>>>& p, PegexpPointerSource<GuardedUTF8Ptr> s)
		{ PegexpDefaultContext<PegexpDefaultMatch<PegexpState<PegexpPointerSource<GuardedUTF8Ptr>>>> c; return p.match(s, &c).is_failure(); }
bool na_pegexp_bytes(Pegexp<PegexpDefaultContext<PegexpDefaultMatch<PegexpState<PegexpPointerSource<const UTF8*, char>>>>>& p, PegexpPointerSource<const UTF8*, char> s)
		{ PegexpDefaultContext<PegexpDefaultMatch<PegexpState<PegexpPointerSource<const UTF8*, char>>>> c; return p.match(s, &c).is_failure(); }
bool na_pegexp_own(Pegexp<PegexpDefaultContext<PegexpDefaultMatch<PegexpState<Own>>>>& p, Own s)
		{ PegexpDefaultContext<PegexpDefaultMatch<PegexpState<Own>>> c; return p.match(s, &c).is_failure(); }
bool na_peg_parse(Peg<>& p, Peg<>::Source s) { return p.parse(s).is_failure(); }
bool na_peg_lookup(Peg<>& p, const char* name) { return p.lookup(name) != 0; }
bool na_peg_own(Peg<Own, PegexpDefaultMatch<PegexpState<Own>>>& p, Own s) { return p.parse(s).is_failure(); }
int na_source(Pegexp<>::Source s, Pegexp<>::Source t)
		{ return s.get_char() + s.get_byte() + s.at_eof() + s.at_bol() + s.same(t) + (s < t) + (s - t) + s.bytes_from(t) + s.is_null() + s.current_byte() + s.current_line() + s.current_column(); }

UCS4 na_utf8(const UTF8*& p, UTF8*& o, UCS4 c, const UTF8* l)
		{ UTF8Put(o, c); return UTF8Get(p) + UTF8Len(c) + UTF8Len(p) + UTF8Peek(p) + (UTF8Backup(p, l) != 0); }
UCS4 na_utf16(const UTF16*& p, UTF16*& o, UCS4 c, UTF16 u) { UTF16Put(o, c); UTF16Put(o, c, true); return UTF16Get(p) + UTF16Get(p, true) + UTF16Swab(u) + UTF16Len(c); }
UCS4 na_case(UCS4 c) { return UCS4ToLower(c) + UCS4ToUpper(c) + UCS4ToTitle(c) + UCS4IsAlphabetic(c) + UCS4IsDecimal(c) + UCS4Digit(c) + UCS4IsWhite(c); }
UCS4 na_pointers(GuardedUTF8Ptr g, NulGuardedUTF8Ptr n, GuardedCharPtr c, NulGuardedCharPtr d) { ++g; ++n; ++c; ++d; --g; --c; return *g + *n + *c + *d + *(g + 1) + *(c - 1); }

// Copies and slices: the data is not copied
int na_string_look(const StrVal& a, const StrVal& b, UCS4 c)
		{ return a.length() + a.isEmpty() + a[1] + a.numBytes() + a.find(c) + a.rfind(c) + a.find(b) + a.rfind(b) + a.findAny(b) + a.rfindAny(b) + a.findNot(b) + a.rfindNot(b) + (a == b) + (a < b) + a.compare(b) + a.compare(b, StrVal::CompareRaw); }
int na_string_none() { StrVal a; StrRef r; return a.length() + r.length(); }
int na_array_copy(const Array<int>& a) { Array<int> b(a), c; c = b; return b.length() + c.length(); }
int na_array_slice(const Array<int>& a, unsigned m, unsigned n) { Array<int> s = a.slice(m, n), h = a.head(n), t = a.tail(n), sh = a.shorter(n); return s.length() + h.length() + t.length() + sh.length(); }
int na_array_look(const Array<int>& a, const Array<int>& b, int e) { return a.length() + a[0] + a.elem(1) + a.last_ref() + a.elem_ref(0) + *a.asElements() + a.find(e) + a.rfind(e) + (a == b) + a.compare(b); }
int na_string_array(const StringArray& a, const StrVal& s) { StringArray b(a), c; c = b; StringArray d = b.slice(1); return a.find(s) + a.rfind(s) + d.length() + c.length(); }
int na_map_copy(const StrVariantMap& a, StrVariantMap& c) { StrVariantMap b(a); c = b; return b.size() + c.size(); }
int na_map_look(const IntMap& a, const StrVal& k) { return a.contains(k) + a.size(); }
int na_variant_scalar() { Variant n, i(1), l(2L), ll(3LL); return n.type() + i.type() + l.type() + ll.type(); }
int na_err(int32_t n, const Error& o) { ErrNum e(n), f(1, 2); Error none, c(o), d; d = c; return e.set() + e.msg() + (e == f) + (d.operator ErrNum() == e) + d.default_text()[0] + (c.parameters() != 0) + (int32_t)d; }
}
