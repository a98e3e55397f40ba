X='include/pegexp.h'; G='include/peg.h'; T='include/peg_ast.h'; A='include/array.h'; S='include/strval.h'; M='include/cowmap.h'; R='include/refcount.h'; C='src/char_encoding.cpp'; V='include/variant.h'
H='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <utility>
#include <thread>
#include <new>
#include <unistd.h>
#include <variant.h>
#include <cowmap.h>
#include <array.h>
#include <peg.h>
#include <peg_ast.h>
#include <strformat.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); exit(1); } } while (0)
static bool is(StrVal a, const char* b) { return a == StrVal(b); }
'''
COUNT='''
static long allocations;
void* operator new(size_t n) { allocations++; return malloc(n); }
void* operator new[](size_t n) { allocations++; return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
'''
PEG='''
typedef PegContext::Rule Rule;
typedef Peg<PegMemorySource, PegMatch, PegContext> P;
'''
SEEDS=[
# P19
dict(id='p19-map-one', property='P19', nocompile=1, edits=[(M,'''	bool		one(std::function<bool(const Key& k, const Value& v)> condition) const	// Exactly one element satisfies the condition
			{
				bool		found = false;
				for (Iter it = begin(); it != end(); it++)
					if (condition(it->first, it->second))
''','''	bool		one(std::function<bool(const Key& k, const Value& v)> condition) const	// Exactly one element satisfies the condition
			{
				bool		found = false;
				for (auto it = body->cbegin(); it != end(); it++)
					if (condition(*it))
''')],
 demo=H+'''int main() { StrVariantMap m; m.put("a", Variant(1)); CHECK(m.one([](const StrVal& k, const Variant& v) { return true; })); return 0; }''',
 needs='a call of one() of a map', breaks='does not compile'),
dict(id='p19-last-ref', property='P19', edits=[(A,'''	const Element&	last_ref() const
			{ assert(num_elements > 0); return elem_ref(num_elements-1); }
''','''	Element&	last_ref() const
			{ assert(num_elements > 0); return const_cast<Ref<Body>&>(body)->data()[offset+num_elements-1]; }
''')],
 demo=H+'''int main() { CHECK((std::is_same<decltype(std::declval<const Array<int>&>().last_ref()), const int&>::value)); return 0; }''',
 needs='assignment through last_ref of a const array', breaks='a const array and its copies change'),
dict(id='p19-ref-unshare', property='P19', nocompile=1, edits=[(R,'''				// Copy ref'd object
				*this = new T(*o);
''','''				// Copy ref'd object
				*this = new T(o);
''')],
 demo=H+'''int main() { struct B : RefCounted { int v; B(int i) : v(i) {} B(const B& b) : v(b.v) {} }; Ref<B> r(new B(3)); Ref<B> c(r); c.Unshare(); c->v = 4; CHECK(r->v == 3); return 0; }''',
 needs='a call of Unshare of a Ref', breaks='does not compile'),
dict(id='p19-array-values', property='P19', nocompile=1, edits=[(M,'''	Array<Value>	values() const
			{
				Array<Value>	all_values((Value*)0, 0, size());
''','''	Array<Value>	values() const
			{
				Array<Value>	all_values((Key*)0, 0, size());
''')],
 demo=H+'''int main() { CowMap<int> m; m.put("a", 3); CHECK(m.values().length() == 1 && m.values()[0] == 3); return 0; }''',
 needs='a call of values() of a map whose keys are not its values', breaks='does not compile'),
dict(id='p19-elements', property='P19', edits=[(A,'''	const Element*	asElements() const
			{ return body ? body->data()+offset : 0; }
''','''	Element*	asElements() const
			{ return body ? const_cast<Element*>(body->data())+offset : 0; }
''')],
 demo=H+'''int main() { CHECK((std::is_same<decltype(std::declval<const Array<int>&>().asElements()), const int*>::value)); return 0; }''',
 needs='assignment through asElements of a const array', breaks='a const array and its copies change'),
# P23
dict(id='p23-byte-end', property='P23', edits=[(X,'''				if (at_eof()) return 0;
				char c = (*data++ & 0xFF);
				byte_count++;
''','''				if (data == 0) return 0;
				byte_count++;
				if (*data == '\\0') return 0;
				char c = (*data++ & 0xFF);
''')],
 demo=H+'''int main() { PegexpPointerSource<> s("ab"); s.get_byte(); s.get_byte(); CHECK(s.current_byte() == 2); CHECK(s.get_byte() == 0); CHECK(s.current_byte() == 2 && s.at_eof()); return 0; }''',
 needs='get_byte at the end', breaks='the byte count moves past the end'),
dict(id='p23-blank-lines', property='P23', edits=[(X,'''				if (c == '\\n')
				{
					line_count++;
					column_char = 1;
				}
''','''				if (c == '\\n')
				{
					if (!at_bol() || line_count == 1)
						line_count++;
					column_char = 1;
				}
''')],
 demo=H+'''int main() { PegexpPointerSource<> s("a\\n\\nb"); s.get_char(); s.get_char(); CHECK(s.current_line() == 2); s.get_char(); CHECK(s.current_line() == 3 && s.current_column() == 1); return 0; }''',
 needs='an empty line after the first line', breaks='the line count'),
dict(id='p23-stray-bytes', property='P23', edits=[(X,'''				byte_count += data-start;
''','''				byte_count += UTF8Len(c);
''')],
 demo=H+'''int main() { PegexpPointerSource<> s("\\xE2\\x82\\xAC""a\\x80""b"); const char* t = "\\xE2\\x82\\xAC""a\\x80""b"; PegexpPointerSource<> b(s); int n = 0; while (!s.at_eof()) s.get_char(); CHECK(s.current_byte() == (off_t)strlen(t)); CHECK(s.bytes_from(b) == strlen(t)); PegexpPointerSource<> z("\\xC1\\x81""a"); PegexpPointerSource<> o(z); z.get_char(); CHECK(z.current_byte() == z - o); return 0; }''',
 needs='stray or overlong bytes', breaks='the byte count differs from the bytes read'),
dict(id='p23-combining', property='P23', edits=[(X,'''				else
					column_char++;
			}
''','''				else if (sizeof(c) == 1 || c < 0x300 || c > 0x36F)	// Combining marks take no column
					column_char++;
			}
''')],
 demo=H+'''int main() { PegexpPointerSource<> s("\\n\\xCC\\x80""b"); s.get_char(); s.get_char(); CHECK(s.current_line() == 2); CHECK(s.current_column() == 2); CHECK(!s.at_bol()); return 0; }''',
 needs='a combining mark', breaks='the column, and what is the beginning of a line'),
# P24
dict(id='p24-lookahead-rule', property='P24', edits=[(T,'''	, capture_disabled(_parent ? _parent->capture_disabled : 0)
''','''	, capture_disabled(0)
''')],
 demo=H+PEG+'''int main() { const char* none[] = {"a", 0}; Rule rules[] = { Rule("TOP", "<x>", none), Rule("x", "!<a>d", none), Rule("a", "<b>c", none), Rule("b", "b", none) }; P p(rules, 4); PegMemorySource s("bd"); PegMatch m = p.parse(s); CHECK(m.is_failure()); CHECK(m.furthermost_success.current_byte() == 0); CHECK(m.failures.length() == 1); CHECK(m.failures[0].path.length() == 2); return 0; }''',
 needs='a look-ahead of a rule that fails in it', breaks='failures in the look-ahead are reported'),
dict(id='p24-further-again', property='P24', edits=[(T,'''		if (furthermost_success < location)
			failures.clear();	// We got further this time, previous failures don't matter

		// Don't double-up failures of the same Pegexp against the same text:
		for (int i = 0; i < failures.length(); i++)
			if (failures[i].atom == op)
				return;		// Nothing new here, move along.
''','''		// Don't double-up failures of the same Pegexp against the same text:
		for (int i = 0; i < failures.length(); i++)
			if (failures[i].atom == op)
				return;		// Nothing new here, move along.

		if (furthermost_success < location)
			failures.clear();	// We got further this time, previous failures don't matter
''')],
 demo=H+PEG+'''int main() { const char* none[] = {0}; Rule rules[] = { Rule("TOP", "|<a>x|q<a>y", none), Rule("a", "?b", none) }; P p(rules, 2); PegMemorySource s("qz"); PegMatch m = p.parse(s); CHECK(m.is_failure()); CHECK(m.furthermost_success.current_byte() == 1); CHECK(m.failures.length() == 2); return 0; }''',
 needs='an atom that fails first at one place and then further on', breaks='the further failure is not reported'),
dict(id='p24-path-recursive', property='P24', edits=[(T,'''		root->path.push(rule->name);
''','''		if (!parent || parent->rule != rule)	// Report a recursive rule once
			root->path.push(rule->name);
'''),(T,'''		root->path.pull();
''','''		if (!parent || parent->rule != rule)
			root->path.pull();
''')],
 demo=H+PEG+'''int main() { const char* none[] = {0}; Rule rules[] = { Rule("TOP", "<a>", none), Rule("a", "x?<a>y", none) }; P p(rules, 2); PegMemorySource s("xxz"); PegMatch m = p.parse(s); CHECK(m.is_failure()); CHECK(m.furthermost_success.current_byte() == 2); bool three = false; for (int i = 0; i < m.failures.length(); i++) if (m.failures[i].path.length() == 3) three = true; CHECK(three); return 0; }''',
 needs='a failure in a rule called from itself', breaks='the path to it'),
dict(id='p24-empty-single', property='P24', edits=[(T,'''		if (value.type() == Variant::String && value.as_strval().length() == 0)
''','''		if (!in_repetition && value.type() == Variant::String && value.as_strval().length() == 0)
''')],
 demo=H+PEG+'''int main() { const char* none[] = {"v", 0}; Rule rules[] = { Rule("TOP", "*((?b):v c)", none) }; Rule r2[] = { Rule("TOP", "*((?b):v:c)", none) }; P p(r2, 1); PegMemorySource s("bcc"); PegMatch m = p.parse(s); CHECK(!m.is_failure()); CHECK(m.var.as_variant_map()["v"].as_variant_array().length() == 1); return 0; }''',
 needs='an empty text under a label in a repetition', breaks='the empty text is captured'),
dict(id='p24-nested-repeat', property='P24', edits=[(X,'''	repeat_fail:	if (max != 1)
				context->repetition_nesting--;
''','''	repeat_fail:	if (max != 1 && (matched || repetitions > 0))
				context->repetition_nesting--;
''')],
 demo=H+PEG+'''int main() { const char* none[] = {"v", 0}; Rule rules[] = { Rule("TOP", "|+a:v c|b:v", none) }; Rule r2[] = { Rule("TOP", "|+a:v:c|b:v", none) }; P p(r2, 1); PegMemorySource s("b"); PegMatch m = p.parse(s); CHECK(!m.is_failure()); CHECK(m.var.as_variant_map()["v"].type() == Variant::String); return 0; }''',
 needs='a capture after a + that failed at once', breaks='the capture is in an array'),
# P25
dict(id='p25-count-room', property='P25', edits=[(S,'''	: Array((const StrVal*)0, 0, strings.length())
	{
		strings.each([&](const char* s) { append(s); });
''','''	: Array((const StrVal*)0, 0, strings.length())
	{
		strings.each([&](const char* s) { if (length() == 0 || s != strings[length()-1]) append(s); });
''')],
 demo=H+'''int main() { const char* a = "a"; const char* t[] = {a, "b", a, a}; StringArray s(Array<const char*>(t, 4)); CHECK(s.length() == 4); CHECK(is(s[2], "a") && is(s[3], "a")); return 0; }''',
 needs='the same text twice in a row', breaks='it is in the array once'),
dict(id='p25-same-body', property='P25', edits=[(S,'''				body = s1.body;
				offset = s1.offset;
				num_chars = s1.num_chars;
				return *this;
''','''				if (static_cast<Body*>(body) != static_cast<Body*>(s1.body) || num_chars != s1.num_chars)
				{			// Don't touch the reference count otherwise
					body = s1.body;
					offset = s1.offset;
					num_chars = s1.num_chars;
				}
				return *this;
''')],
 demo=H+'''int main() { StrVal t("abcd"); StringArray s; s << t.substr(0,1) << t.substr(1,1) << t.substr(2,2); s.reverse(); CHECK(is(s[0], "cd") && is(s[2], "a")); StringArray u; u << t.substr(0,2) << t.substr(2,2); u.set(0, u[1]); CHECK(is(u[0], "cd")); return 0; }''',
 needs='an element set to another of the same length from the same text', breaks='it is not set'),
dict(id='p25-delete-end', property='P25', edits=[(S,'''			{ return Base::delete_at(at); }
protected:''','''			{ if (at+1 == length()) return Base::pull(); StrVal e = elem(at); set(at, Base::pull()); return e; }
protected:''')],
 demo=H+'''int main() { StringArray s; s << StrVal("a") << StrVal("b") << StrVal("c") << StrVal("d"); CHECK(is(s.delete_at(2), "c")); CHECK(s.length() == 3 && is(s[2], "d")); CHECK(is(s.delete_at(0), "a")); CHECK(is(s[0], "b") && is(s[1], "d")); return 0; }''',
 needs='delete_at away from the end', breaks='the order'),
# P26
dict(id='p26-digit-memo', property='P26', edits=[(C,'''	static	std::atomic<int> last_memo;
	int	last = last_memo;

	const struct digit_range* rp = UCS4_DigitRanges+last;
''','''	static	std::atomic<int> last_memo;
	static	const struct digit_range* rp;
	rp = UCS4_DigitRanges+last_memo;
''')],
 demo=H+'''int main() { bool ok = true; auto f = [&](UCS4 from) { for (int i = 0; i < 3000000; i++) if (UCS4Digit(from+i%10) != i%10) { ok = false; return; } }; std::thread a(f, 0x30), b(f, 0x660), c(f, 0x966); a.join(); b.join(); c.join(); CHECK(ok); return 0; }''',
 flags='-pthread',
 needs='digits of different scripts in two threads', breaks='one thread sees the range of another'),
dict(id='p26-lookup-copy', property='P26', edits=[(G,'''		Rule*	rule = (Rule*)bsearch(
			name, rules, num_rule, sizeof(rules[0]),
''','''		StrVal	key(name, (int)strcspn(name, ">"));
		if (key.isEmpty())
			return 0;
		Rule*	rule = (Rule*)bsearch(
			key.asUTF8(), rules, num_rule, sizeof(rules[0]),
''')],
 demo=H+COUNT+'''typedef Peg<> Q; int main() { Q::Rule rules[] = { Q::Rule("TOP", "<abc>*<abc>"), Q::Rule("abc", "a") }; Q p(rules, 2); PegexpDefaultSource s("aaa"); long before = allocations; auto m = p.parse(s); CHECK(s.at_eof()); CHECK(allocations == before); return 0; }''',
 needs='allocations are counted, or cannot be had', breaks='every rule called allocates'),
dict(id='p26-slice-copies', property='P26', edits=[(A,'''				return Self(body, offset+at, len);
			}
	Self		head(Index num_elem) const
''','''				// Don't keep a large body alive for a few elements
				return len < 3 && num_elements > 1000 ? Self(asElements()+at, len, len) : Self(body, offset+at, len);
			}
	Self		head(Index num_elem) const
''')],
 demo=H+COUNT+'''int main() { Array<int> a; for (int i = 0; i < 2000; i++) a << i; long before = allocations; Array<int> s = a.slice(10, 2); CHECK(s[0] == 10 && s[1] == 11); CHECK(allocations == before); return 0; }''',
 needs='a small slice of a large array', breaks='it allocates and copies'),
dict(id='p26-recursion-note', property='P26', edits=[(G,'''#if defined(PEG_TRACE)
		//pp->print_path();
		printf(": left recursion detected at `%.10s`\\n", state.source.peek());
#endif
''','''		printf(": left recursion detected in `%.10s`\\n", state.pattern);
''')],
 demo=H+'''typedef Peg<> Q; int main() { char name[] = "/tmp/p26noteXXXXXX"; int fd = mkstemp(name); CHECK(fd >= 0); unlink(name); Q::Rule rules[] = { Q::Rule("TOP", "|<e>b|a"), Q::Rule("e", "|<e>a|a") }; Q p(rules, 2); PegexpDefaultSource s("aaa"); fflush(stdout); int keep = dup(1); dup2(fd, 1); p.parse(s); fflush(stdout); dup2(keep, 1); CHECK(lseek(fd, 0, SEEK_END) == 0); return 0; }''',
 needs='a left-recursive rule', breaks='output to stdout'),
]
