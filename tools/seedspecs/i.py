C='rx/rxcompile.cpp'; M='rx/rxmatch.cpp'
RXS='src/*.cpp rx/rxcompile.cpp rx/rxmatch.cpp'
H0='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <strregex.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); exit(1); } } while (0)
static std::string rep(const char* s, int n) { std::string r; while (n-- > 0) r += s; return r; }
static bool compiles(const std::string& re) { RxCompiler c(re.c_str()); char* n = 0; bool ok = c.compile(n); delete[] n; return ok; }
// length of the match at or after the start, or -1
static int run(const std::string& re, const std::string& text, int* start = 0, bool after = false)
{ RxCompiler c(re.c_str()); char* n = 0; if (!c.compile(n)) return -2; RxProgram p(n, true); RxResult r = after ? p.matchAfter(text.c_str()) : p.matchAt(text.c_str()); if (start) *start = r.offset(); return r.succeeded() ? (int)r.length() : -1; }
'''
SEEDS=[
dict(id='p16-class-bytes', property='P16', srcs=RXS, edits=[(C,'''			UTF8Put(ep, utf8_count);	// Encode the byte count as UTF-8
''','''			UTF8Put(ep, str.length());	// Encode the byte count as UTF-8
''')],
 demo=H0+'''int main() { CHECK(run("[a\\xC3\\xA9]b", "ab") == 2); CHECK(run("[\\xC3\\xA9-\\xC3\\xBF]b", "\\xC3\\xAA" "b") == 2); return 0; }''',
 needs='a character class, property or group name with characters beyond ASCII', breaks='the program is decoded from the middle of the string'),
dict(id='p16-outer-count', property='P16', srcs=RXS, edits=[(M,'''	for (int i = 0; i < counterNum(); i++)
		if (counterGet(i) != other.counterGet(i))
			return false;
	return true;
''','''	return counterNum() == 0 || counterGet() == other.counterGet();	// The innermost is the one that changes
''')],
 demo=H0+'''int main() { for (int n = 0; n < 9; n++) CHECK(run("((a){1,2}){3}", rep("a", n)) == (n < 3 ? -1 : n > 6 ? 6 : n)); return 0; }''',
 needs='counted repetitions in counted repetitions, with threads that differ in the outer count only', breaks='one of the threads is dropped, and its match is lost'),
dict(id='p16-earliest', property='P16', srcs=RXS, edits=[(M,'''				if (!result.succeeded()			// We don't have any result yet
				 || new_result_start < result.offset()	// New result starts earlier
''','''				if (!result.succeeded()			// We don't have any result yet
''')],
 demo=H0+'''int main() { int s; CHECK(run("abc|b", "abc", &s, true) == 3 && s == 0); return 0; }''',
 needs='a search in which a match that starts later ends before one that starts earlier', breaks='the later one is found'),
dict(id='p16-many-groups', property='P16', srcs=RXS, edits=[(M,'''	max_capture = (*nfa_p++ & 0xFF);
''','''	max_capture = *nfa_p++;
'''),(M,'''		instr.capture_number = *(unsigned char*)nfa_p++ - 1;
''','''		instr.capture_number = *nfa_p++ - 1;
''')],
 demo=H0+'''int main() { std::string re; for (int i = 0; i < 130; i++) re += "(?<n"+std::to_string(i)+">a)"; CHECK(run(re, rep("a", 131)) == 130); return 0; }''',
 needs='more than 127 named groups', breaks='group numbers become negative'),
dict(id='p16-hex', property='P16', srcs=RXS, edits=[(M,'''!(ch >= 'a' && ch <= 'f') && !(ch >= 'A' && ch <= 'F'))''','''!((ch & 0x5F) >= 'A' && (ch & 0x5F) <= 'F'))''')],
 demo=H0+'''int main() { for (int c = 0x80; c < 0x400; c++) { char t[4] = { (char)(0xC0|c>>6), (char)(0x80|c&63), 0 }; CHECK(run("\\\\h", t) == -1); } CHECK(run("\\\\h", "F") == 1); return 0; }''',
 needs='certain characters beyond ASCII where a hex digit is expected', breaks='they are taken for hex digits'),
dict(id='p17-lookahead-leak', property='P17', srcs=RXS, edits=[(M,'''	delete[] current_threads;
	delete[] next_threads;
}
''','''	if (next_count == 0 || result.succeeded())
		delete[] current_threads;
	delete[] next_threads;
}
''') if False else (M,'''	delete[] current_threads;
	delete[] next_threads;
''','''	if (current_count || result.succeeded())
		delete[] current_threads;
	delete[] next_threads;
''')],
 demo=H0+'''static int live = 0;
void* operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
int main() { run("a", "a"); run("a", "b"); int before = live; for (int i = 0; i < 10; i++) { run("(?!a).", "b"); run("a", "b"); } CHECK(live == before); return 0; }''',
 needs='a match that fails', breaks='its threads are never deleted'),
dict(id='p17-nesting', property='P17', srcs=RXS, edits=[(C,'''			if (nesting >= RxMaxNesting)
''','''			if (nesting > RxMaxNesting)
''')],
 demo=H0+'''int main() { CHECK(compiles(rep("(", 11)+"a"+rep(")", 11))); CHECK(!compiles(rep("(", 12)+"a"+rep(")", 12))); return 0; }''',
 needs='12 nested groups', breaks='the stack of groups overflows by one entry'),
dict(id='p17-class-space', property='P17', srcs=RXS, edits=[(C,'''			StrValIndex	utf8_count;	// Used for sizing string storage
			(void)str.asUTF8(utf8_count);
			bytes_required += UTF8Len(utf8_count);	// Length encoded as UTF-8
			bytes_required += utf8_count;	// UTF8 bytes
''','''			bytes_required += UTF8Len(str.length());	// Length encoded as UTF-8
			bytes_required += str.length();		// UTF8 bytes
''')],
 demo=H0+'''int main() { std::string s; for (int i = 0; i < 60; i++) { s += "\\xE2\\x82"; s += (char)(0x80+i); } CHECK(run("["+s+"]+", "\\xE2\\x82\\xAC!") == 1); return 0; }''',
 needs='a class with many characters beyond ASCII', breaks='the program overflows its array'),
dict(id='p18-dup-name', property='P18', srcs=RXS, edits=[(C,'''				for (iter = names.begin(); iter != names.end(); iter++)
					if (*iter == instr.str)
					{
''','''				if (names.size() && names.back() == instr.str)
					{
''')],
 demo=H0+'''int main() { CHECK(compiles("(?<x>a)(?<y>b)(?<z>c)")); CHECK(!compiles("(?<x>a)(?<x>b)")); CHECK(!compiles("(?<x>a)(?<y>b)(?<x>c)")); return 0; }''',
 needs='a name that is used twice, with another between', breaks='the expression is accepted'),
dict(id='p18-close-literal', property='P18', srcs=RXS, edits=[(C,'''			if (!enabled(RxFeature::Group))
				goto simple_char;
			if (!(ok = flush())) break;
			ok = func(RxToken(RxOp::RxoEndGroup));
''','''			if (!enabled(ParenFeatures))
				goto simple_char;
			if (!(ok = flush())) break;
			ok = func(RxToken(RxOp::RxoEndGroup));
''')],
 demo=H0+'''static bool f(const char* re, int features) { RxCompiler c(re, (RxFeature)features); char* n = 0; bool ok = c.compile(n); delete[] n; return ok; }
int main() { int a = 0xFFFFF, plain = a & ~((int)RxFeature::Capture|(int)RxFeature::NonCapture|(int)RxFeature::NegLookahead); CHECK(f("(a)b", a)); CHECK(f("(a)b", plain)); CHECK(f("a)", a & ~(int)RxFeature::Group)); return 0; }''',
 needs='plain groups only, all special ones disabled (or groups disabled)', breaks='groups cannot be closed'),
]
