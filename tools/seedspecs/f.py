S='include/pegexp.h'
H='''
#include <pegexp.h>
#include <cstdio>
#include <cstring>
#include <string>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
typedef PegexpDefaultMatch<PegexpState<>> M;
struct Ctx : PegexpDefaultContext<M> {
	std::string log[64]; int n; std::string failed;
	Ctx() : n(0) {}
	int capture_count() const { return n; }
	int capture(PatternP name, int len, M m, bool rep) { log[n++] = std::string(name, len) + (rep ? "*" : "") + "=" + std::string(m.from.source.string_to(m.to.source).asUTF8()); return n; }
	void rollback_capture(int c) { if (c < n) n = c; }
	void record_failure(PatternP op, PatternP e, PegexpDefaultSource at) { failed += *op; failed += char('0' + (int)at.current_byte()); }
};
static std::string run(const char* p, const char* t, std::string* failed = 0) {
	Ctx c; Pegexp<Ctx> x(p); PegexpDefaultSource s(t); M m = x.match_here(s, &c);
	std::string r = m.is_failure() ? "fail" : std::string(m.from.source.string_to(m.to.source).asUTF8());
	for (int i = 0; i < c.n; i++) r += " " + c.log[i];
	if (c.repetition_nesting || c.capture_disabled) r += " unbalanced";
	if (failed) *failed = c.failed;
	return r;
}
'''
SEEDS=[
dict(id='p11-alternate-captures', property='P11', edits=[(S,'''				// Undo new captures on failure of an alternate
				context->rollback_capture(initial_captures);''','''				// Undo new captures on failure of an alternate
				if (*next_alternate != '|') context->rollback_capture(initial_captures);''')],
 demo=H+'''int main() { int bad = 0; CHECK(run("|a:x b|ac:y", "acd") == "ac y=c"); CHECK(run("|(a):x:b|(a):z:c", "ac") == "ac z=a"); CHECK(run("|a:x:b|c", "ad") == "fail"); return bad; }''',
 needs='an alternate that captures before it fails, and another that succeeds', breaks='captures of the failed alternate are kept'),
dict(id='p11-nesting-leak', property='P11', edits=[(S,'''	repeat_fail:	if (max != 1)
				context->repetition_nesting--;''','''	repeat_fail:	if (max != 1 && (matched || repetitions))
				context->repetition_nesting--;''')],
 demo=H+'''int main() { int bad = 0; CHECK(run("|+ab|c:n", "c") == "c n=c"); CHECK(run("+a:n", "aa") == "aa n*=a n*=a"); return bad; }''',
 needs='a + whose first iteration fails, and a capture after it', breaks='later captures are said to be in a repetition'),
dict(id='p11-skip-negated', property='P11', edits=[(S,'''			if (*pattern == '^')
				pattern++;
			while (*pattern != '\\0' && *pattern != ']')
			{
				(void)literal_char(pattern);''','''			while (*pattern != '\\0' && *pattern != ']')
			{
				(void)literal_char(pattern);''')],
 demo=H+'''int main() { int bad = 0; CHECK(run("?[^-]-b", "-b") == "-b"); CHECK(run("?[^-]b", "ab") == "ab"); CHECK(run("|[^-]x|-y", "-y") == "-y"); return bad; }''',
 needs='skipping a negated class of just a hyphen', breaks='the rest of the pattern is swallowed'),
dict(id='p11-lookahead-label', property='P11', edits=[(S,'''			if (context->capture_disabled == 0)
				(void)context->capture(''','''			if (context->capture_disabled == 0 || (context->capture_disabled == 1 && context->repetition_nesting > 1))
				(void)context->capture(''')],
 demo=H+'''int main() { int bad = 0; CHECK(run("*(+(&(a:n)a))", "aa") == "aa"); CHECK(run("&(a:n)a:m", "a") == "a m=a"); return bad; }''',
 needs='a label in a look-ahead within nested repetitions', breaks='the look-ahead captures'),
dict(id='p11-stuck-repetition', property='P11', edits=[(S,'''				if (state.source.same(iteration_start.source))
					break;''','''				if (repetitions < 2 && state.source.same(iteration_start.source))
					break;''')],
 demo=H+'''#include <unistd.h>
int main() { int bad = 0; alarm(5); CHECK(run("*(?a)b", "b") == "b"); CHECK(run("*(?a)b", "ab") == "ab"); CHECK(run("*(?a)b", "aaab") == "aaab"); return bad; }''',
 needs='a repetition of something that may match nothing, after two iterations that consumed text', breaks='the match never ends'),
dict(id='p11-failure-place', property='P11', edits=[(S,'''					start_state.source	// The Source location
				); // ...''','''					state.source		// The Source location
				); // ...''')],
 demo=H+'''int main() { int bad = 0; std::string f; CHECK(run("a[bc]", "ax", &f) == "fail"); CHECK(f == "[1"); CHECK(run("ab", "ax", &f) == "fail"); CHECK(f == "b1"); return bad; }''',
 needs='a context that records the place of a failure', breaks='the place reported is past the character that did not match'),
]
