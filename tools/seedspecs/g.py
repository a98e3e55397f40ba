S='include/peg.h'
H='''
#include <new>
#include <cstdio>
#include <cstring>
#include <string>
#include <variant.h>
#include <peg.h>
#include <peg_ast.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
typedef Peg<PegMemorySource, PegMatch, PegContext> P;
static std::string run(P::Rule* rules, int n, const char* t) {
	P p(rules, n); PegMemorySource s(t); PegMatch m = p.parse(s);
	if (m.is_failure()) return "fail";
	return std::to_string((int)(s.peek() - t)) + " " + m.var.as_json(-2).asUTF8();
}
'''
SEEDS=[
dict(id='p12-long-cycle', property='P12', edits=[(S,'''		for (Context* pp = context->parent; pp; pp = pp->parent)
		{''','''		int	levels = 0;
		for (Context* pp = context->parent; pp && levels < 16; pp = pp->parent)
		{
			levels++;''')],
 demo=H+'''#include <sys/resource.h>
int main() { int bad = 0; static std::string n[20], x[20]; P::Rule* rules = (P::Rule*)malloc(sizeof(P::Rule)*21); new (&rules[0]) P::Rule("TOP", "<r0>", 0);
 for (int i = 0; i < 20; i++) { n[i] = "r" + std::to_string(i); x[i] = "?b<r" + std::to_string((i+1)%20) + ">"; new (&rules[1+i]) P::Rule(n[i].c_str(), x[i].c_str(), 0); }
 CHECK(run(rules, 21, "a") == "fail"); return bad; }''',
 needs='left recursion through more than 16 rules', breaks='the parser recurses until the stack is exhausted'),
dict(id='p12-sort-prefix', property='P12', edits=[(S,"return strcmp(((const Rule*)r1)->name, ((const Rule*)r2)->name);","return strncmp(((const Rule*)r1)->name, ((const Rule*)r2)->name, 12);")],
 demo=H+'''int main() { int bad = 0; P::Rule rules[] = { {"repeated_group_c", "c", 0}, {"repeated_group_b", "b", 0}, {"repeated_group_a", "a", 0}, {"TOP", "<repeated_group_a><repeated_group_b><repeated_group_c>", 0} };
 CHECK(run(rules, 4, "abc") != "fail"); return bad; }''',
 needs='rule names that agree in their first 12 characters', breaks='rules are not found'),
dict(id='p12-call-in-lookahead', property='P12', edits=[(S,'''			if (context->capture_disabled == 0	// If we're capturing
			 && context->rule''','''			if ((context->capture_disabled == 0 || context->repetition_nesting > 0)	// If we're capturing
			 && context->rule''')],
 demo=H+'''int main() { int bad = 0; const char* c[] = {"x", 0}; P::Rule rules[] = { {"TOP", "*(&<a>:x.)", c}, {"a", "[ab]", 0} }; std::string s = run(rules, 2, "ab"); CHECK(s.find("x") == std::string::npos); return bad; }''',
 needs='a labelled call in a look-ahead in a repetition', breaks='the look-ahead captures'),
dict(id='p12-label-size', property='P12', edits=[(S,'''				if (call_end[-1] == ':')
					label_size--;''','''				if (call_end[-1] == ':' && *call_end != '\\0')
					label_size--;''')],
 demo=H+'''int main() { int bad = 0; const char* c[] = {"x", 0}; P::Rule rules[] = { {"TOP", "<a>:x:", c}, {"a", "a", 0} }; std::string s = run(rules, 2, "a"); CHECK(s.find("x:") == std::string::npos); CHECK(s.find("x") != std::string::npos); return bad; }''',
 needs='a call with a terminated label at the end of a rule', breaks='the colon becomes part of the name'),
]
