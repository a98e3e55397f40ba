// The regular expression compiler and matcher
#include <new>
#include <strregex.h>

extern "C" {
unsigned long s_str() { return sizeof(StrVal); }
unsigned long s_comp() { return sizeof(RxCompiler); }
unsigned long s_prog() { return sizeof(RxProgram); }
unsigned long s_res() { return sizeof(RxResult); }
void f_str(StrVal* s, const char* text) { new (s) StrVal(text); }
void f_unstr(StrVal* s) { s->~StrVal(); }
bool f_compile(StrVal* re, int features, int rejected, char** nfa, const char** message, int* offset)
{
	RxCompiler	c(*re, (RxFeature)features, (RxFeature)rejected);
	bool		ok = c.compile(*nfa);
	*message = c.errorMessage();
	*offset = c.errorOffset();
	return ok;
}
void f_prog(RxProgram* p, char* nfa, bool own) { new (p) RxProgram(nfa, own); }
int f_again(StrVal* re, int features, int rejected, char** nfa1, char** nfa2)
{
	RxCompiler	c(*re, (RxFeature)features, (RxFeature)rejected);
	bool		ok = c.compile(*nfa1);
	const char*	message = c.errorMessage();
	int		offset = c.errorOffset();
	bool		again = c.compile(*nfa2);
	return (ok == again) | (message == c.errorMessage()) << 1 | (ok || offset == c.errorOffset()) << 2;
}
void f_unprog(RxProgram* p) { p->~RxProgram(); }
void f_after(RxResult* r, RxProgram* p, StrVal* t, int offset) { new (r) RxResult(p->matchAfter(*t, offset)); }
void f_at(RxResult* r, RxProgram* p, StrVal* t, int offset) { new (r) RxResult(p->matchAt(*t, offset)); }
int f_dump(const char* nfa)
{
	const char*	np = nfa;
	while (RxCompiler::dumpInstruction(nfa, np))
		;
	return np-nfa;
}
bool f_ok(RxResult* r) { return r->succeeded(); }
unsigned f_offset(RxResult* r) { return r->offset(); }
unsigned f_length(RxResult* r) { return r->length(); }
int f_captures(RxResult* r) { return r->captureMax(); }
unsigned f_capture(RxResult* r, int i) { return r->capture(i); }
void f_unres(RxResult* r) { r->~RxResult(); }
const char* f_name(RxProgram* p, int i) { StrVal n(p->group_name(i)); return n.asUTF8(); }
}
