// Peg over a source about which nothing is known, and a context that tells what happens to it
#include <new>
#include <peg.h>

struct Src {
	using Char = UCS4;
	int	pos;
	Src();
	bool	is_null() const;
	char	get_byte();
	Char	get_char();
	bool	at_eof() const;
	bool	at_bol() const;
	bool	same(const Src& other) const;
	bool	operator<(const Src& other) const;
};
using St = PegexpState<Src>;
struct Ma : PegexpDefaultMatch<St> {
	using Source = Src;
	using State = St;
	using Base = PegexpDefaultMatch<St>;
	int	by;		// The context this is the result of
	Ma() : by(-1) {}
	Ma(St f, St t) : Base(f, t), by(-1) {}
};
template <typename PegexpT> struct Ru : PegRuleNoCapture<PegexpT> {
	Ru(const char* n, PegexpT p) : PegRuleNoCapture<PegexpT>(n, p) {}
	bool	is_captured(const char* label);
};
extern "C" int x_open(const void* rule, int parent, int origin);
extern "C" void x_close(int);
extern "C" int x_count(int);
extern "C" void x_capture(int, const char* name, int len, const Ma* m, int by, bool in_repetition);
extern "C" void x_rollback(int, int count);
extern "C" void x_failure(int, const char* op, const char* end, const Src* at);
extern "C" bool x_captured(const char* rule, const char* label);
struct Ctx {
	using Source = Src;
	using Match = Ma;
	using State = St;
	using PegT = Peg<Src, Ma, Ctx>;
	using PegexpT = PegPegexp<Ctx>;
	using Rule = Ru<PegexpT>;
	Ctx(PegT* _peg, Ctx* _parent, Rule* _rule, Src _origin)
	: peg(_peg), parent(_parent), rule(_rule), origin(_origin)
	, repetition_nesting(0), capture_disabled(_parent ? _parent->capture_disabled : 0)
	, id(x_open(_rule, _parent ? _parent->id : -1, _origin.pos)) {}
	~Ctx() { x_close(id); }
	int	capture_count() const { return x_count(id); }
	int	capture(PatternP name, int name_len, Ma m, bool in_repetition) { x_capture(id, name, name_len, &m, m.by, in_repetition); return x_count(id); }
	void	rollback_capture(int count) { x_rollback(id, count); }
	void	record_failure(PatternP op, PatternP op_end, Src location) { x_failure(id, op, op_end, &location); }
	Ma	match_result(St from, St to) { Ma m(from, to); m.by = id; return m; }
	Ma	match_failure(St at) { return Ma(at, at); }
	PegT*	peg;
	Ctx*	parent;
	Rule*	rule;
	Src	origin;
	int	repetition_nesting;
	int	capture_disabled;
	int	id;
};
template <typename T> bool Ru<T>::is_captured(const char* label) { return x_captured(this->name, label); }
using PegX = Ctx::PegT;
using Rule = Ctx::Rule;
extern "C" {
unsigned long s_rule() { return sizeof(Rule); }
unsigned long s_peg() { return sizeof(PegX); }
long o_name(Rule* p) { return (char*)&p->name - (char*)p; }
long o_from(Ma* p) { return (char*)&p->from - (char*)p; }
long o_to(Ma* p) { return (char*)&p->to - (char*)p; }
long o_source(St* p) { return (char*)&p->source - (char*)p; }
long o_pos(Src* p) { return (char*)&p->pos - (char*)p; }
void f_rule(Rule* r, const char* name, const char* pattern) { new (r) Rule(name, pattern); }
void f_peg(PegX* p, Rule* rules, int n) { new (p) PegX(rules, n); }
bool f_parse(PegX* p, Src* s, Src* from, Src* to) { Ma m = p->parse(*s); *from = m.from.source; *to = m.to.source; return !m.is_failure(); }
const char* f_lookup(PegX* p, const char* name) { Rule* r = p->lookup(name); return r ? r->name : 0; }
}
