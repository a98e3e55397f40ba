// Pegexp over a source, context and extensions about which nothing is known
#include <pegexp.h>

struct Src {
	using Char = UCS4;
	int	pos;
	Src();
	bool	is_null() const;
	char	get_byte();
	Char	get_char();
	bool	at_eof() const;
	bool	at_bol() const;
	bool	same(const Src& other) const;
	bool	operator<(const Src& other) const;
};
using St = PegexpState<Src>;
using Ma = PegexpDefaultMatch<St>;
extern "C" int x_count();
extern "C" void x_capture(PatternP name, int len, const Ma* m, bool in_repetition);
extern "C" void x_rollback(int count);
extern "C" void x_failure(PatternP op, PatternP end, const Src* at);
extern "C" bool x_match(St* s, int disabled, int nesting);
extern "C" void x_skip(PatternP* p);
struct Ctx : PegexpDefaultContext<Ma> {
	int	capture_count() const { return x_count(); }
	int	capture(PatternP name, int name_len, Ma m, bool in_repetition) { x_capture(name, name_len, &m, in_repetition); return x_count(); }
	void	rollback_capture(int count) { x_rollback(count); }
	void	record_failure(PatternP op, PatternP op_end, Src location) { x_failure(op, op_end, &location); }
};
struct X : Pegexp<Ctx> {
	X(PatternP p) : Pegexp<Ctx>(p) {}
	bool	match_extended(St& s, Ctx* c) { return x_match(&s, c->capture_disabled, c->repetition_nesting); }
	void	skip_extended(PatternP& p) { x_skip(&p); }
};
extern "C" {
long o_from(Ma* p) { return (char*)&p->from - (char*)p; }
long o_to(Ma* p) { return (char*)&p->to - (char*)p; }
long o_pattern(St* p) { return (char*)&p->pattern - (char*)p; }
long o_source(St* p) { return (char*)&p->source - (char*)p; }
long o_pos(Src* p) { return (char*)&p->pos - (char*)p; }
long o_disabled(Ctx* p) { return (char*)&p->capture_disabled - (char*)p; }
long o_nesting(Ctx* p) { return (char*)&p->repetition_nesting - (char*)p; }
bool f_here(PatternP p, Src* s, Ctx* c, Src* from, Src* to) { X x(p); Ma m = x.match_here(*s, c); *from = m.from.source; *to = m.to.source; return !m.is_failure(); }
bool f_match(PatternP p, Src* s, Ctx* c, Src* from, Src* to) { X x(p); Ma m = x.match(*s, c); *from = m.from.source; *to = m.to.source; return !m.is_failure(); }
bool f_plain(PatternP p, Src* s, Ctx* c, Src* from, Src* to) { Pegexp<Ctx> x(p); Ma m = x.match_here(*s, c); *from = m.from.source; *to = m.to.source; return !m.is_failure(); }
}
