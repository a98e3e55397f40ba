// Pegexp: by default, over the sources provided, and over one's own
#include <pegexp.h>
#include <utf8_ptr.h>
#include <char_ptr.h>
template class PegexpPointerSource<>;
template class PegexpPointerSource<GuardedUTF8Ptr>;
template class PegexpPointerSource<const UTF8*, char>;
template class PegexpState<>;
template class PegexpDefaultMatch<>;
template class PegexpDefaultContext<>;
template class Pegexp<>;
bool use(const char* text)
{
	Pegexp<>	p("a*b");
	Pegexp<>::Source	s(text), t(s), none;
	Pegexp<>::Context	c;
	Pegexp<>::Match	m = p.match(s, &c), h = p.match_here(t, &c);
	StrVal	found = m.from.source.string_to(m.to.source);
	return m.is_failure() || s.same(t) || s < t || s - t || s.bytes_from(t) || none.is_null() || s.current_byte() || s.current_line() || s.current_column() || s.at_eof() || s.at_bol() || s.get_char() || s.get_byte();
}
struct Own {
	using Char = char;
	bool	is_null() const { return false; }
	char	get_byte() { return 0; }
	Char	get_char() { return 0; }
	bool	at_eof() const { return true; }
	bool	at_bol() const { return true; }
	bool	same(const Own&) const { return true; }
};
using OwnMatch = PegexpDefaultMatch<PegexpState<Own>>;
template class Pegexp<PegexpDefaultContext<OwnMatch>>;
struct Extended : Pegexp<> {
	Extended(PatternP p) : Pegexp<>(p) {}
	bool	match_extended(State& s, Context* c) { s.pattern++; return match_literal(s, c); }
	void	skip_extended(PatternP& p) { p++; }
};
const char*	special = Pegexp<>::special;
