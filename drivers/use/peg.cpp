// Peg: by default, over one's own source
#include <peg.h>
template class PegDefaultMatch<>;
template class PegContextNoCapture<>;
template class PegPegexp<PegContextNoCapture<>>;
template class PegRuleNoCapture<PegPegexp<PegContextNoCapture<>>>;
template class Peg<>;
bool use(const char* text)
{
	using P = Peg<>;
	P::Rule	rules[] = {{"TOP", P::PegexpT("a<b>")}, {"b", P::PegexpT("+b")}};
	P	peg(rules, 2);
	P::Source	s(text);
	P::Match	m = peg.parse(s);
	return m.is_failure() || !m.to.source.at_eof() || peg.lookup("b");
}
struct Own {
	using Char = UCS4;
	bool	is_null() const { return false; }
	char	get_byte() { return 0; }
	Char	get_char() { return 0; }
	bool	at_eof() const { return true; }
	bool	at_bol() const { return true; }
	bool	same(const Own&) const { return true; }
	bool	operator<(const Own&) const { return false; }
};
template class Peg<Own>;
