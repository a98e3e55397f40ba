// Peg that makes a tree
#include <peg_ast.h>
template class Peg<PegMemorySource, PegMatch, PegContext>;
template class PegPegexp<PegContext>;
template class PegCaptureRule<PegPegexp<PegContext>>;
bool use(const char* text)
{
	using P = Peg<PegMemorySource, PegMatch, PegContext>;
	const char*	names[] = {"b", 0};
	P::Rule	rules[] = {{"TOP", P::PegexpT("a<b>"), names}, {"b", P::PegexpT("+b"), 0}};
	P	peg(rules, 2);
	P::Source	s(text);
	P::Match	m = peg.parse(s);
	PegFailures	f = m.failures;
	return m.is_failure() || m.furthermost_success.peek() || f.length() || m.var.type() == Variant::StrVarMap;
}
