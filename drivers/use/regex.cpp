// Regular expressions
#include <strregex.h>
bool use(StrVal text)
{
	RxCompiler	c("a|b"), d("a", RxFeature::AllFeatures), e("a", RxFeature::AllFeatures, RxFeature::NoFeature);
	char*	nfa = 0;
	bool	ok = c.compile(nfa);
	c.dump(nfa);
	ErrNum	n;
	RxProgram	p(nfa, true), q(nfa);
	RxResult	r = p.matchAfter(text), s = p.matchAfter(text, 1), t = p.matchAt(text), u = p.matchAt(text, 1), none, copy(r);
	none = r;
	return (bool)r || r.succeeded() || r.capture(0) || r.captureMax();
}
