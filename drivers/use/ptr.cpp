// Guarded pointers
#include <char_ptr.h>
#include <utf8_ptr.h>
#include <charpointer.h>
template <typename P> struct Use {
	void	use(P a, const P& b, const char* s)
	{
		P	e, o(s), c(b);
		e = b;
		bool	t = a.at_eof();
		UCS4	u = *a;
		const char*	p = a;
		a += 1; a -= 1;
		e = a + 1; e = a - 1;
		e = a++; e = ++a;
		long	d = (a - e) + (a - s);
	}
	void	back(P a, P e) { e = a--; e = --a; }
	bool	bot(P a) { return a.at_bot(); }
};
template struct Use<GuardedCharPtr>;
template struct Use<GuardedUTF8Ptr>;
void point(CharPointer p, Char c) { p++; c = *p; }
template void Use<UnGuardedCharPtr>::use(UnGuardedCharPtr, const UnGuardedCharPtr&, const char*);
template void Use<UnGuardedCharPtr>::back(UnGuardedCharPtr, UnGuardedCharPtr);
template void Use<NulGuardedCharPtr>::use(NulGuardedCharPtr, const NulGuardedCharPtr&, const char*);
template void Use<NulGuardedUTF8Ptr>::use(NulGuardedUTF8Ptr, const NulGuardedUTF8Ptr&, const char*);
template void Use<NulGuardedUTF8Ptr>::back(NulGuardedUTF8Ptr, NulGuardedUTF8Ptr);
