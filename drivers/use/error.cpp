// Errors
#include <error.h>
constexpr ErrNum	known(1, 2);
static_assert(known.set() == 1 && known.msg() == 2, "an error number is a constant");
static_assert((int32_t)ErrNum() == 0 && (int32_t)known < 0, "an error is negative");
int use(const ErrNum& e, const Error& r)
{
	ErrNum	n, m(e), of((int32_t)5);
	n = e;
	Error	none, of2(5), text(5, "text"), full(5, "text", 0), copy(r);
	none = r;
	switch (e) { case known: return 1; }
	ErrNum	back = r;
	bool	b = e == m || e != m || e == 5 || e < 5 || e > 5;
	return e.set() + e.msg() + (int32_t)e + (int32_t)r + (r.default_text() != 0) + (r.parameters() != 0);
}
