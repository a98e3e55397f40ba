// Counted references
#include <refcount.h>
#include <array.h>
struct X : RefCounted {
	int	i;
	X() {}
	X(const X& x) : i(x.i) {}
	bool operator==(const X& x) const { return i == x.i; }
	bool operator!=(const X& x) const { return i != x.i; }
	bool operator<(const X& x) const { return i < x.i; }
	bool operator>(const X& x) const { return i > x.i; }
};
struct Y : X {};
template class Ref<X>;
void use(Ref<X> a, const Ref<X>& b, X* x, Ref<Y> y)
{
	Ref<X>	e, o(x), c(b);
	e = b; e = x;
	X*	p = b;
	int	i = b->i + (*b).i + a.GetRefCount();
	bool	t = b == c || b != c || b < c || b > c || (bool)b;
	a.Unshare();
	Ref<X>	up = y.Cast<X>();
	Ref<Y>	down = a.Cast<Y>();
	Array<Ref<X>>	many(b);
	t = many == many || many.compare(many) || many.find(b) >= 0;
}
