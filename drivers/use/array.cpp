// Arrays: every member, of plain and of class elements, with narrow indices and with a body of one's own
#include <array.h>
struct Thing { int i; Thing(int x = 0) : i(x) {} Thing(const Thing& t) : i(t.i) {} Thing& operator=(const Thing& t) { i = t.i; return *this; }
	bool operator<(const Thing& t) const { return i < t.i; } bool operator==(const Thing& t) const { return i == t.i; } };
struct OwnBody : ArrayBody<int> { OwnBody(const int* d, bool c, unsigned n, unsigned a = 0) : ArrayBody<int>(d, c, n, a) {} OwnBody() {} };
template class Array<int>;
template class Array<Thing>;
template class Array<char, unsigned short>;
template class Array<const char*>;
template class Array<int, ArrayIndex, OwnBody>;
template class ArrayBody<int>;
template class ArrayBody<Thing>;
template class ArrayBody<char, unsigned short>;
template <typename A> struct Use {
	using E = typename A::Element;
	using I = typename A::Index;
	void	read(const A& a, E e)
	{
		A	copy(a), empty;
		copy = a;
		I	n = a.length();
		bool	b = a.isEmpty() || a.isShared() || a == copy || a != copy;
		int	c = a.compare(copy);
		E	x = a[0], y = a.elem(0);
		const E&	r = a.elem_ref(0);
		const E&	l = a.last_ref();
		const E*	p = a.asElements();
		A	s = a.slice(1), s2 = a.slice(1, 2), h = a.head(1), t = a.tail(1), sh = a.shorter(1), plus = a + a, plus1 = a + e;
		c = a.find(e) + a.find(e, 1) + a.rfind(e) + a.rfind(e, 1);
		a.each([](const E&) {});
		b = a.all([](const E&) { return true; }) && a.any([](const E&) { return true; }) && a.one([](const E&) { return true; });
		A	sel = a.select([](const E&) { return true; });
		A	m = a.template map<A, E>([](const E& e) { return e; });
		Array<int>	mi = a.template map<Array<int>, int>([](const E&) { return 1; });
		int	inj = a.template inject<int>(0, [](int& j, const E&) { return j; });
	}
	void	change(A& a, E e)
	{
		a += e; a += a; a << e;
		a.append(e); a.append(a);
		a.insert(0, e); a.insert(0, a);
		a.push(e); e = a.pull(); e = a.last(); e = a.shift(); a.unshift(e);
		a.last_mut() = e; a.elem_mut(0) = e; a.set(0, e);
		a.remove(0); a.remove(0, 1);
		e = a.delete_at(0); a.clear(); a.reverse();
		a.delete_if([](const E&) { return true; });
	}
	int	more(const A& a, E e)
	{
		std::function<bool(const E&)>	f = [](const E&) { return true; };
		A	one(e), many(&e, 1), room(&e, 1, 10), d = a.drop(1);
		return a.find(f) + a.find(f, 1) + a.rfind(f) + a.rfind(f, 1) + a.detect(f) + a.bsearch([](const E&) { return 0; });
	}
};
template struct Use<Array<int>>;
template struct Use<Array<Thing>>;
template struct Use<Array<char, unsigned short>>;
