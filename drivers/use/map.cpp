// Maps: every member, with string keys and with others
#include <array.h>
#include <cowmap.h>
#include <variant.h>
template class CowMap<int>;
template class CowMap<int, int>;
template class CowMap<StrVal, int>;
template class CowMap<StrVal>;
template class CowMap<Variant, StrVal>;
template class CowMapBody<int, StrVal>;
template <typename M, typename K, typename V> struct Use {
	void	use(M& a, const M& c, K k, V v)
	{
		M	copy(a), empty, many(&k, &v, 1);
		copy = a;
		V	x = c[k];
		bool	b = c.contains(k) && c.find(k) != c.end() && c.begin() != c.end() && c.size();
		a.insert(k, v); a.put(k, v); a.remove(k); a.clear();
		Array<K>	ks = c.keys();
		Array<V>	vs = c.values();
		c.each([](const K&, const V&) {});
		b = c.all([](const K&, const V&) { return true; }) && c.any([](const K&, const V&) { return true; }) && c.one([](const K&, const V&) { return true; });
		M	s = c.select([](const K&, const V&) { return true; });
		CowMap<V, K>	m = c.template map<V, K>([](const K& k, const V& v) { return std::pair<K, V>(k, v); });
		CowMap<int, int>	n = c.template map<int, int>([](const K& k, const V& v) { return std::pair<int, int>(1, 2); });
		int	j = c.template inject<int>(0, [](int& j, const K&, const V&) { return j; });
	}
};
template struct Use<CowMap<int>, StrVal, int>;
template struct Use<CowMap<int, int>, int, int>;
template struct Use<CowMap<StrVal>, StrVal, StrVal>;
template struct Use<CowMap<Variant, StrVal>, StrVal, Variant>;
