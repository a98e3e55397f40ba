// Variants: every member, every type
#include <variant.h>
void use(Variant& v, const Variant& c, StrVal s, StrVal* many, StringArray sa, Variant* vs, VariantArray va, StrVariantMap m)
{
	Variant	none, i(1), l(1L), ll(1LL), str(s), text("text"), a(sa), b(many, 2), d(va), e(vs, 2), f(many, vs, 2), g(m), h(Variant::StrVarMap), copy(c);
	v = c; v = 1; v = 1L; v = 1LL; v = s; v = "text"; v = sa; v = va; v = m;
	bool	t = c.is_null() || c.type() == Variant::None || c.type_name();
	s = v.as_strval(); s = c.as_strval();
	sa = v.as_string_array(); sa = c.as_string_array();
	va = v.as_variant_array(); va = c.as_variant_array();
	m = v.as_variant_map(); m = c.as_variant_map();
	v.as_int() = c.as_int(); v.as_long() = c.as_long(); v.as_longlong() = c.as_longlong();
	s = c.as_json(); s = c.as_json(-2); s = c.as_json(2);
	StrVariantMap	n(many, vs, 2), o;
}
