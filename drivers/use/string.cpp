// Strings: every member; numbers, JSON, formatting; arrays of strings
#include <variant.h>
#include <strformat.h>
template class StrBodyI<StrValIndex>;
template class StrRefI<StrValIndex>;
template class StrValI<StrValIndex>;
template struct StrBookmark<StrValIndex>;
void read(const StrVal& a, StrVal b, StrRef r, Variant v, VariantArray args)
{
	StrVal	copy(a), empty, text("text"), sized("text", 4), room("text", 4, 10), one(UCS4('x')), of(r);
	StrRef	q(a), rt("text"), rs("text", 4), ro(UCS4('x'));
	copy = a; q = r;
	StrValIndex	n = a.length() + a.numBytes() + r.length();
	bool	t = a.isEmpty() || r.isEmpty() || a || r;
	UCS4	c = a[0];
	const char*	p = b.asUTF8();
	p = a.asUTF8(n);
	int	i = a.compare(b) + a.compare(b, StrVal::CompareRaw);
	t = a == b || a != b || a < b || a <= b || a >= b || a > b || StrVal::compare(a, b) || StrVal::equiv(a, b);
	StrVal	s = a.substr(1), s2 = a.substr(1, 2), h = a.head(1), e = a.tail(1), sh = a.shorter(1);
	i = a.find(c) + a.find(c, 1) + a.rfind(c) + a.rfind(c, 1) + a.find(b) + a.find(b, 1) + a.rfind(b) + a.rfind(b, 1);
	i = a.findAny(b) + a.findAny(b, 1) + a.rfindAny(b) + a.rfindAny(b, 1) + a.findNot(b) + a.findNot(b, 1) + a.rfindNot(b) + a.rfindNot(b, 1);
	StrVal	plus = a + "text", plus2 = a + b, plus3 = a + UCS4('x'), times = b * 2, pre = "text" + a;
	StrVal	l = a.asLower(), u = a.asUpper(), j = a.asJSON();
	ErrNum	err;
	unsigned	scanned;
	i = a.asInt32() + a.asInt32(&err) + a.asInt32(&err, 10) + a.asInt32(&err, 10, &scanned);
	StrVal	f = StrVal::format(a, args);
	n = StrVal::null.length();
}
void change(StrVal& a, StrVal b)
{
	a += b; a += UCS4('x'); a += "text";
	a.insert(1, b); a.append(b); a.prepend(b);
	a.toLower(); a.toUpper(); a.toJSON();
	a.transform([](const char*& cp, const char* ep) -> StrVal { return StrVal(UTF8Get(cp)); });
	a.transform([](const char*& cp, const char* ep) -> StrVal { return StrVal(UTF8Get(cp)); }, 1);
}
void strings(StringArray& a, const StringArray& c, StrVal s, StrVal* many, Array<const char*> texts)
{
	StringArray	e, copy(c), of(many, 3), room(many, 3, 10), t(texts), sl(c.slice(1));
	StrVal	x = c[0], y = c.elem(0), z = a.last(), p = a.pull(), d = a.delete_at(0), j = c.join(s);
	a.append(s); a.push(s); a.insert(0, c); a += s; a += c; a.unshift(s); a.set(0, s); a.reverse(); a.clear();
	int	i = c.find(s) + c.rfind(s) + c.compare(copy);
	bool	b = c == copy || c != copy;
	c.each([](const StrRef&) {});
}
