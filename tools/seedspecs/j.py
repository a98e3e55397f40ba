S='include/strval.h'; F='include/strformat.h'
H='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <variant.h>
#include <strformat.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); exit(1); } } while (0)
static bool num(const char* s, int radix, int value, int err) { ErrNum e; int v = StrVal(s).asInt32(&e, radix); return (int)e == (int)(err ? ErrNum(STRERR_SET, err) : ErrNum(0)) && (err || v == value); }
static bool is(StrVal a, const char* b) { return a == StrVal(b); }
'''
SEEDS=[
dict(id='p20-sign-space', property='P20', edits=[(S,'''		i++;
		negative = ch == '-';
		while (i < len && UCS4IsWhite(ch = (*this)[i]))
			i++;
		if (i == len)
			goto no_digits;
''','''		i++;
		while (i < len && UCS4IsWhite(ch = (*this)[i]))
			i++;
		if (i == len)
			goto no_digits;
		negative = (*this)[i-1] == '-';
''')],
 demo=H+'''int main() { CHECK(num("-5", 10, -5, 0)); CHECK(num("- 5", 10, -5, 0)); return 0; }''',
 needs='space between a minus sign and the digits', breaks='the sign is lost'),
dict(id='p20-short-octal', property='P20', edits=[(S,'''		if (UCS4Digit(ch) == 0 && i+1 < len)
''','''		if (UCS4Digit(ch) == 0 && i+2 < len)
''')],
 demo=H+'''int main() { CHECK(num("017", 0, 15, 0)); CHECK(num("010 ", 0, 8, 0)); CHECK(num("07", 0, 7, 0)); CHECK(num("08", 0, 0, 1)); return 0; }''',
 needs='automatic radix, a zero and one more character at the end of the text', breaks='08 is read as decimal 8'),
dict(id='p20-narrow', property='P20', edits=[(S,'''	unsigned long	l = 0;			// Number being converted
''','''	uint32_t	l = 0;			// Number being converted
''')],
 demo=H+'''int main() { CHECK(num("2147483648", 10, 0, 3)); CHECK(num("4294967296", 10, 0, 3)); CHECK(num("-4294967297", 10, 0, 3)); return 0; }''',
 needs='a number that is a small one modulo 2 to the 32', breaks='the small one is returned without an error'),
dict(id='p20-letter-digit', property='P20', edits=[(S,'''				if ((d = UCS4Digit(ch)) < 0)		// Not decimal digit
				{
					if (radix > 10
					 && (d = HexAlpha(ch)) < 0)	// Not ASCII a-z, A-Z either
						return -1;		// ditch it
				}
''','''				if (radix > 10 && ch >= 'A')		// A letter
					d = HexAlpha(ch);
				else
					d = UCS4Digit(ch);
				if (d < 0)
					return -1;
''')],
 demo=H+'''int main() { CHECK(num("1F", 16, 31, 0)); CHECK(num("\\xD9\\xA3", 10, 3, 0)); CHECK(num("\\xD9\\xA3", 16, 3, 0)); return 0; }''',
 needs='a digit of another script with a radix over 10', breaks='it is not a digit'),
dict(id='p21-lone-surrogate', property='P21', edits=[(S,'''				 && (ch <= 0xFFFF && !UTF16IsSurrogate(ch))	// Not ctl, emoji or surrogate 
''','''				 && (ch <= 0xFFFF && (ch < 0xD800 || ch > 0xDBFF))	// Not ctl, emoji or surrogate 
''')],
 demo=H+'''int main() { CHECK(is(StrVal("\\xED\\xA0\\x80").asJSON(), "\\\\uD800")); CHECK(is(StrVal("\\xED\\xB0\\x80").asJSON(), "\\\\uDC00")); return 0; }''',
 needs='a low surrogate encoded as a character', breaks='what is no character is output as it is'),
dict(id='p21-escape-buffer', property='P21', flags='-fsanitize=address', edits=[(S,'''	char		one_char[14];			// \\u{12345678} or \\u1234\\u4321
''','''	char		one_char[12];			// \\u1234\\u4321
''')],
 demo=H+'''int main() { CHECK(StrVal("a\\xE2\\x82\\xAC\\n").asJSON().length() == 4); CHECK(is(StrVal("\\xF0\\x9F\\x98\\x80").asJSON(), "\\\\uD83D\\\\uDE00")); return 0; }''',
 needs='a supplementary character', breaks='a NUL is written beyond the buffer'),
dict(id='p21-control', property='P21', edits=[(S,'''				if (ch >= ' '
''','''				if (ch > 0x1E
''')],
 demo=H+'''int main() { CHECK(is(StrVal("\\x1E").asJSON(), "\\\\u001E")); CHECK(is(StrVal("\\x1F").asJSON(), "\\\\u001F")); return 0; }''',
 needs='the control character U+001F', breaks='it is output as it is'),
dict(id='p22-numbered-end', property='P22', edits=[(F,'''		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
''','''		if (i+3 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
''')],
 demo=H+'''int main() { VariantArray a; a.append(Variant("x")); a.append(Variant("y")); CHECK(is(StrVal::format("%2$s-", a), "y-")); CHECK(is(StrVal::format("-%2$s", a), "-y")); return 0; }''',
 needs='a numbered conversion at the very end of the format', breaks='nothing is output for it'),
dict(id='p22-star-precision', property='P22', edits=[(F,'''			prec = args[a++].as_int();
''','''			prec = args[a].as_int();
''')],
 demo=H+'''int main() { VariantArray a; a.append(Variant(0)); a.append(Variant(1)); a.append(Variant(7)); CHECK(is(StrVal::format("%*.*d", a), "7")); return 0; }''',
 needs='a * as precision', breaks='the precision is output instead of its argument'),
dict(id='p22-join-bytes', property='P22', edits=[(S,'''		StrVal	joined(e0.asUTF8(), e0.numBytes(), result_length+1);
''','''		StrVal	joined(e0.asUTF8(), e0.length(), result_length+1);
''')],
 demo=H+'''int main() { StringArray a; a.append(StrVal("a\\xC3\\xA9")); a.append(StrVal("b")); CHECK(is(a.join(","), "a\\xC3\\xA9,b")); StringArray b; b.append(StrVal("x")); b.append(StrVal("\\xC3\\xA9")); CHECK(is(b.join(","), "x,\\xC3\\xA9")); return 0; }''',
 needs='a first element with characters beyond ASCII', breaks='it is cut'),
]
