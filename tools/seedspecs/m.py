X='include/pegexp.h'; G='include/peg.h'; T='include/peg_ast.h'; A='include/array.h'; S='include/strval.h'; M='include/cowmap.h'; V='include/variant.h'; F='include/strformat.h'; U='include/utf8_ptr.h'; K='include/char_ptr.h'
H='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <variant.h>
#include <cowmap.h>
#include <array.h>
#include <peg.h>
#include <peg_ast.h>
#include <strformat.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); exit(1); } } while (0)
static bool is(StrVal a, const char* b) { return a == StrVal(b); }
'''
PX='''
static bool matches(const char* pattern, const char* text) { Pegexp<> p(pattern); PegexpDefaultSource s(text); Pegexp<>::Context c; auto m = p.match_here(s, &c); return !m.is_failure() && s.at_eof(); }
'''
SEEDS=[
dict(id='p11-octal-seven', property='P11', edits=[(X,'''			rc -= '0';
			if (*pattern >= '0' && *pattern <= '7')
				rc = (rc<<3) + *pattern++-'0';
			if (*pattern >= '0' && *pattern <= '7')
				rc = (rc<<3) + *pattern++-'0';
''','''			rc -= '0';
			for (int digit, n = 0; n < 2 && (digit = *pattern-'0') >= 0 && digit < 7; n++, pattern++)
				rc = (rc<<3) | digit;
''')],
 demo=H+PX+'''int main() { CHECK(matches("\\\\101q", "Aq")); CHECK(matches("\\\\077q", "?q")); return 0; }''',
 needs='an octal escape with a 7 after the first digit', breaks='the 7 is taken as the next character'),
]
SEEDS += [
dict(id='p20-guess-base', property='P20', edits=[(S,'''			default:
				if (radix == 0)
					radix = 8;
				break;
			}
''','''			default:
				if (radix == 0)
					radix = UCS4Digit((*this)[i+1]) > 7 ? 10 : 8;
				break;
			}
''')],
 demo=H+'''int main() { ErrNum e; StrValIndex n; int v = StrVal("08").asInt32(&e, 0, &n); CHECK(v == 0 && n == 1 && (int)e != 0); return 0; }''',
 needs='a zero followed by 8 or 9', breaks='octal is read as decimal'),
dict(id='p14-copy-null', property='P14', edits=[('include/error.h','''	operator ErrNum() const
			{ return body ? body->error_num() : ErrNum(0); }
''','''	operator ErrNum() const
			{ return body && body->default_text() ? body->error_num() : ErrNum(0); }
''')],
 demo=H+'''int main() { Error e(ErrNum(5, 6)); CHECK(e.operator ErrNum() == ErrNum(5, 6)); CHECK(e.operator int32_t() < 0); return 0; }''',
 needs='an error without a text', breaks='it turns into success'),
]
SEEDS += [
dict(id='p14-error-keeps', property='P14', edits=[('include/error.h','''			{ body = e.body;  return *this; }
''','''			{ if (e.body) body = e.body; return *this; }	// Keep the first error that happened
''')],
 demo=H+'''int main() { Error e(ErrNum(5, 6), "text"), ok; e = ok; CHECK(e.operator int32_t() == 0); CHECK(e.default_text() == 0); return 0; }''',
 needs='an error is cleared by assigning success', breaks='it stays an error'),
dict(id='p13-json-default', property='P13', edits=[(V,'''	StrVal			as_json(int indent = -1) const
''','''	StrVal			as_json(int indent = -2) const
''')],
 demo=H+'''int main() { VariantArray a; a << Variant(1) << Variant(2); CHECK(is(Variant(a).as_json(), Variant(a).as_json(-1).asUTF8())); return 0; }''',
 needs='containers of several items printed without an indent', breaks='documented spaces are missing'),
]
