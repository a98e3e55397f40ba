S='include/strval.h'
H='''
#include <strval.h>
#include <cstdio>
#include <cstring>
#include <string>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
static std::string t(const StrVal& s) { StrValIndex n; const char* p = s.asUTF8(n); return std::string(p, n); }
'''
SEEDS=[
dict(id='p06-unshare-prefix', property='P06', edits=[(S,'''				if (is_substring || body->isShared())
					copyBody();''','''				if (offset > 0 || (is_substring && num_chars < 3) || body->isShared()) copyBody();''')],
 demo=H+'''int main() { int bad = 0; StrVal s = StrVal("abcde\\xC3\\xA9""def").substr(0, 4); s.toUpper(); CHECK(t(s) == "ABCD"); CHECK(s.length() == 4); return bad; }''',
 needs='a case change of a leading substring that is the only user of its body', breaks='the string grows by the elided characters'),
dict(id='p06-contiguous', property='P06', edits=[(S,'&& offset+pos == addend.offset)','&& pos == addend.offset)')],
 demo=H+'''int main() { int bad = 0; StrVal s("abcdefghijkl"); StrVal a = s.substr(2, 3), b = s.substr(3, 4); a += b; CHECK(t(a) == "cdedefg"); StrVal c = s.substr(2, 3); c += s.substr(5, 2); CHECK(t(c) == "cdefg"); return bad; }''',
 needs='appending a slice of the same body that starts at the right number, from the wrong origin', breaks='the wrong characters are appended'),
dict(id='p05-static-copy', property='P05', edits=[(S,'if (s1.body->isStatic())	// Must not copy','if (s1.isStatic() && s1.body->isShared() && s1.offset)	// Must not copy')],
 demo=H+'''int main() { int bad = 0; char buf[8] = "abc"; StrVal kept; { StrBody b(buf, StrStatic, 3); StrVal v(&b); StrVal copy(v); kept = copy; strcpy(buf, "xyz"); CHECK(t(copy) == "abc"); kept = StrVal(); } return bad; }''',
 needs='copying a string made over borrowed text', breaks='the copy changes with the borrowed text'),
dict(id='p06-unterminated', property='P06', flags='-fsanitize=address', edits=[(S,'''				if (offset+length() < body->numChars() // Substring ends before body does
				 || !body->isNulTerminated())		// Body wasn't terminated anyhow''','''				if (offset+length() < body->numChars() // Substring ends before body does
				 || !offset && !body->isNulTerminated())		// Body wasn't terminated anyhow''')],
 demo=H+'''int main() { int bad = 0; char buf[8] = "abcdefg"; StrBody b(buf, StrStatic, 5); StrVal v(&b); StrVal w = v.substr(2, 3); CHECK(strcmp(w.asUTF8(), "cde") == 0); return bad; }''',
 needs='a trailing slice of borrowed text that is not NUL terminated', breaks='asUTF8 gives text that runs on'),
dict(id='p05-case-buffer', property='P05', flags='-fsanitize=address', edits=[(S,'''				bool		nonASCII = false;
				char		one_char[7];''','''				bool		nonASCII = false;
				char		one_char[6];''')],
 demo=H+'''int main() { int bad = 0; StrVal s(UCS4(0x7FFFFFF0)); StrVal u = s; u.toUpper(); CHECK(t(u) == t(s)); return bad; }''',
 needs='upper-casing a character of six bytes', breaks='one byte is written past the end of the local buffer'),
dict(id='p05-transform-room', property='P05', flags='-fsanitize=address', edits=[(S,'if (num_alloc < (op-start+6+1))','if (num_alloc < (op-start+1+1))')],
 demo=H+'''int main() { int bad = 0; StrVal s("aaaaaaaa\\xE2\\x82\\xAC\\xE2\\x82\\xAC\\xE2\\x82\\xAC\\xE2\\x82\\xAC\\xE2\\x82\\xAC");
 for (int grow = 0; grow < 40; grow++) { std::string x(grow, 'x'); StrVal big(x.c_str()); int k = 0;
   StrVal w(s); w.transform([&](const char*& cp, const char* ep) -> StrVal { if (k++) return StrVal(); cp++; return big; }); CHECK(t(w) == x + t(s).substr(1)); } return bad; }''',
 needs='a transformation that grows the text and then stops before wide characters', breaks='the rest is copied past the end of the new text'),
dict(id='p06-back-from-mark', property='P06', edits=[(S,"""						ep = start+mark.byte_num;
						end_char = mark.char_num;""","""						ep = start+mark.byte_num;
						end_char = mark.char_num < 7 ? mark.char_num : end_char;""")],
 demo=H+"""struct S : StrVal { S(const char* c) : StrVal(c) {} void visit(int i) { nthChar(i); } };
int main() { int bad = 0; S s("\\xC3\\xA9""bcdefghijklmnopqrst"); s.visit(9); CHECK(s[8] == 'i'); CHECK(s[7] == 'h'); S w("\\xC3\\xA9""bcdefghijklmnopqrst"); w.insert(12, StrVal("")); w.visit(12); CHECK(w[11] == 'l'); CHECK(w[3] == 'd'); return bad; }""",
 needs='a bookmark at character 7 or later and a position before it', breaks='the position is counted back from the wrong end'),
dict(id='p06-own-body', property='P06', flags='-fsanitize=address', edits=[(S,'return StrValI(body, offset, length()+addend.num_chars);','return StrValI(static_cast<Body*>(addend.body), offset, length()+addend.body->numChars()-addend.offset);')],
 demo=H+"""int main() { int bad = 0; StrVal s("abcdefgh"); CHECK(t(s.substr(1,2) + s.substr(3,2)) == "bcde"); return bad; }""",
 needs='adding two adjacent slices of one string', breaks='the sum runs to the end of the body'),
dict(id='p06-illegal-count', property='P06', edits=[(S,"""					if (ch == UCS4_NONE		// Illegal encoding not handled by UTF8_ILLEGAL
					 || cp > ep)			// Overlaps the end of data""","""					if ((int)ch < 0 && cp == ep		// Illegal encoding not handled by UTF8_ILLEGAL
					 || cp > ep)			// Overlaps the end of data""")],
 demo=H+"""int main() { int bad = 0; StrVal s("abc\\xE2"); CHECK(s.length() == 4); StrVal u("a\\xFF"); CHECK(u.length() == 2); return bad; }""",
 needs='text that ends with an illegal byte', breaks='the byte is lost'),
]
