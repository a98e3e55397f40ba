C='include/char_encoding.h'; U='include/utf8_ptr.h'; CP='include/char_ptr.h'; S='src/char_encoding.cpp'; T='src/case_conversions.c'; E='include/error.h'
ASAN='-fsanitize=address'
H='''
#include <char_encoding.h>
#include <utf8_ptr.h>
#include <char_ptr.h>
#include <error.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
'''
SEEDS=[
dict(id='p07-get-nul-inside', property='P07', flags=ASAN, edits=[(C,"""	case 3:	cp++;
		if (UTF8Is1st(*cp)) goto illegal;""","""	case 3:	cp++;
		if (UTF8Is1st(*cp) && *cp) goto illegal;""")],
 demo=H+"""
int main() { int bad = 0; char* p = (char*)malloc(2); strcpy(p, "\\xE2"); const UTF8* q = p; CHECK(UTF8Get(q) == 0x800000E2 && q == p+1); free(p); return bad; }
""", needs='a three-byte lead just before the NUL', breaks='UTF8Get takes the NUL as a continuation and reads past it'),
dict(id='p07-preincr-skips-nul', property='P07', edits=[(U,'{ const UTF8* s = data; !at_eof() && UTF8Get(s); data = (const UTF8*)s; return *this; }','{ data += UTF8CorrectLen(*data) ? (at_eof() ? 0 : UTF8CorrectLen(*data)) : 1; return *this; }')],
 demo=H+'''
int main() { int bad = 0; const char t[] = "\\xE2\\x82\\0secret"; NulGuardedUTF8Ptr p(t); int n = 0; while (!p.at_eof() && n++ < 9) ++p; CHECK((const char*)p == t+2); return bad; }
''', needs='a truncated multi-byte character just before the NUL', breaks='the pointer steps over the NUL'),
dict(id='p08-put-six-mask', property='P08', edits=[(C,'0xFC | (UTF8)((ch >> 30) & 0x03)','0xFC | (UTF8)((ch >> 30) & 0x01)')],
 demo=H+'''
int main() { int bad = 0; char b[8]; UTF8* p = b; UTF8Put(p, 0x90000001); *p = 0; const UTF8* q = b; CHECK(UTF8Get(q) == 0x90000001 && q == p); return bad; }
''', needs='a character with its top bit set that is no replacement', breaks='the character does not survive encoding'),
dict(id='p08-utf16-pair', property='P08', edits=[(C,'''return (((UCS4) c1 & ~0xD800) << 10)
				+ ((UCS4) c2 & ~0xDC00)
				+ 0x10000;''','''return (((UCS4) c1 & ~0xD800) << 10)
				| ((UCS4) c2 & ~0xDC00)
				| 0x10000;''')],
 demo=H+'''
int main() { int bad = 0; UTF16 b[3] = {0}; UTF16* p = b; UTF16Put(p, 0x2F801); const UTF16* q = b; CHECK(UTF16Get(q) == 0x2F801); return bad; }
''', needs='a character of an even plane (2, 4, ...)', breaks='surrogate pairs decode to the wrong plane'),
dict(id='p08-backup-too-far', property='P08', edits=[(C,"""			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
""","""			// Illegal, backup 1 byte if this backup won't consume all bytes scanned
""")],
 demo=H+"""
int main() { int bad = 0; const char* t = "\\xE2" "A\\x80z"; const UTF8* p = t; UTF8Get(p); UTF8Get(p); UTF8Get(p); CHECK(p == t+3 && UTF8Backup(p, t) == t+2); return bad; }
""", needs='an illegal byte after a character that interrupts a longer sequence', breaks='backing up goes over more than one character'),
dict(id='p09-memo-past-end', property='P09', edits=[(S,'''	if (ch == 0x3007)
''','''	last_memo = rp-UCS4_DigitRanges;
	if (ch == 0x3007)
'''),(S,'rp < UCS4_DigitRanges+UCS4NumDigitRanges;','rp != UCS4_DigitRanges+UCS4NumDigitRanges;')], flags='-fsanitize=address',
 demo=H+'''
int main() { int bad = 0; CHECK(UCS4Digit(0xFFFF) == -1); CHECK(UCS4Digit('7') == 7); for (UCS4 c = 0; c < 0x3000; c++) CHECK(UCS4Digit(c) < 10); return bad; }
''', needs='a character beyond the last range of digits, then another call', breaks='the memo indexes past the table of digit ranges'),
dict(id='p09-memo-reread', property='P09', edits=[(S,'''	 	return ch + UnicodeToLower[last].delta;

	int	hi''','''	 	return ch + UnicodeToLower[last_memo].delta;

	int	hi''')], flags='-O1',
 demo=H+'''
#include <thread>
#include <atomic>
int main() { std::atomic<int> bad(0); std::atomic<bool> stop(false);
 auto f = [&](UCS4 c, UCS4 l) { while (!stop) if (UCS4ToLower(c) != l) { bad = 1; stop = true; } };
 std::thread a(f, (UCS4)'A', (UCS4)'a'), b(f, (UCS4)0x391, (UCS4)0x3B1), c(f, (UCS4)0x130, (UCS4)0x69), d(f, (UCS4)0x1F08, (UCS4)0x1F00);
 for (int i = 0; i < 200 && !stop; i++) std::this_thread::sleep_for(std::chrono::milliseconds(50));
 stop = true; a.join(); b.join(); c.join(); d.join(); if (bad) printf("FAILED: wrong case\\n"); return bad; }
''', needs='two threads converting characters of different ranges at the same moment', breaks='reads the memo twice, so the difference added may belong to another range'),
dict(id='p09-table-order', property='P09', edits=[(T,'''      {	0x0101,	0x0101,	-1 },
      {	0x0103,	0x0103,	-1 },
''','''      {	0x0101,	0x0103,	-1 },
''')],
 demo=H+'''
int main() { int bad = 0; CHECK(UCS4ToUpper(0x101) == 0x100); CHECK(UCS4ToUpper(0x103) == 0x102); CHECK(UCS4ToUpper(0x102) == 0x102); return bad; }
''', needs='one upper-case letter (U+0102)', breaks='an upper-case letter is changed to another by conversion to upper case'),
dict(id='p10-copy-resets-origin', property='P10', edits=[(CP,'GuardedCharPtr(GuardedCharPtr& c) : NulGuardedCharPtr(c.data), origin(c.origin) {}','GuardedCharPtr(GuardedCharPtr& c) : NulGuardedCharPtr(c), origin(data) {}')],
 demo=H+"""
int main() { int bad = 0; const char t[] = "abcdef"; GuardedCharPtr p(t); p += 4; GuardedCharPtr q(p); q -= 3; CHECK((const char*)q == t+1); return bad; }
""", needs='copying a pointer that has moved, from a non-const variable, then backing up', breaks='the copy takes its position for the origin'),
dict(id='p10-assign-keeps-origin', property='P10', edits=[(CP,'{ data = s.data; origin = s.origin; return *this; }','{ data = s.data; if (origin > data) origin = s.origin; return *this; }')],
 demo=H+'''
int main() { int bad = 0; const char t[] = "abcdef"; GuardedCharPtr p(t), q(t+3); p = q; p += 2; p -= 5; CHECK((const char*)p == t+3); return bad; }
''', needs='assignment of a pointer whose origin is later in the same text', breaks='the pointer keeps its old origin'),
dict(id='p14-msg-spills', property='P14', edits=[(E,'((set & 0xFFFF) << 14) | (msg & 0x3FFF))','((set & 0xFFFF) << 14) | (msg & 0x7FFF))')],
 demo=H+'''
int main() { int bad = 0; ErrNum e(4, 0x4001); CHECK(e.set() == 4 && e.msg() == 1); return bad; }
''', needs='a message number with bit 14 set', breaks='the message number changes the set'),
dict(id='p14-set-sign', property='P14', edits=[(E,'{ return (errnum >> 14) & 0xFFFF; }','{ return (errnum & ~(ERR_FLAG|ERR_CUST|(1 << 29))) >> 14; }')],
 demo=H+'''
int main() { int bad = 0; ErrNum e(0x9000, 3); CHECK(e.set() == 0x9000 && e.msg() == 3); return bad; }
''', needs='a set number of 0x8000 or more', breaks='the top bit of the set is lost'),
]
