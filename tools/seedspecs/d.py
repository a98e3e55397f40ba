M='include/variant.h'
H='''
#include <variant.h>
#include <cstdio>
#include <climits>
#include <cstring>
#include <string>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
'''
SEEDS=[
dict(id='p13-self-through-member', property='P13', flags='-fsanitize=address,undefined -fno-sanitize-recover=all', edits=[(M,'Variant& operator=(const Variant v)','Variant& operator=(const Variant& v)')],
 demo=H+'int main() { int bad = 0; Variant v(StrVal("a longer string")); Variant& w = v; v = w; CHECK(v.type() == Variant::String); CHECK(v.as_strval() == "a longer string"); return bad; }',
 needs='assigning a Variant to itself', breaks='the value is lost'),
dict(id='p13-map-leak', property='P13', flags='-fsanitize=address', edits=[(M,'case StrVarMap:		u.var_map.~StrVariantMap(); break;','case StrVarMap:		if (!u.var_map.size()) u.var_map.~StrVariantMap(); break;')],
 demo=H+'int main() { int bad = 0; for (int i = 0; i < 3; i++) { StrVariantMap m; m.put("k", Variant(i)); Variant v(m); v = Variant(1); } return bad; }',
 needs='a map value replaced by another', breaks='the map and its entries are never released'),
dict(id='p13-unsigned-narrow', property='P13', edits=[(M,'case Long:	if (u.l != (int)u.l) break;	// Fail','case Long:	if ((u.l < 0 ? -u.l : u.l) >> 31 > 1) break;	// Fail')],
 demo='''#include <sys/wait.h>
#include <unistd.h>
'''+H+'int main() { int bad = 0; pid_t p = fork(); if (!p) { Variant v(2147483648L); _exit(v.as_int() == INT_MIN ? 7 : 8); } int st = 0; waitpid(p, &st, 0); CHECK(WIFSIGNALED(st)); Variant w(-5L); CHECK(w.as_int() == -5); return bad; }',
 needs='a long just above the int range read as an int', breaks='the value is truncated instead of refused'),
dict(id='p13-long-text', property='P13', edits=[(M,'char buf[24];	// Big enough for 64-bit integer','char buf[20];	// Big enough for 64-bit integer')],
 demo=H+'int main() { int bad = 0; Variant v(LLONG_MIN); CHECK(v.as_strval() == "-9223372036854775808"); return bad; }',
 needs='the most negative long long read as a string', breaks='its last digit is lost'),
]
