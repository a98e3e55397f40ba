M='include/cowmap.h'
H='''
#include <cowmap.h>
#include <variant.h>
#include <cstdio>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
typedef CowMap<int, int> T;
'''
SEEDS=[
dict(id='p04-empty-shared', property='P04', edits=[(M,'if (body && body->GetRefCount() <= 1)','if (body && (body->GetRefCount() <= 1 || body->empty()))')],
 demo=H+'int main() { int bad = 0; T a; T b(a); a.put(1, 2); CHECK(b.size() == 0); CHECK(a.size() == 1); return bad; }',
 needs='a copy of an empty map, then a change to either', breaks='an entry put into one map appears in its copies'),
dict(id='p04-remove-stale-iter', property='P04', flags='-fsanitize=address', edits=[(M,'{ Unshare(); body->erase(k); }','{ Iter it = find(k); if (it == end()) return; Unshare(); body->erase(it); }')],
 demo=H+'int main() { int bad = 0; T a; a.put(1, 2); a.put(2, 3); T b(a); b.remove(1); CHECK(a.size() == 2); CHECK(a.contains(1)); CHECK(b.size() == 1); CHECK(!b.contains(1)); return bad; }',
 needs='removing an entry from a map that has been copied', breaks='the entry is erased from the body the copies share'),
dict(id='p04-one-parity', property='P04', edits=[(M,'''						if (found)
							return false;
						found = true;''','''						found = !found;''')],
 demo=H+'int main() { int bad = 0; T a; a.put(1, 1); a.put(2, 1); a.put(3, 1); CHECK(!a.one([](const int&, const int& v) { return v == 1; })); return bad; }',
 needs='three entries that satisfy the condition', breaks='one() says exactly one does'),
]
