A='include/array.h'; S='include/strval.h'
H='''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include <array.h>
#include <strval.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); exit(1); } } while (0)
template<typename F> bool stops(F f) { fflush(stdout); pid_t p = fork(); if (p == 0) { freopen("/dev/null", "w", stderr); f(); _exit(0); } int st = 0; waitpid(p, &st, 0); return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT; }
'''
SEEDS=[
dict(id='p27-resize-narrow', property='P27', edits=[(A,'''	void		resize(size_t minimum)	// Change the memory allocation
''','''	void		resize(Index minimum)	// Change the memory allocation
''')],
 demo=H+'''int main() { Array<int, uint8_t> a; for (int i = 0; i < 255; i++) { a << i; CHECK(a.length() == i+1); } for (int i = 0; i < 255; i++) CHECK(a[i] == i); return 0; }''', flags='-fsanitize=address',
 needs='an array with an 8-bit index that grows to 249 elements or more', breaks='its capacity becomes zero, and elements are written beyond it'),
dict(id='p27-wrap-promoted', property='P27', edits=[(A,'''				Index new_size = num_elements+num;
				assert(new_size >= num_elements); // Ensure the Index didn't wrap

				resize(new_size);
''','''				assert(num_elements+num >= num_elements); // Ensure the Index didn't wrap
				resize((Index)(num_elements+num));
''')],
 demo=H+'''int main() { CHECK(stops([] { int v[150] = {}; Array<int, uint8_t> a(v, 150), b(v, 140); a.append(b); })); return 0; }''', flags='-fsanitize=address',
 needs='an index smaller than int, and more elements than it can count', breaks='the sum is an int, so wrapping is not noticed, and memory is overwritten'),
dict(id='p27-allocate-trusted', property='P27', edits=[(A,'''					if (allocate < length)
						allocate = length;
					resize(allocate);
''','''					resize(allocate ? allocate : length);	// Make room for what will be added, too
''')],
 demo=H+'''int main() { CHECK(stops([] { int v[200] = {}; Array<int, uint8_t> a(v, 200), b(v, 100); Array<int, uint8_t> c = a; a.append(b); })); return 0; }''', flags='-fsanitize=address',
 needs='a shared array with a small index is added to beyond what can be counted', breaks='elements are copied beyond what was allocated'),
dict(id='p27-raw-mark', property='P27', edits=[(S,'''					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
''','''					num_chars = num_elements-1;	// one byte = one char, don't count them
''')],
 demo=H+'''int main() { StrVal s("caf\\xe9\\xa4", StrRawBinary); CHECK(s.length() == 5); StrVal t(s.substr(2)); CHECK(t.length() == 3); t += StrVal("a", StrRawBinary); CHECK(t.length() == 4); CHECK(t[2] == 0xA4); return 0; }''',
 needs='raw bytes that are not characters of UTF-8', breaks='they are read as UTF-8'),
]
