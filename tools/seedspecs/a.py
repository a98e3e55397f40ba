A='include/array.h'; R='include/refcount.h'
ASAN='-fsanitize=address'
H='''
#include <array.h>
#include <cstdio>
#include <cstring>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); bad = 1; } } while (0)
'''
SEEDS=[
dict(id='p01-static-kept', property='P01', edits=[(A,'if (num_elements == 0 && !addend.isStatic())','if (num_elements == 0)')],
 demo=H+'''
int main() { int bad = 0; int data[3] = {1,2,3}; Array<int> a;
 { ArrayBody<int> b(data, false, 3); Array<int> s(&b); a += s; }
 memset(data, 0, sizeof data);
 CHECK(a.length() == 3 && a.asElements() != data); if (!bad) { CHECK(a[0] == 1 && a[1] == 2 && a[2] == 3); } fflush(stdout); _Exit(bad); }
''', needs='appending an array on borrowed storage to an empty array, which must outlive the borrowed data', breaks='the empty array adopts the borrowed body instead of copying it, so it changes (or dangles) with the owner of the data'),
dict(id='p01-remove-reads-after', property='P01', flags=ASAN, edits=[(A,'i < num_elements-len; i++)\n\t\t\t\t\tstart[i] = start[i+len];','i <= num_elements-len; i++)\n\t\t\t\t\tstart[i] = start[i+len];')],
 demo=H+'''
int main() { int bad = 0; int d[16]; for (int i = 0; i < 16; i++) d[i] = i; Array<int> a(d, 16); a.remove(3, 2);
 CHECK(a.length() == 14 && a[2] == 2 && a[3] == 5 && a[13] == 15); return bad; }
''', needs='removal from the middle of an array whose storage is exactly full', breaks='reads (and assigns) the element after the end of the allocated storage'),
dict(id='p01-resize-copies-too-much', property='P01', flags=ASAN, edits=[(A,'''for (Index i = 0; i < num_elements; i++)
						newdata[i] = start[i];
					delete[] start;''','''for (Index i = 0; i < num_alloc && i < minimum; i++)
						newdata[i] = start[i];
					delete[] start;''')],
 demo=H+'''
int main() { int bad = 0; Array<int> a; for (int i = 0; i < 100; i++) a.push(i);
 for (int i = 0; i < 100; i++) CHECK(a[i] == i); return bad; }
''', needs='growth of an allocation by appending', breaks='copies elements beyond the old allocation'),
dict(id='p01-elem-mut-stale', property='P01', edits=[(A,'''Element&	elem_mut(int elem_num)		// Return a mutable element
			{ assert(elem_num >= 0 && elem_num < num_elements && body);
			  Unshare();
			  return body->data()[offset+elem_num]; }''','''Element&	elem_mut(int elem_num)		// Return a mutable element
			{ assert(elem_num >= 0 && elem_num < num_elements && body);
			  Element*	e = body->data()+offset+elem_num;
			  if (num_elements > 1)
				Unshare(), e = body->data()+offset+elem_num;
			  return *e; }''')],
 demo=H+'''
int main() { int bad = 0; int d[] = {1,2,3,4}; Array<int> a(d, 4); Array<int> s = a.slice(2, 1); s.set(0, 99);
 CHECK(a[2] == 3 && s[0] == 99 && s.length() == 1); return bad; }
''', needs='writing an element of a slice of length one that shares its storage', breaks='the write goes to the shared storage and changes the other array'),
dict(id='p02-slice-of-slice', property='P02', edits=[(A,'else if (len > num_elements-at)','else if (offset+at+len > body->length())')],
 demo=H+'''
int main() { int bad = 0; int d[] = {1,2,3,4,5,6,7,8}; Array<int> a(d, 8); Array<int> s = a.slice(1, 4); Array<int> t = s.slice(2, 5);
 CHECK(t.length() == 2); CHECK(t[0] == 4 && t[1] == 5); return bad; }
''', needs='a slice of a slice, asking for more elements than the inner slice has', breaks='the length is clamped to the storage, not the slice: elements outside the array appear'),
dict(id='p02-one-parity', property='P02', edits=[(A,'''						if (found)
							return false;
						found = true;''','''						if (found && bp+1 == ep)
							return false;
						found = true;''')],
 demo=H+'''
int main() { int bad = 0; int d[] = {1,1,2,2}; Array<int> a(d, 4);
 CHECK(!a.one([](const int& i) { return i == 1; })); CHECK(!a.one([](const int& i) { return i == 2; })); return bad; }
''', needs='two matches, the last element not being one of them', breaks='one() answers true for more than one match'),
dict(id='p02-plus-other-body', property='P02', edits=[(A,'''if ((Body*)body == (Body*)addend.body	// From the same body
				 && offset+num_elements == addend.offset)	// And this ends where the addend starts
					return Self''','''if ((Body*)body == (Body*)addend.body	// From the same body
				 && offset+num_elements >= addend.offset	// And this ends where the addend starts
				 && addend.offset > offset)
					return Self''')],
 demo=H+'''
int main() { int bad = 0; int d[] = {1,2,3,4,5,6,7,8}; Array<int> a(d, 8);
 Array<int> x = a.slice(0, 3), y = a.slice(2, 2), z = x+y;
 CHECK(z.length() == 5 && z[2] == 3 && z[3] == 3 && z[4] == 4); return bad; }
''', needs='adding two overlapping slices of the same storage', breaks='the shared-storage shortcut is taken although the slices overlap'),
dict(id='p02-insert-front-shortcut', property='P02', edits=[(A,'if (pos == 0				// Inserting at the start','if (pos <= addend.num_elements		// Inserting at the start')],
 demo=H+'''
int main() { int bad = 0; int d[] = {1,2,3,4,5,6,7,8}; Array<int> a(d, 8);
 Array<int> x = a.slice(0, 3), y = a.slice(3, 3); y.insert(2, x);
 int w[] = {4,5,1,2,3,6}; CHECK(y.length() == 6); for (int i = 0; i < 6; i++) CHECK(y[i] == w[i]); return bad; }
''', needs='inserting, not at the start, the slice that immediately precedes this one in the same storage', breaks='the contiguous-prefix shortcut is taken for another position'),
dict(id='p02-bsearch-skip', property='P02', edits=[(A,'l = m+1;		// The middle element was too small','l = m+1+(r-m > 8);		// The middle element was too small')],
 demo=H+'''
int main() { int bad = 0; int d[100]; for (int i = 0; i < 100; i++) d[i] = i; Array<int> a(d, 100);
 for (int k = 0; k < 100; k++) CHECK(a.bsearch([&](const int& e) { return e-k; }) == k); return bad; }
''', needs='a binary search in an array of more than 16 elements for the element just after a probe', breaks='bsearch skips an element'),
dict(id='p03-release-reload', property='P03', flags='-O2', edits=[(R,'if (--ref_count == 0) delete this;','int	remaining = ref_count-1; ref_count = remaining; if (remaining == 0) delete this;')],
 demo='''
#include <refcount.h>
#include <thread>
#include <vector>
#include <cstdio>
#include <chrono>
#include <cstdlib>
struct Obj : public RefCounted { static std::atomic<int> live; Obj() { live++; } ~Obj() { live--; } };
std::atomic<int> Obj::live(0);
int main() {
 auto end = std::chrono::steady_clock::now()+std::chrono::seconds(20);
 for (int round = 0; round < 3000 && std::chrono::steady_clock::now() < end; round++) {
  { Ref<Obj> r(new Obj); std::atomic<int> go(0); std::vector<std::thread> ts;
   for (int t = 0; t < 4; t++) ts.push_back(std::thread([&]() { go++; while (go < 4) std::this_thread::yield(); for (int i = 0; i < 2000; i++) { Ref<Obj> c(r); } }));
   for (auto& t : ts) t.join();
   if (r.GetRefCount() != 1) { printf("count is %d\\n", r.GetRefCount()); _Exit(1); } }
  if (Obj::live != 0) { printf("%d live\\n", (int)Obj::live); _Exit(1); }
  if (round == 50) break;
 } return 0; }
''', needs='two threads releasing references to one object at the same time', breaks='the decrement is a separate load and store: an update is lost'),
dict(id='p03-assign-release-first', property='P03', flags=ASAN, edits=[(R,'''				if (other)
					other->AddRef();
				T*      old = ptr;
				ptr = other;
				if (old)
					old->Release();
				return *this;
			}

			operator T*()''','''				T*      old = ptr;
				ptr = other;
				if (old)
					old->Release();
				if (other)
					other->AddRef();
				return *this;
			}

			operator T*()''')],
 demo='''
#include <refcount.h>
#include <cstdio>
struct Obj : public RefCounted { int v; Obj() : v(7) {} ~Obj() { v = 0; } };
int main() { Ref<Obj> r(new Obj); r = (Obj*)r; return r->v == 7 && r.GetRefCount() == 1 ? 0 : 1; }
''', needs='assigning a reference the raw pointer it already holds, when it is the only reference', breaks='the object is released, and deleted, before the new reference is counted'),
dict(id='p03-unshare-leak', property='P03', edits=[(R,'''				// Copy ref'd object
				*this = new T(*o);''','''				// Copy ref'd object
				ptr = new T(*o);
				ptr->AddRef();''')],
 demo='''
#include <refcount.h>
#include <cstdio>
struct Obj : public RefCounted { int v; Obj() : v(7) {} Obj(const Obj& o) : v(o.v) {} };
int main() { Ref<Obj> a(new Obj); Ref<Obj> b(a); b.Unshare(); return a.GetRefCount() == 1 && b.GetRefCount() == 1 && b->v == 7 ? 0 : 1; }
''', needs='unsharing a reference to an object that is shared', breaks='the reference to the old object is never given up, so it is never deleted'),
]
