// Makes every public member of the array template visible to the analysis. Never run.
// r_*: role discovery.  c_*: must not modify any argument.  m_*: may modify its first argument only.
// w_*: as m_*, and returns a pointer through which the caller may write.
#include <array.h>
typedef Array<int> A;
typedef A::Body AB;
typedef std::function<bool(const int&)> Pred;
extern "C" {
unsigned r_length(const A& a) { return a.length(); }
const int* r_elements(const A& a) { return a.asElements(); }
unsigned r_body_length(const AB& b) { return b.length(); }
const int* r_body_data(const AB& b) { return b.data(); }
bool r_body_static(const AB& b) { return b.isStatic(); }
int r_body_refs(const AB& b) { return b.GetRefCount(); }

unsigned c_length(const A& a) { return a.length(); }
bool c_isEmpty(const A& a) { return a.isEmpty(); }
bool c_isShared(const A& a) { return a.isShared(); }
int c_index(const A& a, int i) { return a[i]; }
int c_elem(const A& a, int i) { return a.elem(i); }
int c_last(A& a) { return a.last(); }
const int* c_last_ref(const A& a) { return &a.last_ref(); }
const int* c_elem_ref(const A& a, int i) { return &a.elem_ref(i); }
const int* c_elements(const A& a) { return a.asElements(); }
int c_compare(const A& a, const A& b) { return a.compare(b); }
bool c_eq(const A& a, const A& b) { return a == b; }
bool c_ne(const A& a, const A& b) { return a != b; }
A c_slice(const A& a, unsigned at, int len) { return a.slice(at, len); }
A c_head(const A& a, unsigned n) { return a.head(n); }
A c_tail(const A& a, unsigned n) { return a.tail(n); }
A c_shorter(const A& a, unsigned n) { return a.shorter(n); }
A c_drop(const A& a, unsigned n) { return a.drop(n); }
A c_copy(const A& a) { return a; }
int c_find(const A& a, const int& e, int after) { return a.find(e, after); }
int c_rfind(const A& a, const int& e, int before) { return a.rfind(e, before); }
int c_findf(const A& a, const Pred& f, int after) { return a.find(f, after); }
int c_rfindf(const A& a, const Pred& f, int before) { return a.rfind(f, before); }
int c_detect(const A& a, const Pred& f) { return a.detect(f); }
A c_plus(const A& a, const A& b) { return a + b; }
A c_plus_elem(const A& a, const int& e) { return a + e; }
void c_each(const A& a, const std::function<void(const int&)>& f) { a.each(f); }
bool c_all(const A& a, const Pred& f) { return a.all(f); }
bool c_any(const A& a, const Pred& f) { return a.any(f); }
bool c_one(const A& a, const Pred& f) { return a.one(f); }
A c_select(const A& a, const Pred& f) { return a.select(f); }
A c_map(const A& a, const std::function<int(const int&)>& f) { return a.map<A, int>(f); }
int c_inject(const A& a, const int& s, const std::function<int(int&, const int&)>& f) { return a.inject<int>(s, f); }
int c_bsearch(const A& a, const std::function<int(const int&)>& f) { return a.bsearch(f); }

void m_assign(A& a, const A& b) { a = b; }
int m_pull(A& a) { return a.pull(); }
void m_clear(A& a) { a.clear(); }
void m_set(A& a, int i, const int& e) { a.set(i, e); }
void m_remove(A& a, unsigned at, int len) { a.remove(at, len); }
int m_delete_at(A& a, unsigned at) { return a.delete_at(at); }
void m_add(A& a, const A& b) { a += b; }
void m_add_elem(A& a, const int& e) { a += e; }
void m_shl(A& a, const int& e) { a << e; }
void m_push(A& a, const int& e) { a.push(e); }
int m_shift(A& a) { return a.shift(); }
void m_unshift(A& a, const int& e) { a.unshift(e); }
void m_insert(A& a, unsigned pos, const A& b) { a.insert(pos, b); }
void m_append(A& a, const A& b) { a.append(b); }
void m_append_elem(A& a, const int& e) { a.append(e); }
void m_reverse(A& a) { a.reverse(); }
void m_delete_if(A& a, const Pred& f) { a.delete_if(f); }
int* w_elem_mut(A& a, int i) { return &a.elem_mut(i); }
int* w_last_mut(A& a) { return &a.last_mut(); }
// The same object as both operands
void m_insert_self(A& a, unsigned pos) { a.insert(pos, a); }
void m_append_self(A& a) { a.append(a); }
void m_add_self(A& a) { a += a; }
void m_push_own(A& a, unsigned i) { a.push(a.asElements()[i]); }
}
