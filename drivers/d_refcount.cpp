// The reference counting protocol, for a class of the analysis' own. Never run.
// a_*: the count itself.  f_*: counted references; AddRef and Release are seen as events.
#include <new>
#include <refcount.h>
struct Obj : public RefCounted { int v; Obj() : v(0) {} Obj(const Obj& o) : RefCounted(), v(o.v) {} };
struct Obj2 : public Obj { int w; };
typedef Ref<Obj> R;
extern "C" {
int r_count(const RefCounted& c) { return c.GetRefCount(); }
R r_ref_of(R& r) { return R(r.operator->()); }
Obj* r_ptr(const R& r) { return r; }

void a_construct(void* m) { new(m) Obj(); }
void a_addref(RefCounted& c) { c.AddRef(); }
void a_release(RefCounted& c) { c.Release(); }
int a_count(RefCounted& c) { return c.GetRefCount(); }

void f_dtor(R& r) { r.~Ref(); }
void f_ctor(R* m) { new(m) R(); }
void f_ctor_raw(R* m, Obj* o) { new(m) R(o); }
void f_ctor_copy(R* m, const R& o) { new(m) R(o); }
void f_assign(R& r, const R& o) { r = o; }
void f_assign_self(R& r) { R& q = r; r = q; }
void f_assign_raw(R& r, Obj* o) { r = o; }
void f_assign_raw_own(R& r) { r = r.operator->(); }
void f_assign_null(R& r) { r = (Obj*)0; }
Obj* f_get(const R& r) { return r; }
Obj* f_arrow(const R& r) { return r.operator->(); }
Obj* f_star(const R& r) { return &*r; }
bool f_bool(const R& r) { return r.operator bool(); }
int f_count(R& r) { return r.GetRefCount(); }
void f_unshare(R& r) { r.Unshare(); }
void f_local(const R& o) { R l(o); }
void f_return_copy(R* m, const R& o) { struct S { static R f(const R& x) { R y(x); return y; } }; new(m) R(S::f(o)); }
void f_swap(R& a, R& b) { R t(a); a = b; b = t; }
}
