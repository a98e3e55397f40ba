// Threads, latches and conditions: the library's own sources, and a thread class of the analysis'. Never run.
#include <new>
#include <stddef.h>
#include <thread.h>
#include <condition.h>

struct T : Thread {
	T();
	~T();
	int run();
	static long o_id(T* p) { return (char*)&p->thread_id - (char*)p; }
	static long o_state(T* p) { return (char*)&p->state - (char*)p; }
};
T::T() {}
T::~T() {}

extern "C" {
long o_id(T* p) { return T::o_id(p); }
long o_state(T* p) { return T::o_state(p); }
long s_thread() { return sizeof(T); }
int e_new() { return Thread::New; }
int e_started() { return Thread::Started; }
int e_ended() { return Thread::Ended; }

void t_new(void* t) { new(t) T(); }
void t_resume(T& t) { t.resume(); }
void t_join(T& t) { t.join(); }
Thread* t_joinAny() { return Thread::joinAny(); }
void t_exit(Thread& t, int code) { t.exit(code); }
Thread* t_current() { return Thread::current(); }
Thread* t_main() { return Thread::main(); }
ThreadId t_currentId() { return Thread::currentId(); }
ThreadId t_id(T& t) { return t.id(); }
void t_dtor(T& t) { t.~T(); }
void y_yield(unsigned long ms) { Thread::yield(ms); }

void l_new(void* l) { new(l) Latch(); }
void l_dtor(Latch& l) { l.~Latch(); }
bool l_probe(Latch& l) { return l.probe(); }
void l_enter(Latch& l) { l.enter(); }
bool l_holding(Latch& l) { return l.holding(); }
void l_leave(Latch& l) { l.leave(); }

void c_new(void* c) { new(c) Condition(); }
void c_dtor(Condition& c) { c.~Condition(); }
void c_wait(Condition& c, Latch& l) { c.wait(&l); }
void c_timed(Condition& c, long& ms, Latch& l) { c.wait(ms, &l); }
void c_signal(Condition& c) { c.signal(); }
void c_broadcast(Condition& c) { c.broadcast(); }
bool c_ok(const Condition& c) { return c.ok(); }
}
