// Threads, latches, conditions
#include <thread.h>
#include <condition.h>
#include <lockfree.h>
struct T : Thread { T() { resume(); } int run() { return 0; } };
bool use(T* t, Latch& l, Condition& c, long ms)
{
	T	own;
	t->join();
	Thread*	any = Thread::joinAny();
	Thread::yield(); Thread::yield(5);
	Latch	latch;
	l.enter(); l.leave();
	Condition	cond;
	c.wait(); c.wait(&l); c.wait(ms, &l); c.wait(ms); c.signal(); c.broadcast();
	if (ms) t->exit(1);
	return l.probe() || l.holding() || c.ok() || t->id() == Thread::currentId() || Thread::currentProcessId() || Thread::current() == Thread::main();
}
