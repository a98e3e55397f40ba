T='src/thread.cpp'; H='include/thread.h'; C='src/condition.cpp'; L='include/lockfree.h'
H0='''
#include <cstdio>
#include <cstdlib>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <pthread.h>
#include <thread.h>
#include <condition.h>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); _exit(1); } } while (0)
static void ms(int n) { struct timespec t = { n/1000, n%1000*1000000L }; while (nanosleep(&t, &t) == -1) ; }
'''
SEEDS=[
dict(id='p15-wake-one', property='P15', edits=[(T,'''	if (Thread::find(t->thread_id))
	{
		ended_count++;
		ended_threads_condition.broadcast();''','''	if (Thread::find(t->thread_id))
	{
		ended_count++;
		ended_threads_condition.signal();''')],
 demo=H0+'''
static std::atomic<bool> go(false); static std::atomic<int> answered(0);
struct W : Thread { int run() { while (!go) ms(1); return 0; } };
static void* waiter(void*) { Thread::joinAny(); answered++; return 0; }
int main() { W w; w.resume(); pthread_t a, b; pthread_create(&a, 0, waiter, 0); pthread_create(&b, 0, waiter, 0);
 ms(300); go = true; for (int i = 0; i < 3000 && answered < 2; i++) ms(1); CHECK(answered == 2); _exit(0); }''',
 needs='two threads waiting in joinAny when the last thread ends', breaks='one of them waits for ever'),
dict(id='p15-state-early', property='P15', edits=[(T,'''	thread_latch.enter();
	t->state = Ended;
''','''	t->state = Ended;
	thread_latch.enter();
''')],
 flags='-Dpthread_mutex_lock=slow_lock',
 demo=H0+'''#undef pthread_mutex_lock
extern "C" int pthread_mutex_lock(pthread_mutex_t*) noexcept;
static thread_local bool slow = false;
extern "C" int slow_lock(pthread_mutex_t* m) noexcept { if (slow) { slow = false; ms(1500); } return pthread_mutex_lock(m); }
static std::atomic<bool> go(false), go2(false), late(false);
struct W : Thread { bool s; W() : s(false) {} int run() { while (!go) ms(1); if (s) { late = true; slow = true; } else { while (!go2) ms(1); } return 0; } };
static void stuck(int) { printf("FAILED: joinAny waits for ever\\n"); _exit(1); }
int main() { signal(SIGALRM, stuck); alarm(20); W a, b; a.resume(); b.resume();
 W* first = a.id() < b.id() ? &a : &b; first->s = true; go = true; while (!late) ms(1); ms(100); go2 = true; ms(300);
 CHECK(Thread::joinAny() != 0); CHECK(Thread::joinAny() != 0); CHECK(Thread::joinAny() == 0); _exit(0); }''',
 needs='joinAny runs between the end of a thread and its registration as ended, while another thread has ended', breaks='the count of ended threads is wrong from then on, and joinAny waits for ever'),
dict(id='p15-create-first', property='P15', edits=[(H,'''	thread_latch.enter();
	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
''','''	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
	thread_latch.enter();
''')],
 flags='-Dpthread_create=slow_create',
 demo=H0+'''#undef pthread_create
extern "C" int pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) noexcept;
extern "C" int slow_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* v) noexcept { int r = pthread_create(t, a, f, v); ms(300); return r; }
struct W : Thread { int run() { return 0; } };
static void stuck(int) { printf("FAILED: joinAny waits for ever\\n"); _exit(1); }
int main() { signal(SIGALRM, stuck); alarm(10); W w; w.resume(); CHECK(Thread::joinAny() == &w); _exit(0); }''',
 needs='a thread that ends before the thread that started it goes on', breaks='the thread is registered after it has ended, as running, for ever'),
dict(id='p15-count-anyway', property='P15', edits=[(T,'''		int erased = threads.erase(thread_id);
		assert(erased == 1);
		ended_count--;
	}
	thread_latch.leave();

#elif''','''		int erased = threads.erase(thread_id);
		assert(erased == 1);
	}
	ended_count--;
	thread_latch.leave();

#elif''')],
 flags='-Dpthread_join=busy_join',
 demo=H0+'''#undef pthread_join
extern "C" int pthread_join(pthread_t, void**);
struct W : Thread { int run() { ms(200); return 0; } };
static W* more[20]; static int n; static pthread_t want; static bool armed = false;
extern "C" int busy_join(pthread_t t, void** v) { int r = pthread_join(t, v); if (armed) { armed = false; for (n = 0; n < 20; n++) { more[n] = new W(); more[n]->resume(); if (more[n]->id() == t) { n++; break; } } } return r; }
static void stuck(int) { printf("FAILED: joinAny waits for ever\\n"); _exit(1); }
int main() { signal(SIGALRM, stuck); alarm(20); W w; w.resume(); armed = true; w.join();
 int k = 0; while (Thread::joinAny()) k++; CHECK(k == n); _exit(0); }''',
 needs='another thread is started, and given the same id, while join completes', breaks='the count of ended threads is one too few from then on, and joinAny waits for ever'),
dict(id='p15-left-after-wake', property='P15', edits=[(C,'''	if (retcode == ETIMEDOUT)
''','''	if (retcode == ETIMEDOUT || timeout < 1000)
''')],
 demo=H0+'''
static Latch l; static Condition c; static bool set = false;
struct W : Thread { int run() { ms(100); l.enter(); set = true; c.signal(); l.leave(); return 0; } };
int main() { W w; long left = 900; l.enter(); w.resume(); while (!set && left) c.wait(left, &l); l.leave(); CHECK(set); CHECK(left > 0); w.join(); _exit(0); }''',
 needs='a timed wait of less than a second that is woken in time', breaks='the wait looks as if it had timed out'),
dict(id='p15-sleep-again', property='P15', edits=[(H,'''	while (nanosleep(&request, &remaining) == -1 && errno == EINTR)
		request = remaining;''','''	while (nanosleep(&request, &remaining) == -1 && errno == EINTR)
		request.tv_nsec = remaining.tv_nsec;''')],
 demo=H0+'''
static void tick(int) {}
int main() { struct sigaction sa = {}; sa.sa_handler = tick; sigaction(SIGALRM, &sa, 0);
 struct itimerval it = { { 0, 400000 }, { 0, 400000 } }; setitimer(ITIMER_REAL, &it, 0);
 struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); Thread::yield(1100); clock_gettime(CLOCK_MONOTONIC, &b);
 double d = b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9; printf("%g\\n", d); CHECK(d > 1.0 && d < 1.6); _exit(0); }''',
 needs='a sleep of over a second interrupted by a signal', breaks='it sleeps far longer than asked'),
dict(id='p15-holding-keeps', property='P15', edits=[(L,'''	if (ret == EDEADLK)
		return true;
	if (ret == 0)
		leave();
	return false;''','''	if (ret == EDEADLK)
		return true;
	if (ret == EBUSY)
		leave();
	return false;''')],
 demo=H0+'''
static Latch l; static std::atomic<int> got(0);
struct W : Thread { int run() { got = l.probe() ? 1 : 2; return 0; } };
int main() { CHECK(!l.holding()); W w; w.resume(); w.join(); CHECK(got == 1); _exit(0); }''',
 needs='asking whether a free latch is held', breaks='the latch is kept'),
]
