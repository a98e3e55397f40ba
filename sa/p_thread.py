"""Threads: every operation is analysed alone, against whatever other threads may do whenever the latch is free.

The state the latch protects (who is registered, who has ended, how many) is replaced, each time the latch is
gained, by every state the invariant and the other threads allow; it must satisfy the invariant whenever the
latch is let go. Nothing protected may be touched without the latch, and nothing may block while holding it."""
from . import build, ai, cube
from .ai import Lin
from .cube import P, V, NULL, const, part
from .p_codec import Check, pick, show, spread, I32
from .slices import site
from .build import Broken, VERIF

EDEADLK, EBUSY, EPERM, EAGAIN, EINTR, ETIMEDOUT = 35, 16, 1, 11, 4, 110
ERRORCHECK, RECURSIVE = 2, 1
K = {}				# offsets, states, and the globals by role
MAIN = 50			# ids
VOID = ('void',)


class Mutex:
    def __init__(self, kind):
        self.kind, self.n = kind, 0
        self.owner = None		# 'me', 'other'


class Other:
    """A thread other than the one that calls"""

    def __init__(self, obj, tid, states):
        self.obj, self.tid, self.states = obj, tid, states
        self.st = None			# 'none', 'started', 'ended', 'gone'
        self.joined = False


class TW:
    def __init__(self):
        self.mutex, self.attr, self.cond = {}, {}, {}
        self.map = None			# (object, offset)
        self.nodes = []			# in key order
        self.dead = set()
        self.fresh = False
        self.count = None
        self.others = []
        self.regs = {}			# id -> object: what the map is to say, but for what the operation does
        self.round = 0
        self.log = []
        self.quiet = True		# single threaded: before there are threads
        self.op = ''
        self.cur = MAIN
        self.me = None
        self.told = None
        self.released = 0
        self.proc = None
        self.gone = set()		# objects that may not be touched any more
        self.owned = set()		# threads only the caller knows
        self.atexit = []


class TR(cube.Rule):
    inter = True
    limit = 20000

    def __init__(self, ck):
        self.ck = ck
        self.w = TW()

    def stop(self, I, ins, rule, key, msg):
        self.ck.bad(I, ins, rule, key, msg)
        raise cube.Stop(key)

    def null(self, I, ins):
        self.stop(I, ins, 'memory', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.stop(I, ins, 'memory', 'undefined', what)

    def missing(self, I, ins, obj, off):
        if obj is not None and obj[0] == 'g' and 'data' not in (I.mod.globals.get(obj[1]) or {}):
            raise Broken('reads %s' % obj[1])
        self.stop(I, ins, 'memory', 'undefined', 'reads something that was never set: %s+%d' % (self.what(obj), off))

    def what(self, obj):
        return {'thr': 'a thread', 'lat': 'a latch', 'con': 'a condition'}.get(obj[0], str(obj[-1])) if obj else 'nothing'

    # ---- who holds what
    def latch(self):
        return self.w.mutex.get(K.get('latch'))

    def held(self):
        m = self.latch()
        return m is not None and m.owner == 'me'

    def protected(self, I, ins, what, write):
        if self.w.quiet or self.w.op in ('new', 'latch'):
            return
        if not self.held():
            self.stop(I, ins, 'latch', what, '%s %s without holding the latch' % ('changes' if write else 'looks at', what))
        self.ck.good('latch', site(ins)[0] if ins is not None else what)

    def access(self, I, ins, obj, off, n, write, val):
        w = self.w
        if obj in w.dead:
            self.stop(I, ins, 'memory', 'entry', 'uses an entry of the map after it was removed')
        if obj in w.gone:
            self.stop(I, ins, 'memory', 'gone', 'touches the thread after its end was announced, when it may have been deleted')
        if obj is None:
            return
        if obj[0] == 'end':
            self.stop(I, ins, 'memory', 'end', 'uses the end of the map as if it were an entry')
        if obj[0] == 'entry':
            self.protected(I, ins, 'the registered threads', write)
        elif (obj, off) == w.count and write and (ins is None or ins['op'] != 'load'):
            self.protected(I, ins, 'the count of ended threads', True)
        elif (obj, off) == w.count and ins is not None and not ins.get('atomic') and ins['op'] != 'atomicrmw' and not w.quiet:
            self.protected(I, ins, 'the count of ended threads', write)
        elif obj[0] == 'thr' and not w.quiet and w.op not in ('new', 'dtor'):
            if off == K['state']:
                if write or obj != w.me or w.op in ('proc', 'exit'):
                    self.protected(I, ins, 'the state of a thread', write)
            elif off == K['id']:
                if write and w.op != 'resume' or obj != w.me:
                    self.protected(I, ins, 'the id of a thread', write)

    # ---- what other threads may do
    def state(self, I, obj, s):
        put(I, obj, K['state'], const(s, 32))

    def setid(self, I, obj, t):
        put(I, obj, K['id'], const(t, 64))

    def interfere(self, I):
        """The latch has just been gained: the others may have done anything the invariant allows"""
        w = self.w
        if w.quiet or w.map is None:
            return
        w.round += 1
        if w.round > 4:
            raise cube.Stop('as before')
        for o in w.others:
            order = ['none', 'started', 'ended', 'gone']
            if o.st is None:
                o.st = pick(I, 'thread %d at first' % o.tid, o.states)
            elif o.joined:
                if o.st == 'ended' and w.regs.get(o.tid) == o.obj:	# the id of a thread that was joined may be used again
                    r = pick(I, 'the id of thread %d by step %d' % (o.tid, w.round), ['its own', 'of a thread started', 'of a thread ended'])
                    if r != 'its own':
                        y = ('thr', 'Y%d' % o.tid)
                        self.make(I, y)
                        self.setid(I, y, o.tid)
                        self.state(I, y, K['ended'] if r == 'of a thread ended' else K['started'])
                        w.regs[o.tid] = y
                continue
            else:
                nxt = [s for s in order[order.index(o.st):] if s != 'none' or o.st == 'none']
                if o.obj == w.me:
                    nxt = [o.st]
                if len(nxt) > 1:
                    o.st = pick(I, 'thread %d by step %d' % (o.tid, w.round), nxt)
            if o.st in ('started', 'ended'):
                if o.tid not in w.regs or w.regs[o.tid] == o.obj:
                    w.regs[o.tid] = o.obj
                    self.setid(I, o.obj, o.tid)
                    self.state(I, o.obj, K[o.st])
            elif w.regs.get(o.tid) == o.obj:
                del w.regs[o.tid]
        # the map
        have = {k.const(): (n, v.obj) for n, k, v in ((n, cellv(I, n, 0), cellv(I, n, 8)) for n in w.nodes)}
        nodes = []
        for t in sorted(w.regs):
            if t in have:
                n = have[t][0]
                put(I, n, 8, P(w.regs[t], 0))
            else:
                n = self.entry(I, const(t, 64), P(w.regs[t], 0))
            nodes.append(n)
        for t, (n, v) in have.items():
            if n not in nodes:
                w.dead.add(n)
        w.nodes = nodes
        put(I, w.count[0], w.count[1], const(self.ended(I), 32))

    def make(self, I, obj):
        q, op = self.w.quiet, self.w.op
        self.w.quiet = True
        kind, r, i = I.run(I.mod.fns['t_new'], [P(obj, 0)])
        self.w.quiet, self.w.op = q, op
        if kind != 'ret':
            raise Broken('constructing a thread does not end')

    def entry(self, I, k, v):
        I.nobj += 1
        n = ('entry', I.nobj)
        put(I, n, 0, k)
        put(I, n, 8, v)
        return n

    def ended(self, I):
        return sum(1 for n in self.w.nodes if self.stateof(I, cellv(I, n, 8).obj) == K['ended'])

    def stateof(self, I, obj):
        c = I.mem.get(obj, {}).get(K['state'])
        return c[0].const() if c is not None and isinstance(c[0], V) else None

    def invariant(self, I, ins, when):
        """Must hold whenever the latch is free"""
        w = self.w
        if w.quiet or w.map is None or w.op == 'latch':
            return
        n = self.ended(I)
        c = cellv(I, *w.count).const()
        if c != n:
            self.stop(I, ins, 'count', 'count', '%s with %s threads counted as ended, and %d registered that have' % (when, cube.signed(c, 32), n))
        for e in w.nodes:
            k, v = cellv(I, e, 0), cellv(I, e, 8)
            if v.obj is None:
                self.stop(I, ins, 'registry', 'null', '%s with an id registered for no thread' % when)
            if v.obj in w.gone:
                self.stop(I, ins, 'registry', 'gone', '%s with a thread registered that is being deleted' % when)
            c = I.mem.get(v.obj, {}).get(K['id'])
            if c is None or c[0].const() != k.const():
                self.stop(I, ins, 'registry', 'id', '%s with a thread registered under an id that is not its own' % when)
        self.ck.good('count', site(ins)[0] if ins is not None else w.op)
        self.ck.good('registry', site(ins)[0] if ins is not None else w.op)

    def release(self, I, ins):
        """The latch is let go: what the registry says now is what others go on from"""
        w = self.w
        if w.map is None or w.quiet:
            return
        self.invariant(I, ins, 'lets go of the latch')
        w.regs = {cellv(I, n, 0).const(): cellv(I, n, 8).obj for n in w.nodes}
        for o in w.others:
            if o.st in ('started', 'ended') and w.regs.get(o.tid) != o.obj:
                o.st = 'gone'
        w.released += 1
        if w.told is not None and w.op in ('proc', 'exit'):
            w.gone.add(w.cur_obj)
            w.told = 'done'

    # ---- the map
    def theMap(self, I, ins, p, write):
        w = self.w
        if not isinstance(p, P) or (p.obj, p.off) != w.map:
            if w.map is None or p.obj == w.map[0]:
                self.stop(I, ins, 'init', 'map', 'uses the map of threads before it is constructed')
            raise Broken('another map')
        self.protected(I, ins, 'the registered threads', write)

    def seek(self, I, p, ins):
        k = I.load(ins, p, 64, False)
        if k.const() is None:
            raise Broken('an unknown id')
        for i, n in enumerate(self.w.nodes):
            c = cellv(I, n, 0).const()
            if c >= k.const():
                return i, c == k.const(), k
        return len(self.w.nodes), False, k

    def mapcall(self, I, ins, op, args):
        w = self.w
        if op == 'ctor':
            if w.map is not None:
                raise Broken('a second map')
            w.map = (args[0].obj, args[0].off)
            w.nodes = []
            return VOID
        if op in ('next', 'prev'):
            self.protected(I, ins, 'the registered threads', False)
            n = args[0].obj
            i = len(w.nodes) if n == ('end',) else w.nodes.index(n) if n in w.nodes else None
            j = None if i is None else i + (1 if op == 'next' else -1)
            if j is None or not 0 <= j <= len(w.nodes):
                self.stop(I, ins, 'memory', 'iterator', 'moves an iterator whose entry is gone, or beyond the end')
            return self.at(j)
        self.theMap(I, ins, args[0], op in ('insert', 'slot', 'erase', 'clear', 'assign', 'swap', 'dtor'))
        if op == 'dtor':
            w.map = None
            return VOID
        if op == 'begin':
            return self.at(0)
        if op == 'end':
            return self.at(len(w.nodes))
        if op == 'size':
            return const(len(w.nodes), 64)
        if op == 'fresh':
            return const(int(w.fresh), 1)
        if op in ('find', 'lower', 'upper'):
            i, found, k = self.seek(I, args[1], ins)
            if op == 'find':
                return self.at(i if found else len(w.nodes))
            return self.at(i + (op == 'upper' and found))
        if op in ('insert', 'slot'):
            i, found, k = self.seek(I, args[1], ins)
            w.fresh = not found
            if not found:
                v = I.load(ins, P(args[1].obj, I.conc(args[1].off) + 8), 64, True) if op == 'insert' else NULL
                w.nodes.insert(i, self.entry(I, k, v))
            return self.at(i)
        if op == 'erase':
            n = args[1].obj
            if n not in w.nodes:
                self.stop(I, ins, 'memory', 'iterator', 'removes an entry that is not there')
            i = w.nodes.index(n)
            del w.nodes[i]
            w.dead.add(n)
            return self.at(i)
        if op == 'clear':
            w.dead.update(w.nodes)
            w.nodes = []
            return VOID
        return None

    def at(self, i):
        return P(self.w.nodes[i], 0) if i < len(self.w.nodes) else P(('end',), 0)

    # ---- pthreads
    def gain(self, I, k, m):
        m.owner = 'me'
        m.n = 1
        if k == K.get('latch'):
            self.w.log.append('gain')
            self.interfere(I)
            if self.w.op == 'proc' and self.w.starting:
                self.w.starting = False

    def drop(self, I, ins, k, m):
        if k == K.get('latch'):
            self.release(I, ins)
            self.w.log.append('drop')
        m.owner = None

    def mutexof(self, I, ins, p):
        m = self.w.mutex.get((p.obj, p.off)) if isinstance(p, P) else None
        if m is None:
            if isinstance(p, P) and p.obj is None:
                self.null(I, ins)
            self.stop(I, ins, 'init', 'mutex', 'uses a latch that was not made, or no longer exists')
        return (p.obj, p.off), m

    def call(self, I, ins, name, args):
        w = self.w
        if name is None:
            return None
        if name.startswith('m_'):
            return self.mapcall(I, ins, name[2:], args)
        if name == '__cxa_atexit':
            w.atexit.append((args[0].obj, args[1].obj if isinstance(args[1], P) else None))
            return I32(0)
        if name == '_ZN1T3runEv':
            if args[0].obj != w.me:
                self.stop(I, ins, 'result', 'run', 'runs another thread')
            if any(m.owner == 'me' for m in w.mutex.values()):
                self.stop(I, ins, 'blocking', 'run', 'runs the thread while holding a latch')
            self.ck.good('blocking', site(ins)[0])
            if w.starting:
                self.stop(I, ins, 'registry', 'run', 'runs the thread perhaps before it is registered')
            w.log.append('run')
            return I.inbits('what run returns', 32)
        if not name.startswith('pthread_') and name not in ('clock_gettime', 'nanosleep', '__errno_location', 'getpid'):
            return None
        f = name[8:]
        if name == '__errno_location':
            return P(('errno',), 0)
        if name == 'nanosleep':
            n = len(w.sleeps)
            if w.op != 'yield':
                raise Broken('sleeps')
            if n:
                for k in (0, 8):
                    if I.load(ins, P(args[0].obj, args[0].off + k), 64, False).key() != I.inbits('left%d after sleep %d' % (k, n - 1), 64).key():
                        self.stop(I, ins, 'result', 'again', 'an interrupted sleep does not go on for as long as was left')
                self.ck.good('result', site(ins)[0])
            if n >= 2:
                raise cube.Stop('as before')
            cut = bool(I.truth(I.inbits('sleep %d is interrupted' % n, 1, 150)))
            w.sleeps.append(cut)
            if not cut:
                return I32(0)
            put(I, ('errno',), 0, const(EINTR, 32))
            if isinstance(args[1], P) and args[1].obj is not None:
                for k in (0, 8):
                    put(I, args[1].obj, args[1].off + k, I.inbits('left%d after sleep %d' % (k, n), 64))
            return I32(-1)
        if f == 'self':
            return const(w.cur, 64)
        if f in ('mutexattr_init', 'mutexattr_destroy', 'mutexattr_settype'):
            k = (args[0].obj, args[0].off)
            if k[0][0] == 'g':
                self.stop(I, ins, 'init', 'shared', 'prepares attributes that several threads may be preparing at once')
            if f != 'mutexattr_init' and k not in w.attr:
                self.stop(I, ins, 'init', 'attr', 'uses mutex attributes that are not initialised')
            if f == 'mutexattr_init':
                w.attr[k] = 0
            elif f == 'mutexattr_settype':
                w.attr[k] = I.conc(args[1])
            else:
                del w.attr[k]
            return I32(0)
        if f == 'mutex_init':
            k = (args[0].obj, args[0].off)
            a = args[1]
            if isinstance(a, P) and a.obj is not None and (a.obj, a.off) not in w.attr:
                self.stop(I, ins, 'init', 'attr', 'makes a latch with attributes that are not initialised')
            if k in w.mutex:
                self.stop(I, ins, 'init', 'twice', 'makes a latch twice')
            w.mutex[k] = Mutex(w.attr[(a.obj, a.off)] if isinstance(a, P) and a.obj is not None else 0)
            return I32(0)
        if f == 'mutex_destroy':
            k, m = self.mutexof(I, ins, args[0])
            if m.owner is not None:
                self.stop(I, ins, 'init', 'destroy', 'destroys a latch that is held')
            del w.mutex[k]
            return I32(0)
        if f == 'mutex_lock':
            k, m = self.mutexof(I, ins, args[0])
            if m.owner == 'me':
                if m.kind == ERRORCHECK:
                    return I32(EDEADLK)
                if m.kind == RECURSIVE:
                    m.n += 1
                    return I32(0)
                self.stop(I, ins, 'blocking', 'self', 'waits for a latch it holds, and the latch does not detect it')
            if any(x.owner == 'me' for x in w.mutex.values()):
                self.stop(I, ins, 'blocking', 'order', 'waits for a latch while holding another')
            self.gain(I, k, m)
            return I32(0)
        if f == 'mutex_trylock':
            k, m = self.mutexof(I, ins, args[0])
            if m.owner == 'me' and m.kind == RECURSIVE:
                m.n += 1
                return I32(0)
            w.tries = getattr(w, 'tries', 0) + 1
            if m.owner is not None or not w.quiet and I.truth(I.inbits('latch is busy, try %d' % w.tries, 1, 190)):
                return I32(EBUSY)
            self.gain(I, k, m)
            return I32(0)
        if f == 'mutex_unlock':
            k, m = self.mutexof(I, ins, args[0])
            if m.owner != 'me':
                self.stop(I, ins, 'latch', 'unlock', 'lets go of a latch it does not hold')
            m.n -= 1
            if m.n == 0:
                self.drop(I, ins, k, m)
            return I32(0)
        if f == 'cond_init':
            k = (args[0].obj, args[0].off)
            w.cond[k] = True
            if isinstance(args[1], P) and args[1].obj is not None:
                raise Broken('condition attributes')
            return I32(0)
        if f == 'cond_destroy':
            if w.cond.pop((args[0].obj, args[0].off), None) is None:
                self.stop(I, ins, 'init', 'cond', 'destroys a condition that does not exist')
            return I32(0)
        if f in ('cond_wait', 'cond_timedwait', 'cond_signal', 'cond_broadcast'):
            c = (args[0].obj, args[0].off)
            if c not in w.cond:
                self.stop(I, ins, 'init', 'cond', 'uses a condition that does not exist')
            if f in ('cond_signal', 'cond_broadcast'):
                w.log.append((f, c))
                return I32(0)
            k, m = self.mutexof(I, ins, args[1])
            if m.owner != 'me':
                self.stop(I, ins, 'latch', 'wait', 'waits without holding the latch it is to let go of')
            if m.n != 1:
                self.stop(I, ins, 'latch', 'wait', 'waits while holding the latch more than once')
            w.log.append((f, c, k))
            if w.op == 'joinAny':
                self.waiting(I, ins)
            self.drop(I, ins, k, m)
            self.gain(I, k, m)
            return I32(0)
        if f == 'create':
            return self.create(I, ins, args)
        if f == 'join':
            t = I.conc(args[0], False)
            if any(m.owner == 'me' for m in w.mutex.values()):
                self.stop(I, ins, 'blocking', 'join', 'waits for a thread to end while holding a latch that it needs')
            self.ck.good('blocking', site(ins)[0])
            w.log.append(('join', t))
            for o in w.others:
                if o.tid == t and (o.st in ('started', 'ended') or o.obj == w.me or w.op == 'joinAny' and o.st == 'gone'):
                    if o.joined:
                        self.stop(I, ins, 'result', 'twice', 'joins a thread twice')
                    if o.st == 'started':
                        o.st = 'ended'
                    o.joined = True
                    break
            else:
                self.stop(I, ins, 'result', 'join', 'joins a thread that does not exist')
            if isinstance(args[1], P) and args[1].obj is not None:
                put(I, args[1].obj, I.conc(args[1].off), const(0, 64))
            return I32(0)
        if f == 'exit':
            if any(m.owner == 'me' for m in w.mutex.values()):
                self.stop(I, ins, 'blocking', 'exit', 'ends the thread while it holds a latch')
            w.log.append(('exit', args[0]))
            return ('end', 'exit')
        return None

    def create(self, I, ins, args):
        w = self.w
        if isinstance(args[1], P) and args[1].obj is not None:
            raise Broken('thread attributes')
        if not w.quiet and w.op != 'resume':
            raise Broken('starts a thread')
        if not isinstance(args[3], P) or args[3].obj != w.me or args[2].obj[0] != 'f':
            self.stop(I, ins, 'registry', 'arg', 'starts a thread that does not know which it is')
        w.proc = (args[2].obj[1], args[3].off)
        w.log.append('create')
        if I.truth(I.inbits('the thread cannot be started', 1, 150)):
            w.log.append('failed')
            return I32(EAGAIN)
        if not self.held():
            self.stop(I, ins, 'registry', 'create', 'starts a thread without holding the latch: it may run, and end, before it is registered')
        ids = [31] + [o.tid for o in w.others if o.st == 'ended']
        t = pick(I, 'the id of the new thread', ids)
        for o in w.others:
            if o.tid == t:
                o.joined = True
        w.newid = t
        self.store_id(I, ins, args[0], t)
        return I32(0)

    def store_id(self, I, ins, p, t):
        self.access(I, ins, p.obj, p.off, 8, True, None)
        put(I, p.obj, I.conc(p.off), const(t, 64))

    def waiting(self, I, ins):
        """joinAny is about to wait: would it ever be woken?"""
        w = self.w
        n = [o for o in w.others if o.st in ('started', 'ended')]
        if not n:
            self.stop(I, ins, 'result', 'forever', 'waits for a thread to end when there is none')
        if any(o.st == 'ended' for o in n):
            self.stop(I, ins, 'result', 'missed', 'waits for a thread to end when one already has')
        if (w.log[-1][1]) != K['cond']:
            self.stop(I, ins, 'result', 'cond', 'waits for a condition that ending threads do not announce')
        self.ck.good('result', site(ins)[0])


def put(I, obj, off, v):
    m = I.mem.setdefault(obj, {})
    for i in range(8 if isinstance(v, P) else v.w // 8):
        m[off + i] = (v, i)


def cellv(I, obj, off):
    c = I.mem[obj].get(off) if obj in I.mem else None
    if c is None:
        c = I.cell(obj, off, None)
    if c[1] != 0:
        raise Broken('written piecemeal')
    if isinstance(c[0], V) and c[0].w == 8:		# initial data
        return const(sum(I.mem.get(obj, {}).get(off + i, (const(0, 8), 0))[0].const() << 8 * i for i in range(4)), 32)
    return c[0]


def start(I):
    """What is there once the program has started"""
    w = I.rule.w
    w.op = 'init'
    inits = sorted(f for f in I.mod.fns if f.startswith('_GLOBAL__sub_I'))
    if not inits:
        raise Broken('nothing is initialised')
    for f in inits:
        kind, r, i = I.run(I.mod.fns[f], [])
        if kind != 'ret':
            I.rule.stop(I, i, 'init', 'end', 'initialisation does not end')


def roles(mod, rep):
    """Which global is which, and where fields are"""
    def num(f):
        I = cube.Interp(mod, cube.Cubes(), cube.Rule(), {})
        I.rule.inter = True
        kind, r, i = I.run(mod.fns[f], [P(('o',), 0)] if f[0] == 'o' else [])
        return r.const()
    K.clear()
    for k in ('id', 'state'):
        K[k] = num('o_' + k)
    for k in ('new', 'started', 'ended'):
        K[k] = num('e_' + k)
    K['size'] = num('s_thread')

    class Q:
        root = 'init'
        good = lambda *a: None

        def bad(self, I, ins, rule, key, msg):
            loc, k = site(ins) if ins is not None else ('?', '?')
            rep.bad(rule, loc, 'init:%s' % key, 'start of the program: %s' % msg)
    R = TR(Q())
    I = cube.Interp(mod, cube.Cubes(), R, {})
    try:
        start(I)
    except cube.Stop:
        return False
    w = R.w
    gl = lambda d: [k for k in d if k[0][0] == 'g']
    if len(gl(w.mutex)) != 1 or len(gl(w.cond)) != 1 or w.map is None:
        raise Broken('cannot tell what the latch, the map and the condition of threads are')
    K['latch'], K['cond'] = gl(w.mutex)[0], gl(w.cond)[0]
    ty = {}
    names = [g for g, v in mod.globals.items() if len(v.get('data', ())) == 4 and not v.get('const')]
    for f in mod.fns.values():
        for b in f['blocks']:
            for i in b['ins']:
                for o in i.get('ops', ()):
                    if isinstance(o, (list, tuple)) and len(o) > 1 and o[1] in names:
                        ty[o[1]] = True
    if len(ty) != 1:
        raise Broken('cannot tell what counts ended threads: %s' % sorted(ty))
    K['count'] = (('g', list(ty)[0]), 0)
    return True


class ThreadCheck(Check):
    mk = TR


ME = ('thr', 'me')


def begin(ck, I, op, others=2, me=None):
    """Start-up, then the other threads that may be about"""
    R = I.rule
    w = R.w
    w.starting = False
    start(I)
    w.count = K['count']
    cellv(I, *w.count)
    put(I, w.count[0], w.count[1], const(0, 32))
    w.regs = {cellv(I, n, 0).const(): cellv(I, n, 8).obj for n in w.nodes}
    w.log = []
    for j in range(others):
        o = ('thr', 'AB'[j])
        R.make(I, o)
        w.others.append(Other(o, (11, 71)[j], ['none', 'started', 'ended']))
    if me is not None:
        R.make(I, ME)
        w.me = ME
        o = Other(ME, 31, [me])
        o.st = me
        w.others.append(o)
        if me in ('started', 'ended'):
            R.setid(I, ME, 31)
            R.state(I, ME, K[me])
    w.quiet = False
    w.op = op
    return R, w


def finish(ck, I, ins, R, w):
    if any(m.owner == 'me' for m in w.mutex.values()):
        R.stop(I, ins, 'latch', 'kept', 'ends without letting go of the latch')
    R.invariant(I, ins, 'ends')
    ck.good('latch', w.op)


def registered(I, w):
    return {cellv(I, n, 0).const(): cellv(I, n, 8).obj for n in w.nodes}


def expect(ck, I, ins, w, want, what='the registered threads are'):
    got = registered(I, w)
    if got != want:
        nm = lambda d: ', '.join('%d: %s' % (k, v[1] if v else 'nothing') for k, v in sorted(d.items())) or 'none'
        I.rule.stop(I, ins, 'registry', 'who', '%s %s; should be %s' % (what, nm(got), nm(want)))
    ck.good('registry', w.op)


def s_init(ck, I):
    R = I.rule
    w = R.w
    w.starting = False
    ck.good('init', 'start')
    start(I)
    w.count = K['count']
    got = registered(I, w)
    if list(got) != [MAIN] or got[MAIN] is None:
        R.stop(I, None, 'registry', 'main', 'the main thread is not registered at the start')
    m = got[MAIN]
    if R.stateof(I, m) != K['started']:
        R.stop(I, None, 'registry', 'main', 'the main thread is not said to be running')
    kind, r, i = I.run(I.mod.fns['t_main'], [])
    ck.same(I, r, P(m, 0), 'main()')
    if cellv(I, *w.count).const() != 0:
        R.stop(I, None, 'count', 'start', 'threads are counted as ended at the start')
    ck.good('registry', 'start')
    ck.good('count', 'start')
    # what is destroyed at exit, last made first, must not be used by what is destroyed later
    w.op = 'dtor'
    for f, o in reversed(w.atexit):
        if f[0] != 'f':
            raise Broken('atexit')
        fn = I.mod.fns.get(f[1]) or I.mod.fns.get(f[1].replace('D1Ev', 'D2Ev'))
        if fn is None:
            raise Broken('no destructor %s' % f[1])
        kind, r, i = I.run(fn, [P(o, 0)])
        if kind != 'ret':
            R.stop(I, i, 'init', 'exit', 'ending the program does not end')
    ck.good('init', 'exit')


def s_new(ck, I):
    R, w = begin(ck, I, 'new')
    w.me = ME
    kind, r, i = I.run(ck.fn, [P(ME, 0)])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    if R.stateof(I, ME) != K['new']:
        R.stop(I, i, 'result', 'state', 'a new thread is not New')
    c = I.mem[ME].get(K['id'])
    if c is None or c[0].const() != 0:
        R.stop(I, i, 'result', 'id', 'a new thread has an undefined id')
    finish(ck, I, i, R, w)
    ck.good('result', 'new')


def s_resume(ck, I):
    R, w = begin(ck, I, 'resume', me='none')
    kind, r, i = I.run(ck.fn, [P(ME, 0)])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    if w.log.count('create') != 1:
        R.stop(I, i, 'result', 'create', 'does not start a thread once')
    want = dict((o.tid, o.obj) for o in w.others if o.st in ('started', 'ended') and o.obj != ME)
    want[MAIN] = registered(I, w).get(MAIN)
    st, tid = R.stateof(I, ME), cellv(I, ME, K['id']).const()
    if 'failed' in w.log:
        if st != K['new']:
            R.stop(I, i, 'result', 'state', 'a thread that could not be started is not New')
        if tid != 0:
            R.stop(I, i, 'result', 'id', 'a thread that could not be started has an id')
    else:
        want[w.newid] = ME
        if st != K['started']:
            R.stop(I, i, 'result', 'state', 'a thread that was started is not Started')
        if tid != w.newid:
            R.stop(I, i, 'result', 'id', 'a thread that was started does not have its id')
    expect(ck, I, i, w, want)
    finish(ck, I, i, R, w)
    ck.good('result', 'resume')


def s_join(ck, I):
    R, w = begin(ck, I, 'join', me=pick(I, 'the thread', ['started', 'ended']))
    kind, r, i = I.run(ck.fn, [P(ME, 0)])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    if ('join', 31) not in w.log:
        R.stop(I, i, 'result', 'early', 'returns though the thread may not have ended')
    want = dict(w.regs)
    if want.get(31) == ME:
        del want[31]
    for o in w.others:
        if o.obj != ME:
            want.pop(o.tid, None)
            if o.st in ('started', 'ended'):
                want[o.tid] = o.obj
    y = ('thr', 'Y31')
    if y in I.mem:
        want[31] = y
    want[MAIN] = registered(I, w).get(MAIN)
    expect(ck, I, i, w, want)
    finish(ck, I, i, R, w)
    ck.good('result', 'join')


def s_joinAny(ck, I):
    R, w = begin(ck, I, 'joinAny')
    old = w.interfere_seen = None
    kind, r, i = I.run(ck.fn, [])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    left = {o.tid: o.obj for o in w.others if o.st in ('started', 'ended')}
    joined = [t for e in w.log if isinstance(e, tuple) and e[0] == 'join' for t in e[1:]]
    if r.obj is None:
        if left:
            R.stop(I, i, 'result', 'none', 'finds no thread though %d are running' % len(left))
        if joined:
            R.stop(I, i, 'result', 'lost', 'joins a thread, and does not say which')
    else:
        o = [o for o in w.others if o.obj == r.obj]
        if not o:
            R.stop(I, i, 'result', 'who', 'answers a thread that was not to be joined')
        if R.stateof(I, r.obj) != K['ended']:
            R.stop(I, i, 'result', 'running', 'answers a thread that is still running')
        if joined != [o[0].tid]:
            R.stop(I, i, 'result', 'join', 'does not join the thread it answers (only)')
        if o[0].st != 'gone' and registered(I, w).get(o[0].tid) == o[0].obj:
            R.stop(I, i, 'result', 'again', 'answers a thread that remains registered, and would be joined again')
        left.pop(o[0].tid, None)
        y = ('thr', 'Y%d' % o[0].tid)
        if y in I.mem:
            left[o[0].tid] = y
    left[MAIN] = registered(I, w).get(MAIN)
    expect(ck, I, i, w, left)
    finish(ck, I, i, R, w)
    ck.good('result', 'joinAny')


def announced(ck, I, ins, R, w, others):
    if R.stateof(I, ME) != K['ended']:
        R.stop(I, ins, 'result', 'state', 'the thread has ended, and is not said to have')
    want = {o.tid: o.obj for o in w.others if o.st in ('started', 'ended')}
    want[31] = ME
    want[MAIN] = registered(I, w).get(MAIN)
    expect(ck, I, ins, w, want)
    # woken, after the last time the latch was gained
    n = len(w.log) - 1 - w.log[::-1].index('gain') if 'gain' in w.log else -1
    if ('cond_broadcast', K['cond']) not in w.log[n + 1:]:
        R.stop(I, ins, 'result', 'silent', 'does not wake all the threads that wait for one to end')
    ck.good('result', w.op)


def s_proc(ck, I):
    R, w = begin(ck, I, 'proc', me='started')
    w.cur, w.cur_obj = 31, ME
    w.told = True
    w.proc = None
    if ck.proc is None:
        raise Broken('threads are not started')
    w.starting = True
    if I.truth(I.inbits('the thread has no id yet', 1, 160)):
        R.setid(I, ME, 0)
    w.told = None
    w.watch = True
    kind, r, i = I.run(I.mod.fns[ck.proc[0]], [P(ME, ck.proc[1])])
    if kind not in ('ret', 'exit'):
        R.stop(I, i, 'result', 'end', 'does not return')
    if w.log.count('run') != 1:
        R.stop(I, i, 'result', 'run', 'does not run the thread once')
    announced(ck, I, i, R, w, 0)
    finish(ck, I, i, R, w)


def s_exit(ck, I):
    known = pick(I, 'the calling thread', ['registered', 'not registered'])
    R, w = begin(ck, I, 'exit', me='started' if known == 'registered' else 'none')
    w.cur, w.cur_obj = 31, ME
    target = ME
    if I.truth(I.inbits('called on another thread', 1, 160)):
        target = ('thr', 'A')
    code = I.inbits('the exit code', 32)
    kind, r, i = I.run(ck.fn, [P(target, 0), code])
    if known == 'registered':
        if kind != 'exit':
            R.stop(I, i, 'result', 'end', 'returns, and does not exit the thread')
        announced(ck, I, i, R, w, 0)
    elif kind not in ('ret', 'exit'):
        R.stop(I, i, 'result', 'end', 'does not return')
    finish(ck, I, i, R, w)
    ck.good('result', 'exit')


def s_current(ck, I):
    who = pick(I, 'the calling thread', ['main', 'registered', 'not registered'])
    R, w = begin(ck, I, 'current', me='started' if who == 'registered' else 'none')
    w.cur = MAIN if who == 'main' else 31
    kind, r, i = I.run(ck.fn, [])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    reg = registered(I, w)
    ck.same(I, r, P(reg[w.cur], 0) if w.cur in reg else NULL, 'the current thread')
    finish(ck, I, i, R, w)


def s_dtor(ck, I):
    was = pick(I, 'the thread', ['new', 'not started', 'ended', 'joined', 'joined, and its id used again'])
    R, w = begin(ck, I, 'dtor', me={'ended': 'ended'}.get(was, 'none'))
    me = w.others[-1]
    if was.startswith('joined'):
        R.setid(I, ME, 31)
        R.state(I, ME, K['ended'])
        me.st = 'gone'
        if was != 'joined':
            y = ('thr', 'Y31')
            R.w.quiet = True
            R.make(I, y)
            R.w.quiet = False
            w.others.append(Other(y, 31, ['started', 'ended']))
    kind, r, i = I.run(ck.fn, [P(ME, 0)])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    want = {o.tid: o.obj for o in w.others if o.st in ('started', 'ended')}
    if was == 'ended' and want.get(31) == ME:
        del want[31]
    want[MAIN] = registered(I, w).get(MAIN)
    expect(ck, I, i, w, want)
    finish(ck, I, i, R, w)
    ck.good('result', 'dtor')


# ---- latches and conditions
LAT, CON = ('lat',), ('con',)


def latch_at(ck, I, owner):
    R = I.rule
    w = R.w
    w.op = 'latch'
    w.starting = False
    I.run(I.mod.fns['l_new'], [P(LAT, 0)])
    ms = list(w.mutex.items())
    if len(ms) != 1:
        R.stop(I, None, 'init', 'latch', 'a latch is not a mutex')
    k, m = ms[0]
    if w.attr:
        R.stop(I, None, 'init', 'attr', 'does not destroy the attributes it has used')
    m.owner = owner
    m.n = 1 if owner else 0
    w.quiet = False
    return R, w, k, m


def s_latch(ck, I):
    op = ck.root[2:]
    if op == 'new':
        R, w, k, m = latch_at(ck, I, None)
        ck.good('init', 'latch')
        return
    owner = pick(I, 'the latch is held by', {'probe': ['nobody', 'me', 'another'], 'enter': ['nobody'], 'holding': ['nobody', 'me'], 'leave': ['me'], 'dtor': ['nobody']}[op])
    R, w, k, m = latch_at(ck, I, {'nobody': None, 'me': 'me', 'another': 'other'}[owner])
    n = m.n
    kind, r, i = I.run(ck.fn, [P(LAT, 0)])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    if op == 'dtor':
        if w.mutex:
            R.stop(I, i, 'init', 'destroy', 'does not destroy the mutex')
        ck.good('init', 'destroy')
        return
    now = m.owner == 'me'
    want = {'enter': True, 'leave': False, 'holding': owner == 'me'}.get(op)
    if op == 'probe':
        want = owner == 'me' or bool(r.const())
        if owner == 'nobody' and bool(r.const()) != now:
            R.stop(I, i, 'result', 'probe', 'says it %s the latch, and %s' % (('has gained', 'has not') if not now else ('has not gained', 'has')))
        if owner != 'nobody' and r.const():
            R.stop(I, i, 'result', 'probe', 'says it has gained a latch that was held')
    if op == 'holding' and bool(r.const()) != (owner == 'me'):
        R.stop(I, i, 'result', 'holding', 'is wrong about whether the caller holds the latch')
    if now != want or now and m.n != 1:
        R.stop(I, i, 'latch', 'after', 'leaves the latch %s' % ('held' if now else 'free'))
    ck.good('result', 'latch ' + op)
    ck.good('latch', 'latch ' + op)


def s_cond(ck, I):
    op = ck.root[2:]
    R, w, k, m = latch_at(ck, I, 'me' if op in ('wait', 'timed') else None)
    w.quiet = True
    kind, r, i = I.run(I.mod.fns['c_new'], [P(CON, 0)])
    w.quiet = False
    if len(w.cond) != 1:
        R.stop(I, i, 'init', 'cond', 'a new condition does not exist')
    c = list(w.cond)[0]
    w.log = []
    ck.good('init', 'condition')
    if op == 'new':
        return
    args = [P(CON, 0)]
    if op == 'wait':
        args.append(P(LAT, 0))
    kind, r, i = I.run(ck.fn, args)
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    if op == 'dtor':
        if w.cond:
            R.stop(I, i, 'init', 'destroy', 'does not destroy the condition')
        return
    want = {'wait': ('cond_wait', c, k), 'signal': ('cond_signal', c), 'broadcast': ('cond_broadcast', c)}.get(op)
    if want and [e for e in w.log if isinstance(e, tuple)] != [want]:
        R.stop(I, i, 'result', op, '%s does not %s, once' % (op, {'wait': 'wait for it, letting go of the latch', 'signal': 'wake one', 'broadcast': 'wake all'}[op]))
    if op == 'wait' and m.owner != 'me':
        R.stop(I, i, 'latch', 'wait', 'ends waiting without the latch')
    ck.good('result', 'condition ' + op)


def s_yield(ck, I):
    """An interrupted sleep goes on for as long as is left, no more and no less"""
    R, w = begin(ck, I, 'yield', 0)
    w.sleeps = []
    kind, r, i = I.run(ck.fn, [I.inbits('milliseconds', 64)])
    if kind != 'ret':
        R.stop(I, i, 'result', 'end', 'does not return')
    if not w.sleeps or w.sleeps[-1]:
        R.stop(I, i, 'result', 'short', 'returns before it has slept for as long as was asked')
    finish(ck, I, i, R, w)
    ck.good('result', 'yield')


# ---- times: linear arithmetic
class TimeRule(ai.Rule):
    def __init__(self, rep, root, ms):
        self.rep, self.root, self.ms = rep, root, ms
        self.n = 0

    def time(self, I, st, p, base, ins, what):
        s, n = I.load(st, p, 8), I.load(st, p + 8, 8)
        if not isinstance(s, Lin) or not isinstance(n, Lin):
            raise Broken('an odd time')
        loc, key = site(ins)
        want = base + self.msv.scale(1000000)
        got = s.scale(10 ** 9) + n
        if not I.prove_eq(st, got, want):
            self.rep.bad('time', loc, '%s:value' % self.root, '%s: waits until %s s and %s ns, which is not %s' % (self.root[2:], I.show(s), I.show(n), what))
        elif not I.prove(st, n) or not I.prove(st, Lin(10 ** 9 - 1) - n):
            self.rep.bad('time', loc, '%s:range' % self.root, '%s: the nanoseconds %s may be out of range, which is an error' % (self.root[2:], I.show(n)))
        else:
            self.rep.ok('time', '%s %s' % (self.root, loc))

    def call(self, I, st, ins, name):
        if name == 'clock_gettime':
            if I.lin(st, ins['ops'][0]) != Lin(0):
                self.rep.bad('time', site(ins)[0], self.root + ':clock', '%s: reads a clock other than that of conditions' % self.root[2:])
            p = I.lin(st, ins['ops'][1])
            self.sec, self.nsec = I.fresh('sec', lo=0, hi=1 << 40, ins=ins), I.fresh('nsec', lo=0, hi=10 ** 9 - 1, ins=ins)
            self.put(I, st, p, self.sec, ins, 0)
            self.put(I, st, p + 8, self.nsec, ins, 1)
            st.ts['now'] = True
            return self.result(I, st, ins, Lin(0))
        if name == 'pthread_cond_timedwait':
            if not st.ts.get('now'):
                self.rep.bad('time', site(ins)[0], self.root + ':now', '%s: waits until a time that has nothing to do with the present' % self.root[2:])
                return []
            self.time(I, st, I.lin(st, ins['ops'][2]), self.sec.scale(10 ** 9) + self.nsec, ins, 'as long after now as was asked')
            st.ts['waited'] = True
            out = []
            for c in (0, ETIMEDOUT):
                s = st.copy()
                s.ts['code'] = c
                out += self.result(I, s, ins, Lin(c))
            return out
        if name == 'nanosleep':
            if not st.ts.get('slept'):
                self.time(I, st, I.lin(st, ins['ops'][0]), Lin(0), ins, 'as long as was asked')
            st.ts['slept'] = True
            return self.result(I, st, ins, Lin(0))
        if name == '__assert_fail':
            return []
        return None

    def put(self, I, st, p, v, ins, k):
        b, off = I.split_ptr(st, p)
        I.write(st, b, off, Lin(8), v, ('clock', ins['id'], k))

    def result(self, I, st, ins, v):
        st.vals[ins['id']] = v
        return [st]


def check_times(rep):
    mod = ai.Mod(build.lower(['d_thread.cpp', 'src/condition.cpp'], roots=['^c_timed$', '^y_yield$']))
    for root in ('c_timed', 'y_yield'):
        fn = mod.fn(root)
        rule = TimeRule(rep, root, None)
        I = ai.Interp(mod, rule)
        cell = {}

        def setup(I, st):
            ms = I.atom(('in', 'ms'), name='milliseconds', lo=0, hi=1 << 40)
            rule.msv = ms if isinstance(ms, Lin) else Lin(0, ((ms, 1),))
            if root == 'y_yield':
                st.vals[('a', 0)] = rule.msv
            else:
                v = st.vals[('a', 1)]
                cell['p'] = v
                I.write(st, v.t[0][0], Lin(0), Lin(8), rule.msv, ('init', 0))
        try:
            rets = I.run(fn, None, setup)
        except ai.Limit as e:
            raise Broken('%s: %s' % (root, e))
        rep.paths += len(rets)
        rep.functions.add(root[2:])
        if not rets and not rep.viol:
            rep.bad('time', root, root + ':end', '%s: never returns' % root[2:])
        for st, val, ins in rets:
            done = st.ts.get('slept') or st.ts.get('waited')
            if not done and not I.prove_eq(st, rule.msv, Lin(0)):
                rep.bad('time', site(ins)[0] if ins else root, root + ':none', '%s: returns without waiting' % root[2:])
            if root == 'c_timed' and st.ts.get('waited'):
                v = I.load(st, cell['p'], 8)
                if st.ts['code'] == ETIMEDOUT:
                    ok = I.prove_eq(st, v, Lin(0))
                else:
                    s2 = st.copy()
                    ok = not I.add_eq(s2, v) or not I.add_fact(s2, rule.msv - 1)
                    if v == rule.msv:
                        ok = True
                if not ok:
                    rep.bad('time', site(ins)[0] if ins else root, root + ':left', 'wait: leaves %s as the time left when it %s' % (I.show(v), 'timed out' if st.ts['code'] else 'was woken'))
                else:
                    rep.ok('time', root + ' left')


UNITS = {'init': s_init, 't_new': s_new, 't_resume': s_resume, 't_join': s_join, 't_joinAny': s_joinAny, 'proc': s_proc, 't_exit': s_exit,
         't_current': s_current, 't_dtor': s_dtor, 'l_new': s_latch, 'l_dtor': s_latch, 'l_probe': s_latch, 'l_enter': s_latch, 'l_holding': s_latch,
         'l_leave': s_latch, 'c_new': s_cond, 'c_dtor': s_cond, 'c_wait': s_cond, 'c_signal': s_cond, 'c_broadcast': s_cond, 'y_yield': s_yield}


def check_threads(rep):
    mod = ai.Mod(build.lower(['d_thread.cpp', 'src/thread.cpp', 'src/condition.cpp', 'src/lockfree.cpp'], roots=['.*'], inline=False,
                             extra=['-I' + VERIF + '/drivers/stub']))
    if not roles(mod, rep):
        return
    rules = ('memory', 'latch', 'registry', 'count', 'blocking', 'init', 'result')

    class Null:
        root = 'probe'
        bad = good = lambda *a: None
    # how a thread is started
    proc = [None]

    def unit(r):
        def f(rep):
            ck = ThreadCheck(rep, mod, {'init': 't_main', 'proc': 't_resume'}.get(r, r), rules)
            if r in ('init', 'proc'):
                ck.root = r
                ck.fn = None
            if r == 'proc':
                Q = Null()

                def find(I):
                    rule = I.rule
                    Q.fn = mod.fns['t_resume']
                    begin(Q, I, 'resume', 0, me='none')
                    I.run(mod.fns['t_resume'], [P(ME, 0)])
                    proc[0] = rule.w.proc
                cube.explore(mod, cube.Cubes(), lambda: TR(Q), find)
                if proc[0] is None:
                    raise Broken('no thread is started')
                ck.proc = proc[0]
            ck.run(UNITS[r])
        return f
    spread(rep, {r: unit(r) for r in UNITS})
    check_times(rep)
    rep.require('latch', 10)
    rep.require('registry', 8)
    rep.require('count', 6)
    rep.require('blocking', 2)
    rep.require('init', 4)
    rep.require('result', 10)
    rep.require('time', 2)
    rep.assume.append('pthreads behave as specified, wake-ups may be spurious, and any other thread may do anything the invariant allows whenever the latch is free; a thread is joined once, by join or by joinAny, and deleted only when it is not running; joinAny is called by a thread that is not itself waited for')
