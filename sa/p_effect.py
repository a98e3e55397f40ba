"""Effects: what functions reach through the call graph, and which objects of static storage they write.

Over the LLVM IR of the whole library, with every template and member instantiated (drivers/use).  Virtual calls are
resolved to that slot of every virtual table, other indirect calls to every function whose address is taken in what
is reachable.  Nothing is run."""
import glob
import os
import re
from . import build
from .build import Broken

NEW = {'_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t', 'malloc', 'calloc', 'realloc', 'reallocarray', 'aligned_alloc',
       'posix_memalign', 'memalign', 'valloc', 'strdup', 'strndup', 'asprintf', 'vasprintf', 'getline', 'getdelim', 'fopen', 'fdopen', 'open_memstream', 'opendir', 'qsort', '__strdup'}
SAFESTD = re.compile(r'_ZSt(18_Rb_tree_(in|de)crement|\d+__throw_|28_Rb_tree_rebalance|29_Rb_tree_insert|9terminatev)|_ZNSt9exceptionD|_ZSt24__throw')
IO = {'printf', 'vprintf', 'fprintf', 'vfprintf', 'dprintf', 'puts', 'fputs', 'putchar', 'fputc', 'putc', '_IO_putc', 'fwrite', 'write', 'perror', 'read', 'fread', 'fgets', 'getchar', 'fgetc', 'getc',
      'scanf', 'fscanf', 'open', 'openat', 'creat', 'close', 'fopen', 'fclose', 'fflush', 'unlink', 'remove', 'rename', 'system', 'popen', 'syslog', 'send', 'recv', 'psignal', 'herror', '__printf_chk', '__fprintf_chk'}
IOSTD = re.compile(r'_ZStls|_ZNSo|_ZNSi|_ZSt16__ostream_insert|_ZNSt.*basic_[io]f?stream|_ZNSt8ios_base4Init')
LOCK = re.compile(r'pthread_(mutex_(timed|try)?lock|cond_(timed)?wait|rwlock|spin_lock|join|barrier|once)|sem_(timed)?wait|n?u?sleep$|nanosleep|clock_nanosleep|sched_yield|poll$|select$|futex')
STATEFUL = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'setlocale', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'setenv', 'putenv', 'unsetenv',
            'tmpnam', 'tempnam', 'mktemp', 'strsignal', 'ecvt', 'fcvt', 'gcvt', 'getpwnam', 'getpwuid', 'getgrnam', 'readdir', 'ptsname', 'ttyname', 'inet_ntoa', 'gethostbyname', 'signal', 'atexit',
            'chdir', 'umask', 'srand48', 'hsearch', 'hcreate', 'l64a', 'getopt', 'mblen', 'mbtowc', 'wctomb'}
ENDS = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', 'kill', 'raise', 'longjmp', 'execve', 'fork', '_ZSt9terminatev'}
# which arguments an external function writes through
WRITES = {'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'sprintf': (0,), 'snprintf': (0,), 'vsnprintf': (0,), 'vsprintf': (0,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,),
          'stpcpy': (0,), 'qsort': (0,), 'clock_gettime': (1,), 'gettimeofday': (0,), 'strtol': (1,), 'strtoul': (1,), 'memccpy': (0,), 'bzero': (0,), 'bcopy': (1,), 'strtok_r': (0, 2), 'swab': (1,), 'time': (0,)}
DUMP = re.compile(r'::(dump|print)\w*\(')
INIT = re.compile(r'^(__cxx_global_var_init|_GLOBAL__|__cxx_global_array_dtor|__tls_init|_ZTH)')
SELF = re.compile(r'class\.(Latch|Condition)$|std::atomic|struct\.std::(once_flag|mutex)')


class Prog:
    def __init__(self, j):
        self.fns = {f['name']: f for f in j['functions']}
        self.dem = {d['name']: d['dem'] for d in j['defs']}
        self.globals = {g['name']: g for g in j['globals']}
        self.slots = {}
        for g in j['globals']:
            if g['name'].startswith('_ZTV'):
                for off, name, _ in g.get('relocs', ()):
                    if off >= 16 and name in self.fns:
                        self.slots.setdefault(off - 16, set()).add(name)
        self.ins = {}
        self.live = {}
        for n, f in self.fns.items():
            self.ins[n] = {i['id']: i for b in f['blocks'] for i in b['ins']}
            self.live[n] = returns(f)

    def name(self, n):
        return self.dem.get(n) or self.globals.get(n, {}).get('dem') or n

    def where(self, fn, i=None):
        f = self.fns.get(fn)
        file, line = (f or {}).get('file', '?'), (f or {}).get('line', 0)
        if i and i.get('loc'):
            file, line = i['loc'][0][0], i['loc'][0][1]
        return '%s:%s in %s' % (rel(file), line, short(self.name(fn)))

    def targets(self, fn, i):
        """candidates of a call: names, and whether they are all there are"""
        if i.get('callee'):
            return [i['callee']], True
        t = i.get('target')
        if t and t[0] == 'f':
            return [t[1]], True
        slot = self.virtual(fn, t)
        if slot is not None:
            n = len(i['ops'])
            return [s for s in self.slots.get(slot, ()) if len(self.fns[s]['args']) == n], True
        return [], False

    def virtual(self, fn, t):
        """the offset in the virtual table that the target is loaded from"""
        if not t or t[0] != 'v':
            return None
        ld = self.ins[fn].get(t[1])
        if not ld or ld['op'] != 'load':
            return None
        p, off = ld['ops'][0], 0
        g = self.ins[fn].get(p[1]) if p[0] == 'v' else None
        if g and g['op'] == 'getelementptr' and g.get('ok') and not g.get('var'):
            off, p = g['off'], g['ops'][0]
            g = self.ins[fn].get(p[1]) if p[0] == 'v' else None
        if g and g['op'] == 'load' and g['ty'] == 'ptr':
            base = g['ops'][0]
            b = self.ins[fn].get(base[1]) if base[0] == 'v' else None
            if not (b and b['op'] == 'getelementptr' and b.get('off')):	# a virtual table is the first thing in an object
                return off
        return None

    def calls(self, fn, live=False):
        f = self.fns[fn]
        for b in f['blocks']:
            if live and b['id'] not in self.live[fn]:
                continue
            for i in b['ins']:
                if i['op'] in ('call', 'invoke') and not i.get('intr'):
                    yield i

    def taken(self, fn):
        """functions whose address is an operand, other than that of the call itself"""
        for i in self.ins[fn].values():
            for o in i.get('ops', ()):
                yield from addresses(o)
            for o, _ in i.get('inc', ()):
                yield from addresses(o)
            for o in i.get('ops', ()):
                if o and o[0] == 'g' and not o[1].startswith('_ZTV'):
                    for _, n, _ in self.globals.get(o[1], {}).get('relocs', ()) or ():
                        if n in self.fns:
                            yield n


def addresses(o):
    if not o:
        return
    if o[0] == 'f':
        yield o[1]
    elif o[0] in ('ce', 'k'):
        for x in o[-1]:
            if isinstance(x, list):
                yield from addresses(x)


def returns(f):
    """the blocks from which the function can return"""
    pred, ends = {}, []
    for b in f['blocks']:
        t = b['ins'][-1]
        succ = t.get('succ', []) if t['op'] == 'br' else [t['default']] + [c[1] for c in t['cases']] if t['op'] == 'switch' else []
        for s in succ:
            pred.setdefault(s, []).append(b['id'])
        if t['op'] in ('ret', 'resume') or t['op'] not in ('br', 'switch', 'unreachable'):
            if not any(i.get('noret') for i in b['ins']):
                ends.append(b['id'])
    seen = set(ends)
    while ends:
        for p in pred.get(ends.pop(), ()):
            if p not in seen:
                seen.add(p)
                ends.append(p)
    return seen


def rel(p):
    p = os.path.normpath(p or '?')
    for r in (build.REPO, build.VERIF):
        if p.startswith(r + '/'):
            return p[len(r) + 1:]
    return p


def short(d):
    if d.startswith('_Z'):
        d = build.run([build.LLVM + '/llvm-cxxfilt', d]).stdout.strip() or d
    while '<' in d or '(' in d:
        e = re.sub(r'<[^<>]*>|\([^()]*\)( const)?', '', d)
        if e == d:
            break
        d = e
    return d


def path(prev, n, P):
    p = []
    while n is not None:
        p.append(short(P.name(n)))
        n = prev[n]
    return ' <- '.join(p)


def bad_alloc(c):
    return c in NEW or (c.startswith(('_ZNSt', '_ZNKSt', '_ZSt')) and not SAFESTD.match(c))


def quiet(rep, P):
    """(A) the na_ functions of the driver reach no allocation, lock, output, nor state of the C library"""
    for root in sorted(n for n in P.fns if n.startswith('na_')):
        prev, work, found, n = {root: None}, [root], {}, 0
        indirect, taken = [], set()

        def add(c, x):
            if c in P.fns and c not in prev:
                prev[c] = x
                work.append(c)
        while work:
            x = work.pop(0)
            rep.functions.add(short(P.name(x)))
            for t in P.taken(x):
                taken.add((t, x))
            for i in P.calls(x):
                n += 1
                ts, known = P.targets(x, i)
                if not known:
                    indirect.append((x, i))
                for c in ts:
                    if c in P.fns:
                        add(c, x)
                    elif bad_alloc(c):
                        found.setdefault(('allocates', c), (x, i))
                    elif LOCK.match(c):
                        found.setdefault(('may wait', c), (x, i))
                    elif (c in IO or IOSTD.match(c)) and any(b['id'] in P.live[x] and i in b['ins'] for b in P.fns[x]['blocks']):
                        found.setdefault(('does input or output', c), (x, i))
                    elif c in STATEFUL:
                        found.setdefault(('uses state of the C library', c), (x, i))
            for i in P.ins[x].values():
                if i['op'] == 'alloca' and i.get('ops') and i['ops'][0][0] != 'c':
                    found.setdefault(('takes stack space of any size', 'alloca'), (x, i))
            if not work:		# functions passed as pointers, to be called by anything
                for t, y in list(taken):
                    add(t, y)
        what = root[3:].replace('_', ' ')
        rep.ok('reach', what, n)
        for (eff, c), (x, i) in sorted(found.items()):
            rep.bad('reach', P.where(x, i), '%s:%s:%s' % (what, eff, short(P.name(x))), '%s %s (%s): %s' % (what, eff, short(P.name(c)), path(prev, x, P)))


def roots_of(P, fn):
    """For each value of a function: what it points into: ('g', name), ('p', name) read from a global, ('a', i)"""
    f = P.fns[fn]
    r = {}

    def of(o):
        if not o:
            return frozenset()
        if o[0] == 'g':
            return frozenset([('g', o[1])])
        if o[0] == 'a':
            return frozenset([('a', o[1])])
        if o[0] == 'v':
            return r.get(o[1], frozenset())
        if o[0] in ('ce', 'k') and isinstance(o[-1], list):
            s = frozenset()
            for x in o[-1]:
                if isinstance(x, list):
                    s |= of(x)
            return s
        return frozenset()
    changed = True
    while changed:
        changed = False
        for i in P.ins[fn].values():
            op = i['op']
            if op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint', 'select', 'insertvalue', 'extractvalue'):
                s = frozenset().union(*[of(o) for o in (i['ops'][:1] if op == 'getelementptr' else i['ops'])]) if i.get('ops') else frozenset()
            elif op == 'phi':
                s = frozenset().union(*[of(o) for o, _ in i['inc']])
            elif op == 'load' and i['ty'] == 'ptr':
                s = frozenset(('p', n) for k, n in of(i['ops'][0]) if k == 'g')
            else:
                continue
            if s - r.get(i['id'], frozenset()):
                r[i['id']] = r.get(i['id'], frozenset()) | s
                changed = True
    return of


def writes(P, fn, of, summ):
    """(instruction, block, what it writes through)"""
    for b in P.fns[fn]['blocks']:
        for i in b['ins']:
            if i['op'] == 'store' and not i.get('atomic'):
                yield i, b['id'], of(i['ops'][1])
            elif i['op'] in ('call', 'invoke'):
                c = i.get('callee') or ''
                if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    yield i, b['id'], of(i['ops'][0])
                    continue
                if i.get('intr'):
                    continue
                ts, _ = P.targets(fn, i)
                for t in ts:
                    ks = summ.get(t, ()) if t in P.fns else WRITES.get(t, range(len(i['ops'])) if t.startswith('_ZSt') and 'crement' not in t else ())
                    for k in ks:
                        if k < len(i['ops']):
                            yield i, b['id'], of(i['ops'][k])


def guarded(f):
    """blocks that run once, between taking and releasing the guard of a static"""
    ins = {i['id']: i for b in f['blocks'] for i in b['ins']}
    blocks = {b['id']: b for b in f['blocks']}
    out = set()
    for b in f['blocks']:
        t = b['ins'][-1]
        if t['op'] != 'br' or len(t.get('succ', ())) != 2:
            continue
        c = ins.get(t['ops'][0][1]) if t['ops'] and t['ops'][0][0] == 'v' else None
        if not c or c['op'] != 'icmp':
            continue
        a = ins.get(c['ops'][0][1]) if c['ops'][0][0] == 'v' else None
        if not a or a.get('callee') != '__cxa_guard_acquire':
            continue
        work = [t['succ'][0] if c['pred'] == 'ne' else t['succ'][1]]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            e = blocks[x]['ins']
            if any(i.get('callee') == '__cxa_guard_release' for i in e):
                continue
            l = e[-1]
            work += l.get('succ', []) if l['op'] == 'br' else [l['default']] + [k[1] for k in l['cases']] if l['op'] == 'switch' else []
    return out


def ours(g):
    f = rel(g.get('file') or '')
    return not f.startswith('/') and f.split('/')[0] in ('include', 'src', 'rx')


def state(rep, P):
    """(B) objects of static storage: constant, or written by their initialisers only, or atomic"""
    ofs = {n: roots_of(P, n) for n in P.fns}
    summ = {n: frozenset() for n in P.fns}
    changed = True
    while changed:
        changed = False
        for n in P.fns:
            s = frozenset(k[1] for _, _, w in writes(P, n, ofs[n], summ) for k in w if k[0] == 'a')
            if s != summ[n]:
                summ[n] = s
                changed = True
    mine = {n: g for n, g in P.globals.items() if not g['const'] and not g['decl'] and g.get('file') and ours(g)}
    threads = {n for n in mine if P.name(n).startswith('Thread::') or P.name(n) == 'main_thread'}
    wr, dyn, used = {}, {}, {}
    for n in P.fns:
        g = guarded(P.fns[n])
        init = bool(INIT.match(n))
        for i, b, w in writes(P, n, ofs[n], summ):
            for k, name in w:
                if k in 'gp' and name in mine:
                    if init:
                        dyn.setdefault(name, (n, i))
                    elif b not in g:
                        wr.setdefault(name, []).append((n, i, k))
        if not init:
            for i in P.ins[n].values():
                for o in i.get('ops', ()):
                    for name in globs(o):
                        if name in mine:
                            used.setdefault(name, []).append((n, i))
    for n, g in sorted(mine.items()):
        what = P.name(n)
        if n in threads:
            rep.ok('state', what + ' (decided by P15)')
            continue
        if SELF.search(g['ty']) or g['tls']:
            rep.ok('state', what)
        elif n in wr:
            fn, i, k = wr[n][0]
            rep.bad('state', P.where(fn, i), '%s:%s' % (short(what), short(P.name(fn))), '%s, which every thread and call shares, is %s without a latch or an atomic, by %s' % (
                short(what), 'written' if k == 'g' else 'a pointer, through which is written', short(P.name(fn))), sorted({P.where(f, j) for f, j, _ in wr[n]}))
        else:
            rep.ok('state', what, 1 + len(used.get(n, ())))
        if n in dyn and n in used and n not in threads:
            fn, i = used[n][0]
            rep.bad('init', '%s:%s' % (rel(g.get('file')), g.get('line')), short(what), '%s is initialised by code that runs at start-up, in no order with the user\'s own; but %s uses it, so an object made at start-up would' % (
                short(what), short(P.name(fn))), sorted({P.where(f, j) for f, j in used[n]})[:20])
        else:
            rep.ok('init', what)


def globs(o):
    if not o:
        return
    if o[0] == 'g':
        yield o[1]
    elif o[0] in ('ce', 'k') and isinstance(o[-1], list):
        for x in o[-1]:
            if isinstance(x, list):
                yield from globs(x)


def effects(rep, P):
    """(C) what the rest of the library does to the process: output only from dump functions, or before a failed assertion"""
    callers = {}
    edges = {}
    for n in P.fns:
        for i in P.calls(n, live=True):
            ts, _ = P.targets(n, i)
            for c in ts:
                edges.setdefault(n, []).append((c, i))
                callers.setdefault(c, set()).add(n)
    mine = lambda n: rel(P.fns[n].get('file') or '').split('/')[0] in ('include', 'src', 'rx')
    lockers = re.compile(r'^(Latch|Condition|Thread|MainThread)::')

    def search(rule, bad, stop, what, entries):
        prev, work = {}, []
        for n in entries:
            prev[n] = None
            work.append(n)
        while work:
            x = work.pop(0)
            for c, i in edges.get(x, ()):
                if c in P.fns:
                    if c not in prev and not stop(c):
                        prev[c] = x
                        work.append(c)
                elif mine(x):
                    if bad(c):
                        rep.bad(rule, P.where(x, i), '%s:%s' % (short(P.name(x)), c), '%s %s (%s): %s' % (short(P.name(x)), what, c, path(prev, x, P)))
                    else:
                        rep.ok(rule, short(P.name(x)))
    dump = lambda n: bool(DUMP.search(P.name(n)))
    entry = [n for n in P.fns if not dump(n) and not (callers.get(n, set()) - {n})]
    search('output', lambda c: c in IO or bool(IOSTD.match(c)), dump, 'does input or output', entry)
    lock = lambda n: bool(lockers.match(P.name(n)))
    entry = [n for n in P.fns if not lock(n) and not (callers.get(n, set()) - {n})]
    search('waiting', lambda c: bool(LOCK.match(c)), lock, 'may wait', entry)
    search('process', lambda c: c in STATEFUL or c in ENDS, lambda n: False, 'changes or ends the process, or uses state shared in it', [n for n in P.fns if not (callers.get(n, set()) - {n})])


def check_effect(rep, tier='quick'):
    uses = sorted(glob.glob(os.path.join(build.VERIF, 'drivers', 'use', '*.cpp')))
    j = build.lower(['d_effect.cpp'] + build.LIBSRC + build.RXSRC + uses, roots=['.*'], inline=False, extra=('-fthreadsafe-statics',), internal=True)
    P = Prog(j)
    if len(P.fns) < 2000:
        raise Broken('only %d functions' % len(P.fns))
    quiet(rep, Prog(build.lower(['d_effect.cpp', 'src/char_encoding.cpp', 'src/variant.cpp'], roots=['.*'], inline=False, extra=('-fthreadsafe-statics',), internal=True)))
    state(rep, P)
    effects(rep, P)
    rep.paths = sum(len(f['blocks']) for f in P.fns.values())
    rep.require('reach', 20)
    rep.require('state', 10)
    rep.require('init', 10)
    rep.require('output', 20)
    rep.assume.append('external functions have the effects that their documentation says; functions of the standard library whose code is not in a header allocate, other than those for trees and exceptions')
