"""Case conversion and character classes: the answer is a function of the character alone, whatever the memo of earlier calls
(its own or another thread's) holds; every table access is inside its table; the answers are Unicode's."""
import json, os, bisect, multiprocessing
from . import build, ai, cube
from .cube import P, V, const, part, mk
from .slices import site
from .build import Broken

DATA = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'case.json')))


class Steps:
    """A piecewise-defined answer over all characters: answer(ch) = base + kind * ch"""

    def __init__(self, pieces):
        self.lo, self.ans = [], []
        at = 0
        for lo, hi, a in pieces:
            if lo > at:
                self.put(at, ('no',))
            self.put(lo, a)
            at = hi + 1
        self.put(at, ('no',))

    def put(self, at, a):
        if not self.ans or self.ans[-1] != a:
            self.lo.append(at)
            self.ans.append(a)

    def at(self, I, ch):
        """The answer on this cube, splitting it if it has several"""
        while True:
            lo = sum(1 << i for i, b in enumerate(ch.bits) if b == 1)
            hi = sum(1 << i for i, b in enumerate(ch.bits) if b != 0)
            i = bisect.bisect_right(self.lo, lo) - 1
            if i + 1 == len(self.lo) or hi < self.lo[i + 1]:
                return self.ans[i]
            free = [(b - 2) >> 1 for b in reversed(ch.bits) if b >= 2]
            if not free:
                raise Broken('the character is not an input')
            I.split(free[:1])


def delta(name):
    return Steps([(a, b, ('add', d)) for a, b, d in DATA[name]])


SPEC = dict(upper=delta('upper'), lower=delta('lower'), title=delta('title'),
            alpha=Steps([(a, b, ('yes',)) for a, b, d in DATA['alpha']]))
dig = {}
for a, b, d in DATA['digit']:
    for c in range(a, b + 1):
        dig[c] = d + c
SPEC['digit'] = Steps([(c, c, ('is', dig[c])) for c in sorted(dig)])
hexd = dict(dig)
hexd.update({ord('A') + k: 10 + k for k in range(6)})
hexd.update({ord('a') + k: 10 + k for k in range(6)})
SPEC['hex'] = Steps([(c, c, ('is', hexd[c])) for c in sorted(hexd)])
SPEC['decimal'] = Steps([(c, c, ('yes',)) for c in sorted(dig)])
white = [9, 10, 13, 32, 0xA0] + list(range(0x2000, 0x200C)) + [0x2028, 0x2029, 0x3000]
SPEC['white'] = Steps([(c, c, ('yes',)) for c in white])
aln = set(dig)
for a, b, d in DATA['alpha']:
    aln.update(range(a, b + 1))
SPEC['alnum'] = Steps([(c, c, ('yes',)) for c in sorted(aln)])


def answer(I, name, ch):
    a = SPEC[name].at(I, ch)
    if a[0] == 'yes':
        return const(1, 1)
    if name in ('upper', 'lower', 'title'):
        return ch if a[0] == 'no' else cube.add(ch, const(a[1] & 0xFFFFFFFF, 32))
    if name in ('alpha', 'decimal', 'white', 'alnum'):
        return const(0, 1)
    return const((-1 if a[0] == 'no' else a[1]) & 0xFFFFFFFF, 32)


# roots, what each answers, and which functions it may take as given (they are roots themselves)
ROOTS = dict(t_upper=('upper', 0), t_lower=('lower', 0), t_digit=('digit', 0), t_title=('title', 1), t_alpha=('alpha', 1), t_hex=('hex', 1),
             t_decimal=('decimal', 1), t_white=('white', 1), t_toupper=('upper', 1), t_tolower=('lower', 1), t_isalpha=('alpha', 2), t_isdigit=('decimal', 1),
             t_isalnum=('alnum', 2))
GIVEN = {'_Z11UCS4ToUpperDi': ('upper', 1), '_Z11UCS4ToLowerDi': ('lower', 1), '_Z9UCS4DigitDi': ('digit', 1), '_Z16UCS4IsAlphabeticDi': ('alpha', 2)}


class R(cube.Rule):
    def __init__(self, ck):
        self.ck = ck
        self.trace = []
        self.opq = False
        self.nload = 0

    def missing(self, I, ins, obj, off):
        raise Broken('reads uninitialised %s' % (obj,))

    def access(self, I, ins, obj, off, n, write, val):
        if obj[0] != 'g':
            return
        g = I.mod.globals[obj[1]]
        size = len(g['data']) if 'data' in g else None
        if size is None:
            raise Broken('global %s' % obj[1])
        if not 0 <= off or off + n > size:
            self.outside(I, ins, obj, off)
        self.ck.good('bounds', site(ins)[0])
        if write:
            self.ck.bad(I, ins, 'race', 'store', 'writes %s, which other threads use, without synchronisation' % g.get('diname', obj[1]))

    def outside(self, I, ins, obj, off):
        g = I.mod.globals[obj[1]]
        self.ck.bad(I, ins, 'bounds', 'table', 'accesses byte %d of %s, which has %d' % (off, g.get('diname', obj[1]), len(g['data'])))
        raise cube.Stop('outside')

    def null(self, I, ins):
        self.ck.bad(I, ins, 'bounds', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.ck.bad(I, ins, 'bounds', 'undefined', what)

    def atomic(self, I, ins, p, w):
        m = p.obj[1]
        self.nload += 1
        first = self.ck.initial(m)
        isptr = w is None or ins['id'] in self.ck.pointers
        if self.ck.memos is None:
            if not isptr:
                self.opq = True
                return V(w, (cube.TOP,) * w, ('memo', m, self.nload), frozenset())
            if first.__class__ is tuple:
                self.opq = True
                return cube.P(first[1], V(64, (cube.TOP,) * 64, ('memo', m, self.nload), frozenset()))
            self.ck.domain.setdefault(m, {first})
        dom = sorted(self.ck.domain[m], key=repr)
        # any value any call may have left there
        v = dom[-1]
        for x in dom[:-1]:
            if I.truth(I.inbits(('memo', self.nload, m, x), 1, 400)):
                v = x
                break
        if v.__class__ is tuple:
            return cube.P(v[1], v[2])
        return cube.NULL if isptr else const(v & ((1 << w) - 1), w)

    def atomic_store(self, I, ins, p, v):
        dom = self.ck.domain.setdefault(p.obj[1], set())
        if isinstance(v, cube.P):
            if v.obj is None:
                dom.add(0)
            elif isinstance(v.off, int):
                dom.add(('p', v.obj, v.off))
            elif not (cube.TOP in v.off.bits and mentions(v.off.x)):
                dom.add(('p', v.obj, I.conc(v.off)))
            return True
        c = v.const()
        if c is None:
            if v.deps or any(b >= 2 for b in v.bits):
                c = I.conc(v, False)
            else:			# an unknown that was read from a memo
                return True
        dom.add(cube.signed(c, v.w))
        return True

    def symbolic(self, I, ins, p, w):
        if self.ck.memos is not None or p.off.deps or any(b >= 2 for b in p.off.bits):
            return None
        return V(w, (cube.TOP,) * w, ('entry', p.key(), w), frozenset())

    def call(self, I, ins, name, args):
        g = GIVEN.get(name)
        if g is None or g[1] > self.ck.level:
            return None
        return answer(I, g[0], args[0])


class Interp(cube.Interp):
    """Decides comparisons of what a memo selects as such, and remembers them"""

    def ult(self, a, b):
        if (cube.TOP in a.bits or cube.TOP in b.bits) and not self.known(a, b):
            if self.opaque(a) or self.opaque(b):
                return self.place()
        return super().ult(a, b)

    def eq(self, a, b):
        if isinstance(a, V) and isinstance(b, V) and a.key() != b.key() and (self.opaque(a) or self.opaque(b)):
            return self.place()
        return super().eq(a, b)

    def place(self):
        """A decision named by where it is taken: what is known of the character must not rename it"""
        self.taken += 1
        return bool(self.split((), ('at', self.taken)))

    def known(self, a, b):
        lo = lambda v: sum((1 << i) for i, x in enumerate(v.bits) if x == 1)
        hi = lambda v: sum((1 << i) for i, x in enumerate(v.bits) if x != 0)
        return hi(a) < lo(b) or lo(a) >= hi(b)

    def opaque(self, v):
        return cube.TOP in v.bits and mentions(v.x)

    def cmp(self, pred, a, b):
        o = isinstance(a, V) and isinstance(b, V) and (self.opaque(a) or self.opaque(b))
        r = super().cmp(pred, a, b)
        self.was_opaque = o
        return r


def mentions(x):
    if isinstance(x, tuple):
        if x and x[0] in ('memo', 'entry'):
            return True
        return any(mentions(y) for y in x)
    return False


class Check:
    def __init__(self, rep, mod, root):
        self.rep, self.mod, self.root = rep, mod, root
        self.spec, self.level = ROOTS[root]
        self.fn = mod.fns[root]
        self.domain = {}
        self.memos = None
        self.pointers = {i['ops'][0][1] for b in self.fn['blocks'] for i in b['ins'] if i['op'] == 'inttoptr' and i['ops'][0][0] == 'v'}
        self.where = ('src/char_encoding.cpp', '')
        for b in self.fn['blocks']:
            for i in b['ins']:
                s = site(i)
                if s[0] != '?':
                    self.where = s
                    break

    def initial(self, m):
        """What a memo holds at first"""
        g = self.mod.globals[m]
        for ro, name, ad in g.get('relocs', ()):
            if ro == 0:
                return ('p', ('g', name), ad)
        n = min(8, len(g['data']))
        return cube.signed(int.from_bytes(bytes(g['data'][:n]), 'little'), 8 * n)

    def bad(self, I, ins, rule, key, msg):
        s = site(ins) if ins is not None else self.where
        if s[0] == '?':
            s = self.where
        ex = []
        for i, v in sorted(I.cube.items()):
            prio, k, name = self.cubes.names[i]
            if name == 'ch':
                ex.append((k, v))
            elif v and isinstance(name, tuple) and name[0] == 'memo':
                ex.append(('memo', name[3]))
        bits = ''.join(str(dict(ex).get(k, '?')) for k in reversed(range(32)))
        memo = [v for k, v in ex if k == 'memo']
        self.rep.bad(rule, s[0], '%s:%s' % (self.root, key), '%s: %s' % (self.root, msg),
                     ['for ch=%s%s' % (bits, ' with memo %s' % memo if memo else '')])

    def good(self, rule, what):
        self.rep.ok(rule, '%s %s' % (self.root, what))

    def explore(self, body, limit=400000):
        work, done = [{}], 0
        while work:
            c = work.pop()
            I = Interp(self.mod, self.cubes, R(self), c)
            I.was_opaque = False
            I.taken = 0
            try:
                body(I)
                done += 1
            except cube.Stop:
                done += 1
            except cube.Split as s:
                for v in (0, 1):
                    d = dict(c)
                    d[s.bit] = v
                    work.append(d)
            if done > limit:
                raise Broken('too many cases')
            if self.memos and self.rep.viol or len(self.rep.viol) > 40:
                break
        self.rep.paths += done

    def run(self):
        # 1. whatever the memo holds: every path on which what it selects does not matter
        self.cubes = cube.Cubes()
        self.opaque_at, self.bad_traces = set(), set()

        def first(I):
            ch = I.inbits('ch', 32)
            trace = []

            def cmp(pred, a, b, ins):
                pass
            self.hook(I, trace)
            kind, v, ins = I.run(self.fn, [ch])
            if kind == 'ret' and isinstance(v, V) and not (cube.TOP in v.bits and mentions(v.x)):
                if I.eq(v, answer(I, self.spec, ch)):
                    self.good('answer', self.spec)
                    return
            if not any(self.opaque_seen(t) for t in trace):
                self.bad(I, ins, 'answer', 'answer', 'answers %s, not %s' % (self.show(kind, v), self.show('ret', answer(I, self.spec, ch))))
                return
            self.bad_traces.add(tuple(t for t in trace if t[0] in self.opaque_at))
        while True:
            before = {k: set(v) for k, v in self.domain.items()}
            self.explore(first)
            if all(0 not in v or len(v) == len(before.get(k, ())) for k, v in self.domain.items()) or not self.pointers or self.rep.viol:
                break
            if any(len(v) > 4000 for v in self.domain.values()):
                raise Broken('the memo may hold too many values')
        if not self.bad_traces:
            return
        # 2. the paths on which it matters: each value it may hold
        for g in list(self.domain):
            self.domain[g].add(self.initial(g))
        pre = {t[:i] for t in self.bad_traces for i in range(len(t) + 1)}
        while True:
            before = {k: set(v) for k, v in self.domain.items()}
            self.memos = True
            self.cubes = cube.Cubes()

            def second(I):
                ch = I.inbits('ch', 32)
                trace = []
                self.hook(I, trace, pre)
                kind, v, ins = I.run(self.fn, [ch])
                want = answer(I, self.spec, ch)
                if kind == 'ret' and isinstance(v, V) and I.eq(v, want):
                    self.good('answer with a memo', self.spec)
                else:
                    self.bad(I, ins, 'answer', 'memo', 'depending on what earlier calls left behind, answers %s, not %s' % (self.show(kind, v), self.show('ret', want)))
            self.explore(second)
            if self.domain == before or self.rep.viol:
                break
            if any(len(v) > 4000 for v in self.domain.values()):
                raise Broken('the memo may hold too many values')

    def show(self, kind, v):
        if kind != 'ret':
            return kind
        return v.const() if isinstance(v, V) and v.const() is not None else 'ch+%s' % (v.x[-1],) if isinstance(v, V) and v.x and v.x[0] == 'add' else 'another value'

    def opaque_seen(self, t):
        return t[0] in self.opaque_at

    def hook(self, I, trace, pre=None):
        step = I.step

        def hooked(op, ins, env):
            if op in ('icmp', 'switch', 'select'):
                I.was_opaque = False
                r = step(op, ins, env)
                if op == 'icmp':
                    if self.memos is None:
                        if I.was_opaque:
                            self.opaque_at.add(ins['id'])
                    out = r.const()
                    if ins['id'] in self.opaque_at:
                        trace.append((ins['id'], out))
                        if pre is not None and tuple(trace) not in pre:
                            raise cube.Stop('decided without the memo')
                return r
            return step(op, ins, env)
        I.step = hooked


def job(args):
    j, root = args
    from .report import Report
    rep = Report('', '')
    try:
        Check(rep, MOD, root).run()
        rep.functions.add(root)
    except Broken as e:
        return root, rep.dump(), str(e)
    return root, rep.dump(), None


MOD = None


def check_case(rep):
    global MOD
    base = [r for r in ROOTS if ROOTS[r][1] == 0]
    two = [r for r in ROOTS if ROOTS[r][1] > 0]
    mods = [ai.Mod(build.lower(['d_case.cpp', 'src/char_encoding.cpp'], roots=['^(%s)$' % '|'.join(rs)], keep=keep))
            for rs, keep in ((base, []), (two, [r'UCS4ToUpper\(', r'UCS4ToLower\(', r'UCS4Digit\(', r'UCS4IsAlphabetic\(']))]
    # the alphabetic class itself is looked into
    mods.append(ai.Mod(build.lower(['d_case.cpp', 'src/char_encoding.cpp'], roots=['^t_alpha$'], keep=[r'UCS4ToUpper\(', r'UCS4ToLower\(', r'UCS4Digit\('])))
    for m, rs in ((mods[0], base), (mods[1], [r for r in two if r != 't_alpha']), (mods[2], ['t_alpha'])):
        MOD = m
        with multiprocessing.Pool(8) as pool:
            for root, d, err in pool.imap_unordered(job, [(0, r) for r in rs]):
                rep.merge(d)
                if err:
                    rep.undecide(root, err)
    rep.few_undecided(len(ROOTS))
    rep.require('answer', 12)
