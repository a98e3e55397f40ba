"""The places in a text that Pegexp and Peg work through, and arrays of strings: sequences of operations on the current
code, followed in place over unknown characters, against models written here."""
import itertools
from . import ai, build, cube, fast
from .bench import Bench, Chars
from .cube import V, const, cat, signed
from .fast import P
from .p_codec import spread
from .p_rx import Prog, Skip
from .p_text import TextBench
from .build import Broken

NONE = 0xFFFFFFFF


def load():
    return ai.Mod(build.lower(['d_source.cpp', 'src/char_encoding.cpp', 'src/variant.cpp'], roots=['.*'], inline=False))


def units(rep, jobs, run, rules, parts=64):
    mod = load()
    prog = Prog(mod)

    def unit(part):
        def f(rep):
            b = TextBench(rep, mod, prog, rules)
            for j in part:
                try:
                    run(b, *j)
                except Broken as e:
                    rep.undecide(repr(j)[:80], e)
            rep.functions |= mod.seen | set(prog.code)
        return f
    spread(rep, {i: unit(jobs[i::parts]) for i in range(min(parts, len(jobs)))}, of=len(jobs))


# ---------------------------------------------------------------- sources
class Place:
    """Where a source is: at byte, on a line, in a column"""

    def __init__(self, i=0, at=0, line=1, col=1):
        self.i, self.at, self.line, self.col = i, at, line, col

    def copy(self):
        return Place(self.i, self.at, self.line, self.col)


def source(b, kind, items, ops):
    M = b.M
    size = M.conc(M.call('s_S' + kind), 64)
    call = lambda f, *a: M.call('s%s_%s' % (kind, f), *a)

    def case(b):
        t = Chars(M, items)
        t.valid()
        text, n = t.object()
        bs = [x for i in range(t.n) for x in t.encode(i)]
        starts = list(itertools.accumulate([0] + [len(t.encode(i)) for i in range(t.n)]))
        s, o = b.var('the source', size), b.var('a copy of the source', size)
        b.text = '%s of %s' % (ops, t.show())
        call('new', s, text)
        call('copy', o, s)
        w, wo = Place(), Place()
        nl = const(10, 8)

        def check(s, w, what):
            if bool(M.conc(call('eof', s), 1)) != (w.at >= n):
                b.bad('result', 'eof', '%s is %s at the end of the text' % (what, 'not' if w.at >= n else 'wrongly'))
            for f, v in ('bytes', w.at), ('line', w.line), ('column', w.col):
                x = M.conc(call(f, s), 64)
                if x != v:
                    b.bad('result', f, '%s says that it is at %s %d instead of %d' % (what, {'bytes': 'byte'}.get(f, f), signed(x, 64), v))
            if bool(M.conc(call('bol', s), 1)) != (w.col == 1):
                b.bad('result', 'bol', '%s is %s at the start of a line' % (what, 'not' if w.col == 1 else 'wrongly'))
            if M.conc(call('isnull', s), 1):
                b.bad('result', 'null', '%s is nowhere' % what)
            if kind == 'm':
                q = call('peek', s)
                if q.obj is not text.obj or q.off != w.at:
                    b.bad('result', 'peek', '%s looks at another place' % what)

        def newline(v):
            x = v if v.__class__ is V else const(v, 8)
            return M.I.eq(x, const(10, x.w))

        for k in ops:
            if k == 'c' and kind != 'b':
                if w.at < n and w.at not in starts:
                    raise Skip			# within a character: whatever P08 says
                r = call('char', s)
                if w.at >= n:
                    want = NONE
                else:
                    i = starts.index(w.at)
                    if t.legal(i) or t.items[i] in (4, 5, 6):
                        want = cube.zext(t.ch(i), 32)
                        step = starts[i + 1] - w.at
                    else:
                        want, step = None, None
                if want is None:
                    x = M.conc(call('bytes', s), 64)
                    if not w.at < x <= n:
                        b.bad('result', 'step', 'moves from byte %d to %d on what is no character' % (w.at, signed(x, 64)))
                        return
                    step = x - w.at
                    w.at, w.col = x, w.col + 1
                elif want == NONE:
                    if not (r.__class__ is int and r == NONE or r.__class__ is V and M.I.eq(r, const(NONE, 32))):
                        b.bad('result', 'end', 'reads a character after the last one')
                else:
                    if not M.I.eq(M.lift(r, 32), M.lift(want, 32)):
                        b.bad('result', 'char', 'reads another character than the one it is at (byte %d)' % w.at)
                    w.at += step
                    if M.I.eq(M.lift(want, 32), const(10, 32)):
                        w.line, w.col = w.line + 1, 1
                    else:
                        w.col += 1
            elif k in 'cb':
                r = call('byte' if k == 'b' else 'char', s)
                if w.at >= n:
                    if M.conc(r, 32) != 0:
                        b.bad('result', 'end', 'reads a byte after the last one')
                else:
                    v = bs[w.at]
                    v = v if v.__class__ is V else const(v, 8)
                    if not M.I.eq(cube.trunc(M.lift(r, 32), 8), v):
                        b.bad('result', 'byte', 'reads another byte than the one it is at (byte %d)' % w.at)
                    w.at += 1
                    if newline(v):
                        w.line, w.col = w.line + 1, 1
                    else:
                        w.col += 1
            elif k == '=':			# save
                call('set', o, s)
                wo = w.copy()
            elif k == '<':			# go back
                call('set', s, o)
                w = wo.copy()
            check(s, w, 'the source')
        check(o, wo, 'the copy')
        for f, x, y, p, q in (('same', s, o, w, wo), ('less', s, o, w, wo), ('less', o, s, wo, w), ('minus', s, o, w, wo), ('minus', o, s, wo, w), ('from', s, o, w, wo)):
            if f == 'from' and p.at < q.at:
                continue
            r = M.conc(call(f, x, y), 64)
            want = {'same': int(p.at == q.at), 'less': int(p.at < q.at), 'minus': p.at - q.at, 'from': p.at - q.at}[f] & ((1 << 64) - 1)
            if r != want:
                b.bad('result', f, '%s of sources at %d and %d is %d' % (f, p.at, q.at, signed(r, 64)))
        x, y, p, q = (o, s, wo, w) if wo.at <= w.at else (s, o, w, wo)
        if p.at in starts and q.at in starts:
            r = b.var('the text between', 'str')
            call('string', r, x, y)
            b.equal('result', 'string', r, bs[p.at:q.at], 'the text from %d to %d' % (p.at, q.at))
            cn = M.conc(M.call('f_length', r), 32)
            if cn != starts.index(q.at) - starts.index(p.at) and all(t.legal(i) for i in range(t.n)):
                b.bad('result', 'characters', 'the text from %d to %d has %d characters' % (p.at, q.at, cn))
            M.call('f_unstr', r)
        for x in (s, o):
            call('un', x)
        b.ok('result', 'source ' + ops)
    b.explore('include/pegexp.h', case)


def nowhere(b, kind):
    M = b.M
    size = M.conc(M.call('s_S' + kind), 64)
    call = lambda f, *a: M.call('s%s_%s' % (kind, f), *a)

    def case(b):
        b.text = 'a source that is nowhere'
        s, o = b.var('the source', size), b.var('another', size)
        call('null', s)
        call('copy', o, s)
        for x in (s, o):
            for f, want in ('isnull', 1), ('eof', 1), ('char', NONE if kind != 'b' else 0), ('byte', 0), ('bytes', 0), ('isnull', 1):
                if M.conc(call(f, x), 64) != want:
                    b.bad('result', f, '%s of it is not %d' % (f, want))
        if not M.conc(call('same', s, o), 1) or M.conc(call('less', s, o), 1):
            b.bad('result', 'same', 'it is not where its copy is')
        for x in (s, o):
            call('un', x)
        b.ok('result', 'nowhere')
    b.explore('include/pegexp.h', case)


def source_cases(deep):
    texts = [()] + [(x,) for x in (1, 2, 3, 4, 'stray', 'lead', '\n')] + [(x, y) for x in (1, 2, 3, '\n', 'face', 'stray', 'lead') for y in (1, 2, '\n', 'face')]
    texts = [t for t in texts if not any(x == 'lead' and i + 1 < len(t) and t[i + 1] not in (1, '\n') for i, x in enumerate(t))]
    texts += [('over2',), ('over3',), ('over2', '\n'), ('a', 'over3', 'b'), ('over2', 'over2')]
    texts += [('\n', '\n', 1), ('a', '\n', '\u20ac'), ('\u20ac', 'a', '\n'), ('a', 'b', 'c'), ('\n', '\U0001F600', '\n')]
    seqs = ['c', 'b', 'cc', 'bb', 'c=c', 'ccc', 'cccc', 'bbb', 'c=cc<c', 'c=c=c', '=cc<', 'b=bb<b', 'bbbbbbbb', 'cb', 'bc', 'cbcb']
    if deep:
        seqs += [''.join(x) for n in (3, 4) for x in itertools.product('cb=<', repeat=n) if '<' not in x or '=' in x]
    for k in 'mugb':
        for t in texts:
            for s in seqs:
                if k == 'b' and 'b' in s and 'c' in s:
                    continue
                yield source, (k, t, s)
        yield nowhere, (k,)


def check_source(rep):
    units(rep, list(source_cases(rep.tier == 'thorough')), lambda b, f, x: f(b, *x), ('result', 'memory'))
    rep.require('result', 10)
    rep.require('memory', 1)


# ---------------------------------------------------------------- arrays of strings
def arrays(b, how, items, ops):
    M = b.M
    size = b.size['str']

    def case(b):
        n = len(items)
        vals = b.var('the strings', max(size * n, 1))
        ts, held, wholes = [], [], {}
        b.text = '%s of an array of %d strings, %s' % (' '.join(map(str, ops)) or 'elements', n, {'vals': 'from strings', 'chars': 'from texts', 'append': 'appended', 'variant': 'from a variant'}[how])
        a = b.var('the array', 'strs')
        objs = []
        for k, x in enumerate(items):
            if isinstance(x, tuple) and x and x[0] == 'again':		# the same text as before
                k0 = x[1]
                objs.append(objs[k0])
                if how != 'chars':
                    M.call('f_copy', P(vals.obj, k * size), P(vals.obj, k0 * size))
                ts.append(ts[k0])
                continue
            if isinstance(x, tuple) and x and x[0] == 'of':		# characters of one text
                u = Chars(M, list(x[1]))
                bs = [[c for c in u.encode(i)] for i in range(u.n)]
                bs = [c for i in range(x[2], x[2] + x[3]) for c in bs[i]]
                if x[1] not in wholes:
                    wholes[x[1]] = b.var('a whole text', 'str')
                    M.call('f_str', wholes[x[1]], *u.object('the whole text'))
                    held.append(wholes[x[1]])
                objs.append(None)
                M.call('f_sub', P(vals.obj, k * size), wholes[x[1]], x[2], x[3])
                ts.append(bs)
                continue
            t = Chars(M, x)
            for i in range(t.n):
                if not t.known(i):
                    t.memo[i] = M.I.inbits('item %d %d' % (k, i), t.BITS[t.items[i]])
            t.valid()
            bs = [y for i in range(t.n) for y in t.encode(i)]
            p, m = t.object('the text of item %d' % k)
            objs.append(p)
            if how != 'chars':
                v = P(vals.obj, k * size)
                if k % 3 == 2:			# part of another
                    w = b.var('the whole of %d' % k, 'str')
                    u = Chars(M, ['7'] + t.items + ['9'])
                    for i in range(t.n):
                        u.memo[i + 1] = t.ch(i)
                    p2, m2 = u.object('the whole text of item %d' % k)
                    M.call('f_str', w, p2, m2)
                    M.call('f_sub', v, w, 1, t.n)
                    held.append(w)
                else:
                    M.call('f_str', v, p, m)
                if k % 3 == 1:			# shared
                    w = b.var('a copy of %d' % k, 'str')
                    M.call('f_copy', w, v)
                    held.append(w)
            ts.append(bs)
        if how == 'chars':
            o = M.obj('the texts', 8 * n + 1, 'const')
            for k, p in enumerate(objs):
                o.c[8 * k] = (p, 8)
            M.call('a_chars', a, P(o, 0), n)
        elif how == 'variant':
            M.call('a_variant', a, vals, n)
        elif how == 'append':
            M.call('a_none', a)
            for k in range(n):
                M.call('a_append', a, P(vals.obj, k * size))
        else:
            M.call('a_vals', a, vals, n, ops[0] if ops and isinstance(ops[0], int) else 0)
        if how != 'chars':			# the array holds on to its texts
            for k in range(n):
                b.equal('result', 'given', P(vals.obj, k * size), ts[k], 'string %d that was given' % k)
                M.call('f_unstr', P(vals.obj, k * size))
        kept = b.var('a copy of the array', 'strs')
        M.call('a_copy', kept, a)
        m = list(ts)

        def elements(a, m, what):
            k = M.conc(M.call('a_length', a), 32)
            if k != len(m):
                b.bad('result', 'length', '%s has %d elements instead of %d' % (what, signed(k, 32), len(m)))
                return
            for i, t in enumerate(m):
                for f in 'a_at', 'a_elem':
                    r = b.var('an element', 'str')
                    M.call(f, r, a, i)
                    b.equal('result', f[2:], r, t, 'element %d of %s' % (i, what))
                    M.call('f_unstr', r)
        for op in ops:
            if isinstance(op, int):
                continue
            r = b.var('the result', 'str')
            f, _, i = op.partition(' ')
            if f == 'slice':
                i, k = map(int, i.split(','))
                c = b.var('the slice', 'strs')
                M.call('a_sub', c, a, i, k)
                M.call('a_un', a)
                a, m = c, m[i:i + k]
            elif f == 'append':
                M.call('a_at', r, kept, int(i))
                M.call('a_append', a, r)
                M.call('f_unstr', r)
                m = m + [ts[int(i)]]
            elif f in ('set', 'unshift', 'move'):
                i, k = map(int, i.split(','))
                if f == 'unshift':
                    M.call('a_at', r, kept, k)
                    M.call('a_unshift', a, r)
                    M.call('f_unstr', r)
                    m = [ts[k]] + m
                elif f == 'set':			# from another array
                    M.call('a_at', r, kept, k)
                    M.call('a_set', a, i, r)
                    M.call('f_unstr', r)
                    m = m[:i] + [ts[k]] + m[i + 1:]
                else:				# to another place of the same one
                    M.call('a_move', a, i, k)
                    m = m[:i] + [m[k]] + m[i + 1:]
            elif f == 'reverse':
                M.call('a_reverse', a)
                m = m[::-1]
            elif f == 'join':
                M.call('a_plus', a, kept)
                m = m + ts
            else:
                i = int(i or 0)
                M.call('a_' + f, r, a, *([i] if f == 'delete' else []))
                want = m[i if f == 'delete' else 0 if f == 'shift' else -1]
                b.equal('result', f, r, want, 'what %s gives' % f)
                M.call('f_unstr', r)
                if f == 'shift':
                    m = m[1:]
                if f == 'pull':
                    m = m[:-1]
                elif f == 'delete':
                    m = m[:i] + m[i + 1:]
            elements(a, m, 'the array after ' + op)
        elements(a, m, 'the array')
        elements(kept, ts, 'a copy made before')
        M.call('a_un', a)
        for k, w in enumerate(held):
            M.call('f_unstr', w)
        M.call('a_un', kept)
        b.ok('result', 'array ' + how)
    b.explore('include/strval.h', case)


def array_cases(deep):
    items = [(1,), ('\xe9', 'x'), ('y', '\u20ac'), (), (2, 'q'), ('l', 'o', 'n', 'g')]
    for how in 'vals', 'chars', 'append', 'variant':
        for n in range(len(items) + 1):
            yield arrays, (how, items[:n], ())
        for it in (items[:3], items[1:], items[:1], items[3:]):
            n = len(it)
            seqs = [('last',), ('pull',), ('append 0',), ('append %d' % (n - 1), 'last')] + [('delete %d' % i,) for i in range(n)] + [('slice %d,%d' % (i, k),) for i in range(n) for k in range(n - i + 1)]
            seqs += [('slice %d,%d' % (i, k), op) for i in range(n) for k in range(1, n - i + 1) for op in ('last', 'pull', 'delete 0', 'append 0', 'delete %d' % (k - 1))]
            if deep:
                seqs += [x + y for x in seqs[:4 + n] for y in (('last',), ('append 0',))  if not (x == ('pull',) or x[0][:3] == 'del') or n > 1]
            for s in seqs:
                yield arrays, (how, it, s)
    for room in (1, 3, 5, 10):
        yield arrays, ('vals', items[:4], (room, 'append 1', 'append 2'))
    again = [('x',), ('again', 0), ('y',), ('again', 0), ('again', 3), (1,), ('again', 5), ()]
    same = [(1,), (1,), ('z',), (1,)]
    of = [('of', ('a', 'b', '\u20ac', 'd', 'e', 'f'), i, k) for i, k in ((0, 2), (2, 2), (1, 2), (4, 2), (5, 1), (0, 6))]
    for how in 'vals', 'chars', 'append', 'variant':
        for it in (again, same, of, items[:4]):
            if how == 'chars' and it is of:
                continue
            n = len(it)
            for ops in [(), ('reverse',), ('set 0,1',), ('move 0,1',), ('move 1,0', 'move 0,2'), ('unshift 0,%d' % (n - 1),), ('shift',), ('shift', 'shift', 'append 0'), ('slice 1,2', 'reverse'), ('slice 1,2', 'move 0,1'), ('slice 0,2', 'set 1,2'),
                        ('slice 1,2', 'unshift 0,0'), ('join',), ('slice 0,1', 'join'), ('reverse', 'pull', 'shift'), ('delete 1', 'move 0,1'), ('move %d,%d' % (n - 1, n - 2), 'last')]:
                yield arrays, (how, it, ops)
    yield arrays, ('vals', [('a',)] * 24, (0, 'append 1', 'pull', 'delete 3'))


def check_strings(rep):
    units(rep, list(array_cases(rep.tier == 'thorough')), lambda b, f, x: f(b, *x), ('result', 'memory'))
    rep.require('result', 4)
    rep.require('memory', 1)
