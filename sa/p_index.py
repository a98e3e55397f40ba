"""Arrays and strings whose Index counts no more than 255: operations at every size up to there, on the current code,
followed in place, against models written here. What would be larger must stop at an assertion, before it harms."""
import random
from . import ai, build, fast
from .bench import Bench
from .cube import V, const, signed
from .fast import P, Fault
from .p_codec import spread
from .p_rx import Prog
from .build import Broken


def load():
    return ai.Mod(build.lower(['d_index.cpp', 'src/char_encoding.cpp', 'src/variant.cpp'], roots=['.*'], inline=False))


class Beyond(Exception):
    pass


class Kind:
    def __init__(self, name, esize, limit):
        self.name, self.esize, self.limit = name, esize, limit


ARRAYS = [Kind('ab', 4, 255), Kind('ac', 1, 255)]
WIDE = [Kind('aw', 2, 65535)]


def value(k, i):
    return (i * 7 + 3 + i // 50) % (100 if k.esize == 1 else 30000)


class IndexBench(Bench):
    def __init__(self, rep, mod, prog, rules):
        Bench.__init__(self, rep, mod, prog, rules, {}, ('ab', 'ac', 'aw', 'tb', 'tw'))

    def call(self, k, f, *a):
        return self.M.call('%s_%s' % (k.name, f), *a)

    def values(self, k, vs, name='the elements given'):
        o = self.M.obj(name, k.esize * len(vs) + (not vs), 'const')
        for i, v in enumerate(vs):
            for j in range(k.esize):
                o.c[i * k.esize + j] = (v >> 8 * j & 255, 1)
        return P(o, 0)

    def one(self, k, v):
        return self.values(k, [v], 'an element')

    def read(self, k, p, n):
        return [self.M.conc(self.M.ld(P(p.obj, p.off + i * k.esize), k.esize, 8 * k.esize, None), 8 * k.esize) for i in range(n)]

    def array(self, k, vs, name, room=0):
        a = self.var(name, k.name)
        if vs or room:
            self.call(k, 'new', a, self.values(k, vs), len(vs), room)
        else:
            self.call(k, 'none', a)
        return a

    def check(self, k, a, want, what):
        n = self.M.conc(self.call(k, 'length', a), 64)
        if n != len(want):
            self.bad('result', 'length', '%s has %d elements instead of %d' % (what, signed(n, 64), len(want)))
            return False
        if n:
            got = self.read(k, self.call(k, 'elements', a), n)
            if got != want:
                i = next(i for i in range(n) if got[i] != want[i])
                self.bad('result', 'element', '%s has %d instead of %d at %d' % (what, got[i], want[i], i))
                return False
            for i in {0, n - 1, n // 2}:
                if self.M.conc(self.call(k, 'get', a, i), 8 * k.esize) != want[i]:
                    self.bad('result', 'get', '%s gives another element at %d' % (what, i))
                    return False
        return True

    def beyond(self, what, fn):
        """fn asks for more than can be counted: it must stop at an assertion"""
        try:
            fn()
        except Fault as e:
            if e.kind != 'abort':
                raise
            raise Beyond
        self.bad('result', 'beyond', '%s is not stopped, although it is more than can be counted' % what)
        raise Beyond

    def run(self, what, case):
        """A case which may end where counting does"""
        def f(b):
            try:
                case(b)
            except Beyond:
                for o in list(b.M.heap):		# the program has ended
                    b.M.heap.discard(o) if hasattr(b.M.heap, 'discard') else b.M.heap.pop(o)
            b.ok('result', what)
        self.explore('include/array.h', f, 30000000)


def grow(b, k, how, n, room=0, start=0):
    """An array of start elements is added to, one after another"""
    def case(b):
        b.text = '%s to an array of %d (room for %d), up to %d' % (how, start, room, n)
        w = [value(k, i) for i in range(start)]
        a = b.array(k, w, 'the array', room)
        i = start
        while len(w) < n:
            v = value(k, i)
            i += 1
            go = lambda: b.call(k, 'push' if how == 'push' else 'unshift', a, b.one(k, v))
            if len(w) == k.limit:
                b.beyond('one element more', go)
            go()
            w = w + [v] if how == 'push' else [v] + w
        b.check(k, a, w, 'the array')
        b.call(k, 'un', a)
    b.run('one after another', case)


def join(b, k, how, n, m, at=0, shared=False, room=0):
    def case(b):
        b.text = '%s of %d elements and %d%s%s' % (how, n, m, ' at %d' % at if how == 'insert' else '', ', shared' if shared else '')
        v, w = [value(k, i) for i in range(n)], [value(k, i + 77) for i in range(m)]
        x, y = b.array(k, v, 'the array', room), b.array(k, w, 'what is added')
        c = b.var('a copy', k.name) if shared else None
        if shared:
            b.call(k, 'copy', c, x)
        r = x
        one = b.one(k, w[0]) if m == 1 else None
        if how in ('plus', 'pluse'):
            r = b.var('the result', k.name)
            go = lambda: b.call(k, how, r, x, one if how == 'pluse' else y)
        elif how == 'insert':
            go = lambda: b.call(k, 'insert', x, at, y)
        else:
            go = lambda: b.call(k, how, x, y)
        if n + m > k.limit:
            b.beyond('it', go)
        go()
        want = v[:at] + w + v[at:] if how == 'insert' else v + w
        b.check(k, r, want, 'the result')
        if shared or r is not x:
            b.check(k, c if shared else x, v, 'what it was made from')
        b.check(k, y, w, 'what was added')
        for s in (x, y, c, r if r is not x else None):
            if s is not None:
                b.call(k, 'un', s)
    b.run(how, case)


def cut(b, k, how, n, at, m, shared=False):
    def case(b):
        b.text = '%s %d,%d of %d elements%s' % (how, at, m, n, ', shared' if shared else '')
        v = [value(k, i) for i in range(n)]
        x = b.array(k, v, 'the array')
        c = b.var('a copy', k.name) if shared else None
        if shared:
            b.call(k, 'copy', c, x)
        r = b.var('the result', k.name)
        want = None
        if how == 'sub':
            b.call(k, 'sub', r, x, at, m & 0xffffffff)
            want = v[at:at + m] if m >= 0 else v[at:]
        elif how == 'tail':
            b.call(k, 'tail', r, x, m)
            want = v[n - m:]
        elif how == 'shorter':
            b.call(k, 'shorter', r, x, m)
            want = v[:max(n - m, 0)]
        elif how == 'drop':
            b.call(k, 'drop', r, x, m)
            want = v[m:]
        elif how == 'remove':
            b.call(k, 'remove', x, at, m & 0xffffffff)
            w = v[:at] + (v[at + m:] if m >= 0 else [])
        elif how == 'delete':
            b.call(k, 'delete', x, at)
            w = v[:at] + v[at + 1:]
        elif how == 'reverse':
            b.call(k, 'reverse', x)
            w = v[::-1]
        elif how == 'set':
            b.call(k, 'set', x, at, b.one(k, 99))
            w = v[:at] + [99] + v[at + 1:]
        else:
            b.call(k, how, x)
            w = v[1:] if how == 'shift' else v[:-1]
        if want is not None:
            b.check(k, r, want, 'the result')
            b.check(k, x, v, 'what it was made from')
            b.call(k, 'un', r)
        else:
            b.check(k, x, w, 'the array')
        if shared:
            b.check(k, c, v, 'the copy')
            b.call(k, 'un', c)
        b.call(k, 'un', x)
    b.run(how, case)


def look(b, k, n, at):
    def case(b):
        b.text = 'looking for element %d of %d' % (at, n)
        v = [5] * n
        v[at] = 6
        x = b.array(k, v, 'the array')
        y = b.array(k, [5] * n, 'another')
        z = b.array(k, [5] * (n - 1), 'a shorter one')
        e = b.one(k, 6)
        for f, a, want in ('find', -1, at), ('rfind', -1, at), ('find', at, -1), ('rfind', at, -1), ('find', at - 1, at), ('rfind', at + 1, at):
            r = signed(b.M.conc(b.call(k, f, x, e, a & 0xffffffff), 32), 32)
            if r != want:
                b.bad('result', f, '%s from %d gives %d instead of %d' % (f, a, r, want))
        sg = lambda r: (r > 0) - (r < 0)
        for p, q, want in (x, y, 1), (y, x, -1), (y, y, 0), (y, z, 1), (z, y, -1):
            r = sg(signed(b.M.conc(b.call(k, 'compare', p, q), 32), 32))
            if r != want:
                b.bad('result', 'compare', 'the order is %d instead of %d' % (r, want))
            if bool(b.M.conc(b.call(k, 'equal', p, q), 1)) != (want == 0):
                b.bad('result', 'equal', 'they are %sequal' % ('not ' if want == 0 else ''))
        for s in (x, y, z):
            b.call(k, 'un', s)
    b.run('looking', case)


# ---------------------------------------------------------------- strings
STRINGS = Kind('tb', 1, 254), Kind('tw', 1, 65534)
MIX = ['a', 'b', 'z', '0', '\xe9', '\u20ac', 'Q', '\U0001F600', '\u0101']


def text(n, mix, k=0):
    """A text of n bytes"""
    s, m = '', 0
    while m < n:
        c = MIX[k % len(MIX)] if mix else 'abcdefghijklmnopqrstuvwxyz'[k % 26]
        k += 1
        if m + len(c.encode()) > n:
            c = 'x'
        s += c
        m += len(c.encode())
    return s


class Strings:
    def __init__(self, b, k):
        self.b, self.k, self.all = b, k, []

    def text(self, s):
        s = s if isinstance(s, bytes) else s.encode()
        o = self.b.M.obj('a text', len(s) + 1, 'const')
        for i, x in enumerate(s + b'\0'):
            o.c[i] = (x, 1)
        return P(o, 0), len(s)

    def var(self, name='a string'):
        r = self.b.var(name, self.k.name)
        self.all.append(r)
        return r

    def new(self, s, room=0, name='a string'):
        p, n = self.text(s)
        r = self.var(name)
        if n or room:
            self.b.call(self.k, 'new', r, p, n, room)
        else:
            self.b.call(self.k, 'none', r)
        return r

    def part(self, s, name='a part'):
        w = self.new('<' + s + '\u20ac>' if len(s.encode()) + 5 <= self.k.limit else s, name='the whole')
        if len(s.encode()) + 5 > self.k.limit:
            return w
        r = self.var(name)
        self.b.call(self.k, 'sub', r, w, 1, len(s))
        return r

    def check(self, r, want, what):
        b, k = self.b, self.k
        n = b.M.conc(b.call(k, 'length', r), 64)
        if n != len(want):
            b.bad('result', 'length', '%s has %d characters instead of %d' % (what, n, len(want)))
            return False
        for i in {0, n // 3, n // 2, n - 1} if n else ():
            c = b.M.conc(b.call(k, 'at', r, i), 32)
            if c != (want[i] if isinstance(want, bytes) else ord(want[i])):
                b.bad('result', 'at', '%s has character %d at %d' % (what, c, i))
                return False
        e = want if isinstance(want, bytes) else want.encode()
        n = b.M.conc(b.call(k, 'bytes', r), 64)
        p = b.call(k, 'utf8', r)
        got = bytes(b.read(k, p, len(e) + 1)) if n == len(e) else b''
        if n != len(e) or got != e + b'\0':
            b.bad('result', 'bytes', '%s has %d bytes%s' % (what, n, ' instead of %d' % len(e) if n != len(e) else ', which differ'))
            return False
        return True

    def drop(self):
        for r in self.all:
            self.b.call(self.k, 'un', r)


def strings(b, k, how, s, t, at=0, form='own'):
    def case(b):
        S = Strings(b, k)
        n, m = len(s.encode()), len(t.encode())
        b.text = '%s of %d bytes%s%s%s' % (how, n, ' and %d' % m if t else '', ' at %s' % (at,) if how in ('insert', 'sub', 'times', 'head', 'tail', 'shorter') else '', ', ' + form if form != 'own' else '')
        x = S.new(s) if form != 'part' else S.part(s)
        if form == 'room':
            x = S.new(s, k.limit)
        y = S.new(t) if t else None
        c = None
        if form == 'shared':
            c = S.var('a copy')
            b.call(k, 'copy', c, x)
        r = x
        a = [y]
        want = s + t
        if how == 'sub':
            r, a, want = S.var(), [at[0], at[1] & 0xffffffff], s[at[0]:at[0] + at[1]] if at[1] >= 0 else s[at[0]:]
        elif how == 'times':
            r, a, want = None, [at], s * at
        elif how == 'upper':
            a, want = [], s.upper()
        elif how == 'lower':
            a, want = [], s.lower()
        elif how in ('head', 'tail', 'shorter'):
            r, a = S.var(), [at]
            want = s[:at] if how == 'head' else s[len(s) - at:] if how == 'tail' else s[:max(len(s) - at, 0)]
        elif how == 'json':
            a, want = [], s.replace('"', '\\"').replace('\U0001F600', '\\uD83D\\uDE00')
        elif how == 'insert':
            a, want = [at, y], s[:at] + t + s[at:]
        elif how == 'prepend':
            want = t + s
        elif how == 'addc':
            a = [ord(t)]
        elif how == 'plus':
            r = None
        if r is None:
            r = b.var('the result', k.name)
            go = lambda: (b.call(k, how, r, x, *a), S.all.append(r))
        elif r is x:
            go = lambda: b.call(k, how, x, *a)
        else:
            go = lambda: b.call(k, how, r, x, *a)
        if len(want.encode()) > k.limit:
            b.beyond('it', go)
        try:
            go()
        except Fault as e:
            if e.kind != 'abort' or len(want.encode()) + 7 <= k.limit:
                raise
            raise Beyond
        if S.check(r, want, 'the result'):
            if r is not x:
                S.check(x, s, 'what it was made from')
            if c is not None:
                S.check(c, s, 'the copy')
            if y is not None:
                S.check(y, t, 'what was added')
        S.drop()
    b.run('strings ' + how, case)


def made(b, k, n, mix, how):
    def case(b):
        b.text = 'a string made from %s of %d bytes' % ({'text': 'a text', 'raw': 'other bytes', 'none': 'a counted text'}[how], n)
        S = Strings(b, k)
        if how == 'raw':
            s = bytes(128 + i % 128 if i % 3 else 65 + i % 26 for i in range(n))
        else:
            s = text(n, mix)
        p, _ = S.text(s)
        r = b.var('the string', k.name)
        go = lambda: (b.call(k, how, r, p), S.all.append(r))
        if how == 'none':
            go = lambda: (b.call(k, 'new', r, p, n, 0), S.all.append(r))
        if n > k.limit:
            b.beyond('it', go)
        go()
        S.check(r, s, 'it')
        c = S.var('a copy')
        b.call(k, 'copy', c, r)
        S.check(c, s, 'the copy')
        S.drop()
    b.run('making', case)


def seek(b, k, n, mix, m):
    def case(b):
        s = text(n, mix)
        b.text = 'looking in a text of %d bytes' % n
        S = Strings(b, k)
        x = S.new(s)
        for i in sorted({0, len(s) // 2, len(s) - m}):
            if i < 0:
                continue
            t = s[i:i + m]
            y = S.new(t)
            for after in (-1, i - 1, i):
                r = signed(b.M.conc(b.call(k, 'find', x, y, after & 0xffffffff), 32), 32)
                if r != s.find(t, after + 1):
                    b.bad('result', 'find', 'finds %d characters after %d at %d instead of %d' % (m, after, r, s.find(t, after + 1)))
            for before in (-1, i, i + 1, len(s)):
                r = signed(b.M.conc(b.call(k, 'rfind', x, y, before & 0xffffffff), 32), 32)
                w = max([j for j in range(len(s) - len(t) + 1) if s[j:j + len(t)] == t and (before < 0 or j < before)], default=-1)
                if r != w:
                    b.bad('result', 'rfind', 'finds %d characters before %d at %d instead of %d' % (m, before, r, w))
            for at in (-1, i - 1, i, i + 1, len(s) - 1):
                r = signed(b.M.conc(b.call(k, 'seek', x, ord(s[i]), at & 0xffffffff), 32), 32)
                if r != s.find(s[i], at + 1):
                    b.bad('result', 'seek', 'finds a character after %d at %d instead of %d' % (at, r, s.find(s[i], at + 1)))
                if at >= 0:
                    r = signed(b.M.conc(b.call(k, 'rseek', x, ord(s[i]), at), 32), 32)
                    if r != s[:at].rfind(s[i]):
                        b.bad('result', 'rseek', 'finds a character before %d at %d instead of %d' % (at, r, s[:at].rfind(s[i])))
        sg = lambda r: (r > 0) - (r < 0)
        for t in (s, s[:-1], s[:-1] + '~'):
            y = S.new(t)
            r = sg(signed(b.M.conc(b.call(k, 'compare', x, y), 32), 32))
            if r != sg((s.encode() > t.encode()) - (s.encode() < t.encode())):
                b.bad('result', 'compare', 'the order is %d' % r)
        S.drop()
    b.run('looking', case)


def string_cases(deep):
    k = STRINGS[0]
    sizes = list(range(0, 256)) if deep else [0, 1, 2, 7, 8, 9, 63, 64, 65, 126, 127, 128, 129, 130, 159, 160, 191, 192] + list(range(238, 256))
    for mix in 0, 1:
        for n in sizes + [256, 257, 300, 512]:
            if n and n < 256:
                yield made, (k, n, mix, 'none')
            if n:
                yield made, (k, n, mix, 'text')
                if not mix:
                    yield made, (k, n, mix, 'raw')
        for n in sizes:
            if n > 254:
                continue
            s = text(n, mix)
            for form in 'own', 'shared', 'part':
                if n:
                    for c in 'x', '\xe9', '\u20ac', '\U0001F600':
                        yield strings, (k, 'addc', s, c, 0, form)
                if s == s.upper().lower():
                    yield strings, (k, 'upper', s, '', 0, form)
                if s.lower().upper().lower() == s.lower():
                    yield strings, (k, 'lower', s.upper() if s.upper().lower() == s and len(s.upper().encode()) == n else s, '', 0, form)
                for how in 'head', 'tail', 'shorter':
                    for at in sorted({0, 1, len(s) // 2, max(len(s) - 1, 0), len(s)}):
                        if at <= len(s):
                            yield strings, (k, how, s, '', at, form)
                yield strings, (k, 'json', s, '', 0, form)
                if n > 2:
                    yield strings, (k, 'json', s[:-2] + '"', '', 0, form)
                for at in ((0, len(s)), (0, len(s) - 1), (1, 2), (len(s) // 2, -1), (len(s) - 1, 1), (len(s) // 2, len(s))):
                    if n > 3:
                        yield strings, (k, 'sub', s, '', at, form)
            for at in (0, 1, 2, 3, 4, 254 // max(n, 1), 255 // max(n, 1) + 1):
                if n and n * at < 600:
                    yield strings, (k, 'times', s, '', at)
            if n:
                for m in (1, 3, n // 2):
                    if m:
                        yield seek, (k, n, mix, min(m, len(s)))
        for n in sizes if deep else [0, 1, 8, 100, 127, 128, 129, 240, 248, 249, 253, 254]:
            if n > 254:
                continue
            s = text(n, mix)
            for m in (1, 8, 100, 127, 128, 247, 248, 253, 254):
                if not deep and n + m > 260 and (n, m) not in ((254, 254), (128, 128), (254, 8)):
                    continue
                t = text(m, mix, 3)
                for form in 'own', 'shared', 'part', 'room':
                    for how in 'add', 'plus', 'prepend':
                        yield strings, (k, how, s, t, 0, form)
                    yield strings, (k, 'insert', s, t, len(s) // 2, form)
    k = STRINGS[1]
    for n in (1, 2, 300):
        yield made, (k, n, 0, 'raw')
        yield made, (k, n, 1, 'text')
    for n in (65533, 65534, 65535, 65536, 65537, 65600):
        yield made, (k, n, 0, 'text')
        yield made, (k, n, 0, 'raw')


def cases(deep):
    yield from string_cases(deep)
    sizes = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 159, 160, 161, 191, 192, 193] + list(range(238, 256))
    edge = [0, 1, 8, 100, 127, 128, 129, 240, 247, 248, 249, 254, 255]
    if deep:
        sizes = list(range(256))
    for k in ARRAYS:
        for how in 'push', 'unshift':
            for n in (30, 129, 200, 255, 256):
                yield grow, (k, how, n)
            for s in sizes:
                yield grow, (k, how, min(s + 20, 256), 0, s)
                yield grow, (k, how, 256 if s > 200 else s + 5, s)
        for n in sizes:
            for how in 'reverse', 'shift', 'pull':
                if n:
                    for sh in 0, 1:
                        yield cut, (k, how, n, 0, 0, sh)
            if n:
                for at in sorted({0, n // 2, n - 1}):
                    for sh in 0, 1:
                        yield cut, (k, 'set', n, at, 0, sh)
                        yield cut, (k, 'delete', n, at, 0, sh)
                    yield look, (k, n, at)
            for m in sorted({0, 1, n // 2, n - 1, n} - {-1}):
                if m <= n:
                    for how in 'tail', 'shorter', 'drop':
                        yield cut, (k, how, n, 0, m, 0)
                for at in sorted({0, 1, n // 2, n - 1} - {-1}):
                    if at < n:
                        yield cut, (k, 'sub', n, at, m, 0)
                    if at + m <= n:
                        yield cut, (k, 'remove', n, at, m, 0)
                        yield cut, (k, 'remove', n, at, m, 1)
            if n:
                yield cut, (k, 'sub', n, n // 2, -1)
                yield cut, (k, 'remove', n, n // 2, -1)
        for n in sizes if deep else edge:
            for m in edge:
                if not deep and n + m > 300 and (n, m) not in ((255, 255), (254, 2), (128, 128), (255, 1), (240, 240)):
                    continue
                for sh in 0, 1:
                    for how in 'append', 'add', 'plus':
                        yield join, (k, how, n, m, 0, sh)
                    for at in sorted({0, n // 2, n}):
                        yield join, (k, 'insert', n, m, at, sh)
            yield join, (k, 'pluse', n, 1)
            yield join, (k, 'append', n, 255 - n, 0, 0, n)


    k = WIDE[0]
    for n, m in ((65530, 5), (65530, 6), (65535, 1), (32768, 32767), (32768, 32768), (65500, 20), (43680, 10)):
        for how in ('append', 'plus'):
            yield join, (k, how, n, m)
    for n in (65530, 65519, 65505):
        yield grow, (k, 'push', min(n + 10, 65536), 0, n)


def check_index(rep):
    mod = load()
    prog = Prog(mod)
    jobs = list(cases(rep.tier == 'thorough'))
    parts = 64

    def unit(part):
        def f(rep):
            b = IndexBench(rep, mod, prog, ('result', 'memory'))
            for fn, x in part:
                try:
                    fn(b, *x)
                except Broken as e:
                    rep.undecide(repr((fn.__name__,) + x[1:]), e)
            rep.functions |= mod.seen | set(prog.code)
        return f
    spread(rep, {i: unit(jobs[i::parts]) for i in range(parts)}, of=len(jobs))
    rep.require('result', 8)
    rep.require('memory', 1)
