"""Numbers read from text, JSON text, formatting and joining: the current code, followed in place over texts of
unknown characters, against specifications written here."""
import json
import os
from . import ai, build, cube, fast
from .bench import Bench, Chars
from .cube import V, const, cat, signed
from .fast import P
from .p_codec import spread
from .p_rx import Prog, Skip, DIGITS
from .build import Broken

DATA = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'case.json')))['digit']
WHITE = ((9, 10), (13, 13), (32, 32), (0xa0, 0xa0), (0x2000, 0x200a), (0x2028, 0x2029), (0x3000, 0x3000))
VAGUE = ((11, 12), (28, 31), (0x85, 0x85), (0x1680, 0x1680), (0x180e, 0x180e), (0x200b, 0x200f), (0x202a, 0x202f), (0x205f, 0x206f), (0xfeff, 0xfeff))
TRAIL, NONE, OVER, NOT, RADIX = range(1, 6)
BIG = 1 << 64


def err(v):
    v &= 0xffffffff
    return (v >> 14 & 0xffff, v & 0x3fff) if v else 0


def load():
    return ai.Mod(build.lower(['d_text.cpp', 'src/char_encoding.cpp', 'src/variant.cpp'], roots=['.*'], inline=False))


def snprintf(M, ins, buf, n, fmt, *a):
    f = M.text(fmt).decode('latin1')
    if f not in ('%d', '%ld', '%lld'):
        raise Broken('prints with %s' % f)
    w = 32 if f == '%d' else 64
    s = b'%d' % signed(M.conc(a[0], w), w)
    n = M.conc(n, 64)
    for i, b in enumerate(s[:max(n - 1, 0)] + b'\0' if n else b''):
        M.st(P(buf.obj, buf.off + i), 1, b, ins)
    return len(s)


class TextBench(Bench):
    def __init__(self, rep, mod, prog, rules):
        Bench.__init__(self, rep, mod, prog, rules, dict(snprintf=snprintf, printf=lambda M, ins, *a: 1), ('str', 'args', 'strs'))

    def string(self, t, name='the string', how='own'):
        """A string of these characters: of its own, or part of a longer one, or sharing what another has"""
        M = self.M
        s = self.var(name, 'str')
        self.held = None
        if how == 'part':
            u = Chars(M, ['7'] + t.items + ['9', '\u20ac'])
            for i in range(t.n):
                u.memo[i + 1] = t.ch(i)
            p, n = u.object()
            w = self.var('the whole string', 'str')
            M.call('f_str', w, p, n)
            M.call('f_sub', s, w, 1, t.n)
            self.held = w
        else:
            p, n = t.object('the text of ' + name)
            M.call('f_str', s, p, n)
            if how == 'shared':
                w = self.var('a copy', 'str')
                M.call('f_copy', w, s)
                self.held = w
        return s

    def drop(self, *ss):
        for s in ss + ((self.held,) if self.held is not None else ()):
            self.M.call('f_unstr', s)
        self.held = None

    def content(self, s):
        """The bytes of a string"""
        M = self.M
        n = M.conc(M.call('f_bytes', s), 32)
        p = M.call('f_text', s)
        r = [M.ld(P(p.obj, p.off + i), 1, 8, None) for i in range(n + 1)]
        if r[n] != 0:
            self.bad('result', 'end', 'text of %d bytes is not followed by a NUL' % n)
        return [M.lift(x, 8) if x.__class__ is not int else x for x in r[:n]]

    def same(self, a, b):
        """Are two bytes the same?"""
        if a.__class__ is int and b.__class__ is int:
            return a == b
        a, b = (const(x, 8) if x.__class__ is int else x for x in (a, b))
        return a.key() == b.key() or self.M.I.eq(a, b)

    def equal(self, rule, key, s, want, what):
        """Is this the text of s?"""
        got = self.content(s)
        if len(got) != len(want):
            self.bad(rule, key, '%s has %d bytes (%s) instead of %d (%s)' % (what, len(got), show(got), len(want), show(want)))
            return False
        for i, (a, b) in enumerate(zip(got, want)):
            if not self.same(a, b):
                self.bad(rule, key, '%s differs at byte %d: %s instead of %s' % (what, i, show(got), show(want)))
                return False
        return True


def show(bs):
    r = ''
    for b in bs:
        c = b if b.__class__ is int else b.const()
        r += '?' if c is None else chr(c) if 32 <= c < 127 else '\\x%02x' % c
    return '"%s"' % r


# ---- numbers
class Number:
    """What the documentation says a text means as a number: (errors it may give, value or None, scanned: least, most)"""

    def __init__(self, t, radix):
        self.t, self.radix = t, radix

    def code(self, i):
        return self.t.ch(i)

    def white(self, i):
        if i >= self.t.n:
            return False
        c = self.code(i)
        if self.t.within(c, VAGUE):
            raise Skip
        return self.t.within(c, WHITE)

    def isc(self, i, *cs):
        return i < self.t.n and self.t.within(self.code(i), tuple((ord(c), ord(c)) for c in cs))

    def digit(self, i, radix):
        if i >= self.t.n:
            return -1
        c = self.code(i)
        d = -1
        if self.t.within(c, DIGITS):
            d = self.t.M.I.conc(c, False)
            d += next(k for a, b, k in DATA if a <= d <= b)
        elif self.t.within(c, ((65, 90), (97, 122))):
            d = ((self.t.M.I.conc(c, False)) | 32) - 97 + 10
        return d if d < radix else -1

    def read(self):
        t, radix = self.t, self.radix
        if not 0 <= radix <= 36:
            return (RADIX,), 0, 0, 0
        i = 0
        while self.white(i):
            i += 1
        if i == t.n:
            return (NONE,), 0, i, i
        neg = self.isc(i, '-')
        if neg or self.isc(i, '+'):
            i += 1
            while self.white(i):
                i += 1
            if i == t.n:
                return (NONE, NOT), 0, 0, i
        if radix in (0, 2, 16):
            z = self.digit(i, 10) == 0
            if z and not self.isc(i, '0'):
                raise Skip			# is the zero of another script a prefix?
            if z and radix in (0, 16) and self.isc(i + 1, 'x', 'X') or z and radix in (0, 2) and self.isc(i + 1, 'b', 'B'):
                radix = 16 if self.isc(i + 1, 'x', 'X') else 2
                i += 2
                if self.digit(i, radix) < 0:
                    return (NONE, NOT), 0, 0, t.n
            elif radix == 0:
                radix = 8 if z and i + 1 < t.n else 10
        d = self.digit(i, radix)
        if d < 0:
            return (NOT,), 0, 0, i
        v = 0
        while d >= 0:
            v = v * radix + d
            i += 1
            d = self.digit(i, radix)
        end = i
        while self.white(i):
            i += 1
        over = v > 0x7fffffff + neg
        if i < t.n:
            return ((TRAIL, OVER) if over else (TRAIL,)), None if over else -v if neg else v, end if not over else 0, i
        if over:
            return (OVER,), None, 0, i
        return (0,), -v if neg else v, end, i


def number(b, items, radix, how='own', full=False):
    def case(b):
        M = b.M
        t = Chars(M, items)
        t.valid()
        b.text = 'number in %s, radix %d' % (t.show(), radix)
        s = b.string(t, how=how)
        ev, sv = b.var('error', 4), b.var('scanned', 4)
        got = signed(M.conc(M.call('f_number', s, ev, radix & 0xffffffff, sv), 32), 32)
        e, n = err(M.conc(M.ld(ev, 4, 32, None), 32)), M.conc(M.ld(sv, 4, 32, None), 32)
        errs, want, lo, hi = Number(t, radix).read()
        b.text = 'number in %s, radix %d' % (t.show(), radix)
        if e not in [x and (1, x) for x in errs]:
            b.bad('result', 'error', 'error %s instead of %s' % (e and e[1], ' or '.join(map(str, errs))))
        elif want is not None and got != want:
            b.bad('result', 'value', 'is %d instead of %d' % (got, want))
        elif not lo <= n <= hi:
            b.bad('result', 'scanned', '%d characters scanned, not %d to %d' % (n, lo, hi))
        if full:
            again = signed(M.conc(M.call('f_number', s, fast.NULL, radix & 0xffffffff, fast.NULL), 32), 32)
            if again != got:
                b.bad('result', 'without', 'is %d without error reporting, %d with it' % (again, got))
        b.drop(s)
        b.ok('result', 'radix %d' % radix)
    b.explore('asInt32', case)


def digits(v, radix):
    r = ''
    while v or not r:
        r = '0123456789abcdefghijklmnopqrstuvwxyz'[v % radix] + r
        v //= radix
    return r


def numbers(deep):
    one = (1, 2, 3, 4)
    for radix in (0, 2, 8, 10, 11, 16, 35, 36, 37, -1, 3, 7, 9, 20, 1 << 31, 100, -36, 256):
        yield (), radix, 'own', True
        for a in one:
            yield (a,), radix, 'own', True
            yield (a,), radix, 'part', True
    for radix in (0, 2, 8, 10, 16, 36) if not deep else (0, 2, 3, 8, 9, 10, 11, 16, 17, 35, 36):
        yield (1, 1), radix, 'own', False
        for x in ('-', '+', ' ', '0', '-0', '0x', '0X', '-0x', '+0b', '0B', '00', ' -', '- ', '-+', '--', '1', '\u0661', '\u3000', ' \t\n\r', '0x0', '0b1', 'x', '1 ', '1  ', ' 1 ', '-1 ', '10', '\u00a0-\u00a0'):
            yield tuple(x) + (1,), radix, 'own', True
            yield tuple(x) + (1,), radix, 'part', False
        for x in ('-', '0x', '0', '1', ' '):
            yield tuple(x) + (2,), radix, 'own', False
            yield tuple(x) + (3,), radix, 'own', False
        for x in ('1', '0x', 'zz', '-', ' '):
            yield (1,) + tuple(x), radix, 'own', False
            yield (1,) + tuple(x), radix, 'shared', False
        for x in ('0x', '-0', '1', ' -'):
            yield tuple(x) + (1, 1), radix, 'own', False
    for radix in range(2, 37):
        for v in (1 << 31, (1 << 31) - 1, (1 << 31) + 1, 1 << 32, (1 << 32) - 1, 1 << 63, BIG - 1, BIG, BIG // radix * radix, BIG // radix * radix * radix, (BIG + 5) * radix):
            t = digits(v, radix)
            for sign in ('', '-'):
                yield tuple(sign + t), radix, 'own', True
                yield tuple(sign + t.upper() + ' '), radix, 'own', False
                yield tuple(sign + t[:-1]) + (1,), radix, 'own', False
            if radix in (2, 8, 10, 16, 36):
                yield tuple(t) + (1,), radix, 'own', False
                yield (1,) + tuple(t), radix, 'own', False
                yield (1,) + tuple(t[1:]), radix, 'own', False
                yield tuple('000000' + t), radix, 'own', False
            if radix in (2, 8, 16):
                p = {2: '0b', 8: '0', 16: '0x'}[radix]
                yield tuple(p + t), 0, 'own', True
                yield tuple('-' + p + t), 0, 'own', False
    for n in (30, 70, 200):
        for x in '019f ':
            yield tuple(x * n), 10, 'own', False
            yield tuple(x * n), 16, 'own', False
            yield tuple(x * n), 0, 'own', False
            yield tuple(x * n) + ('1',), 0, 'own', False


def units(rep, jobs, run, rules, parts=64):
    jobs = list(jobs)
    mod = load()
    prog = Prog(mod)

    def unit(part):
        def f(rep):
            b = TextBench(rep, mod, prog, rules)
            for j in part:
                try:
                    run(b, *j)
                except Broken as e:
                    rep.undecide(repr(j)[:80], e)
            rep.functions |= mod.seen | set(prog.code)
        return f
    spread(rep, {i: unit(jobs[i::parts]) for i in range(min(parts, len(jobs)))}, of=len(jobs))
    rep.notes.append('%d text shapes' % len(jobs))


def check_number(rep):
    units(rep, numbers(rep.tier == 'thorough'), number, ('result', 'memory'))
    rep.require('result', 10)
    rep.require('memory', 1)


# ---- JSON
SHORT = {0x22: '"', 0x5c: '\\', 0x2f: '/', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't'}
HEX = [fast.Obj('hex digits', 16, 'const', -1) for i in range(2)]
for o, t in zip(HEX, (b'0123456789ABCDEF', b'0123456789abcdef')):
    o.lazy = dict(data=t)


def hexes(b, u, upper):
    """The four hexadecimal digits of a 16-bit value"""
    M = b.M
    r = []
    for k in (12, 8, 4, 0):
        d = cube.zext(cube.part(u, k, 4), 8)
        c = d.const()
        r.append(HEX[not upper].lazy['data'][c] if c is not None else M.ld(M.table(P(HEX[not upper], 0), d, 8, 1, 0), 1, 8, None))
    return r


def u16(v):
    return cube.trunc(v, 16) if v.w > 16 else cube.zext(v, 16) if v.w < 16 else v


def decoded(b, t, i, got, p):
    """Where the JSON of the character at i, which begins at got[p], ends; None if it is not that"""
    M = b.M
    c = t.ch(i)
    n = M.I.conc
    if p >= len(got):
        return None
    legal = t.legal(i)
    if b.same(got[p], 0x5c):
        if p + 1 >= len(got):
            return None
        k = n(got[p + 1], False)
        if k != 0x75:
            w = [x for x, y in SHORT.items() if ord(y) == k]
            return p + 2 if w and legal and t.within(c, ((w[0], w[0]),)) else None
        if not legal:
            us = [const(0xfffd, 16)]
        elif t.items[i] in (4, 'face') or t.known(i) and ord(t.items[i]) > 0xffff:
            s = cube.sub(c, const(0x10000, 21))
            us = [cat([cube.part(s, 10, 10), const(0xd800 >> 10, 6)]), cat([cube.part(s, 0, 10), const(0xdc00 >> 10, 6)])]
        else:
            us = [u16(c)]
        for j, u in enumerate(us):
            x = got[p:p + 6]
            if len(x) < 6 or x[0] != 0x5c or n(x[1], False) != 0x75:
                return None
            for h in (True, False):
                w = hexes(b, u, h)
                if all(a == d if a.__class__ is int and d.__class__ is int else M.lift(a, 8).key() == M.lift(d, 8).key() for a, d in zip(x[2:], w)):
                    break
            else:
                v = int(bytes(n(a, False) for a in x[2:]).decode('latin1'), 16) if all(chr(n(a, False)) in '0123456789abcdefABCDEF' for a in x[2:]) else -1
                if v != n(u, False):
                    return None
            p += 6
        return p
    if not legal:
        w = list(b'\xef\xbf\xbd')
    else:
        if t.within(c, ((0, 31), (0x22, 0x22), (0x5c, 0x5c), (0xd800, 0xdfff))):
            return None
        w = t.encode(i)
    if len(got) < p + len(w) or not all(b.same(x, y) for x, y in zip(got[p:], w)):
        return None
    return p + len(w)


def jsontext(b, items, how, own):
    def case(b):
        M = b.M
        t = Chars(M, items)
        t.valid(nul=True)
        b.text = 'JSON of %s' % t.show()
        s = b.string(t, how=how)
        if own:
            M.call('f_tojson', s)
            r = s
        else:
            r = b.var('the result', 'str')
            M.call('f_json', r, s)
        got = b.content(r)
        p = 0
        for i in range(t.n):
            p = decoded(b, t, i, got, p)
            if p is None:
                b.text = 'JSON of %s' % t.show()
                b.bad('result', 'json', 'is %s, which is not the JSON of character %d' % (show(got), i))
                break
        else:
            if p != len(got):
                b.bad('result', 'json', 'is %s, which has more than the characters' % show(got))
        k = M.conc(M.call('f_length', r), 32)
        if k != sum(1 for x in got if not (const(x, 8) if x.__class__ is int else x).bits[6:] == (0, 1)):
            b.bad('result', 'length', 'is %s, said to have %d characters' % (show(got), k))
        w = [x for i in range(t.n) for x in t.encode(i)]
        if not own:
            b.equal('result', 'source', s, w, 'the string it was made from')
        if how == 'shared':
            b.equal('result', 'source', b.held, w, 'another copy of the string')
        elif how == 'part':
            b.equal('result', 'source', b.held, [ord('7')] + w + [ord('9')] + list('\u20ac'.encode()), 'the whole string')
        b.drop(*({r, s} if r is not s else {s}))
        b.ok('result', 'JSON of %s' % (items,))
    b.explore('toJSON', case)


def jsons(deep):
    any1 = (1, 2, 3, 4, 5, 6, 'stray', 'lead')
    hows = [('own', False), ('own', True), ('shared', True), ('shared', False), ('part', True), ('part', False)]
    for h in hows:
        yield ((),) + h
        for a in any1:
            yield ((a,),) + h
    for h in hows[:3] + hows[4:5]:
        for k in ('a', '"', '\\', '\n', '\u20ac', '\U0001F600', '\x01'):
            for a in (1, 3, 'face', 'stray') if not deep else any1[:3] + any1[4:] + ('face',):
                yield ((k, a),) + h
                yield ((a, k),) + h
                if deep or h == hows[1]:
                    yield ((k, a, k),) + h
    for h in hows[:2]:
        for x in (('a',) * 40 + (1,), ('"',) * 20 + (1,) + ('"',) * 20, ('\U0001F600',) * 12 + (1,), (1,) + ('\\',) * 33, (1, 1), (1, 'face'), (2, 1), ('face', 'face'), ('stray', 1), (3, 'stray')):
            yield (x,) + h
    if deep:
        for a in (1, 2, 3, 'face', 5, 6, 'stray'):
            for c in (1, 2, 3, 'face'):
                yield ((a, c), 'own', True)


def check_json(rep):
    units(rep, jsons(rep.tier == 'thorough'), jsontext, ('result', 'memory'))
    rep.require('result', 10)
    rep.require('memory', 1)


# ---- formatting and joining
def parse(f):
    """The pieces of a format: text, or ('s' or 'd', number of the argument or 0, stars before it); None where nothing is said"""
    out, i = [], 0
    while i < len(f):
        c = f[i]
        if c != '%' or i == len(f) - 1:
            out.append(c)
            i += 1
            continue
        i += 1
        num = 0
        if i + 1 < len(f) and f[i] in list('123456789') and f[i + 1] == '$':
            num = int(f[i])
            i += 2
        stars = []
        for dot in (False, True):
            if dot:
                if not (i < len(f) and f[i] == '.'):
                    break
                i += 1
            if i < len(f) and f[i] == '*':
                stars.append(i)
                i += 1
            else:
                w = ''
                while i < len(f) and f[i] in list('0123456789'):
                    w += f[i]
                    i += 1
                if dot or int(w or 0) > 1:
                    return None			# what a size or precision does is not said
        if i >= len(f) or f[i] not in list('sdfg'):
            return None
        out.append((f[i], num, len(stars)))
        i += 1
    return out


def formats(b, f, args):
    """args: items of a text, or numbers"""
    spec = parse(f)
    if spec is None:
        return

    def case(b):
        M = b.M
        tf = Chars(M, f)
        s = b.string(tf, 'the format')
        a = b.var('the arguments', 'args')
        M.call('f_args', a)
        vals = []
        for k, x in enumerate(args):
            if isinstance(x, int):
                M.call('f_args_int', a, x & 0xffffffff)
                vals.append(x)
            else:
                t = Chars(M, x)
                for i in range(t.n):
                    if not t.known(i):
                        t.memo[i] = M.I.inbits('argument %d %d' % (k, i), t.BITS[t.items[i]])
                t.valid()
                e = b.string(t, 'argument %d' % k)
                M.call('f_args_str', a, e)
                M.call('f_unstr', e)
                vals.append(t)
        r = b.var('the result', 'str')
        b.text = 'format of "%s" with %s' % (f, args)
        want, n = [], 0
        for x in spec:
            if isinstance(x, str):
                want += list(x.encode())
                continue
            for k in range(x[2]):
                if n >= len(vals) or vals[n] not in (0, 1):
                    raise Skip			# what a size or precision does is not said
                n += 1
            if x[1]:
                n = x[1] - 1
            if n >= len(vals):
                raise Skip
            v = vals[n]
            n += 1
            if isinstance(v, int):
                want += list(b'%d' % v)
            elif x[0] == 's':
                want += [y for i in range(v.n) for y in v.encode(i)]
            else:
                raise Skip
        M.call('f_format', r, s, a)
        b.equal('result', 'format', r, want, 'the result')
        b.drop(r, s)
        M.call('f_unargs', a)
        b.ok('result', 'format')
    b.explore('format', case)


def format_cases(deep):
    A = [(1,), (2, 'x'), (), 7, -1, 0, ('a', 3), 2147483647]
    for f in ('', 'x', '%', 'a%', '\u20ac', '100%', '\u20ac%s%'):
        yield f, A[:2]
    pieces = ['%s', '%d', 'x', '%2$s', '%1$s', '%3$d', '\u20ac', '%1s', '%0s', '%f', '%g', '%*s', '%*.*s', '%01d', '%1d']
    for a in pieces:
        yield a, A[:1] * 3
        yield a, [7, 8, 9]
        yield a, [3, -4, (1,), (2,)]
        for c in pieces:
            for args in ([(1,), (2, 'x'), ('y', 'z')], [7, -8, 9], [('p',), 7, ('q',), 5], [1, ('q',), 1, ('r', 3)], [1, 2, ('v', 'w'), 4, ('u',), 6], [('p',), 7], [0, 0, ()]):
                yield a + c, args
                if deep or c[0] != '%':
                    yield c + a + c, args
    for f in ('%1$s%1$s%1$s', '%3$s%2$s%1$s', '%2$s%s', '%3$s%1$s%s', '%s%1$s%s', '%9$s', '%9$s%1$s', '%2$*s', '%s, %s and %s', '%s%%', '%$s', '%1$', '%s\u20ac%s', '%1$s\u20ac', '\U0001F600%2$s\U0001F600%1$s'):
        yield f, [('a',), ('b', 3), ('c', 'c')]
        yield f, [(1,)] + [(chr(97 + i),) for i in range(8)]
        yield f, [1, 2, 3, 4, 5, 6, 7, 8, 9]
    yield '%s' * 30, [(chr(97 + i % 26),) for i in range(30)]
    yield 'x' * 60 + '%s', [(1,)]
    yield '%s', [('a',) * 90 + (1,)]
    for v in (0, 1, -1, 9, 10, 99, -2147483648, 2147483647, 65536):
        yield '%d', [v]
        yield '<%1$d>', [v]


def joins(b, items, by, sub, how='own'):
    def case(b):
        M = b.M
        a = b.var('the array', 'strs')
        M.call('f_strs', a)
        ts = []
        for k, x in enumerate(items):
            t = Chars(M, x)
            for i in range(t.n):
                if not t.known(i):
                    t.memo[i] = M.I.inbits('item %d %d' % (k, i), t.BITS[t.items[i]])
            t.valid()
            e = b.string(t, 'item %d' % k, how)
            M.call('f_strs_str', a, e)
            b.drop(e)
            ts.append([y for i in range(t.n) for y in t.encode(i)])
        j = Chars(M, by)
        j.valid()
        jb = [y for i in range(j.n) for y in j.encode(i)]
        js = b.string(j, 'the joiner', how)
        b.text = 'join of %s by %s' % (items, j.show())
        c = a
        if sub:
            c = b.var('the slice', 'strs')
            M.call('f_strs_sub', c, a, sub[0], sub[1])
            ts = ts[sub[0]:sub[0] + sub[1]]
        r = b.var('the result', 'str')
        M.call('f_join', r, c, js)
        want = []
        for i, t in enumerate(ts):
            want += (jb if i else []) + t
        b.equal('result', 'join', r, want, 'the result')
        b.equal('result', 'joiner', js, jb, 'the joiner')
        b.drop(r, js)
        if sub:
            M.call('f_unstrs', c)
        M.call('f_unstrs', a)
        b.ok('result', 'join')
    b.explore('join', case)


def join_cases(deep):
    items = [(1,), ('\xe9', 'x'), (), ('y', '\u20ac'), ('\U0001F600',), (), ('l', 'o', 'n', 'g')]
    for n in range(len(items) + 1):
        for by in ((), (',',), (1,), (',', ' '), ('\u20ac', '-')):
            yield items[:n], by, None
            yield items[::-1][:n], by, None
    for it in ([(1,), (2,)], [(2,), (), (1,)], [(3,)], [(4,)], [('a',), (4,)]):
        yield it, (',',), None
    for by in ((2,), (3,), (4,)):
        yield [('a',), (), ('b', 'c')], by, None
    for at in range(4):
        for n in range(4):
            yield items, (',',), (at, n)
            yield items[1:], ('\u20ac', ' '), (at, n)
    for n in range(1, len(items) + 1):
        yield items[:n], (',', '\u20ac'), None, 'part'
        yield items[:n], (',', '\u20ac'), None, 'shared'
    yield [()] * 3, (',',), None
    yield [('a',)] * 40, (',', ' '), None
    yield [('\u20ac',) * 20] * 5, ('\u20ac',) * 5, None


def check_format(rep):
    deep = rep.tier == 'thorough'
    jobs = [(formats, x) for x in format_cases(deep)] + [(joins, x) for x in join_cases(deep)]
    units(rep, jobs, lambda b, f, x: f(b, *x), ('result', 'memory'))
    rep.require('result', 2)
    rep.require('memory', 2)
