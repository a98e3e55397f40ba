"""Runs pieces of the current code, followed in place by fast.Machine, once for every case their unknown inputs
leave open; obligations at every access, allocation, assertion and loop."""
from . import cube, fast
from .cube import V, const, cat, signed
from .fast import P, Fault
from .slices import site
from .build import Broken
from .p_rx import Skip, Text

KIND = {'abort': 'abort', 'ends': 'ends', 'leak': 'leak', 'modified': 'modified'}


OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b if b < 64 else 0, 'lshr': lambda a, b: a >> b}


class Machine(fast.Machine):
    def arith(self, op, a, b, w, ins):
        if op in ('mul', 'udiv', 'urem', 'sdiv', 'srem'):	# of unknown factors nothing useful would be left
            a, b = (self.low(const(self.conc(x, w, ins), w)) if x.__class__ is V else x for x in (a, b))
        r = fast.Machine.arith(self, op, a, b, w, ins)
        if r.__class__ is V and cube.TOP in r.bits and op in OPS:
            x, y = self.cases(a), self.cases(b)
            if x and y and len(set(x[0] + y[0])) <= 6:
                free = sorted(set(x[0] + y[0]))
                f, m = OPS[op], (1 << w) - 1
                return self.tabulated(w, [f(self.of(x, free, k), self.of(y, free, k)) & m for k in range(1 << len(free))], free)
        return r

    def ext(self, op, v, fw, w):
        if v.__class__ is V and cube.TOP in v.bits:
            x = self.cases(v)
            if x:
                f = (lambda n: signed(n, fw)) if op == 'sext' else lambda n: n
                return self.tabulated(w, [f(n) & ((1 << w) - 1) for n in x[1]], x[0])
        return fast.Machine.ext(self, op, v, fw, w)

    @staticmethod
    def cases(v):
        """(unknown bits, the value for each case) of what depends on few"""
        if v.__class__ is int:
            return [], [v]
        if v.__class__ is not V:
            return None
        if v.x and v.x[0] == 'table':
            return list(v.x[2]), list(v.x[1])
        if cube.TOP in v.bits:
            return None
        free = sorted({b >> 1 for b in v.bits if b > 1})
        if len(free) > 6:
            return None
        return free, [sum(((a >> free.index(b >> 1) & 1) ^ (b & 1) if b > 1 else b) << j for j, b in enumerate(v.bits)) for a in range(1 << len(free))]

    @staticmethod
    def of(x, free, k):
        return x[1][sum((k >> free.index(b) & 1) << i for i, b in enumerate(x[0]))]


class Bench:
    def __init__(self, rep, mod, prog, rules, hooks=None, sizes=()):
        self.rep, self.mod, self.prog, self.rules = rep, mod, prog, rules
        h = dict(strlen=self.strlen)
        h.update(hooks or {})
        self.M = M = Machine(prog, h)
        self.rule = cube.Rule()
        M.I = cube.Interp(mod, cube.Cubes(), self.rule, {})
        M.init()
        self.size = {}
        for k in sizes:
            M.steps = 10000
            self.size[k] = M.call('s_' + k)
        M.checkpoint()
        self.what = ''

    @staticmethod
    def strlen(M, ins, p):
        if p.obj is not None and p.obj.name.startswith('the text'):
            return p.obj.size - 1 - p.off		# NULs are ruled out
        return fast.h_strlen(M, ins, p)

    def var(self, name, size):
        if isinstance(size, str):
            size = self.size[size]
        return P(self.M.obj(name, size, 'local'), 0)

    def bad(self, rule, key, msg, ins=None):
        if rule not in self.rules:
            return
        s = site(ins) if ins is not None else (self.what, '?')
        if s[0] == '?':
            s = (self.what, '?')
        self.rep.bad(rule, s[0], '%s:%s' % (s[1] if ins is not None else self.what, key), '%s: %s' % (self.text, msg), ['case ' + self.text])

    def ok(self, rule, what):
        if rule in self.rules:
            self.rep.ok(rule, what)

    text = ''

    def explore(self, what, fn, steps=200000):
        """fn(self) for every case; it sets self.text to what describes the case"""
        M = self.M
        self.what = what
        cubes = cube.Cubes()
        work = [{}]
        while work:
            c = work.pop()
            M.restore()
            M.I = cube.Interp(self.mod, cubes, self.rule, c)
            M.steps = steps
            held = dict(M.heap)
            self.text = what
            try:
                fn(self)
            except Skip:
                continue
            except cube.Split as s:
                for v in (0, 1):
                    d = dict(c)
                    d[s.bit] = v
                    work.append(d)
                continue
            except (Fault, RecursionError) as e:
                if isinstance(e, RecursionError):
                    self.bad('memory', 'ends', 'recurses without end')
                else:
                    self.bad('memory', e.kind, e.msg, e.ins)
                self.rep.paths += 1
                return False
            left = [o for o in M.heap if o not in held]
            if left:
                self.bad('memory', 'leak', 'leaves behind %s' % left[0].name)
            self.ok('memory', what)
            self.rep.paths += 1
        return True


class Chars(Text):
    """A text: each item is a known character, or 1, 2, 3 or 4: any character of that many bytes of UTF-8
    (4: beyond the planes of Unicode too), 5 or 6: an encoding of what is no character, 'stray': a byte that is
    no part of one, 'lead': a leading byte without what should follow, 'face': one of 64 characters beyond 16 bits,
    'over2', 'over3': a character in more bytes than it needs"""
    BITS = {1: 7, 2: 11, 3: 16, 4: 21, 5: 26, 6: 31, 'stray': 6, 'lead': 4, 'face': 6, 'over2': 7, 'over3': 11}

    def __init__(self, M, items):
        self.M, self.items, self.n = M, list(items), len(items)
        self.memo = {}
        self.chars = None

    def ch(self, i):
        r = self.memo.get(i)
        if r is None:
            a = self.items[i]
            if isinstance(a, str) and a not in self.BITS:
                r = const(ord(a), 21)
            else:
                r = self.M.I.inbits('char %d' % i, self.BITS[a], 20 - i)
                if a == 'face':
                    r = cat([r, const(0x1F600 >> 6, 15)])
            self.memo[i] = r
        return r

    def known(self, i):
        a = self.items[i]
        return isinstance(a, str) and a not in self.BITS

    def inr(self, i, *ranges):
        return self.within(self.ch(i), ranges)

    def valid(self, nul=False):
        for i, a in enumerate(self.items):
            if self.known(i):
                continue
            if a == 1:
                if not nul and self.inr(i, (0, 0)):
                    raise Skip
            elif a in (2, 3, 4, 5, 6):
                if self.inr(i, (0, {2: 0x7f, 3: 0x7ff, 4: 0xffff, 5: 0x1fffff, 6: 0x3ffffff}[a])):
                    raise Skip
            elif a in ('over2', 'over3'):
                if self.inr(i, (0, 0), (10, 10)):
                    raise Skip

    def legal(self, i):
        """Is it a character?"""
        a = self.items[i]
        return self.known(i) or a in (1, 2, 3, 'face') or a == 4 and self.inr(i, (0, 0x10ffff))

    def encode(self, i):
        """The bytes of a character"""
        a, c = self.items[i], self.ch(i)
        if self.known(i):
            return list(a.encode('utf-8', 'surrogatepass'))
        if a == 'stray':
            return [cat([c, const(2, 2)])]
        if a == 'lead':
            return [cat([c, const(0xC, 4)])]		# 110xxxxx (the text goes on with ASCII, or ends)
        if a == 1:
            return [cat([c, const(0, 1)])]
        a = {'face': 4, 'over2': 2, 'over3': 3}.get(a, a)
        if self.items[i] in ('over2', 'over3'):
            c = cube.zext(c, 21)
        r = []
        for j in range(a - 1):
            r.append(cat([cube.part(c, 6 * j, 6), const(2, 2)]))
        n = 7 - a
        r.append(cat([cube.part(c, 6 * (a - 1), n), const((0xff00 >> a & 0xff) >> n, 8 - n)]) if n else const(0xff00 >> a & 0xff, 8))
        return [self.M.low(x) for x in reversed(r)]

    def show(self):
        r = ''
        for i, a in enumerate(self.items):
            c = self.ch(i).const()
            if self.known(i):
                r += a
            elif a in ('stray', 'lead'):
                r += '<%s>' % ('stray byte' if a == 'stray' else 'lone lead byte')
            elif a in ('over2', 'over3'):
                r += '<overlong>'
            elif c is not None:
                r += chr(c) if c < 0x110000 else '<%x>' % c
            else:
                r += '<any of %s byte%s>' % (a, '' if a == 1 else 's')
        return repr(r)

    def object(self, name='the text', room=1):
        M = self.M
        bs = [b for i in range(self.n) for b in self.encode(i)]
        o = M.obj(name, len(bs) + room, 'const')
        for i, b in enumerate(bs + [0] * room):
            o.c[i] = (M.low(b) if b.__class__ is V else b, 1)
        return P(o, 0), len(bs)
