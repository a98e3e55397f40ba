"""
Bit-level abstract interpreter over the JSON IR, partitioned by input cubes.

Domain: an integer is a vector of bits, each 0, 1, an input bit, a negated input bit, or unknown; an
unknown bit keeps the expression it came from, so that equal computations stay equal.  A cube fixes
some input bits.  A branch (or address) that a cube does not decide makes the cube split in two on
the most significant input bit it depends on, and both halves are analysed again; the cubes analysed
therefore always cover the whole input space, with every path through the code decided on each.  Input
bits that no decision depends on stay symbolic.  Nothing is executed and no formula is solved.
"""
from .build import Broken

TOP = -1
STEPS = 60000


class Split(Exception):
    def __init__(self, bit):
        self.bit = bit


class Stop(Exception):
    """A rule has seen what it needs on this cube."""

    def __init__(self, why=None):
        self.why = why


class V:
    __slots__ = ('w', 'bits', 'x', 'deps')

    def __init__(self, w, bits, x=None, deps=None):
        self.w = w
        self.bits = bits
        self.x = x
        self.deps = deps

    def const(self):
        n = 0
        for i, b in enumerate(self.bits):
            if b == 1:
                n |= 1 << i
            elif b != 0:
                return None
        return n

    def key(self):
        return (self.w, self.x) if TOP in self.bits else (self.w, self.bits)

    def alldeps(self):
        d = {(b - 2) >> 1 for b in self.bits if b >= 2}
        if self.deps and TOP in self.bits:
            d |= self.deps
        return d


class P:
    """A pointer: an object and a byte offset"""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def key(self):
        return ('p', self.obj, self.off if isinstance(self.off, int) else self.off.key())


NULL = P(None, 0)


def const(n, w):
    return V(w, tuple((n >> i) & 1 for i in range(w)))


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


def neg(b):
    return b ^ 1 if b != TOP else TOP


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == TOP or b == TOP:
        return TOP
    if a == b:
        return a
    if a == (b ^ 1):
        return 0
    return TOP


def b_or(a, b):
    return neg(b_and(neg(a), neg(b)))


def b_xor(a, b):
    if a == TOP or b == TOP:
        return TOP
    if a <= 1:
        return b ^ a
    if b <= 1:
        return a ^ b
    if a == b:
        return 0
    if a == (b ^ 1):
        return 1
    return TOP


def b_maj(a, b, c):
    if a == b and a != TOP:
        return a
    if a == c and a != TOP:
        return a
    if b == c and b != TOP:
        return b
    for x, y, z in ((a, b, c), (b, a, c), (c, a, b)):
        if x == 0:
            return b_and(y, z)
        if x == 1:
            return b_or(y, z)
        if y != TOP and y == neg(z):
            return x
    return TOP


def mk(w, bits, op, *args):
    bits = tuple(bits)
    if TOP not in bits:
        return V(w, bits)
    d = set()
    for a in args:
        if isinstance(a, V):
            d |= a.alldeps()
    return V(w, bits, (op,) + tuple(a.key() if isinstance(a, (V, P)) else a for a in args), frozenset(d))


def bor(a, b):
    return mk(a.w, [b_or(x, y) for x, y in zip(a.bits, b.bits)], 'or', *sorted((a, b), key=lambda v: repr(v.key())))


def zext(a, w):
    return mk(w, a.bits + (0,) * (w - a.w), 'zext', a)


def trunc(a, w):
    return mk(w, a.bits[:w], 'trunc', a)


def cat(parts):
    """parts: V, least significant first"""
    bits = ()
    for p in parts:
        bits += p.bits
    return mk(len(bits), bits, 'cat', *parts)


def part(a, lo, n):
    return mk(n, a.bits[lo:lo + n], 'part', lo, a)


def add(a, b, cin=0):
    out, c = [], cin
    for x, y in zip(a.bits, b.bits):
        out.append(b_xor(b_xor(x, y), c))
        c = b_maj(x, y, c)
    if cin:
        return mk(a.w, out, 'sub', a, mk(a.w, [neg(y) for y in b.bits], 'not', b))
    return mk(a.w, out, 'add', *sorted((a, b), key=lambda v: repr(v.key())))


def sub(a, b):
    if a.key() == b.key():
        return const(0, a.w)
    out, c = [], 1
    for x, y in zip(a.bits, b.bits):
        out.append(b_xor(b_xor(x, neg(y)), c))
        c = b_maj(x, neg(y), c)
    bc = b.const()
    if bc is not None:		# the same expression as adding the opposite
        return add(a, const(-bc & ((1 << a.w) - 1), a.w))
    return mk(a.w, out, 'sub', a, b)


def core(a, b):
    """What is left to compare of two unknowns: (a, b, None), or (None, None, their order) if their known
    leading bits differ, or (None, None, None)... never equal otherwise undecided"""
    ka, kb, und = [], [], False
    for x, y in zip(reversed(a.bits), reversed(b.bits)):
        if x in (0, 1) and y in (0, 1):
            if x == y:
                continue
            if not und:
                return None, None, -1 if x < y else 1
        und = True
        ka.append(x)
        kb.append(y)
    if TOP in ka or TOP in kb:
        return a, b, None
    return V(len(ka), tuple(reversed(ka))), V(len(kb), tuple(reversed(kb))), None


class Cubes:
    """The numbering of input bits"""

    def __init__(self):
        self.idx = {}
        self.names = []

    def bit(self, name, k, prio=0):
        i = self.idx.get((name, k))
        if i is None:
            i = len(self.names)
            self.idx[(name, k)] = i
            self.names.append((prio, k, name))
        return i

    def rank(self, i):
        return self.names[i][:2] + (i,)


class Interp:
    def __init__(self, mod, cubes, rule, cube):
        self.mod, self.cubes, self.rule, self.cube = mod, cubes, rule, cube
        self.mem = {}
        self.steps = 0
        self.ts = {}
        self.nobj = 0
        self.args = self.frame = None
        self.facts = []			# (unknown, unknown, '=', '!', 's' or 'u' for less)

    # ---- inputs and decisions
    def inbits(self, name, w, prio=0):
        bits = []
        for k in range(w):
            i = self.cubes.bit(name, k, prio)
            c = self.cube.get(i)
            bits.append(2 + 2 * i if c is None else c)
        return V(w, tuple(bits))

    def split(self, deps, key=None):
        free = [i for i in deps if i not in self.cube]
        if free:
            raise Split(max(free, key=self.cubes.rank))
        if key is None:
            raise Broken('a decision depends on nothing that can be split')
        i = self.cubes.bit(('decision', key), 0, -1)
        c = self.cube.get(i)
        if c is None:
            raise Split(i)
        return c

    def split_all(self, v):
        d = [i for i in v.alldeps() if i not in self.cube]
        if d:
            self.split(d)

    def truth(self, v):
        """Decide a one-bit value"""
        b = v.bits[0]
        if b in (0, 1):
            return b
        return self.split(v.alldeps(), v.key())

    def conc(self, v, sg=True):
        """The value as a concrete number"""
        if isinstance(v, int):
            return v
        c = v.const()
        if c is None:
            self.split(v.alldeps())
        return signed(c, v.w) if sg else c

    def eq(self, a, b):
        if isinstance(a, P) or isinstance(b, P):
            if not (isinstance(a, P) and isinstance(b, P)):
                raise Broken('compares a pointer with an integer')
            if a.obj != b.obj:
                return False
            if isinstance(a.off, int) and isinstance(b.off, int):
                return a.off == b.off
            return self.conc(a.off) == self.conc(b.off)
        for x, y in zip(a.bits, b.bits):
            if x != TOP and y != TOP and x == (y ^ 1):
                return False
        if a.key() == b.key():
            return True
        if self.rule.opaque and a.const() is None and b.const() is None:
            if self.rule.parts:
                a, b, o = core(a, b)
                if a is None:
                    return False
            return self.same_unknown(a, b)
        for x, y in reversed(list(zip(a.bits, b.bits))):
            if x != y or x == TOP:
                d = {(z - 2) >> 1 for z in (x, y) if z >= 2}
                if d:
                    self.split(d)
        return bool(self.split(a.alldeps() | b.alldeps(), ('eq', a.key(), b.key())))

    # ---- unknowns compared as such: decisions are kept consistent with those made before
    def known(self, x, y, sg):
        """-1, 0, 1 if the facts so far order two unknowns, or 'ne', or None"""
        def reach(a, b):
            seen, work = set(), [(a, False)]
            while work:
                s = work.pop()
                if s in seen:
                    continue
                seen.add(s)
                n, strict = s
                if n == b and strict:
                    return True
                for p, q, r in self.facts:
                    if r == '=':
                        if p == n:
                            work.append((q, strict))
                        if q == n:
                            work.append((p, strict))
                    elif r == sg and p == n:
                        work.append((q, True))
            return False
        cls, work = set(), [x]
        while work:
            n = work.pop()
            if n not in cls:
                cls.add(n)
                work += [q for p, q, r in self.facts if p == n and r == '='] + [p for p, q, r in self.facts if q == n and r == '=']
        if y in cls:
            return 0
        if reach(x, y):
            return -1
        if reach(y, x):
            return 1
        cly, work = set(), [y]
        while work:
            n = work.pop()
            if n not in cly:
                cly.add(n)
                work += [q for p, q, r in self.facts if p == n and r == '='] + [p for p, q, r in self.facts if q == n and r == '=']
        for p, q, r in self.facts:
            if r != '=' and (p in cls and q in cly or p in cly and q in cls):
                return 'ne'
        return None

    def assume(self, a, b, rel):
        self.facts.append((a.key(), b.key(), rel))

    def same_unknown(self, a, b):
        x, y = sorted((a.key(), b.key()), key=repr)
        if x == y:
            return True
        for sg in 'su':
            k = self.known(x, y, sg)
            if k == 0:
                return True
            if k is not None:
                return False
        r = bool(self.split((), ('eq', x, y)))
        self.facts.append((x, y, '=' if r else '!'))
        return r

    def order_unknown(self, a, b, sg):
        if self.same_unknown(a, b):
            return 0
        x, y = sorted((a.key(), b.key()), key=repr)
        k = self.known(x, y, sg)
        if k not in (-1, 1):
            k = -1 if self.split((), (sg + 'lt', x, y)) else 1
            self.facts.append((x, y, sg) if k < 0 else (y, x, sg))
        return k if x == a.key() else -k

    def ult(self, a, b):
        """a < b, unsigned"""
        if a.key() == b.key():
            return False
        und = None
        for x, y in reversed(list(zip(a.bits, b.bits))):
            if x == y and x != TOP:
                continue
            if x in (0, 1) and y in (0, 1):
                return x < y if und is None else self.range_lt(a, b, und)
            if und is None:
                und = (x, y)
                # decided whatever the lower bits are?
        return self.range_lt(a, b, und)

    def range_lt(self, a, b, und):
        lo = lambda v: sum((1 << i) for i, x in enumerate(v.bits) if x == 1)
        hi = lambda v: sum((1 << i) for i, x in enumerate(v.bits) if x != 0)
        if hi(a) < lo(b):
            return True
        if lo(a) >= hi(b):
            return False
        for x, y in reversed(list(zip(a.bits, b.bits))):
            if x != y or x == TOP:
                d = {(z - 2) >> 1 for z in (x, y) if z >= 2}
                if d:
                    self.split(d)
        return bool(self.split(a.alldeps() | b.alldeps(), ('ult', a.key(), b.key())))

    def cmp(self, pred, a, b):
        if isinstance(a, P) and isinstance(b, P):
            if pred in ('eq', 'ne'):
                return self.eq(a, b) == (pred == 'eq')
            if a.obj != b.obj:
                if pred[0] == 'u' and (a.obj is None or b.obj is None):	# null is the least address
                    x, y = (0 if a.obj is None else 1), (0 if b.obj is None else 1)
                    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
                return self.rule.unordered(self, pred, a, b)
            x, y = self.conc(a.off), self.conc(b.off)
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        if pred == 'eq':
            return self.eq(a, b)
        if pred == 'ne':
            return not self.eq(a, b)
        oa, ob = a, b
        if pred[0] == 's':
            f = lambda v: mk(v.w, v.bits[:-1] + (neg(v.bits[-1]),), 'flip', v)
            a, b = f(a), f(b)
        p = pred[1:]
        if self.rule.opaque and isinstance(a, V) and isinstance(b, V) and a.const() is None and b.const() is None:
            if self.rule.parts:
                oa, ob, c = core(a, b)
                if c is None:
                    c = self.order_unknown(oa, ob, 'u')
            else:
                c = self.order_unknown(oa, ob, pred[0])
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p]
        if p == 'lt':
            return self.ult(a, b)
        if p == 'gt':
            return self.ult(b, a)
        if p == 'le':
            return not self.ult(b, a)
        return not self.ult(a, b)

    # ---- memory
    def new(self, what):
        self.nobj += 1
        return ('n', what, self.nobj)

    def cell(self, obj, off, ins):
        m = self.mem.setdefault(obj, {})
        c = m.get(off)
        if c is None and obj is not None and obj[0] == 'g':
            g = self.mod.globals.get(obj[1])
            if g is not None and 'data' in g:
                if not 0 <= off < len(g['data']):
                    self.rule.outside(self, ins, obj, off)
                for ro, name, ad in g.get('relocs', ()):
                    if ro <= off < ro + 8:
                        p = P(('g', name), ad) if name in self.mod.globals else P(('f', name), ad)
                        for i in range(8):
                            m[ro + i] = (p, i)
                        return (p, off - ro)
                return (const(g['data'][off], 8), 0)
        if c is None:
            c = (self.rule.missing(self, ins, obj, off), 0)
            m[off] = c
        return c

    def load(self, ins, p, w, isptr):
        off = p.off
        if not isinstance(off, int):
            c = off.const()
            if c is None:
                r = self.rule.symbolic(self, ins, p, w)
                if r is not None:
                    return r
                self.split(off.alldeps())
            off = signed(c, off.w)
        n = (w + 7) // 8
        self.rule.access(self, ins, p.obj, off, n, False, None)
        cs = [self.cell(p.obj, off + i, ins) for i in range(n)]
        v = cs[0][0]
        if all(c[0] is v and c[1] == i for i, c in enumerate(cs)) and (isinstance(v, P) or v.w == w):
            return v
        if isptr:
            if all(isinstance(c[0], V) and part(c[0], c[1] * 8, 8).const() == 0 for c in cs):
                return NULL
            raise Broken('loads a pointer that was not stored as one')
        if any(isinstance(c[0], P) for c in cs):
            raise Broken('loads part of a pointer')
        r = cat([part(zext(c[0], max(c[0].w, c[1] * 8 + 8)), c[1] * 8, 8) for c in cs])
        return r if r.w == w else trunc(r, w)

    def store(self, ins, p, v):
        off = self.conc(p.off)
        n = 8 if isinstance(v, P) else (v.w + 7) // 8
        self.rule.access(self, ins, p.obj, off, n, True, v)
        if isinstance(v, V) and v.w % 8:
            v = zext(v, n * 8)
        m = self.mem.setdefault(p.obj, {})
        for i in range(n):
            m[off + i] = (v, i)

    # ---- instructions
    def width(self, ty):
        if ty[0] == 'i' and ty[1:].isdigit():
            return int(ty[1:])
        return None

    def val(self, o, env, w=None):
        k = o[0]
        if k == 'v':
            return env[o[1]]
        if k == 'c':
            return const(int(o[1]) & ((1 << o[2]) - 1), o[2])
        if k == 'a':
            return self.args[o[1]]
        if k == 'null':
            return NULL
        if k == 'g':
            return P(('g', o[1]), o[2] if len(o) > 2 else 0)
        if k == 'f':
            return P(('f', o[1]), 0)
        if k == 'ce' and o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
            return self.val(o[2][0], env)
        if k == 'undef':
            self.nobj += 1
            return ('undef',)
        raise Broken('operand %r' % (o,))

    def run(self, f, args):
        self.mod.seen.add(f['name'])
        old = self.args, self.frame
        self.args, self.frame = args, []
        r = self.body(f, args)
        if self.rule.inter:
            self.rule.leave(self, f, self.frame, r[0])
        self.args, self.frame = old
        return r

    def body(self, f, args):
        blocks = {b['id']: b for b in f['blocks']}
        env = {}
        cur, prev = f['blocks'][0], None
        while True:
            nxt = None
            phis = []
            for ins in cur['ins']:
                op = ins['op']
                if op == 'dbg':
                    continue
                self.steps += 1
                if self.steps > self.rule.limit:
                    raise Broken('%s does not end within %d steps' % (f['name'], self.rule.limit))
                if op == 'phi':
                    o = [x for x, b in ins['inc'] if b == prev]
                    phis.append((ins['id'], self.val(o[0], env)))
                    continue
                if phis:
                    for i, v in phis:
                        env[i] = v
                    phis = []
                if op == 'br':
                    if len(ins['succ']) == 1:
                        nxt = ins['succ'][0]
                    else:
                        nxt = ins['succ'][0 if self.truth(self.val(ins['ops'][0], env)) else 1]
                    break
                if op == 'switch':
                    v = self.val(ins['ops'][0], env)
                    nxt = ins['default']
                    for c, b in ins['cases']:
                        if self.eq(v, const(int(c) & ((1 << v.w) - 1), v.w)):
                            nxt = b
                            break
                    break
                if op == 'ret':
                    return ('ret', self.val(ins['ops'][0], env) if ins['ops'] else None, ins)
                if op == 'unreachable':
                    return ('unreachable', None, ins)
                r = self.step(op, ins, env)
                if r is not None:
                    if isinstance(r, tuple) and r and r[0] == 'end':
                        return (r[1], None, ins)
                    env[ins['id']] = r
            prev, cur = cur['id'], blocks[nxt]

    def step(self, op, ins, env):
        if op == 'alloca':
            o = self.new(('alloca', ins['id'], ins.get('asz', 1 << 30)))
            self.frame.append(o)
            return P(o, 0)
        if op == 'call' or op == 'invoke':
            return self.call(ins, env)
        if op == 'getelementptr':
            p = self.val(ins['ops'][0], env)
            if not ins['ok'] or not isinstance(p, P):
                raise Broken('address computation')
            off = p.off
            add_ = ins['off']
            for o, k in ins['var']:
                v = self.val(o, env)
                c = v.const()
                if c is not None:
                    add_ += signed(c, v.w) * k
                else:
                    t = v if v.w == 64 else mk(64, v.bits + (v.bits[-1],) * (64 - v.w), 'sext', v)
                    t = self.mul(t, const(k & (2 ** 64 - 1), 64))
                    off = add(const(off & (2 ** 64 - 1), 64), t) if isinstance(off, int) else add(off, t)
            if isinstance(off, int):
                return P(p.obj, off + add_)
            return P(p.obj, add(off, const(add_ & (2 ** 64 - 1), 64)))
        if op == 'load':
            p = self.val(ins['ops'][0], env)
            if not isinstance(p, P) or p.obj is None:
                self.rule.null(self, ins)
                raise Stop('null')
            w = self.width(ins['ty'])
            if w is None and ins['ty'] != 'ptr':
                raise Broken('loads a %s' % ins['ty'])
            if ins.get('atomic'):
                r = self.rule.atomic(self, ins, p, w)
                if r is not None:
                    return r
            return self.load(ins, p, w or 64, ins['ty'] == 'ptr')
        if op == 'store':
            v = self.val(ins['ops'][0], env)
            p = self.val(ins['ops'][1], env)
            if not isinstance(p, P) or p.obj is None:
                self.rule.null(self, ins)
                raise Stop('null')
            if ins.get('atomic'):
                if self.rule.atomic_store(self, ins, p, v):
                    return None
            self.store(ins, p, v)
            return None
        if op == 'icmp':
            a, b = (self.val(o, env) for o in ins['ops'])
            # a comparison is decided where it is used: keep the flag symbolic if it is one bit of the input
            if ins['pred'] in ('eq', 'ne') and isinstance(a, V) and isinstance(b, V):
                d = [i for i in range(a.w) if a.bits[i] != b.bits[i] or a.bits[i] == TOP]
                if not any(a.bits[i] in (0, 1) and b.bits[i] in (0, 1) and a.bits[i] != b.bits[i] for i in d) and len(d) == 1:
                    r = b_xor(a.bits[d[0]], b.bits[d[0]])
                    if r != TOP:
                        return V(1, (r if ins['pred'] == 'ne' else neg(r),))
            return const(int(self.cmp(ins['pred'], a, b)), 1)
        if op == 'select':
            c, a, b = (self.val(o, env) for o in ins['ops'])
            return a if self.truth(c) else b
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = self.val(ins['ops'][0], env)
            w = self.width(ins['ty'])
            if isinstance(v, P):
                return v
            if op == 'zext':
                return zext(v, w)
            if op == 'sext':
                return mk(w, v.bits + (v.bits[-1],) * (w - v.w), 'sext', v)
            if op == 'trunc':
                return trunc(v, w)
            return v
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = (self.val(o, env) for o in ins['ops'])
            return self.arith(op, a, b, ins)
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p, v = (self.val(o, env) for o in ins['ops'])
            if not isinstance(p, P) or p.obj is None:
                self.rule.null(self, ins)
                raise Stop('null')
            old = self.load(ins, p, v.w, False)
            r = ins['rmw']
            self.store(ins, p, {'add': lambda: add(old, v), 'sub': lambda: sub(old, v), 'xchg': lambda: v}[r]())
            return old
        if op == 'extractvalue':
            v = self.val(ins['ops'][0], env)
            for i in ins['idx']:
                v = v[1][i]
            return v
        if op == 'insertvalue':
            v, x = (self.val(o, env) for o in ins['ops'])
            if len(ins['idx']) != 1:
                raise Broken('insertvalue')
            d = dict(v[1]) if v[0] == 'agg' else {}
            d[ins['idx'][0]] = x
            return ('agg', d)
        raise Broken('instruction %s' % op)

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            c = y.const()
            if c is not None:
                if c == 0:
                    return y
                if c == 1:
                    return x
                s = signed(c, y.w)
                n = bin(abs(s)).count('1')
                if n == 1:
                    k = abs(s).bit_length() - 1
                    r = mk(x.w, (0,) * k + x.bits[:x.w - k], 'shl', x, k)
                    return r if s > 0 else sub(const(0, x.w), r)
                acc = const(0, x.w)
                for k in range(x.w):
                    if abs(s) >> k & 1:
                        acc = add(acc, mk(x.w, (0,) * k + x.bits[:x.w - k], 'shl', x, k))
                return acc if s > 0 else sub(const(0, x.w), acc)
        return mk(a.w, (TOP,) * a.w, 'mul', *sorted((a, b), key=lambda v: repr(v.key())))

    def arith(self, op, a, b, ins):
        if isinstance(a, P) or isinstance(b, P):
            if op == 'sub' and isinstance(a, P) and isinstance(b, P):
                if a.obj != b.obj:
                    r = self.rule.unordered(self, 'sub', a, b)
                    if r is not None:
                        return r
                    raise Broken('subtracts unrelated pointers')
                return const((self.conc(a.off) - self.conc(b.off)) & (2 ** 64 - 1), 64)
            if op in ('add', 'sub') and isinstance(a, P) and isinstance(b, V):
                d = self.conc(b)
                return P(a.obj, self.conc(a.off) + (d if op == 'add' else -d))
            if op == 'add' and isinstance(b, P):
                return P(b.obj, self.conc(b.off) + self.conc(a))
            raise Broken('pointer arithmetic %s' % op)
        w = a.w
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return self.mul(a, b)
        if op in ('and', 'or', 'xor'):
            f = {'and': b_and, 'or': b_or, 'xor': b_xor}[op]
            return mk(w, [f(x, y) for x, y in zip(a.bits, b.bits)], op, *sorted((a, b), key=lambda v: repr(v.key())))
        if op in ('shl', 'lshr', 'ashr'):
            k = self.conc(b, False)
            if k >= w:
                self.rule.undefined(self, ins, 'shifts by %d of %d bits' % (k, w))
                raise Stop('undefined')
            if op == 'shl':
                return mk(w, (0,) * k + a.bits[:w - k], 'shl', a, k)
            return mk(w, a.bits[k:] + ((0,) if op == 'lshr' else (a.bits[-1],)) * k, op, a, k)
        ca, cb = a.const(), b.const()
        if cb is not None and op in ('udiv', 'urem') and cb and cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            if op == 'udiv':
                return mk(w, a.bits[k:] + (0,) * k, 'lshr', a, k)
            return mk(w, a.bits[:k] + (0,) * (w - k), 'low', a, k)
        if cb is not None and op in ('sdiv', 'srem') and cb and cb & (cb - 1) == 0 and a.bits[-1] == 0 and not cb >> (w - 1):
            return self.arith('u' + op[1:], a, b, ins)
        if ca is None or cb is None:
            if cb == 0:
                self.rule.undefined(self, ins, 'divides by zero')
            return mk(w, (TOP,) * w, op, a, b)
        if cb == 0:
            self.rule.undefined(self, ins, 'divides by zero')
            raise Stop('undefined')
        if op[0] == 'u':
            return const(ca // cb if op == 'udiv' else ca % cb, w)
        x, y = signed(ca, w), signed(cb, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return const((q if op == 'sdiv' else x - q * y) & ((1 << w) - 1), w)

    def call(self, ins, env):
        name = ins.get('callee')
        if name is None:
            t = ins.get('target')
            p = self.val(t, env) if t else None
            name = p.obj[1] if isinstance(p, P) and p.obj and p.obj[0] == 'f' else None
        args = [self.val(o, env) if o[0] != 'md' else None for o in ins['ops']]
        if name is None:
            r = self.rule.call(self, ins, None, args)
            if r is None:
                raise Broken('indirect call')
            return r
        if name.startswith('llvm.'):
            n = name.split('.')[1]
            if n in ('lifetime', 'assume', 'experimental', 'dbg', 'donothing'):
                return None
            if n in ('memset', 'memcpy', 'memmove'):
                k = self.conc(args[2], False)
                if n == 'memset':
                    for i in range(k):
                        self.store(ins, P(args[0].obj, self.conc(args[0].off) + i), args[1])
                else:
                    vs = []
                    for i in range(k):
                        s = self.conc(args[1].off) + i
                        self.rule.access(self, ins, args[1].obj, s, 1, False, None)
                        vs.append(self.cell(args[1].obj, s, ins))
                    m = self.mem.setdefault(args[0].obj, {})
                    for i, c in enumerate(vs):
                        d = self.conc(args[0].off) + i
                        self.rule.access(self, ins, args[0].obj, d, 1, True, c[0])
                        m[d] = c
                return None
            if n == 'abs':
                return sub(const(0, args[0].w), args[0]) if self.truth(part(args[0], args[0].w - 1, 1)) else args[0]
            if n in ('umin', 'umax', 'smin', 'smax'):
                lt = self.cmp(n[0] + 'lt', args[0], args[1])
                return args[0] if lt == (n[1:] == 'min') else args[1]
            if n == 'bswap':
                return cat([part(args[0], i * 8, 8) for i in reversed(range(args[0].w // 8))])
            if n in ('fshl', 'fshr'):
                w = args[0].w
                k = self.conc(args[2], False) % w
                if n == 'fshr':
                    k = (w - k) % w
                return mk(w, (args[1].bits + args[0].bits)[w - k:2 * w - k], 'fsh', args[0], args[1], k)
            if n in ('ctlz', 'cttz', 'ctpop'):
                c = self.conc(args[0], False)
                w = args[0].w
                if n == 'ctpop':
                    return const(bin(c).count('1'), w)
                if n == 'ctlz':
                    return const(w - c.bit_length(), w)
                return const((c & -c).bit_length() - 1 if c else w, w)
            if n == 'trap':
                return ('end', 'abort')
            if n in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
                a, b = args
                r = {'add': add, 'sub': sub, 'mul': self.mul}[n[1:]](a, b)
                ca, cb = self.conc(a, n[0] == 's'), self.conc(b, n[0] == 's')
                t = ca + cb if 'add' in n else ca - cb if 'sub' in n else ca * cb
                lo, hi = (-(1 << a.w - 1), (1 << a.w - 1) - 1) if n[0] == 's' else (0, (1 << a.w) - 1)
                return ('agg', {0: r, 1: const(int(not lo <= t <= hi), 1)})
        r = self.rule.call(self, ins, name, args)
        if r is not None:
            return r if not (isinstance(r, tuple) and r == ('void',)) else None
        if name in ('__assert_fail', 'abort', '__cxa_throw', '_ZSt9terminatev'):
            return ('end', 'abort')
        if self.rule.inter and name in self.mod.fns:
            kind, r, i = self.run(self.mod.fns[name], args)
            return r if kind == 'ret' else ('end', kind)
        raise Broken('call of %s' % name)


class Rule:
    """What a check may override"""
    opaque = False		# comparisons of two unknowns are decided as such, not bit by bit
    parts = False		# ... what is known of their bits being the same
    inter = False		# calls are analysed in place
    limit = STEPS

    def leave(self, I, f, frame, kind):
        pass

    def unordered(self, I, pred, a, b):
        raise Broken('compares pointers into different objects')

    def outside(self, I, ins, obj, off):
        raise Broken('reads outside %s' % obj[1])

    def missing(self, I, ins, obj, off):
        raise Broken('reads uninitialised storage of %s' % (obj,))

    def access(self, I, ins, obj, off, n, write, val):
        pass

    def symbolic(self, I, ins, p, w):
        return None

    def null(self, I, ins):
        raise Broken('uses a null pointer')

    def undefined(self, I, ins, what):
        raise Broken(what)

    def atomic(self, I, ins, p, w):
        return None

    def atomic_store(self, I, ins, p, v):
        return False

    def call(self, I, ins, name, args):
        return None


def explore(mod, cubes, mkrule, body, start=({},), limit=200000):
    """body(I) analyses one cube; it may raise Split. Returns the number of cubes analysed to the end."""
    work = [dict(c) for c in start]
    done = 0
    while work:
        cube = work.pop()
        I = Interp(mod, cubes, mkrule() if mkrule else None, cube)
        try:
            body(I)
            done += 1
        except Stop:
            done += 1
        except Split as s:
            for v in (0, 1):
                c = dict(cube)
                c[s.bit] = v
                work.append(c)
        if done + len(work) > limit:
            raise Broken('too many cases')
    return done
