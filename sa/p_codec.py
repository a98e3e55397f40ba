"""Character encodings, guarded UTF-8 pointers (single steps) and error numbers: exact results and bounds, for every input."""
import multiprocessing
from . import build, ai, cube
from .cube import P, V, NULL, const, cat, part, zext, mk
from .slices import site
from .build import Broken


class Enough(Exception):
    pass


class R(cube.Rule):
    def __init__(self, ck):
        self.ck = ck
        self.reads, self.writes = set(), set()
        self.opaque = ck.root in OPAQUE

    def missing(self, I, ins, obj, off):
        if obj[0] == 'in':
            return I.inbits(('byte', off), 8, 100 - abs(off))
        raise Broken('reads uninitialised %s' % (obj,))

    def access(self, I, ins, obj, off, n, write, val):
        if obj[0] == 'in':
            if write:
                self.ck.bad(I, ins, 'bounds', 'write', 'writes into the text it is given to read')
                return
            for k in range(off, off + n):
                self.ck.reading(I, ins, k)
                self.reads.add(k)
        elif obj[0] == 'out' and write:
            self.writes.update(range(off, off + n))
        elif obj[0] == 'g' and write:
            self.ck.bad(I, ins, 'bounds', 'global', 'writes a table the decoder depends on')

    def outside(self, I, ins, obj, off):
        self.ck.bad(I, ins, 'bounds', 'table', 'reads entry %d of a table of %d bytes' % (off, len(I.mod.globals[obj[1]]['data'])))
        raise cube.Stop('outside')

    def null(self, I, ins):
        self.ck.bad(I, ins, 'bounds', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.ck.bad(I, ins, 'bounds', 'undefined', what)


class Check:
    mk = R

    def __init__(self, rep, mod, root, rules):
        self.rep, self.mod, self.root, self.rules = rep, mod, root, rules
        self.cubes = cube.Cubes()
        self.fn = mod.fns[root]
        self.where = 'driver'
        for b in self.fn['blocks']:
            for i in b['ins']:
                if site(i)[0] != '?' and not site(i)[1].endswith('/?'):
                    self.where = site(i)
                    break
            else:
                continue
            break
        self.lo, self.hi = 0, None		# readable text: [lo, first NUL], or [lo, hi) if hi is given

    def example(self, I):
        """The inputs of a cube, readably"""
        d = {}
        for i, v in sorted(I.cube.items()):
            prio, k, name = self.cubes.names[i]
            d.setdefault(name, {})[k] = v
        out = []

        def nm(k):
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1] and all(isinstance(b, int) for b in k[1]):
                if all(b in (0, 1) for b in k[1]):
                    return str(sum(b << i for i, b in enumerate(k[1])))
                ns = {str(self.cubes.names[(b - 2) >> 1][2]) for b in k[1] if b >= 2}
                return ns.pop() if len(ns) == 1 else '(%s)' % ','.join(sorted(ns))
            return '(%s)' % ' '.join(nm(x) for x in k) if isinstance(k, tuple) else str(k)
        for name in sorted(d, key=str):
            if isinstance(name, tuple) and name[0] == 'decision':
                out.append('[%s %s]' % (nm(name[1]), 'yes' if d[name][0] else 'no'))
                continue
            n = 'byte%+d' % name[1] if isinstance(name, tuple) and name[0] == 'byte' else str(name)
            w = max(d[name]) + 1
            out.append('%s=%s' % (n, ''.join('?' if k not in d[name] else str(d[name][k]) for k in reversed(range(max(w, 8))))))
        return ' '.join(out)

    def bad(self, I, ins, rule, key, msg):
        if rule not in self.rules:
            return
        s = site(ins) if ins is not None else ('?', '?')
        if s[0] == '?':
            s = self.where
        self.rep.bad(rule, s[0], '%s:%s:%s' % (self.root, s[1] if rule == 'bounds' else '', key), '%s: %s' % (self.root, msg), ['for ' + self.example(I)])

    def good(self, rule, what):
        if rule in self.rules:
            self.rep.ok(rule, '%s %s' % (self.root, what))

    def reading(self, I, ins, k):
        if k < self.lo:
            self.bad(I, ins, 'bounds', 'before', 'reads %d bytes before the earliest byte it may' % (self.lo - k))
            raise cube.Stop('bounds')
        if self.hi is not None:
            if k >= self.hi:
                self.bad(I, ins, 'bounds', 'at', 'reads at or after its starting place')
                raise cube.Stop('bounds')
        else:
            for j in range(0, k):
                if I.eq(self.byte(I, j), const(0, 8)):
                    self.bad(I, ins, 'bounds', 'nul', 'reads beyond a NUL')
                    raise cube.Stop('bounds')
        self.good('bounds', site(ins)[0])

    def byte(self, I, k):
        return I.inbits(('byte', k), 8, 100 - abs(k))

    def same(self, I, got, want, what):
        """Is a result what the specification says?"""
        ok = got is not None and (not isinstance(got, V) or not isinstance(want, V) or got.w == want.w) and I.eq(got, want)
        if not ok:
            self.bad(I, None, 'result', what, '%s is %s, not %s' % (what, show(got), show(want)))
        else:
            self.good('result', what)
        return ok

    def run(self, body):
        after = [0]

        def one(I):
            if self.rep.viol:		# enough to report
                after[0] += 1
                if after[0] > 2000:
                    raise Enough()
            body(self, I)
        n = 0
        try:
            n = cube.explore(self.mod, self.cubes, lambda: self.mk(self), one)
        except Enough:
            pass
        except Broken as e:
            self.rep.undecide(self.root, e)
            return
        self.rep.functions |= {self.mod.dem.get(f, f) for f in self.mod.seen}
        self.rep.paths += n

    def returns(self, I, args, aborts=False):
        kind, v, ins = I.run(self.fn, args)
        if kind == 'abort' and aborts:
            raise cube.Stop('abort')
        if kind != 'ret':
            self.bad(I, ins, 'result', 'abort', 'does not return')
            raise cube.Stop('abort')
        return v


def show(v):
    if isinstance(v, P):
        return 'null' if v.obj is None else '%s%s' % (v.obj[0], '%+d' % v.off if isinstance(v.off, int) else '+?')
    if isinstance(v, V):
        return ''.join('01'[b] if b in (0, 1) else '?' if b < 0 else 'x' for b in reversed(v.bits))
    return str(v)


IN = P(('in',), 0)
OUT = P(('out',), 0)
I32 = lambda n: const(n & 0xFFFFFFFF, 32)


def bit(v, k):
    return part(v, k, 1)


def lead_len(I, b):
    """Length introduced by a lead byte: 1, 2..6, or 0 for a continuation byte"""
    if not I.truth(bit(b, 7)):
        return 1
    if not I.truth(bit(b, 6)):
        return 0
    for k, n in ((5, 2), (4, 3), (3, 4), (2, 5)):
        if not I.truth(bit(b, k)):
            return n
    return 6


def is_cont(I, b):
    return I.truth(bit(b, 7)) and not I.truth(bit(b, 6))


PAYLOAD = {1: 7, 2: 5, 3: 4, 4: 3, 5: 2, 6: 2}


def decode(ck, I):
    """Specification: (bytes consumed, character)"""
    b = ck.byte(I, 0)
    n = lead_len(I, b)
    if n >= 2:
        for i in range(1, n):
            if not is_cont(I, ck.byte(I, i)):
                n = 0
                break
    if n == 0:
        return 1, cat([b, const(0x800000, 24)])
    parts = [part(ck.byte(I, i), 0, 6) for i in range(n - 1, 0, -1)] + [part(b, 0, PAYLOAD[n])]
    v = cat(parts)
    return n, zext(v, 32) if v.w < 32 else v


def illegal(I, ch):
    """0x800000yy or UCS4_NONE"""
    return I.eq(part(ch, 8, 24), const(0x800000, 24)) or I.eq(ch, const(0xFFFFFFFF, 32))


def enc_len(I, ch):
    hi = 31
    while hi >= 7 and not I.truth(bit(ch, hi)):
        hi -= 1
    if illegal(I, ch):
        return 1
    for n, bits in ((1, 7), (2, 11), (3, 16), (4, 21), (5, 26), (6, 32)):
        if hi < bits:
            return n


LEAD = {2: 0xC0, 3: 0xE0, 4: 0xF0, 5: 0xF8, 6: 0xFC}


def encode(I, ch):
    n = enc_len(I, ch)
    if n == 1:
        return [part(ch, 0, 8)]
    out = [cat([part(ch, 6 * k, 6), const(2, 2)]) for k in range(n - 1)]	# least significant first
    w = PAYLOAD[n]
    lead = cat([part(ch, 6 * (n - 1), w), const(LEAD[n] >> w, 8 - w)])
    return [lead] + out[::-1]


def back(ck, I, lim):
    """How far one step back from the end of the readable text goes: lim bytes may be read"""
    for k in range(1, lim + 1):
        b = ck.byte(I, -k)
        if not is_cont(I, b):
            return k if lead_len(I, b) == k else 1
    return 1


def out_bytes(ck, I, n):
    w = sorted(I.rule.writes)
    if w != list(range(n)):
        ck.bad(I, None, 'result', 'written', 'writes bytes %s, not the first %d' % (w, n))
        return False
    return True


# ---- the obligations, one function per driver root
def u_get(ck, I):
    peek = ck.root == 'u_peek'
    r = ck.returns(I, [IN, P(('ch',), 0)])
    n, ch = decode(ck, I)
    ck.same(I, r, I32(0 if peek else n), 'the number of bytes consumed')
    ck.same(I, I.load(None, P(('ch',), 0), 32, False), ch, 'the character')


def u_len(ck, I):
    ck.same(I, ck.returns(I, [IN]), I32(decode(ck, I)[0]), 'the length')


def u_backup(ck, I):
    if ck.root == 'u_backup':
        ck.lo, ck.hi = -6, 0
        ck.same(I, ck.returns(I, [IN]), P(('in',), -back(ck, I, 6)), 'the place backed up to')
        return
    for d in range(9):			# distance from the limit: only up to 6 matters
        if I.truth(I.inbits('distance is %d' % d, 1, 200)):
            break
    else:
        d = -3				# limit beyond the place
    ck.lo, ck.hi = -max(min(d, 6), 0), 0
    r = ck.returns(I, [IN, P(('in',), -d)])
    ck.same(I, r, NULL if d <= 0 else P(('in',), -back(ck, I, min(d, 6))), 'the place backed up to')


def one(name, w, spec, rw):
    """A function of one value"""
    def body(ck, I):
        x = I.inbits(name, w)
        ck.same(I, ck.returns(I, [x]), const(spec(I, x) & ((1 << rw) - 1), rw), 'the answer')
    return body


def u_encill(ck, I):
    x = I.inbits('c', 8)
    ck.same(I, ck.returns(I, [x]), cat([x, const(0x800000, 24)]), 'the replacement')


def u_put(ck, I):
    ch = I.inbits('ch', 32)
    r = ck.returns(I, [OUT, ch])
    want = encode(I, ch)
    if ck.same(I, r, I32(len(want)), 'the number of bytes written') and out_bytes(ck, I, len(want)):
        for i, b in enumerate(want):
            ck.same(I, I.load(None, P(('out',), i), 8, False), b, 'byte %d' % i)


def u_putget(ck, I):
    ch = I.inbits('ch', 32)
    if I.eq(ch, const(0xFFFFFFFF, 32)):	# no character: not encodable
        return
    if illegal(I, ch) and not I.truth(bit(ch, 7)):	# no byte on its own
        return
    r = ck.returns(I, [OUT, ch, P(('put',), 0), P(('got',), 0)])
    ck.same(I, r, ch, 'the character put and got back')
    ck.same(I, I.load(None, P(('got',), 0), 32, False), I.load(None, P(('put',), 0), 32, False), 'the length got back')


def u_padzero(ck, I):
    n = I.inbits('n', 32)
    for k in range(7):
        if I.eq(n, I32(k)):
            break
    else:
        return
    r = ck.returns(I, [OUT, n])
    m = max(k, 1)
    if ck.same(I, r, I32(m), 'the number of bytes written') and out_bytes(ck, I, m):
        for i in range(m):
            want = (0 if m == 1 else LEAD[m]) if i == 0 else 0x80
            ck.same(I, I.load(None, P(('out',), i), 8, False), const(want, 8), 'byte %d' % i)


def lt(n):
    def spec(I, x):
        return int(I.ult(x, const(n, 32)))
    return spec


def ascii_digit(I, x):
    for k in range(10):
        if I.eq(x, I32(0x30 + k)):
            return k
    return -1


def swab(v):
    return cat([part(v, 8, 8), part(v, 0, 8)])


def w_swab(ck, I):
    x = I.inbits('c', 16)
    ck.same(I, ck.returns(I, [x]), swab(x), 'the answer')


def surrogate(I, c, which):
    if not (I.eq(part(c, 11, 5), const(0x1B, 5))):
        return 0
    return 1 if which is None else int(I.truth(bit(c, 10)) == which)


def units(I, ch):
    """UTF-16 units, or None outside the domain (surrogates and beyond Unicode)"""
    if I.ult(ch, const(0x10000, 32)):
        c = part(ch, 0, 16)
        return None if surrogate(I, c, None) else [c]
    if not I.ult(ch, const(0x110000, 32)):
        return None
    I.split_all(part(ch, 16, 5))
    t = cube.sub(part(ch, 0, 21), const(0x10000, 21))
    return [cat([part(t, 10, 10), const(0x36, 6)]), cat([part(t, 0, 10), const(0x37, 6)])]


def w_put(ck, I):
    ch = I.inbits('ch', 32)
    s = I.inbits('swap', 1, 300)
    sw = I.truth(s)
    want = units(I, ch)
    if want is None:
        return
    r = ck.returns(I, [OUT, ch, s])
    if ck.same(I, r, I32(len(want)), 'the number of units written') and out_bytes(ck, I, 2 * len(want)):
        for i, u in enumerate(want):
            ck.same(I, I.load(None, P(('out',), 2 * i), 16, False), swab(u) if sw else u, 'unit %d' % i)


def w_get(ck, I):
    s = I.inbits('swap', 1, 300)
    sw = I.truth(s)
    u = [cat([ck.byte(I, 0), ck.byte(I, 1)]), cat([ck.byte(I, 2), ck.byte(I, 3)])]
    if sw:
        u = [swab(x) for x in u]
    if surrogate(I, u[0], None):
        if not surrogate(I, u[0], 0) or not surrogate(I, u[1], 1):
            return
        n = 2
        hi = zext(part(u[0], 0, 10), 32)
        want = zext(cat([part(u[1], 0, 10), cube.add(zext(part(u[0], 0, 10), 11), const(0x40, 11))]), 32)
    else:
        n, want = 1, zext(u[0], 32)
    ck.lo, ck.hi = 0, 2 * n
    if ck.root == 'w_len':
        ck.same(I, ck.returns(I, [IN, s]), I32(n), 'the length')
        return
    ck.same(I, ck.returns(I, [IN, s, P(('ch',), 0)]), I32(n), 'the number of units consumed')
    got = I.load(None, P(('ch',), 0), 32, False)
    I.split_all(part(u[0], 6, 4) if n == 2 else part(u[0], 0, 1))
    ck.same(I, got, want, 'the character')


def w_lenof(ck, I):
    ch = I.inbits('ch', 32)
    if not I.ult(ch, const(0x110000, 32)):
        return
    ck.same(I, ck.returns(I, [ch]), I32(1 if I.ult(ch, const(0x10000, 32)) else 2), 'the length')


# ---- guarded pointers.  a: not guarded, b: by the NUL, c: by NUL and origin; d, e: the same over UTF-8
KIND = dict(a=('c', 0), b=('c', 1), c=('c', 2), d=('u', 1), e=('u', 2))
FAR = 40


def position(ck, I, k):
    """The byte at k of the text"""
    b = I.inbits(('byte', k), 8, 100 - abs(k))
    return cat([part(b, 0, 7), const(0, 1)]) if ck.ascii else b


class PtrCheck(Check):
    def byte(self, I, k):
        return position(self, I, k)

    def reading(self, I, ins, k):
        if self.any:
            return
        for lo, hi in self.may:
            if lo <= k < hi:
                break
        else:
            if k < 0:
                self.bad(I, ins, 'bounds', 'before', 'reads before the earliest byte it may')
                raise cube.Stop('bounds')
            for j in range(self.nul0, k):
                if I.eq(self.byte(I, j), const(0, 8)):
                    self.bad(I, ins, 'bounds', 'nul', 'reads beyond a NUL')
                    raise cube.Stop('bounds')
        self.good('bounds', site(ins)[0])


class PR(R):
    def missing(self, I, ins, obj, off):
        if obj[0] == 'in':
            return position(self.ck, I, off)
        raise Broken('reads uninitialised %s' % (obj,))


def fwd(ck, I, k):
    """One step on from k"""
    u, guard = KIND[ck.root[0]]
    if guard and I.eq(position(ck, I, k), const(0, 8)):
        return k
    if u == 'c':
        return k + 1
    n, ch = decode_at(ck, I, k)
    if I.eq(ch, const(0, 32)):
        raise cube.Stop('an overlong zero: neither a NUL nor anything else')
    return k + n


def decode_at(ck, I, k):
    class At:
        def byte(self, I, j):
            return position(ck, I, k + j)
    return decode(At(), I)


def bwd(ck, I, k, origin):
    u, guard = KIND[ck.root[0]]
    if guard == 2 and k <= origin:
        return k
    if u == 'c':
        return k - 1

    class At:
        def byte(self, I, j):
            return position(ck, I, k + j)
    return k - back(At(), I, min(6, k - origin) if guard == 2 else 6)


def find_roles(mod, rep):
    """Where each class keeps its position and origin"""
    out = {}
    for x in KIND:
        offs = {}

        class F(cube.Rule):
            def access(self, I, ins, obj, off, n, write, val):
                if obj == ('ptr',) and isinstance(val, P) and val.obj == ('in',):
                    offs[off] = 1
        I = cube.Interp(mod, cube.Cubes(), F(), {})
        I.run(mod.fns[x + '_ctor'], [P(('ptr',), 0), IN])
        seen = []

        class G(cube.Rule):
            def access(self, I, ins, obj, off, n, write, val):
                if obj == ('ptr',):
                    seen.append(off)

            def missing(self, I, ins, obj, off):
                return const(0, 8)
        I = cube.Interp(mod, cube.Cubes(), G(), {})
        I.run(mod.fns[x + '_cstr'], [P(('ptr',), 0)])
        if len(set(seen)) != 1:
            raise Broken('cannot find the position in class %s' % x)
        rest = [o for o in offs if o != seen[0]]
        if len(rest) != (KIND[x][1] == 2):
            raise Broken('cannot find the origin in class %s' % x)
        out[x] = (seen[0], rest[0] if rest else None)
    return out


def put(ck, I, obj, pos, origin):
    m = I.mem.setdefault((obj,), {})
    d, o = ck.roles[ck.root[0]]
    for k in range(8):
        m[d + k] = (pos, k)
        if o is not None:
            m[o + k] = (origin, k)


def holds(ck, I, obj, pos, origin, what):
    d, o = ck.roles[ck.root[0]]
    ck.same(I, I.load(None, P((obj,), d), 64, True), pos, 'the position of ' + what)
    if o is not None:
        ck.same(I, I.load(None, P((obj,), o), 64, True), origin, 'the origin of ' + what)


def pick(I, name, values, prio=200):
    for v in values[:-1]:
        if I.truth(I.inbits('%s is %s' % (name, v), 1, prio)):
            return v
    return values[-1]


def within(ck, I, p, n, origin):
    """Has the pointer stayed between its origin and the NUL?"""
    if not isinstance(p, P) or p.obj != ('in',):
        ck.bad(I, None, 'bounds', 'lost', 'leaves the pointer on no text')
        return
    k = I.conc(p.off)
    for j in range(0, k):
        if I.eq(position(ck, I, j), const(0, 8)):
            ck.bad(I, None, 'bounds', 'moved', 'moves beyond a NUL')
            return
    if origin is not None and k < origin:
        ck.bad(I, None, 'bounds', 'moved back', 'moves back past the origin')
        return
    ck.good('bounds', 'moves')


def p_step(ck, I):
    x, op = ck.root.split('_')
    u, guard = KIND[x]
    ptr, res = P(('ptr',), 0), P(('res',), 0)
    here = IN
    d = pick(I, 'distance from the origin', [0, 1, 2, 3, 4, 5, 6, 7, FAR]) if guard == 2 else FAR
    org = P(('in',), -d)
    ck.may, ck.nul0, ck.any = [], 0, False
    if op == '1sts':
        ck.same(I, ck.returns(I, [IN]), const(int(not is_cont(I, position(ck, I, 0))), 1), 'the answer')
        return
    if op == 'lenof':
        ch = I.inbits('ch', 32)
        ck.same(I, ck.returns(I, [ch]), I32(enc_len(I, ch)), 'the answer')
        return
    if op == 'ctor':
        ck.returns(I, [res, here])
        holds(ck, I, 'res', here, here, 'the pointer')
        return
    if op == 'ctor0':
        ck.returns(I, [res])
        holds(ck, I, 'res', NULL, NULL, 'the pointer')
        return
    put(ck, I, 'ptr', here, org)
    if op in ('copy', 'copym', 'assign'):
        if op == 'assign':
            o = pick(I, 'previous origin', [70, -90])
            put(ck, I, 'res', P(('in',), o + 7), P(('in',), o))
        ck.returns(I, [res, ptr])
        holds(ck, I, 'res', here, org, 'the copy')
        holds(ck, I, 'ptr', here, org, 'the original')
        return
    if op in ('diff', 'diffc'):
        k = pick(I, 'other position', [-3, 0, 5])
        put(ck, I, 'res', P(('in',), k), org)
        r = ck.returns(I, [ptr, res if op == 'diff' else P(('in',), k)])
        ck.same(I, r, const(-k & (2 ** 64 - 1), 64), 'the difference')
        return
    if op == 'bot':
        ck.same(I, ck.returns(I, [ptr]), const(int(d == 0), 1), 'the answer')
        return
    if op in ('deref', 'len', '1st', 'eof'):
        r = ck.returns(I, [ptr])
        if op == '1st':
            want = const(int(not is_cont(I, position(ck, I, 0))), 1)
        elif u == 'c':
            b = position(ck, I, 0)
            want = b if op == 'deref' else const(int(I.eq(b, const(0, 8))), 1)
        else:
            n, ch = decode_at(ck, I, 0)
            if op == 'eof' and I.eq(ch, const(0, 32)) and not I.eq(position(ck, I, 0), const(0, 8)):
                return		# an overlong zero
            want = ch if op == 'deref' else I32(n) if op == 'len' else const(int(I.eq(ch, const(0, 32))), 1)
        ck.same(I, r, want, 'the answer')
        holds(ck, I, 'ptr', here, org, 'the pointer')
        return
    base = op[:-1] if op.endswith('f') else op
    n = {'preincr': 1, 'postincr': 1, 'predecr': -1, 'postdecr': -1}.get(base)
    args = []
    if n is None:
        top = 3 if u == 'c' or ck.ascii else 1
        if u == 'c':
            top = 4
        n = pick(I, 'count', list(range(-top, top + 1)))
        args = [I32(n)]
        if base in ('minuseq', 'minus'):
            n = -n
    to = 0
    if u == 'c' and guard < 2 and n < 0 or guard == 0:
        to = n
    else:
        for _ in range(abs(n)):
            to = fwd(ck, I, to) if n > 0 else bwd(ck, I, to, -d)
    if n < 0:
        # stepping back reads what lies behind, no further than the origin
        lo = max(-d, -6 * -n)
        ck.may = [(lo, 0)]
    if guard == 0:
        ck.any = True
    value = base in ('postincr', 'postdecr', 'minuseq', 'plus', 'minus')
    r = ck.returns(I, ([res] if value else []) + [ptr] + args)
    new = P(('in',), to)
    if guard and 'bounds' in ck.rules:
        p = I.load(None, P((('res' if base in ('plus', 'minus') else 'ptr'),), ck.roles[x][0]), 64, True)
        within(ck, I, p, n, -d if guard == 2 else None)
    if value:
        holds(ck, I, 'res', here if base[:4] == 'post' else new, org, 'the result')
        holds(ck, I, 'ptr', here if base in ('plus', 'minus') else new, org, 'the pointer')
    else:
        ck.same(I, r, new, 'the result')
        holds(ck, I, 'ptr', new, org, 'the pointer')


def e_2(spec):
    def body(ck, I):
        s, m = I.inbits('set', 32, 1), I.inbits('msg', 32)
        want = cat([part(m, 0, 14), part(s, 0, 16), const(3, 2)])
        ck.same(I, ck.returns(I, [s, m]), spec(want, s, m), 'the answer')
    return body


def wrapped(I, x):
    if I.eq(x, I32(0)):
        return I32(0)
    return cat([part(x, 0, 30), const(3, 2)])


def e_1(ck, I):
    x = I.inbits('a', 32)
    ck.same(I, ck.returns(I, [x]), wrapped(I, x), 'the answer')


def e_none(ck, I):
    ck.same(I, ck.returns(I, []), I32(0), 'the answer')


def e_cmp(spec):
    def body(ck, I):
        a, b = I.inbits('a', 32, 1), I.inbits('b', 32)
        r = ck.returns(I, [a, b])
        x = wrapped(I, a)
        ck.same(I, r, const(int(spec(I, x, b)), 1), 'the answer')
    return body


def slt(I, a, b):
    return I.cmp('slt', a, b)


UTF = dict(u_get=u_get, u_peek=u_get, u_len=u_len, u_backup=u_backup, u_backup_lim=u_backup,
           u_correct=one('c', 8, lead_len, 32), u_1st=one('c', 8, lambda I, x: int(not is_cont(I, x)), 1),
           u_2nd=one('c', 8, lambda I, x: int(is_cont(I, x)), 1), u_encill=u_encill,
           u_isill=one('ch', 32, lambda I, x: int(illegal(I, x)), 1), u_lenof=one('ch', 32, enc_len, 32),
           u_put=u_put, u_padzero=u_padzero, u_putget=u_putget,
           x_ascii=one('ch', 32, lt(0x80), 1), x_latin1=one('ch', 32, lt(0x100), 1), x_unicode=one('ch', 32, lt(0x110000), 1),
           x_utf16=one('ch', 32, lt(0x10000), 1), x_digit=one('ch', 32, ascii_digit, 32),
           w_surr=one('c', 16, lambda I, x: surrogate(I, x, None), 1), w_1st=one('c', 16, lambda I, x: surrogate(I, x, 0), 1),
           w_2nd=one('c', 16, lambda I, x: surrogate(I, x, 1), 1), w_swab=w_swab, w_put=w_put, w_get=w_get, w_lenof=w_lenof, w_len=w_get)
OPS = ('ctor', 'ctor0', 'copy', 'copym', 'assign', 'deref', 'eof', 'preincr', 'postincr', 'predecr', 'postdecr', 'preincrf', 'postincrf', 'predecrf', 'postdecrf',
       'pluseq', 'minuseq', 'plus', 'minus', 'diff', 'diffc')
PTR = ['%s_%s' % (x, op) for x in KIND for op in OPS] + ['%s_%s' % (x, op) for x in 'de' for op in ('len', '1st', '1sts', 'lenof')] + ['c_bot', 'e_bot']
ERR = dict(e_make=e_2(lambda w, s, m: w), e_set=e_2(lambda w, s, m: zext(part(s, 0, 16), 32)), e_msg=e_2(lambda w, s, m: zext(part(m, 0, 14), 32)),
           e_rewrap=e_2(lambda w, s, m: w), e_wrap=e_1, e_copy=e_1, e_none=e_none,
           e_eq=e_cmp(lambda I, x, b: I.eq(x, wrapped(I, b))), e_ne=e_cmp(lambda I, x, b: not I.eq(x, wrapped(I, b))),
           e_eqi=e_cmp(lambda I, x, b: I.eq(x, b)), e_lti=e_cmp(lambda I, x, b: slt(I, x, b)), e_gti=e_cmp(lambda I, x, b: slt(I, b, x)))
OPAQUE = ('e_eq', 'e_ne', 'e_eqi', 'e_lti', 'e_gti')
READERS = ('u_get', 'u_peek', 'u_len', 'u_backup', 'u_backup_lim')


def load(roots, src='d_codec.cpp'):
    return ai.Mod(build.lower([src], roots=['^(%s)$' % '|'.join(roots)]))


JOBS = {}


def work(key):
    from .report import Report
    rep = Report('', '')
    JOBS[key](rep)
    return rep.dump()


def spread(rep, jobs, of=None):
    """Runs the units over the processors"""
    JOBS.clear()
    JOBS.update(jobs)
    with multiprocessing.Pool(8) as pool:
        for d in pool.imap(work, list(jobs), chunksize=1):
            rep.merge(d)
    rep.few_undecided(of or len(jobs))


def go(rep, mod, table, rules):
    def unit(r):
        return lambda rep: Check(rep, mod, r, rules).run(table[r])
    spread(rep, {r: unit(r) for r in table})


def ptr(rep, rules):
    mod = ai.Mod(build.lower(['d_ptr.cpp'], roots=['^[a-e]_']))
    roles = find_roles(mod, rep)

    def unit(r, ascii):
        def f(rep):
            ck = PtrCheck(rep, mod, r, rules)
            ck.roles, ck.ascii = roles, ascii
            ck.mk = PR
            ck.run(p_step)
        return f
    jobs = {}
    for r in PTR:
        for ascii in ((True, False) if KIND[r[0]][0] == 'u' and r.split('_')[1] in ('pluseq', 'minuseq', 'plus', 'minus') else (False,)):
            jobs[(r, ascii)] = unit(r, ascii)
    spread(rep, dict(sorted(jobs.items(), key=lambda k: 'e' not in k[0][0][0])))


def check_bounds(rep):
    t = {k: UTF[k] for k in READERS}
    go(rep, load(t), t, ('bounds',))
    ptr(rep, ('bounds',))
    rep.require('bounds', 30)


def check_codec(rep):
    go(rep, load(UTF), UTF, ('result', 'bounds'))
    rep.require('result', 40)


def check_ptr(rep):
    ptr(rep, ('result',))
    rep.require('result', 60)


def check_err(rep):
    from . import p_error
    go(rep, load(ERR), ERR, ('result', 'bounds'))
    p_error.check(rep)
    rep.require('result', 17)
    rep.require('memory', 1)
