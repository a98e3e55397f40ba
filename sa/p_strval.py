"""Strings: isolation, memory and exact results of every StrVal operation, over abstract characters.

A character is an opaque symbol of a known encoded size; strings are bodies in an explicit abstract heap.
Calls are analysed in place, on the IR of /repo's current source."""
from . import build, ai, cube
from .cube import P, V, NULL, const, part, zext, cat
from .p_codec import Check, pick, show, spread, I32
from .slices import site
from .build import Broken, VERIF

L = {}			# layout
NULLBODY = NULLVAL = None
RAW = 0xFFFFFFFF
# an encoded character: the fixed bytes, then one byte with the fixed high bits given and the rest unknown
CLASS = {1: ([], 0b01, 2), 6: ([0xFD, 0x84, 0x85, 0x86, 0x87], 0b10, 2), 2: ([0xD0], 0b10, 2), 3: ([0xE2, 0x82], 0b10, 2), 4: ([0xF0, 0x9F, 0x98], 0b10, 2), 'i': ([], 0b11111111, 8), 'z': ([], 0, 8), 't': ([], 0xE2, 8), 'r': ([], 0b1, 1)}
SIZE = {6: 6, 1: 1, 2: 2, 3: 3, 4: 4, 'i': 1, 'r': 1, 'z': 1, 't': 1}


def cbytes(I, cls, name):
    """The bytes of a character"""
    fix, hi, n = CLASS[cls]
    if n == 8:
        return [const(hi, 8)]
    return [const(b, 8) for b in fix] + [cat([I.inbits(('char', name), 8 - n), const(hi, n)])]


def code(bs):
    """The UCS4 value of the bytes of a character"""
    if len(bs) == 1:
        return zext(bs[0], 32)
    lead = {2: 5, 3: 4, 4: 3, 6: 1}[len(bs)]
    v = cat([part(b, 0, 6) for b in reversed(bs[1:])] + [part(bs[0], 0, lead)])
    return zext(v, 32)


def split_chars(bs, raw=False):
    """Bytes (V) into characters"""
    out, i = [], 0
    while i < len(bs):
        n = 1
        if not raw:
            b = bs[i].bits
            if b[7] == 1 and b[6] == 1:
                k = 7
                while k >= 0 and b[k] == 1:
                    k -= 1
                n = 7 - k
                if n > 6 or k >= 0 and b[k] != 0:
                    n = 1
            elif b[7] not in (0, 1) or b[7] == 1 and b[6] not in (0, 1):
                raise Broken('text of unknown encoding')
            if i + n > len(bs) or not all(x.bits[7] == 1 and x.bits[6] == 0 for x in bs[i + 1:i + n]):
                n = 1
        out.append(tuple(b.key() for b in bs[i:i + n]))
        i += n
    return out


class SR(cube.Rule):
    opaque = True
    parts = True
    inter = True
    limit = 400000

    def __init__(self, ck):
        self.ck = ck
        self.dead = {}			# object -> how it went
        self.size = {}			# data object -> bytes
        self.bytes = {}			# other objects -> bytes
        self.kind = {}			# object -> 'array' | 'object'
        self.owner = {}			# data object -> body
        self.allocs = 0
        self.static = set()		# data nobody may change
        self.mine = None		# the body that may be changed
        self.others = set()		# initial bodies
        self.counts = {}		# how many characters they have
        self.calls = []

    def viol(self, I, ins, rule, key, msg):
        self.ck.bad(I, ins, rule, key, msg)
        raise cube.Stop(key)

    def null(self, I, ins):
        self.viol(I, ins, 'memory', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.viol(I, ins, 'memory', 'undefined', what)

    def outside(self, I, ins, obj, off):
        self.viol(I, ins, 'memory', 'table', 'reads outside a table')

    def unordered(self, I, pred, a, b):
        if pred == 'sub' or a.obj is None or b.obj is None:
            return None
        self.viol(I, None, 'memory', 'unrelated', 'compares positions in unrelated storage')

    def missing(self, I, ins, obj, off):
        if obj in self.size:
            self.viol(I, ins, 'memory', 'uninit', 'reads text that was never written')
        if obj[0] == 'g':
            raise Broken('reads %s' % (obj,))
        return I.inbits(('junk', obj, off), 8)

    def leave(self, I, f, frame, kind):
        for o in frame:
            self.dead[o] = 'a local variable'

    def access(self, I, ins, obj, off, n, write, val):
        if obj in self.dead:
            self.viol(I, ins, 'memory', 'dead', 'uses %s after it is gone' % self.dead[obj])
        s = self.size.get(obj)
        if s is None and obj is not None and obj[0] == 'n' and len(obj) == 3:
            t = obj[1][2] if obj[1][0] == 'alloca' else self.bytes.get(obj)
            if t is not None and not 0 <= off <= off + n <= t:
                self.viol(I, ins, 'memory', 'local', '%s byte %d of a local variable of %d' % ('writes' if write else 'reads', off, t))
        if s is not None:
            if not 0 <= off <= off + n <= s:
                self.viol(I, ins, 'memory', 'bounds', '%s byte %d of text storage of %d' % ('writes' if write else 'reads', off, s))
            self.ck.good('memory', site(ins)[0] if ins is not None else '')
            if write:
                if obj in self.static:
                    self.viol(I, ins, 'isolation', 'static', 'writes text it does not own')
                b = self.owner.get(obj)
                if b is not None and b not in self.dead:
                    self.change(I, ins, b)
        elif write and obj is not None and obj[0] == 'g' and obj not in (NULLBODY, NULLVAL):
            self.viol(I, ins, 'isolation', 'constant', 'writes a constant')
        if write and isinstance(val, P) and off == L['b_start'] and val.obj in self.size:
            self.owner[val.obj] = obj
        if write and ins is not None and obj in self.counts and off == L['b_chars'] and not isinstance(val, P):
            rc = I.mem.get(obj, {}).get(L['b_count'])
            if rc and isinstance(rc[0], V) and I.conc(rc[0]) > 1:	# other threads may be reading it
                if I.conc(val, False) != self.counts[obj]:
                    self.viol(I, ins, 'isolation', 'counting', 'stores %d as the number of characters of a text of %d that strings of other threads may share' % (I.conc(val, False), self.counts[obj]))
                self.ck.good('isolation', 'count ' + site(ins)[0])
        if write and ins is not None and obj in self.others and off in (L['b_start'], L['b_elements'], L['b_alloc']):
            self.change(I, ins, obj)

    def change(self, I, ins, b):
        rc = I.mem.get(b, {}).get(L['b_count'])
        rc = I.conc(rc[0]) if rc and isinstance(rc[0], V) else 0
        if b == NULLBODY or b in self.others and rc > 1:
            self.viol(I, ins, 'isolation', 'shared', 'changes text that other strings share')
        if b in self.others and b != self.mine:
            self.viol(I, ins, 'isolation', 'other', 'changes the text of another string')
        if rc > 1:
            self.viol(I, ins, 'isolation', 'shared', 'changes text that other strings share')
        self.ck.good('isolation', site(ins)[0] if ins is not None else '')

    def alloc(self, I, n):
        o = I.new('text')
        self.size[o] = n
        self.kind[o] = 'array'
        return P(o, 0)

    def at(self, I, ins, p, i):
        """Byte i from a pointer"""
        off = I.conc(p.off) + i
        self.access(I, ins, p.obj, off, 1, False, None)
        v, k = I.cell(p.obj, off, ins)
        if isinstance(v, P):
            raise Broken('a pointer as text')
        return part(v, 8 * k, 8)

    def call(self, I, ins, name, args):
        VOID = ('void',)
        if name is None:
            return None
        if name == 'fn_manager':
            return const(1, 1)
        if name == 'fn_invoker':
            return self.ck.function(I, self, ins, args)
        if name in ('_Znwm', '_Znam'):
            self.allocs += 1
        if name == '_Znwm':
            o = I.new('object')
            self.kind[o] = 'object'
            self.bytes[o] = I.conc(args[0], False)
            return P(o, 0)
        if name == '_Znam':
            return self.alloc(I, I.conc(args[0], False))
        if name.startswith(('_ZdlPv', '_ZdaPv')):
            p = args[0]
            if p.obj is None:
                return VOID
            want = 'array' if name[3] == 'a' else 'object'
            if p.obj in self.dead:
                self.viol(I, ins, 'memory', 'twice', 'frees the same storage twice')
            if self.kind.get(p.obj) != want or I.conc(p.off) != 0:
                self.viol(I, ins, 'memory', 'free', 'frees as %s what was not allocated as one' % ('an array' if want == 'array' else 'an object'))
            self.ck.good('memory', 'free ' + site(ins)[0])
            if want == 'array':
                b = self.owner.get(p.obj)
                if b in self.others and b not in self.dead and I.conc(I.load(None, P(b, L['b_count']), 32, False)) > 1:
                    self.viol(I, ins, 'isolation', 'free', 'frees text that other strings share')
            self.dead[p.obj] = 'freed text' if want == 'array' else 'a freed body'
            return VOID
        if name == 'strlen':
            p = args[0]
            if not isinstance(p, P) or p.obj is None:
                self.null(I, ins)
            for i in range(300):
                if I.eq(self.at(I, ins, p, i), const(0, 8)):
                    return const(i, 64)
        if name in ('memcmp', 'strncmp', 'strcmp'):
            n = I.conc(args[2], False) if len(args) > 2 else 1 << 20
            for i in range(n):
                a, b = self.at(I, ins, args[0], i), self.at(I, ins, args[1], i)
                if not I.eq(a, b):
                    return I32(-1 if I.cmp('ult', a, b) else 1)
                if name[0] == 's' and I.eq(a, const(0, 8)):
                    break
            return I32(0)
        if name in ('memcpy', 'memmove'):
            n = I.conc(args[2], False)
            bs = [self.at(I, ins, args[1], i) for i in range(n)]
            for i, b in enumerate(bs):
                I.store(ins, P(args[0].obj, I.conc(args[0].off) + i), b)
            return args[0]
        if name == 'memchr':
            for i in range(I.conc(args[2], False)):
                if I.eq(self.at(I, ins, args[0], i), part(args[1], 0, 8)):
                    return P(args[0].obj, I.conc(args[0].off) + i)
            return NULL
        dem = I.mod.dem.get(name, '')
        if dem.startswith(('UCS4ToLower(', 'UCS4ToUpper(', 'UCS4ToTitle(')):
            return self.ck.cased(I, dem.split('(')[0], args[0])
        if name.startswith('_ZSt25__throw_bad_function_call'):
            return ('end', 'abort')
        if name == '__cxa_atexit':
            return I32(0)
        return None


class StrCheck(Check):
    only = None
    rawm = False
    mk = SR

    # ---- the heap
    def put(self, I, obj, off, v):
        m = I.mem.setdefault(obj, {})
        for i in range(8 if isinstance(v, P) else v.w // 8):
            m[off + i] = (v, i)

    def num(self, I, obj, off):
        return I.conc(I.load(None, P(obj, off), 32, False), False)

    def globals(self, I):
        b = NULLBODY
        I.rule.size[('lit',)] = 1
        I.rule.static.add(('lit',))
        self.put(I, ('lit',), 0, const(0, 8))
        self.mkbody(I, b, P(('lit',), 0), 1, 0, 0, 2)
        self.put(I, NULLVAL, L['body'], P(b, 0))
        for f in ('offset', 'num_chars', 'mark_char', 'mark_byte'):
            self.put(I, NULLVAL, L[f], I32(0))
        self.refs = {b: 2}		# itself and the null string

    def mkbody(self, I, b, start, elements, alloc, chars, rc):
        self.put(I, b, 0, P(('g', VTABLE), 16))
        self.put(I, b, L['b_count'], I32(rc))
        self.put(I, b, L['b_start'], start)
        self.put(I, b, L['b_elements'], I32(elements))
        self.put(I, b, L['b_alloc'], I32(alloc))
        self.put(I, b, L['b_chars'], I32(chars))
        I.rule.counts[b] = chars
        I.rule.others.add(b)
        I.rule.kind[b] = 'object'
        if start.obj is not None:
            I.rule.owner[start.obj] = b

    def body(self, I, nm, shape, mode, counted=True, roomy=False):
        """A body of the given characters"""
        R = I.rule
        b, d = ('b', nm), ('d', nm)
        bs = []
        for i, c in enumerate(shape):
            bs += cbytes(I, c, (nm, i))
        R.kind[d] = 'array'
        for i, x in enumerate(bs):
            self.put(I, d, i, x)
        n = len(bs)
        if mode == 'static':
            R.static.add(d)
            R.size[d] = n + 1
            self.put(I, d, n, I.inbits(('after', nm), 8) if roomy else const(0, 8))
            self.mkbody(I, b, P(d, 0), n + 1, 0, len(shape), 1)
            R.kind[b] = 'local'
            self.refs[b] = 1
        else:
            self.put(I, d, n, const(0, 8))
            R.size[d] = n + 1 + (40 if roomy else 0)
            raw = 'r' in shape
            self.mkbody(I, b, P(d, 0), n + 1, R.size[d], RAW if raw else len(shape) if counted else 0, 0)
            R.counts[b] = RAW if raw else len(shape)
        return b

    def string(self, I, obj, b, off, n, mark=(0, 0)):
        self.put(I, obj, L['body'], P(b, 0))
        self.put(I, obj, L['offset'], I32(off))
        self.put(I, obj, L['num_chars'], I32(n))
        self.put(I, obj, L['mark_char'], I32(mark[0]))
        self.put(I, obj, L['mark_byte'], I32(mark[1]))
        self.put(I, b, L['b_count'], I32(self.num(I, b, L['b_count']) + 1))

    def holds(self, I, obj, off=0):
        p = I.load(None, P(obj, off + L['body']), 64, True)
        return p.obj

    def text(self, I, obj, off=0, ref=False, what=None):
        """The characters of a string; its state must be consistent"""
        R = I.rule
        b = self.holds(I, obj, off)
        what = what or obj[0]
        if b is None:
            R.viol(I, None, 'state', 'none', 'leaves %s without a body' % what)
        if b in R.dead:
            R.viol(I, None, 'memory', 'dangling', 'leaves %s referring to a body that is gone' % what)
        st = I.load(None, P(b, L['b_start']), 64, True)
        el, al, ch = (self.num(I, b, L[f]) for f in ('b_elements', 'b_alloc', 'b_chars'))
        if st.obj is None or st.obj in R.dead:
            R.viol(I, None, 'memory', 'dangling', 'leaves %s with text storage that is gone' % what)
        if el < 1:
            R.viol(I, None, 'state', 'nul', 'leaves %s without a NUL' % what)
        o = I.conc(st.off)
        s = R.size.get(st.obj)
        if s is None:
            if st.obj[0] == 'g':		# a literal
                s = len(I.mod.globals[st.obj[1]].get('data', ()))
            else:
                R.viol(I, None, 'memory', 'transient', 'leaves %s referring to text it does not own' % what)
        if o + el > s or al > s or al and al < el:
            R.viol(I, None, 'state', 'room', 'leaves %s with %d bytes used and %d allocated of %d' % (what, el, al, s))
        bs = [R.at(I, None, st, i) for i in range(el - 1)]
        if al and not I.eq(R.at(I, None, st, el - 1), const(0, 8)):
            R.viol(I, None, 'state', 'nul', 'leaves %s without a NUL at the end' % what)
        cs = split_chars(bs, ch == RAW)
        if ch not in (RAW, 0) and ch != len(cs):
            R.viol(I, None, 'state', 'count', 'leaves %s with a count of %d characters for %d' % (what, ch, len(cs)))
        of, n = self.num(I, obj, off + L['offset']), self.num(I, obj, off + L['num_chars'])
        if of + n > len(cs):
            R.viol(I, None, 'state', 'slice', 'leaves %s with characters %d to %d of %d' % (what, of, of + n, len(cs)))
        if not ref:
            mc, mb = self.num(I, obj, off + L['mark_char']), self.num(I, obj, off + L['mark_byte'])
            if mc and (mc > len(cs) or mb != sum(len(c) for c in cs[:mc])):
                R.viol(I, None, 'state', 'mark', 'leaves %s with a bookmark of byte %d for character %d of the body' % (what, mb, mc))
        self.good('state', what)
        return cs[of:of + n]

    def cased(self, I, fn, ch):
        """Case conversion of a character: some character"""
        k = (fn, ch.key())
        c = pick(I, ('class', k), [1, 2, 3] if self.conv else [1, 2, 3, 6])
        self.conv.setdefault(k, c)
        return code(cbytes(I, c, k))

    def function(self, I, R, ins, args):
        """The function given to transform: takes some characters, gives back some others"""
        ret, cp, ep = args[0], args[2], args[3]
        p = I.load(ins, cp, 64, True)
        e = I.load(ins, ep, 64, True)
        st = I.conc(p.off)
        k = len(R.calls)
        here = self.input.get((p.obj, st))
        if here is None:
            self.bad(I, ins, 'result', 'position', 'calls the function in the middle of a character or outside the text')
            raise cube.Stop('position')
        if e.obj != p.obj or I.conc(e.off) != max(o for _, o in self.input):
            self.bad(I, ins, 'result', 'end', 'does not tell the function where the text ends')
            raise cube.Stop('end')
        left = self.count - here
        take = pick(I, ('take', k), [1, 0, 2])
        take = min(take, left)
        give = pick(I, ('give', k), [(2,), (), (1, 3)] + ([(1,) * j for j in (13, 14, 15)] if k == 0 else []))
        R.calls.append((here, take, give, k))
        to = [o for (_, o), i in self.input.items() if i == here + take][0]
        I.store(ins, cp, P(p.obj, to))
        if not give:
            self.string(I, ret.obj, NULLBODY, 0, 0) if I.conc(ret.off) == 0 else None
            return ('void',)
        b = self.body(I, ('given', k), give, 'own')
        if I.conc(ret.off):
            raise Broken('result inside an object')
        R.others.discard(b)
        self.string(I, ret.obj, b, 0, len(give))
        return ('void',)


# (shape, offset, length, mode, others sharing it, counted, roomy, bookmark)
def states(op):
    own, shared = [], []
    S = [
        ('null',),
        ([1, 2, 1], 0, 3, 'own', 0, True, False, (0, 0)),
        ([1, 2, 1], 0, 3, 'own', 1, True, True, (0, 0)),
        ([2, 1, 3, 1], 1, 2, 'own', 0, True, True, (0, 0)),
        ([2, 1, 3, 1], 1, 3, 'own', 1, True, False, (0, 0)),
        ([1, 1, 1, 1], 1, 2, 'own', 1, True, False, (0, 0)),
        ([1, 1, 1], 0, 3, 'own', 0, True, True, (0, 0)),
        ([1, 3], 0, 2, 'own', 0, False, True, (0, 0)),
        ([], 0, 0, 'own', 0, True, True, (0, 0)),
        ([1, 2], 0, 2, 'static', 0, True, False, (0, 0)),
        ([3, 1, 2], 0, 2, 'static', 0, True, True, (0, 0)),
        ([1, 'i', 2], 0, 3, 'own', 0, True, False, (0, 0)),
        ([1, 2, 1, 3, 1, 2, 1, 1, 2], 0, 9, 'own', 0, True, False, (5, 8)),
        ([1, 2, 1, 3, 1, 2, 1, 1, 2], 1, 7, 'own', 1, True, True, (4, 7)),
    ]
    return S


RAWS = [(['r', 'r', 'r'], 0, 3, 'own', 0, True, False, (0, 0)), (['r', 'r', 'r', 'r'], 1, 2, 'own', 1, True, True, (0, 0)), (['r', 'r', 'r', 'r'], 0, 3, 'own', 0, True, True, (0, 0))]
NOTRAW = ('f_plus', 'f_plusc', 'f_pluscstr', 'f_cstrplus', 'f_pluseqc', 'f_times', 'f_lower', 'f_upper', 'f_aslower', 'f_asupper', 'f_transform')
OTHERS = [
    ([1], 0, 1, 'own', 0, True, False, (0, 0)),
    ('null',),
    ([2, 1], 0, 2, 'own', 1, True, False, (0, 0)),
    ([1, 2, 1], 1, 1, 'own', 1, True, False, (0, 0)),
    ([1, 1, 1], 1, 2, 'own', 0, True, False, (0, 0)),
    ([1, 2], 0, 2, 'static', 0, True, False, (0, 0)),
    ([1, 3, 2], 1, 2, 'static', 0, True, True, (0, 0)),
    ('self',),
]
OTHERS_RAW = [
    (['r'], 0, 1, 'own', 0, True, False, (0, 0)),
    (['r', 'r', 'r'], 1, 2, 'own', 1, True, False, (0, 0)),
    ('self',),
]
CONCAT = ('f_plus', 'f_pluseq', 'f_insert', 'f_append', 'f_prepend', 'f_assign', 'f_refassign')


def candidates(op):
    """The states of the string operated on"""
    c = states(op)
    case = op in ('f_lower', 'f_upper', 'f_aslower', 'f_asupper', 'f_transform')
    heavy = case or 'find' in op or op in CONCAT or op in ('f_compare', 'f_eq', 'f_ne', 'f_lt', 'f_le', 'f_gt', 'f_ge')
    for sh in ([2, 1, 3, 1], [1, 1, 1, 1]):
        for of in range(4):
            for n in range(1, 5 - of):
                if heavy and (of, n) not in ((0, 3), (1, 3), (1, 2)) and not (op in CONCAT and (of, n) in ((0, 1), (0, 2), (1, 1))):
                    continue
                for mode, sharers, counted, roomy in (('own', 0, True, False), ('own', 1, True, True), ('own', 0, False, False), ('static', 0, True, False), ('static', 0, True, True)):
                    if not counted and n != 4 or heavy and sh[0] == 1 and mode != 'own':
                        continue
                    x = (sh, of, n, mode, sharers, counted, roomy, (0, 0))
                    if not any(y[0] == sh and y[1:4] == x[1:4] and (y[4] == x[4] if y[3] == 'own' else y[6] == x[6]) for y in c if y[0] != 'null') or not counted:
                        c.append(x)
    c += [([1, 'z', 2], 0, 3, 'own', 0, True, False, (0, 0)), ([1, 2, 't'], 0, 3, 'own', 0, True, False, (0, 0)), ([3, 't', 1], 1, 2, 'own', 1, True, True, (0, 0))]
    if op in ('f_index', 'f_substr', 'f_utf8', 'f_utf8n', 'f_numbytes', 'f_copy'):
        sh = [1, 2, 1, 3, 1, 2, 1, 1, 2]
        c += [(sh, of, n, 'own', 0, True, False, (k, sum(sh[:k]))) for of, n in ((0, 9), (2, 6)) for k in range(1, of + n + 1) if k != 5]
    if case:
        c = [x for x in c if x[0] == 'null' or x[2] <= 3]
    if op not in NOTRAW:
        c += RAWS
    return c


TEXTS = [[1], [], [2, 1], [1, 1, 3]]
ARGS = {
    'f_null': '>', 'f_cstr': '>t', 'f_data': '>tnA', 'f_char': '>c', 'f_copy': '>m', 'f_ofref': '>m', 'f_ref': '>m', 'f_refassign': 'mo', 'f_dtor': 'm',
    'f_assign': 'mo', 'f_numbytes': 'm', 'f_length': 'm', 'f_empty': 'm', 'f_index': 'mi', 'f_utf8': 'm', 'f_utf8n': 'mN', 'f_compare': 'mo',
    'f_substr': '>mal', 'f_head': '>mh', 'f_tail': '>mh', 'f_shorter': '>ms', 'f_findc': 'mcf', 'f_rfindc': 'mcb', 'f_find': 'mof', 'f_rfind': 'mob',
    'f_findany': 'mof', 'f_rfindany': 'mob', 'f_findnot': 'mof', 'f_rfindnot': 'mob', 'f_pluscstr': '>mt', 'f_plus': '>mo', 'f_plusc': '>mc', 'f_cstrplus': '>tm',
    'f_pluseq': 'mo', 'f_pluseqc': 'mc', 'f_times': '>mx', 'f_insert': 'mpo', 'f_append': 'mo', 'f_prepend': 'mo', 'f_lower': 'm', 'f_upper': 'm',
    'f_aslower': '>m', 'f_asupper': '>m', 'f_transform': 'mFg',
}
for _r in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    ARGS['f_' + _r] = 'mo'
SHARES = {'f_copy', 'f_ofref', 'f_ref', 'f_assign', 'f_refassign', 'f_substr', 'f_head', 'f_tail', 'f_shorter', 'f_length', 'f_empty', 'f_numbytes', 'f_index', 'f_utf8n', 'f_compare', 'f_lt', 'f_le', 'f_gt', 'f_ge',
          'f_eq', 'f_ne', 'f_findc', 'f_rfindc', 'f_find', 'f_rfind', 'f_findany', 'f_rfindany', 'f_findnot', 'f_rfindnot'}
MUTATES = {'f_pluseq', 'f_pluseqc', 'f_insert', 'f_append', 'f_prepend', 'f_lower', 'f_upper', 'f_transform', 'f_assign', 'f_refassign', 'f_dtor'}


def same_chars(I, a, b):
    """Are two characters (byte keys) the same?"""
    if a == b:
        return True
    if len(a) != len(b):
        return False
    return all(x == y or I.eq(V(*x), V(*y)) for x, y in zip(a, b))


def order(I, a, b):
    """The order of two texts: bytes, then length"""
    x, y = [k for c in a for k in c], [k for c in b for k in c]
    for p, q in zip(x, y):
        if p != q and not I.eq(V(*p), V(*q)):
            return -1 if I.cmp('ult', V(*p), V(*q)) else 1
    return len(x) - len(y)


def txt(cs):
    def c(k):
        n = 0
        for w, b in k:
            pass
        names = []
        return '%d' % len(k)
    return '[%s]' % ' '.join('/'.join(''.join('?' if b not in (0, 1) else str(b) for b in reversed(bits)) for w, bits in ch) for ch in cs)


def step(ck, I):
    R = I.rule
    op = ck.root
    sig = ARGS[op]
    ck.globals(I)
    ck.conv = {}
    raw = False
    vals = {}
    args = []
    extra = []				# other strings about, that must not change
    searching = op in ('f_find', 'f_rfind', 'f_findany', 'f_rfindany', 'f_findnot', 'f_rfindnot', 'f_compare', 'f_eq', 'f_ne', 'f_lt', 'f_le', 'f_gt', 'f_ge')
    if 'm' in sig:
        cand = candidates(op) if ck.only is None else ck.only
        m = pick(I, 'string', cand)
        if m[0] == 'null':
            ck.string(I, ('m',), NULLBODY, 0, 0)
            mb = NULLBODY
        else:
            sh, of, n, mode, sharers, counted, roomy, mark = m
            raw = 'r' in sh
            mb = ck.body(I, 'm', sh, mode, counted, roomy)
            ck.string(I, ('m',), mb, of, n, mark)
            if sharers:
                ck.string(I, ('x0',), mb, 0, len(sh))
                extra.append(('x0',))
    if 'o' in sig:
        n0 = 0 if m[0] == 'null' else m[2]
        oc = list(OTHERS_RAW if raw else OTHERS)
        if m[0] != 'null' and not (raw and op in NOTRAW):
            ps = [(a, l) for a in range(len(sh) + 1) for l in sorted({1, len(sh) - a}) if 1 <= l <= len(sh) - a]
            oc += [('part', a, l) for a, l in ps if op in CONCAT or (a, l) in ((of, 1), (of, n), (0, len(sh)))]
        if n0 > 4 and op not in CONCAT:
            oc = [o for o in oc if o is OTHERS[0] or 'find' in op and op[-3:] != 'any' and op[-3:] != 'not' and o is OTHERS[2]]
        o = pick(I, 'other', oc)
        oobj = ('o',)
        if o[0] == 'self':
            oobj = ('m',)
        elif o[0] == 'null':
            ck.string(I, oobj, NULLBODY, 0, 0)
        elif o[0] == 'part':
            ck.string(I, oobj, mb, o[1], o[2])
        else:
            ob = ck.body(I, 'o', o[0], o[3], o[5], o[6])
            ck.string(I, oobj, ob, o[1], o[2], o[7])
            if o[4]:
                ck.string(I, ('x1',), ob, 0, len(o[0]))
                extra.append(('x1',))
    ck.rawm = raw
    if 'm' in sig:
        vals['m'] = ck.text(I, ('m',))
    if 'o' in sig:
        vals['o'] = ck.text(I, oobj)
    n = len(vals.get('m', ()))
    if (op in MUTATES or op == 'f_utf8') and 'm' in sig and mb != NULLBODY:
        R.mine = mb
    for a in sig:
        if a == '>':
            args.append(P(('res',), 0))
        elif a == 'm':
            args.append(P(('m',), 0))
        elif a == 'o':
            args.append(P(oobj, 0))
        elif a == 't':
            sh = pick(I, 'text', TEXTS)
            bs = [b for i, c in enumerate(sh) for b in cbytes(I, c, ('t', i))]
            for i, b in enumerate(bs):
                ck.put(I, ('t',), i, b)
            if 'n' not in sig:
                ck.put(I, ('t',), len(bs), const(0, 8))
            R.size[('t',)] = len(bs) + ('n' not in sig)
            R.static.add(('t',))
            R.kind[('t',)] = 'text'
            vals['t'] = split_chars(bs)
            vals['tb'] = len(bs)
            args.append(P(('t',), 0))
        elif a == 'n':
            args.append(I32(vals['tb']))
        elif a == 'A':
            args.append(const(pick(I, 'allocate', [0, 1, 20]), 64))
        elif a == 'c':
            c = pick(I, 'class', ['r'] if raw else [1, 2, 3] if searching or 'find' in op else [1, 2, 3, 4, 6])
            bs = cbytes(I, c, 'ch')
            vals['c'] = tuple(b.key() for b in bs)
            args.append(code(bs))
        else:
            d = {'i': list(range(n + 2)) + [-1], 'a': list(range(n + 2)), 'l': [-2] + list(range(-1, n + 2)), 'h': list(range(n + 2)) if op == 'f_head' else list(range(n + 1)),
                 's': list(range(n + 2)), 'f': list(range(-1, n + 1)), 'b': list(range(-1, n + 2)), 'x': [0, 1, 2, 3], 'p': list(range(n + 1)), 'g': [-1, 0, 1]}.get(a)
            if a == 'N':
                R.kind[('n',)] = 'number'
                args.append(P(('n',), 0))
            elif a == 'F':
                ck.put(I, ('fn',), 16, P(('f', 'fn_manager'), 0))
                ck.put(I, ('fn',), 24, P(('f', 'fn_invoker'), 0))
                for k in range(16):
                    I.mem[('fn',)].setdefault(k, (const(0, 8), 0))
                args.append(P(('fn',), 0))
            else:
                if n > 4:
                    d = [x for x in d if x in (-1, 0, 2, n // 2, n - 2, n - 1, n, n + 1)]
                vals[a] = pick(I, {'i': 'index', 'a': 'at', 'l': 'length', 'h': 'count', 's': 'count', 'f': 'after', 'b': 'before', 'x': 'times', 'p': 'at', 'g': 'after'}[a], d)
                args.append(I32(vals[a]))
    watch = {x: ck.text(I, x) for x in extra}
    if 'o' in sig and oobj != ('m',):
        watch[oobj] = vals['o']
    if 'm' in sig and op not in MUTATES:
        watch[('m',)] = vals['m']
    if op == 'f_transform':
        setup_input(ck, I, mb)
        if mb in R.others and mb != NULLBODY:
            pass
    shares = None
    if op in SHARES:		# the text it makes another reference to
        shares = ck.holds(I, oobj if op in ('f_assign', 'f_refassign') else ('m',))
    kind, r, ins = I.run(ck.fn, args)
    if kind != 'ret':
        ck.bad(I, ins, 'result', 'abort', 'aborts')
        return
    if shares not in (None, NULLBODY) and R.kind.get(shares) != 'local':
        if R.allocs:
            ck.bad(I, None, 'sharing', 'copied', 'allocates: copies and substrings share the text, and nothing that only looks needs a copy')
        else:
            ck.good('sharing', 'shares the text')
    # ---- others
    for x in sorted(watch):
        t = ck.text(I, x, what={'x0': 'a string that shares the text', 'x1': 'a string that shares the other text', 'o': 'its operand', 'm': 'the string'}[x[0]])
        if t != watch[x]:
            ck.bad(I, None, 'isolation', 'changed ' + x[0], 'changes %s: %s, was %s' % ({'m': 'the string it is only reading', 'o': 'its operand'}.get(x[0], 'another string'), txt(t), txt(watch[x])))
        else:
            ck.good('isolation', 'unchanged')
    live = [x for x in watch]
    if 'm' in sig and op != 'f_dtor' and ('m',) not in live:
        live.append(('m',))
    if '>' in sig:
        live.append(('res',))
    # ---- what it is
    spec(ck, I, R, op, vals, r, args)
    # ---- references
    held = dict(ck.refs)
    for x in live:
        b = ck.holds(I, x)
        held[b] = held.get(b, 0) + 1
        if b in R.others and R.kind.get(b) == 'local' and x in (('m',), ('res',)) and op not in ('f_substr', 'f_head', 'f_tail', 'f_shorter', 'f_assign', 'f_refassign', 'f_ref', 'f_ofref', 'f_plus', 'f_append', 'f_pluseq', 'f_insert') \
                and not (x == ('m',) and b == mb):
            R.viol(I, None, 'memory', 'transient', 'keeps text it does not own')
    for b in list(R.kind):
        if R.kind[b] == 'array' and b not in R.dead and b not in R.static:
            o = R.owner.get(b)
            if o is None or o in R.dead and o[0] != 'd':
                ck.bad(I, None, 'memory', 'leak', 'does not free text storage')
                continue
            st = I.load(None, P(o, L['b_start']), 64, True)
            if st.obj != b:
                ck.bad(I, None, 'memory', 'leak', 'does not free text storage it replaced')
                continue
            ck.good('memory', 'owned')
        if R.kind[b] not in ('object', 'local') or b in R.dead:
            continue
        c = I.mem.get(b, {}).get(L['b_count'])
        if c is None or not isinstance(c[0], V):
            continue
        c = I.conc(c[0])
        if c != held.get(b, 0):
            ck.bad(I, None, 'balance', 'count', 'leaves a body counted %d times with %d references to it' % (c, held.get(b, 0)))
        else:
            ck.good('balance', 'count')


def setup_input(ck, I, b):
    """Where the characters the function is to be given start: the body at that time is the string's own copy, or a new one"""
    ck.count = len(ck.text(I, ('m',)))
    cs = ck.text(I, ('m',))

    class Where(dict):
        def get(self, k, d=None):
            obj, off = k
            at = 0
            for i, c in enumerate(cs + [()]):
                if at == off:
                    return i
                at += len(c)
            return d

        def __iter__(self):
            raise Broken('')
    ck.cs = cs
    offs, at = [], 0
    for c in cs:
        offs.append(at)
        at += len(c)
    offs.append(at)

    class In:
        def get(self, k):
            return offs.index(k[1]) if k[1] in offs else None

        def __iter__(self):
            return iter([(None, o) for o in offs])

        def items(self):
            return [((None, o), i) for i, o in enumerate(offs)]
    ck.input = In()


def spec(ck, I, R, op, v, r, args):
    m, o = v.get('m'), v.get('o')
    n = len(m) if m is not None else 0
    res = mm = None

    def num(want, what='the answer'):
        c = I.conc(r) if isinstance(r, V) and r.const() is not None else None
        if c is None or c != want:
            ck.bad(I, None, 'result', what, '%s is %s, not %s%s' % (what, c, want, where()))
        else:
            ck.good('result', what)

    def where():
        return ' for a string of %d characters%s' % (n, ''.join(', %s %s' % (k, v[k]) for k in v if isinstance(v[k], int) and k != 'tb'))

    def text(obj, want, what):
        got = ck.text(I, obj, ref=op == 'f_ref' or op == 'f_refassign')
        if got != want:
            ck.bad(I, None, 'result', what, '%s is %s, not %s%s' % (what, txt(got), txt(want), where()))
        else:
            ck.good('result', what)
    at = lambda k: v[k]
    if op == 'f_null':
        res = []
    elif op in ('f_cstr', 'f_data'):
        res = v['t']
    elif op == 'f_char':
        res = [v['c']]
    elif op in ('f_copy', 'f_ofref', 'f_ref'):
        res = m
    elif op in ('f_assign', 'f_refassign'):
        mm = o
    elif op == 'f_numbytes':
        num(sum(len(c) for c in m))
    elif op == 'f_length':
        num(n)
    elif op == 'f_empty':
        ck.same(I, r, const(int(n == 0), 1), 'the answer')
    elif op == 'f_index':
        i = v['i']
        if not 0 <= i <= n:
            want = I32(-1)
        elif i == n:
            want = I32(0)
        else:
            c = m[i]
            want = code([V(*k) for k in c]) if len(c) > 1 or V(*c[0]).bits[7] == 0 or args_raw(R) else cat([V(*c[0]), const(0x800000, 24)])
        if r.key() != want.key():
            ck.bad(I, None, 'result', 'character', 'character %d is %s, not %s' % (i, show(r), show(want)))
        else:
            ck.good('result', 'character')
    elif op in ('f_utf8', 'f_utf8n'):
        bs = [k for c in m for k in c]
        got = [R.at(I, None, r, i).key() for i in range(len(bs))]
        if got != bs:
            ck.bad(I, None, 'result', 'bytes', 'gives other bytes than those of the characters')
        elif op == 'f_utf8' and R.at(I, None, r, len(bs)).const() != 0:
            ck.bad(I, None, 'result', 'nul', 'gives text without a NUL after it')
        elif op == 'f_utf8n' and ck.num(I, ('n',), 0) != len(bs):
            ck.bad(I, None, 'result', 'length', 'says there are %d bytes, not %d' % (ck.num(I, ('n',), 0), len(bs)))
        else:
            ck.good('result', 'bytes')
        if op == 'f_utf8':
            mm = m
    elif op in ('f_compare', 'f_lt', 'f_le', 'f_gt', 'f_ge'):
        c = order(I, m, o)
        if op == 'f_compare':
            x = I.conc(r)
            if (x > 0) - (x < 0) != (c > 0) - (c < 0):
                ck.bad(I, None, 'result', 'order', 'says %d for texts in order %d' % (x, c))
            else:
                ck.good('result', 'order')
        else:
            ck.same(I, r, const(int({'f_lt': c < 0, 'f_le': c <= 0, 'f_gt': c > 0, 'f_ge': c >= 0}[op]), 1), 'the answer')
    elif op in ('f_eq', 'f_ne'):
        ck.same(I, r, const(int((n == len(o) and order(I, m, o) == 0) == (op == 'f_eq')), 1), 'the answer')
    elif op == 'f_substr':
        a, l = v['a'], v['l']
        res = [] if l < -1 or l == 0 or a >= n else m[a:] if l == -1 else m[a:a + l]
    elif op == 'f_head':
        res = m[:v['h']]
    elif op == 'f_tail':
        res = m[n - v['h']:]
    elif op == 'f_shorter':
        res = m[:max(0, n - v['s'])]
    elif op == 'f_findc':
        num(next((i for i in range(v['f'] + 1, n) if same_chars(I, m[i], v['c'])), -1))
    elif op == 'f_rfindc':
        b = v['b']
        num(next((i for i in reversed(range(n if b == -1 or b > n else b)) if same_chars(I, m[i], v['c'])), -1))
    elif op in ('f_find', 'f_rfind'):
        def match(i):
            return all(same_chars(I, x, y) for x, y in zip(m[i:i + len(o)], o))
        last = n - len(o)
        if op == 'f_find':
            num(next((i for i in range(v['f'] + 1, last + 1) if match(i)), -1))
        else:
            b = v['b']
            num(next((i for i in reversed(range((last if b == -1 or b > last else b - 1) + 1)) if match(i)), -1))
    elif op in ('f_findany', 'f_rfindany', 'f_findnot', 'f_rfindnot'):
        def hit(i):
            return any(same_chars(I, m[i], x) for x in o) == (op[-3:] == 'any')
        b = v.get('b')
        pos = range(v['f'] + 1, n) if 'f' in v else reversed(range(n if b == -1 or b > n else b))
        num(next((i for i in pos if hit(i)), -1))
    elif op == 'f_pluscstr':
        res = m + v['t']
    elif op == 'f_plus':
        res = m + o
    elif op == 'f_plusc':
        res = m + [v['c']]
    elif op == 'f_cstrplus':
        res = v['t'] + m
    elif op in ('f_pluseq', 'f_append'):
        mm = m + o
    elif op == 'f_pluseqc':
        mm = m + [v['c']]
    elif op == 'f_times':
        res = m * v['x']
    elif op == 'f_insert':
        mm = m[:v['p']] + o + m[v['p']:]
    elif op == 'f_prepend':
        mm = o + m
    elif op in ('f_lower', 'f_upper', 'f_aslower', 'f_asupper'):
        fn = 'UCS4ToLower' if 'lower' in op else 'UCS4ToUpper'
        out = []
        for c in m:
            ch = code([V(*k) for k in c]) if len(c) > 1 or V(*c[0]).bits[7] == 0 else cat([V(*c[0]), const(0x800000, 24)])
            k = (fn, ch.key())
            out.append(tuple(b.key() for b in cbytes(I, ck.conv.get(k, 1), k)))
        if op[2:4] == 'as':
            res = out
        else:
            mm = out
    elif op == 'f_transform':
        out, i, k, stopped = [], 0, 0, False
        calls = R.calls
        while i < n:
            if i > v['g'] and not stopped:
                if k >= len(calls) or calls[k][0] != i:
                    ck.bad(I, None, 'result', 'calls', 'does not call the function for character %d' % i)
                    return
                _, take, give, kk = calls[k]
                k += 1
                for j, c in enumerate(give):
                    out.append(tuple(b.key() for b in cbytes(I, c, (('given', kk), j))))
                i += take
                stopped = take == 0
            else:
                out.append(m[i])
                i += 1
        if k != len(calls):
            ck.bad(I, None, 'result', 'calls', 'calls the function %d times, not %d' % (len(calls), k))
            return
        mm = out
    elif op == 'f_dtor':
        pass
    else:
        raise Broken('no specification for %s' % op)
    if res is not None:
        text(('res',), res, 'the result')
    if mm is not None:
        text(('m',), mm, 'the string')
    if op in MUTATES and op not in ('f_dtor', 'f_refassign'):
        if not (isinstance(r, P) and r.obj == ('m',) and I.conc(r.off) == 0):
            ck.bad(I, None, 'result', 'itself', 'does not return the string itself')
        else:
            ck.good('result', 'itself')


def args_raw(R):
    return any(b == ('b', 'm') for b in R.others) and R.ck.rawm


VTABLE = None


def load():
    return ai.Mod(build.lower(['d_strval.cpp', 'src/char_encoding.cpp'], roots=['.*'], inline=False, extra=['-fno-access-control']))


def layout(mod):
    global NULLBODY, NULLVAL, VTABLE
    for f in mod.fns:
        if f[:2] in ('o_', 's_'):
            L[f[2:]] = cube.Interp(mod, cube.Cubes(), cube.Rule(), {}).run(mod.fns[f], [])[1].const()
    g = [n for n in mod.globals if mod.globals[n]['dem'] == 'StrBodyI<unsigned int>::nullBody']
    h = [n for n in mod.globals if mod.globals[n]['dem'] == 'StrValI<unsigned int>::null']
    if len(g) != 1 or len(h) != 1:
        raise Broken('cannot find the null string')
    NULLBODY, NULLVAL = ('g', g[0]), ('g', h[0])
    VTABLE = '_ZTV8StrBodyIIjE'
    if VTABLE not in mod.globals:
        raise Broken('cannot find the virtual functions of a body')


def strings(rep, rules):
    mod = load()
    layout(mod)

    def unit(r, only):
        def f(rep):
            ck = StrCheck(rep, mod, r, rules)
            ck.only = only
            ck.run(step)
        return f
    jobs = {}
    for r in ARGS:
        cs = candidates(r) if 'm' in ARGS[r] else [None]
        k = 3 if r == 'f_transform' else 6
        for i in range(0, len(cs), k):
            jobs[(r, i)] = unit(r, cs[i:i + k] if cs[0] is not None else None)
    spread(rep, dict(sorted(jobs.items(), key=lambda x: (x[0][0] != 'f_transform', 'find' not in x[0][0]))))


def check_isolation(rep):
    strings(rep, ('isolation', 'balance', 'memory', 'sharing'))
    rep.require('sharing', 1)
    rep.require('isolation', 10)
    rep.require('balance', 20)
    rep.require('memory', 20)


def check_results(rep):
    strings(rep, ('result', 'state'))
    rep.require('result', 30)
    rep.require('state', 10)
