"""Variants: the tag says what the union holds (typestate of the payload), values survive, coercion loses nothing; JSON text."""
import re
from . import build, ai, cube
from .cube import P, V, NULL, const, part, zext, cat, mk
from .p_codec import Check, pick, show, spread, I32
from .slices import site
from .build import Broken, VERIF

NONE, INT, LONG, LL, STR, SARR, VARR, MAP = range(8)
NAMES = ['None', 'Integer', 'Long', 'LongLong', 'String', 'StrArray', 'VarArray', 'StrVarMap']
KEEP = ['^(StrValI|StrRefI|StrBodyI|Array|ArrayR|ArrayBody|CowMap|CowMapBody)<', '^(StringArray|StrVariantMap)::', '^Variant::as_json']
SIZE = {}
TAG = PAY = None


def family(cls):
    if cls.startswith(('StrValI<', 'StrRefI<')):
        return 'str'
    if cls.startswith('StringArray') or re.match(r'ArrayR?<StrRefI<', cls):
        return 'sarr'
    if re.match(r'ArrayR?<Variant,', cls):
        return 'varr'
    if cls.startswith('StrVariantMap') or cls.startswith('CowMap<Variant,'):
        return 'map'
    return None


FAM = {STR: 'str', SARR: 'sarr', VARR: 'varr', MAP: 'map'}
EMPTY = {'str': ('S',), 'sarr': ('A',), 'varr': ('A',), 'map': ('M',)}


def split_dem(dem):
    """class, method, parameter list of a demangled member function"""
    depth = 0
    lp = None
    for i, c in enumerate(dem):
        if c == '<':
            depth += 1
        elif c == '>' and dem[i - 1] != '-':
            depth -= 1
        elif c == '(' and depth == 0 and dem[i - 8:i] != 'operator':
            lp = i
            break
    head, par = dem[:lp], dem[lp:]
    depth = 0
    at = -1
    for i in range(len(head) - 1, 0, -1):
        c = head[i]
        if c == '>' and head[i - 8:i] != 'operator' and head[i-1] != '-':
            depth += 1
        elif c == '<' and depth:
            depth -= 1
        elif depth == 0 and head[i - 1:i + 1] == '::':
            at = i + 1
            break
    return head[:at - 2], head[at:], par


class VR(cube.Rule):
    opaque = False

    def __init__(self, ck):
        self.ck = ck
        self.live = {}			# (object, offset) -> [family, value, size]
        self.zero = {}
        self.texts = {}			# buffer object -> (offset, pieces)
        self.external = set()

    def viol(self, I, ins, rule, key, msg):
        self.ck.bad(I, ins, rule, key, msg)
        raise cube.Stop(key)

    def null(self, I, ins):
        self.viol(I, ins, 'payload', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.viol(I, ins, 'payload', 'undefined', what)

    def outside(self, I, ins, obj, off):
        self.viol(I, ins, 'payload', 'table', 'reads outside the table of type names')

    def missing(self, I, ins, obj, off):
        if obj[0] == 'n' or obj[0] in ('m', 'o', 'res', 'x', 'y'):
            return I.inbits(('junk', obj, off), 8)
        raise Broken('reads %s+%s' % (obj, off))

    def over(self, obj, off, n):
        for (o, p), x in self.live.items():
            if o == obj and off < p + x[2] and p < off + n:
                return (o, p), x
        return None

    def access(self, I, ins, obj, off, n, write, val):
        k = self.over(obj, off, n)
        if k:
            if ins is not None and ins['op'] == 'call' and 'memset' not in ins.get('callee', ''):
                raise Broken('moves a %s byte by byte' % k[1][0])
            if write:
                self.viol(I, ins, 'payload', 'overwrite', 'overwrites a %s that has not been destroyed' % k[1][0])
            else:
                self.viol(I, ins, 'payload', 'pun', 'reads the bytes of a %s as something else' % k[1][0])

    # ---- objects
    def make(self, I, ins, p, fam, val, size):
        k = (p.obj, I.conc(p.off))
        o = self.over(k[0], k[1], size)
        if o:
            self.viol(I, ins, 'payload', 'twice', 'constructs over a %s that has not been destroyed' % o[1][0])
        m = I.mem.setdefault(k[0], {})
        for i in range(size):
            m[k[1] + i] = (I.inbits(('bytes of', fam, i), 8), 0)
        self.live[k] = [fam, val, size]
        self.ck.good('payload', site(ins)[0])

    def zeroed(self, I, k, n):
        m = I.mem.get(k[0], {})
        return all(k[1] + i in m and isinstance(m[k[1] + i][0], V) and part(m[k[1] + i][0], 8 * m[k[1] + i][1], 8).const() == 0 for i in range(n))

    def at(self, I, ins, p, fam, what):
        if not isinstance(p, P) or p.obj is None:
            self.null(I, ins)
        k = (p.obj, I.conc(p.off))
        x = self.live.get(k)
        if x is None:
            if self.zeroed(I, k, 8) and not self.over(k[0], k[1], 8):
                return None			# storage of zeros: a null reference
            self.viol(I, ins, 'payload', 'none', '%s a %s where there is none' % (what, fam))
        if x[0] != fam:
            self.viol(I, ins, 'payload', 'type', '%s a %s as a %s' % (what, x[0], fam))
        self.ck.good('payload', site(ins)[0])
        return x

    def value(self, I, ins, p, fam, what='reads'):
        x = self.at(I, ins, p, fam, what)
        return ('null',) if x is None else x[1]

    def variant(self, I, ins, p):
        """The value of the variant at an address"""
        off = I.conc(p.off)
        t = I.load(ins, P(p.obj, off + TAG), 32, False)
        c = I.conc(t)
        if c == NONE:
            return (NONE,)
        if c == INT:
            return (INT, I.load(ins, P(p.obj, off + PAY), 32, False).key())
        if c in (LONG, LL):
            return (c, I.load(ins, P(p.obj, off + PAY), 64, False).key())
        if c in FAM:
            return (c, self.value(I, ins, P(p.obj, off + PAY), FAM[c]))
        self.viol(I, ins, 'payload', 'tag', 'leaves a variant with tag %d' % c)

    def element(self, I, p, what):
        """Puts the variant that stands for a container's element at an address: itself an array, of which nothing is known"""
        f, v = FAM[VARR], ('A', ('payload', what))
        put(I, p.obj, p.off + TAG, I32(VARR))
        for i in range(SIZE['variant'] - PAY):
            put(I, p.obj, p.off + PAY + i, I.inbits(('junk', p.obj, i), 8))
        self.live[(p.obj, p.off + PAY)] = [f, v, SIZE['arr']]

    def entry(self, I, p):
        k = (p.obj, 0)
        if k not in self.live:
            v, i = p.obj[1:]
            self.live[k] = ['str', ('S', ('key', v, i)), SIZE['val']]
            self.element(I, P(p.obj, SIZE['second']), ('val', v, i))
            self.external |= {k, (p.obj, SIZE['second'] + PAY)}
        return p

    # ---- text
    def cstring(self, I, ins, p):
        """What a char pointer points at"""
        if not isinstance(p, P) or p.obj is None:
            self.null(I, ins)
        if p.obj in self.texts:
            return self.texts[p.obj]
        if p.obj[0] == 'x':
            return ('S', ('text', p.obj))
        out = ''
        for i in range(400):
            c = part(*(lambda c: (c[0], 8 * c[1], 8))(I.cell(p.obj, I.conc(p.off) + i, ins))).const()
            if c is None:
                raise Broken('a text that is not constant')
            if c == 0:
                return ('S', out) if out else ('S',)
            out += chr(c)
        raise Broken('a text without end')

    def call(self, I, ins, name, args):
        VOID = ('void',)
        if name in ('printf', 'puts', 'fprintf'):
            return I32(0)
        if name == 'snprintf' or name == 'sprintf':
            n = I.conc(args[1], False) if name == 'snprintf' else 1 << 20
            fmt = self.cstring(I, ins, args[2 if name == 'snprintf' else 1])
            v = args[3 if name == 'snprintf' else 2:]
            w = {'%d': 32, '%i': 32, '%ld': 64, '%lld': 64, '%li': 64, '%lli': 64}.get(fmt[1] if len(fmt) == 2 else None)
            if w is None or len(v) != 1:
                raise Broken('formats with %s' % (fmt,))
            if v[0].w < w or (v[0].w > w):
                self.viol(I, ins, 'result', 'format', 'formats a %d-bit number with %s' % (v[0].w, fmt[1]))
            x = v[0] if w == 64 else mk(64, v[0].bits + (v[0].bits[-1],) * 32, 'sext', v[0])
            room = self.ck.room(args[0].obj, I)
            if room is not None:
                n = min(n, 1 << 20)
                if n > room - I.conc(args[0].off):
                    self.viol(I, ins, 'payload', 'buffer', 'writes up to %d bytes into %d' % (n, room))
            if n < (12 if w == 32 else 21):
                self.viol(I, ins, 'result', 'buffer', 'cuts a number short: %d bytes hold at most %d digits' % (n, n - 1))
            self.texts[args[0].obj] = ('S', ('dec', x.key()))
            return I32(1)
        if name == 'm_next':
            o = args[0].obj
            return self.entry(I, P(('ent', o[1], o[2] + 1), 0)) if o[0] == 'ent' and o[2] + 1 < self.ck.count(I, o[1]) else P(('end', o[1]), 0)
        if name in ('_ZN7StrValIIjE4nullE',):
            return None
        dem = I.mod.dem.get(name, '') if name else ''
        if dem.startswith('Variant::as_json('):
            v = self.variant(I, ins, args[1])
            n = I.conc(args[2])
            self.make(I, ins, args[0], 'str', ('S',) + json_of(v, n), SIZE['val'])
            return VOID
        if dem.startswith(('operator+', 'StrValI<unsigned int> operator+')):
            fam, meth, par = 'str', 'free+', dem[dem.index('('):]
            a = [self.cstring(I, ins, args[1]) if 'char const*' in par.split(',')[0] else self.value(I, ins, args[1], 'str'), self.value(I, ins, args[2], 'str')]
            self.make(I, ins, args[0], 'str', concat(*a), SIZE['val'])
            return VOID
        if '::' not in dem:
            return None
        cls, meth, par = split_dem(dem)
        fam = family(cls)
        if fam is None:
            return None
        base = cls.split('<')[0]
        if meth.startswith('~'):
            x = self.at(I, ins, args[0], fam, 'destroys')
            if x is not None:
                k = (args[0].obj, I.conc(args[0].off))
                if k in self.external:
                    self.viol(I, ins, 'payload', 'foreign', 'destroys a %s that is not its own' % fam)
                del self.live[k]
                m = I.mem[k[0]]
                for i in range(x[2]):
                    m[k[1] + i] = (I.inbits(('remains', k, i), 8), 0)
            return VOID
        size = SIZE['val'] if base == 'StrValI' else SIZE[{'str': 'str', 'sarr': 'arr', 'varr': 'arr', 'map': 'map'}[fam]]
        if meth == base:
            par = par.replace(' const', '')
            if par == '()':
                v = EMPTY[fam]
            elif len(args) == 2 and family(par[1:-1].rstrip('&')) == fam:
                v = self.value(I, ins, args[1], fam)
            elif fam == 'str' and par in ('(char*)', '(char*, StrDataType)'):
                v = self.cstring(I, ins, args[1])
                if len(args) > 2 and args[2].const() == 0 and args[1].obj[0] == 'n':
                    self.viol(I, ins, 'payload', 'static', 'keeps a pointer into a buffer that is about to go')
            elif fam in ('sarr', 'varr') and '*, unsigned int' in par:
                if not isinstance(args[1], P):
                    raise Broken(dem)
                c = args[2]
                v = ('A',) if c.const() == 0 else ('A', ('elements', args[1].key(), c.key()))
            elif fam == 'map' and len(args) == 4:
                v = ('M', ('pairs', args[1].key(), args[2].key(), args[3].key()))
            else:
                raise Broken('constructs by %s' % dem)
            self.make(I, ins, args[0], fam, v, size)
            return VOID
        if meth == 'operator=':
            v = self.value(I, ins, args[1], fam) if family(par.replace(' const', '')[1:-1].rstrip('&')) == fam else None
            if v is None:
                raise Broken(dem)
            x = self.at(I, ins, args[0], fam, 'assigns to')
            if x is None:
                self.make(I, ins, args[0], fam, v, size)
            else:
                x[1] = v
            return args[0]
        if fam == 'str':
            return self.string(I, ins, meth, par, args, dem)
        if fam in ('sarr', 'varr'):
            if meth == 'length':
                return const(self.ck.count(I, self.value(I, ins, args[0], fam)), 32)
            if meth in ('operator[]', 'elem', 'elem_ref'):
                sret = ins['ty'] == 'void'
                a = args[1:] if sret else args
                v = self.value(I, ins, a[0], fam)
                i = I.conc(a[1])
                if not 0 <= i < self.ck.count(I, v):
                    self.viol(I, ins, 'result', 'index', 'asks for element %d of %d' % (i, self.ck.count(I, v)))
                if fam == 'varr' and sret:
                    self.element(I, args[0], ('elem', v, i))
                    return VOID
                if fam == 'varr':
                    p = P(('elem', v, i), 0)
                    if (p.obj, PAY) not in self.live:
                        self.element(I, p, ('elem', v, i))
                        self.external.add((p.obj, PAY))
                    return p
                if sret:
                    self.make(I, ins, args[0], 'str', ('S', ('element', v, i)), SIZE['val'])
                    return VOID
                k = (('sub', v, i), 0)
                self.live[k] = ['str', ('S', ('element', v, i)), SIZE['str']]
                self.external.add(k)
                return P(*k)
            if meth == 'append' and len(args) == 2:
                x = self.at(I, ins, args[0], fam, 'appends to')
                x[1] = x[1] + ((self.variant(I, ins, args[1]) if fam == 'varr' else self.value(I, ins, args[1], 'str')),)
                return P(args[0].obj, args[0].off)
        if fam == 'map':
            if meth in ('begin', 'end', 'size'):
                v = self.value(I, ins, args[0], fam)
                n = self.ck.count(I, v)
                if meth == 'size':
                    return const(n, 64)
                return self.entry(I, P(('ent', v, 0), 0)) if meth == 'begin' and n else P(('end', v), 0)
            if meth == 'insert':
                x = self.at(I, ins, args[0], fam, 'inserts into')
                x[1] = x[1] + ((self.value(I, ins, args[1], 'str'), self.variant(I, ins, args[2])),)
                return VOID
        raise Broken('calls %s' % dem)

    def string(self, I, ins, meth, par, args, dem):
        VOID = ('void',)
        if meth == 'asInt32':
            v = self.value(I, ins, args[0], 'str')
            radix = args[2].key()
            bad = I.truth(I.inbits(('not a number', v), 1, 200))
            if args[1].obj is not None:
                e = const(0, 32)
                if bad:
                    e = cat([I.inbits(('error', v), 30), const(3, 2)])
                I.store(ins, args[1], e)
                if args[3] != NULL and args[3].obj is not None:
                    I.store(ins, args[3], I.inbits(('scanned', v), 32))
                return I.inbits(('number', v, radix), 32)
            return I.inbits(('number', v, radix), 32)
        if meth in ('length', 'isEmpty', 'operator bool', 'operator=='):
            raise Broken('calls %s' % dem)
        if meth == 'operator+=':
            x = self.at(I, ins, args[0], 'str', 'appends to')
            if x is None:
                raise Broken('appends to a null string')
            x[1] = concat(x[1], self.value(I, ins, args[1], 'str'))
            return args[0]
        if meth in ('append', 'prepend') and len(args) == 2 and 'StrValI' in par:
            x = self.at(I, ins, args[0], 'str', 'appends to')
            y = self.value(I, ins, args[1], 'str')
            x[1] = concat(x[1], y) if meth == 'append' else concat(y, x[1])
            return args[0]
        if ins['ty'] != 'void':
            raise Broken('calls %s' % dem)
        v = self.value(I, ins, args[1], 'str')
        if meth == 'operator+':
            if 'char const*' in par:
                r = concat(v, self.cstring(I, ins, args[2]))
            elif 'StrValI' in par:
                r = concat(v, self.value(I, ins, args[2], 'str'))
            else:
                c = args[2].const()
                if c is None or c >= 128:
                    raise Broken(dem)
                r = concat(v, ('S', chr(c)))
        elif meth == 'asJSON':
            r = ('S', ('esc',) + v[1:])
        elif meth in ('operator*', 'substr', 'shorter', 'head', 'tail'):
            t = v[1] if len(v) == 2 else '' if len(v) == 1 else None
            if not isinstance(t, str):
                raise Broken('cuts a text of unknown length')
            a = [I.conc(x) for x in args[2:]]
            if meth == 'operator*':
                t = t * max(a[0], 0)
            elif meth == 'substr':
                t = '' if a[1] < -1 or a[1] == 0 or a[0] >= len(t) else t[a[0]:] if a[1] < 0 else t[a[0]:a[0] + a[1]]
            elif meth == 'shorter':
                t = t[:max(len(t) - a[0], 0)]
            elif meth == 'head':
                t = t[:a[0]]
            else:
                t = t[len(t) - a[0]:] if a[0] <= len(t) else ''
            r = ('S', t) if t else ('S',)
        else:
            raise Broken('calls %s' % dem)
        self.make(I, ins, args[0], 'str', r, SIZE['val'])
        return VOID


def concat(*vs):
    out = []
    for v in vs:
        if v == ('null',):
            raise Broken('uses a null string')
        for p in v[1:]:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
    return ('S',) + tuple(out)


def json_of(v, n):
    """Pieces of the JSON text of a nested value; a text's does not depend on the indent"""
    if v[0] == STR:
        return concat(('S', '"', ('esc',) + v[1][1:], '"'))[1:]
    if v[0] == NONE:
        return ('null',)
    if v[0] in (INT, LONG, LL):
        w, bits = v[1]
        return (('dec', (64, bits + (bits[-1],) * 32) if w == 32 else v[1]),)
    return (('json', v, n),)


def json_spec(ck, I, R, v, indent):
    """What the comments and tests promise: -2 tight, -1 one line with spaces, n indented by two per level"""
    if v[0] not in (SARR, VARR, MAP):
        return concat(('S',) + json_of(v, indent))
    sep, close, nxt = {-2: (',', '', -2), -1: (', ', ' ', -1)}.get(indent, (',\n' + '  ' * (indent + 1), '\n' + '  ' * indent, indent + 1))
    out = ['{' if v[0] == MAP else '[', sep[1:]]
    for i in range(ck.count(I, v[1])):
        if i:
            out.append(sep)
        if v[0] == SARR:
            out += ['"', ('esc', ('element', v[1], i)), '"']
        elif v[0] == VARR:
            out.append(('json', (VARR, ('A', ('payload', ('elem', v[1], i)))), nxt))
        else:
            out += ['"', ('esc', ('key', v[1], i)), '"', ':' if indent == -2 else ': ', ('json', (VARR, ('A', ('payload', ('val', v[1], i)))), nxt)]
    out += [close, '}' if v[0] == MAP else ']']
    return concat(('S',) + tuple(x for x in out if x != ''))


class VCheck(Check):
    mk = VR

    def bad(self, I, ins, rule, key, msg):
        s = site(ins) if ins is not None and isinstance(ins, dict) else ('?', '?')
        if s[0] == '?':
            s = self.where
        if rule in self.rules:
            self.rep.bad(rule, s[0], '%s:%s:%s' % (self.root, '', key), '%s: %s' % (self.root, msg), ['for ' + self.example(I)])

    def room(self, obj, I):
        """Size of a local buffer"""
        if obj[0] == 'n' and obj[1][0] == 'alloca':
            for f in I.mod.fns.values():
                for b in f['blocks']:
                    for i in b['ins']:
                        if i['op'] == 'alloca' and i['id'] == obj[1][1] and f['name'] == getattr(self, 'running', None):
                            return i['asz']
        return None

    def count(self, I, v):
        if len(v) > 1 and v[1][0] != 'payload':
            return len(v) - 1
        if len(v) == 1:
            return 0
        return pick(I, 'elements', [0, 1, 2, 3])

    def initial(self, I, nm, tags=range(8)):
        """A variant of some kind; returns its value"""
        R = I.rule
        t = tags[pick(I, 'type of ' + nm, list(range(len(tags))))]
        put(I, (nm,), TAG, I32(t))
        for i in range(SIZE['variant'] - PAY):
            put(I, (nm,), PAY + i, I.inbits(('junk', nm, i), 8))
        if t in (INT, LONG, LL):
            x = I.inbits('number in ' + nm, 32 if t == INT else 64)
            put(I, (nm,), PAY, x)
            return (t, x.key())
        if t in FAM:
            f = FAM[t]
            v = {'str': 'S', 'sarr': 'A', 'varr': 'A', 'map': 'M'}[f], ('payload', nm)
            R.live[((nm,), PAY)] = [f, v, SIZE[{'str': 'str', 'sarr': 'arr', 'varr': 'arr', 'map': 'map'}[f]]]
            return (t, v)
        return (NONE,)

    def given(self, I, nm, fam):
        v = ({'str': 'S', 'sarr': 'A', 'varr': 'A', 'map': 'M'}[fam], ('payload', nm))
        k = ((nm,), 0)
        I.rule.live[k] = [fam, v, SIZE['val' if fam == 'str' else 'map' if fam == 'map' else 'arr']]
        I.rule.external.add(k)
        return v


def put(I, obj, off, v):
    m = I.mem.setdefault(obj, {})
    for i in range(v.w // 8):
        m[off + i] = (v, i)


def fits(I, key):
    """Does a 64-bit number fit in 32 bits?"""
    w, bits = key
    top = bits[31:]
    for b in top[1:]:
        if not I.eq(V(1, (b,)), V(1, (top[0],))):
            return False
    return True


def coerced(ck, I, old, to):
    """The value after coercion, or None if it must abort"""
    t = old[0]
    if t == to:
        return old
    if to == INT:
        if t in (LONG, LL) and fits(I, old[1]):
            return (INT, (32, old[1][1][:32]))
    if to in (LONG, LL):
        if t == INT:
            b = old[1][1]
            return (to, (64, b + (b[-1],) * 32))
        if t in (LONG, LL):
            return (to, old[1])
    if to in (INT, LONG, LL) and t == STR:
        if I.truth(I.inbits(('not a number', old[1]), 1, 200)):
            return None
        n = I.inbits(('number', old[1], I32(0).key()), 32).bits
        return (INT, (32, n)) if to == INT else (to, (64, n + (n[-1],) * 32))
    if to == STR and t in (INT, LONG, LL):
        w, b = old[1]
        return (STR, ('S', ('dec', (64, b + (b[-1],) * (64 - w)))))
    return None


GET = dict(int=INT, long=LONG, longlong=LL, str=STR, strarr=SARR, vararr=VARR, map=MAP)


def key(v):
    return v.key() if isinstance(v, (V, P)) else v


def step(ck, I):
    op = ck.root[2:]
    R = I.rule
    names = [a['name'] for a in ck.fn['args']]
    args = []
    val = {}
    ck.running = ck.fn['name']
    for a in names:
        if a in ('m', 'o'):
            if a == 'o' and I.truth(I.inbits('both operands are the same', 1, 200)):
                val['o'] = val['m']
                args.append(P(('m',), 0))
                continue
            val[a] = ck.initial(I, a)
            args.append(P((a,), 0))
        elif a == 'res':
            args.append(P(('res',), 0))
        elif a == 'x' and op in ('str', 'strarr', 'vararr', 'map'):
            val['x'] = ck.given(I, 'x', FAM[GET[op]])
            args.append(P(('x',), 0))
        elif a == 'x' and op in ('int', 'long', 'longlong'):
            val['x'] = I.inbits('x', 32 if op == 'int' else 64)
            args.append(val['x'])
        elif a in ('x', 'y'):
            args.append(P((a,), 0))
            if op == 'pairs':
                for i in range(3):
                    if a == 'x':
                        R.live[(('x',), i * SIZE['val'])] = ['str', ('S', ('payload', 'x', i)), SIZE['val']]
                        R.external.add((('x',), i * SIZE['val']))
                    else:
                        put(I, ('y',), i * SIZE['variant'] + TAG, I32(INT))
                        for j in range(SIZE['variant'] - PAY):
                            put(I, ('y',), i * SIZE['variant'] + PAY + j, I.inbits(('junk', 'y', i, j), 8))
                        put(I, ('y',), i * SIZE['variant'] + PAY, I.inbits('number y%d' % i, 32))
        elif a == 'count':
            n = I32(pick(I, 'count', [0, 1, 2, 3])) if op == 'pairs' else I.inbits('count', 32)
            if op != 'pairs' and I.eq(n, I32(0)):
                n = I32(0)
            val['n'] = n
            args.append(n)
        elif a == 't':
            val['t'] = pick(I, 'type', list(range(8)))
            args.append(I32(val['t']))
        elif a == 'indent':
            val['i'] = pick(I, 'indent', [-2, -1, 0, 1, 2])
            args.append(I32(val['i']))
        else:
            raise Broken('argument %s' % a)
    before = dict(R.live)
    want = {a: val[a] for a in ('m', 'o') if a in val}
    fn = ck.fn
    if op == 'json':
        fn = [f for n, f in I.mod.fns.items() if I.mod.dem.get(n, '').startswith('Variant::as_json(')]
        if len(fn) != 1:
            raise Broken('cannot find as_json')
        fn = fn[0]
        ck.running = fn['name']
    kind, r, ins = I.run(fn, args)
    get = op[2:] if op[:2] == 'as' and op != 'assign' else None
    cget = op[3:] if op[:3] == 'cas' else None
    answer = None			# the value got
    if get in GET or cget in GET:
        to = GET[get if get in GET else cget]
        new = coerced(ck, I, val['m'], to) if get in GET else val['m'] if val['m'][0] == to else None
        if new is None:
            if kind != 'abort':
                ck.bad(I, None, 'result', 'lossy', 'turns a %s into a %s, though it cannot without loss' % (NAMES[val['m'][0]], NAMES[to]))
            else:
                ck.good('result', 'refuses')
            return
        want['m'] = new
        answer = new[1]
    if kind != 'ret':
        ck.bad(I, ins, 'result', 'end', 'aborts%s' % (' on a %s' % NAMES[val['m'][0]] if 'm' in val else ''))
        return
    if answer is not None:
        if 'res' in names:
            got = R.value(I, ins, P(('res',), 0), FAM[to])
        else:
            got = key(r)
        cmp(ck, got, answer, 'the answer', I)
    res = None
    if op == 'none':
        res = (NONE,)
    elif op in ('int', 'long', 'longlong'):
        res = (GET[op], val['x'].key())
    elif op in ('str', 'strarr', 'vararr', 'map'):
        res = (GET[op], val['x'])
    elif op == 'cstr':
        res = (STR, ('S', ('text', ('x',))))
    elif op in ('strs', 'vars'):
        res = (SARR if op == 'strs' else VARR, ('A',) if val['n'].const() == 0 else ('A', ('elements', P(('x',), 0).key(), val['n'].key())))
    elif op == 'pairs':
        res = (MAP, ('M',) + tuple((('S', ('payload', 'x', i)), (INT, I.inbits('number y%d' % i, 32).key())) for i in range(val['n'].const())))
    elif op == 'typed':
        t = val['t']
        res = (t, EMPTY[FAM[t]]) if t in FAM else (NONE,) if t == NONE else (t, const(0, 32 if t == INT else 64).key())
    elif op == 'copy':
        res = val['m']
    if res is not None:
        got = R.variant(I, ins, P(('res',), 0))
        if op == 'pairs' and got != res and got[0] == MAP:		# built by the map itself
            alt = (MAP, ('M', ('pairs', P(('x',), 0).key(), P(('y',), 0).key(), val['n'].key())))
            if got == alt:
                res = alt
        cmp(ck, got, res, 'the new variant', I)
    if op == 'assign':
        want['m'] = val['o']
        cmp(ck, key(r), P(('m',), 0).key(), 'the answer', I)
    elif op == 'type':
        cmp(ck, key(r), I32(val['m'][0]).key(), 'the answer', I)
    elif op == 'isnull':
        ck.same(I, r, const(int(val['m'][0] == NONE), 1), 'the answer')
    elif op == 'name':
        cmp(ck, R.cstring(I, ins, r), ('S', NAMES[val['m'][0]]), 'the answer', I)
    elif op == 'join':
        cmp(ck, R.value(I, ins, P(('res',), 0), 'varr'), ('A', val['m'], val['o']), 'the answer', I)
    elif op == 'jsonof':			# on one line
        cmp(ck, R.value(I, ins, P(('res',), 0), 'str'), concat(('S',) + json_of(val['m'], -1)), 'the text unless told otherwise', I)
    elif op == 'json':
        got = R.value(I, ins, P(('res',), 0), 'str')
        w = json_spec(ck, I, R, val['m'], val['i'])
        if got != w:
            ck.bad(I, None, 'result', 'json', 'the text for indent %d is %s, not %s' % (val['i'], got, w))
        else:
            ck.good('result', 'json')
    keep = set(R.external)
    for a in ('m', 'o'):
        if a in names and not (a == 'm' and op == 'dtor') and not (a == 'o' and args[names.index('o')].obj == ('m',)):
            cmp(ck, R.variant(I, ins, P((a,), 0)), want[a], 'the variant afterwards', I)
            keep.add(((a,), PAY))
    if 'res' in names:
        keep |= {(('res',), 0), (('res',), PAY)}
    for k, x in R.live.items():
        if k not in keep:
            ck.bad(I, None, 'payload', 'leak', 'does not destroy a %s' % x[0])
        else:
            ck.good('payload', 'destroyed')


def cmp(ck, got, want, what, I):
    if got != want:
        ck.bad(I, None, 'result', what, '%s is %s, not %s' % (what, readable(got), readable(want)))
    else:
        ck.good('result', what)


def readable(v):
    if isinstance(v, tuple) and len(v) > 0 and isinstance(v[0], int) and v[0] < 8:
        return ' '.join([NAMES[v[0]]] + [readable(x) for x in v[1:]])
    if isinstance(v, tuple) and len(v) == 2 and v[0] in (1, 32, 64) and isinstance(v[1], tuple):
        c = 0
        for i, b in enumerate(v[1]):
            if b not in (0, 1):
                return 'x' * 3
            c |= b << i
        return str(c)
    return str(v)


def check_variant(rep):
    global TAG, PAY
    mod = ai.Mod(build.lower(['d_variant.cpp', 'src/variant.cpp'], roots=['^[fs]_', '^Variant::as_json'], keep=KEEP, extra=['-I' + VERIF + '/drivers/stub']))
    for f in mod.fns:
        if f.startswith('s_'):
            SIZE[f[2:]] = cube.Interp(mod, cube.Cubes(), cube.Rule(), {}).run(mod.fns[f], [])[1].const()
    TAG, PAY = layout(mod)

    def unit(r):
        def f(rep):
            ck = VCheck(rep, mod, r, ('payload', 'result'))
            ck.run(step)
        return f
    spread(rep, {r: unit(r) for r in sorted(mod.fns) if r.startswith('f_')})
    rep.require('payload', 20)
    rep.require('result', 30)
    rep.assume.append('strings, arrays and maps inside a variant are opaque values that construct, copy, assign and destroy as P01, P04 and P05 say; containers of up to 3 elements in JSON')


def layout(mod):
    seen = {}

    class F(VR):
        def access(self, I, ins, obj, off, n, write, val):
            if obj == ('res',) and write and isinstance(val, V):
                seen[off] = (n, val.const())
    ck = VCheck.__new__(VCheck)
    I = cube.Interp(mod, cube.Cubes(), F(ck), {})
    x = const(0x0123456789ABCDEF, 64)
    I.run(mod.fns['f_long'], [P(('res',), 0), x])
    pay = [o for o, (n, c) in seen.items() if c == 0x0123456789ABCDEF]
    tag = [o for o, (n, c) in seen.items() if n == 4 and c == LONG]
    if len(pay) != 1 or len(tag) != 1:
        raise Broken('cannot find the parts of a variant')
    return tag[0], pay[0]
