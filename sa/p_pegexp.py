"""Pegexp: every operator agrees with the definition of a possessive PEG, over abstract operands, text and context.

The IR of the matcher is interpreted with calls followed in place.  The operands of the composite operators are
extension atoms about which nothing is known: whether one succeeds at a place, how far it moves and what it
captures is an arbitrary (but repeatable) decision, and so is the end of the text.  Terminals see arbitrary 32-bit
characters.  The only concrete part is the text of the pattern, enumerated per operator, operand shape and context."""
from . import build, ai, cube
from .cube import P, V, NULL, const, zext
from .p_codec import Check, pick, spread, I32
from .slices import site
from .build import Broken

L = {}
EXT = '~@#%_;<`'
PROPS = 'adhLUsw'
NONE = 0xFFFFFFFF


# ---------------------------------------------------------------- the patterns, and what they mean
class Node:
    def __init__(self, kind, off, **kw):
        self.kind, self.off = kind, off
        self.name = None
        self.__dict__.update(kw)


class Parse:
    """The documented grammar of a Pegexp"""

    def __init__(self, text, ext=True):
        self.t, self.ext = text + '\0', ext

    def all(self):
        n, i = self.seq(0)
        return n, i

    def seq(self, i, alt=False):
        out = []
        while self.t[i] not in ')\0' and not (alt and self.t[i] == '|'):
            a, i = self.atom(i)
            out.append(a)
        return out, i

    def hexrun(self, i, lim):
        v, n = 0, 0
        while n < lim and self.t[i] in '0123456789abcdefABCDEF':
            v = (v << 4) | int(self.t[i], 16)
            n += 1
            i += 1
        return v & 0xFFFFFFFF, n, i

    def char(self, i):
        """A character, perhaps escaped"""
        c = self.t[i]
        if c != '\\':
            return ord(c), i + 1
        i += 1
        c = self.t[i]
        if c == '\0':
            return 0, i
        i += 1
        if c in '01234567':
            v, n = int(c), 1
            while n < 3 and self.t[i] in '01234567':
                v = v * 8 + int(self.t[i])
                i, n = i + 1, n + 1
            return v, i
        if c in 'xu':
            br = self.t[i] == '{'
            i += br
            v, n, i = self.hexrun(i, 2 if c == 'x' else 8 if br else 4)
            if br and self.t[i] == '}':
                i += 1
            return v, i
        return ord({'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'e': '\033', 'f': '\f'}.get(c, c)), i

    def atom(self, i):
        start, c = i, self.t[i]
        if c in ')\0':			# an operator without an operand
            return Node('(', start, a=[], end=i), i
        i += 1
        if c in '^$.':
            n = Node(c, start)
        elif c == '\\':
            if self.t[i] in PROPS:
                n = Node('prop', start, p=self.t[i])
                i += 1
            else:
                v, i = self.char(start)
                n = Node('lit', start, c=v)
        elif c == '[':
            neg = self.t[i] == '^'
            i += neg
            items = []
            while self.t[i] not in ']\0':
                if self.t[i] == '\\' and self.t[i + 1] in PROPS and self.t[i + 1] != '\0':
                    items.append(('p', self.t[i + 1]))
                    i += 2
                    continue
                a, i = self.char(i)
                if self.t[i] == '-':
                    b, i = self.char(i + 1)
                    items.append(('r', a, b))
                else:
                    items.append(('r', a, a))
            i += self.t[i] == ']'
            n = Node('class', start, neg=neg, items=items)
        elif c in '?*+&!':
            a, i = self.atom(i)
            n = Node(c, start, a=a)
        elif c == '(':
            s, i = self.seq(i)
            i += self.t[i] == ')'
            n = Node('(', start, a=s)
        elif c == '|':
            alts = []
            i -= 1
            while self.t[i] == '|':
                s, i = self.seq(i + 1, True)
                alts.append(s)
            n = Node('|', start, a=alts)
        elif (c in EXT or c < ' ') and self.ext:
            n = Node('ext', start, c=c)
        else:
            n = Node('lit', start, c=ord(c))
        n.end = i
        if self.t[i] == ':':
            j = i + 1
            while self.t[j].isalnum() or self.t[j] == '_':
                j += 1
            n.name = (i + 1, j - i - 1)
            i = j + (self.t[j] == ':')
        return n, i


class World:
    """The decisions both sides see"""

    def __init__(self, ck, I):
        self.ck, self.I = ck, I
        self.log, self.calls, self.fails = [], [], []

    def yes(self, *key, prio=50):
        return bool(self.I.truth(self.I.inbits(key, 1, prio)))

    def eof(self, p):
        return p >= self.ck.n or self.yes('end of text at', p)

    def bol(self, p):
        return self.yes('start of line at', p)

    def ch(self, p):
        return self.I.inbits('char at %d' % p, 32, 20 - p)

    def ext(self, off, p):
        """Does the extension succeed, how far does it move, what does it capture"""
        c = self.ck.text[off]
        ok = self.yes(c, 'matches at', p)
        if not ok:
            return None, c == '#', c == '@' or c == '#'
        k = 0 if self.eof(p) else int(self.yes(c, 'moves at', p))
        return k, False, c == '@'

    # ---- character questions, which nothing is known about
    def which(self, c):
        k = c.key()
        for p in range(self.ck.n):
            if self.ch(p).key() == k:
                return p
        raise Broken('asks about a character that is not in the text')

    def extc(self, c):
        return self.ck.root != 'f_plain' and (c in EXT or c < ' ')

    def alpha(self, c):
        if c.const() is not None and c.const() < 128:
            return chr(c.const()).isalpha()
        return self.yes('alphabetic at', self.which(c), prio=-1)

    def digit(self, c):
        if c.const() is not None and c.const() < 128:
            return chr(c.const()).isdigit()
        return self.yes('digit at', self.which(c), prio=-1)

    def cased(self, c, up):
        """Does conversion change the character?"""
        if c.const() is not None and c.const() < 128:
            x = chr(c.const())
            return (x.upper() if up else x.lower()) != x
        return self.yes('has upper case at' if up else 'has lower case at', self.which(c), prio=-1)

    def between(self, c, lo, hi):
        return self.I.cmp('uge', c, I32(lo)) and self.I.cmp('ule', c, I32(hi))

    def prop(self, p, c):
        if p == 'a':
            return self.alpha(c)
        if p == 'd':
            return self.digit(c)
        if p == 'h':
            return self.digit(c) or self.between(c, 97, 102) or self.between(c, 65, 70)
        if p == 'L':
            return not self.cased(c, False) and self.cased(c, True)
        if p == 'U':
            return not self.cased(c, True) and self.cased(c, False)
        if p == 'w':
            return self.alpha(c) or self.digit(c)
        return any(self.I.eq(c, I32(x)) for x in (32, 9, 10, 13, 0xA0, 0x3000)) or self.between(c, 0x2000, 0x200B) or self.between(c, 0x2028, 0x2029)


class Spec:
    """A possessive PEG matcher, by definition"""

    def __init__(self, w, start):
        self.w = w
        self.dis, self.nest = start
        self.log, self.calls, self.fails = [], [], []

    def seq(self, s, p):
        n0 = len(self.log)
        for a in s:
            p = self.atom(a, p)
            if p is None:
                del self.log[n0:]
                return None
        return p

    def atom(self, a, p):
        n0 = len(self.log)
        r = self.plain(a, p)
        if r is None:
            del self.log[n0:]
            if a.kind not in '?*+(|&!':
                self.fails.append((a.off, p, None if a.kind == 'ext' else a.end))
            return None
        if a.name and not self.dis:
            self.log.append((a.name[0], a.name[1], p, r, self.nest > 0))
        return r

    def plain(self, a, p):
        w, k = self.w, a.kind
        if k == 'ext':
            self.calls.append((a.off, p, self.dis > 0, self.nest > 0, tuple(self.log)))
            n, mess, cap = w.ext(a.off, p)
            if n is None:
                return None
            if cap and not self.dis:
                self.log.append(('ext', a.off, p))
            return p + n
        if k == '^':
            return p if w.bol(p) else None
        if k == '$':
            return p if w.eof(p) or w.I.eq(w.ch(p), I32(10)) else None
        if k in ('.', 'lit', 'prop', 'class'):
            if w.eof(p):
                return None
            c = w.ch(p)
            if k == 'lit':
                ok = w.I.eq(c, I32(a.c))
            elif k == 'prop':
                ok = w.prop(a.p, c)
            elif k == 'class':
                ok = any(w.prop(i[1], c) if i[0] == 'p' else w.between(c, i[1], i[2]) for i in a.items) != a.neg
            else:
                ok = True
            return p + 1 if ok else None
        if k == '(':
            return self.seq(a.a, p)
        if k == '|':
            for s in a.a:
                r = self.seq(s, p)
                if r is not None:
                    return r
            return None
        if k in '&!':
            self.dis += 1
            r = self.atom(a.a, p)
            self.dis -= 1
            return p if (r is None) == (k == '!') else None
        many = k != '?'
        self.nest += many
        n = 0
        try:
            if k == '+':
                p = self.atom(a.a, p)
                if p is None:
                    return None
                n = 1
            while many or n == 0:
                r = self.atom(a.a, p)
                if r is None or r == p:
                    break
                p = r
                n += 1
        finally:
            self.nest -= many
        return p


# ---------------------------------------------------------------- the code
class PegR(cube.Rule):
    inter = True
    limit = 60000

    def __init__(self, ck):
        self.ck = ck

    def null(self, I, ins):
        self.ck.stop(I, ins, 'memory', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.ck.stop(I, ins, 'memory', 'undefined', what)

    def outside(self, I, ins, obj, off):
        self.ck.stop(I, ins, 'memory', 'table', 'reads outside a table')

    def unordered(self, I, pred, a, b):
        self.ck.stop(I, None, 'memory', 'unrelated', 'compares unrelated positions')

    def missing(self, I, ins, obj, off):
        if obj[0] == 'g':
            raise Broken('reads %s' % (obj,))
        return I.inbits(('junk', obj, off), 8)

    def access(self, I, ins, obj, off, n, write, val):
        if obj == ('pat',):
            if write:
                self.ck.stop(I, ins, 'memory', 'write', 'writes into the pattern')
            if not 0 <= off <= off + n <= len(self.ck.text) + 1:
                self.ck.stop(I, ins, 'memory', 'pattern', 'reads the pattern beyond its NUL')
            self.ck.good('memory', site(ins)[0] if ins is not None else '')

    def src(self, I, p):
        return I.conc(I.load(None, P(p.obj, I.conc(p.off) + L['pos']), 32, False))

    def put(self, I, p, v):
        I.store(None, P(p.obj, I.conc(p.off) + L['pos']), I32(v))

    def strchr(self, I, ins, p, c, cont):
        o = I.conc(p.off)
        for k in range(300):
            v, b = I.cell(p.obj, o + k, ins)
            self.access(I, ins, p.obj, o + k, 1, False, None)
            v = I.conc(cube.part(v, 8 * b, 8), False)
            if v == c:
                return o + k
            if v == 0:
                return None
        raise Broken('unending text')

    def call(self, I, ins, name, args):
        VOID = ('void',)
        ck, w = self.ck, I.w
        if name is None:
            return None
        if name == 'x_count':
            return I32(len(w.log))
        if name == 'x_capture':
            m = args[2]
            at = I.conc(args[0].off) if args[0].obj == ('pat',) else None
            frm, to = (self.src(I, P(m.obj, I.conc(m.off) + L[f] + L['source'])) for f in ('from', 'to'))
            w.log.append((at, I.conc(args[1]), frm, to, bool(I.conc(args[3], False) & 1)))
            return VOID
        if name == 'x_rollback':
            n = I.conc(args[0])
            if not 0 <= n <= len(w.log):
                ck.stop(I, ins, 'captures', 'forward', 'rolls back to %d of %d captures' % (n, len(w.log)))
            del w.log[n:]
            return VOID
        if name == 'x_failure':
            at, end = (I.conc(a.off) if a.obj == ('pat',) else None for a in args[:2])
            c = ck.text[at] if at is not None and 0 <= at < len(ck.text) else '?'
            w.fails.append((at, self.src(I, args[2]), None if w.extc(c) else end))
            return VOID
        if name == 'x_match':
            s = args[0]
            pp = I.load(None, P(s.obj, I.conc(s.off) + L['pattern']), 64, True)
            sp = P(s.obj, I.conc(s.off) + L['source'])
            at, p = I.conc(pp.off), self.src(I, sp)
            c = ck.text[at] if pp.obj == ('pat',) and 0 <= at < len(ck.text) else None
            if c is None or not (c in EXT or c < ' '):
                ck.stop(I, ins, 'result', 'extension', 'calls match_extended for %r' % c)
            dis = I.conc(args[1])
            if len(w.calls) > 60:
                ck.stop(I, ins, 'ends', 'loop', 'repeats without end')
            w.calls.append((at, p, dis > 0, I.conc(args[2]) > 0, tuple(w.log)))
            k, mess, cap = w.ext(at, p)
            if cap and not dis:
                w.log.append(('ext', at, p))
            if k is not None or mess:
                I.store(None, P(s.obj, I.conc(s.off) + L['pattern']), P(pp.obj, at + 1))
                self.put(I, sp, p + (k or 0) + (7 if mess else 0))
            return const(int(k is not None), 1)
        if name == 'x_skip':
            pp = I.load(None, args[0], 64, True)
            at = I.conc(pp.off)
            c = ck.text[at] if pp.obj == ('pat',) and 0 <= at < len(ck.text) else None
            if c is None or not (c in EXT or c < ' '):
                ck.stop(I, ins, 'result', 'extension', 'calls skip_extended for %r' % c)
            I.store(None, args[0], P(pp.obj, at + 1))
            return VOID
        if name == 'strchr':
            k = self.strchr(I, ins, args[0], I.conc(args[1], False) & 255, True)
            return NULL if k is None else P(args[0].obj, k)
        if name == 'strlen':
            return const(self.strchr(I, ins, args[0], 0, True) - I.conc(args[0].off), 64)
        if name in ('isalpha', 'isdigit', 'isalnum', 'isspace', 'islower', 'isupper', 'isxdigit', 'toupper', 'tolower', 'isprint', 'ispunct'):
            c = args[0]
            if c.const() is None or not -1 <= cube.signed(c.const(), c.w) <= 255:
                if I.cmp('slt', c, I32(-1)) or I.cmp('sgt', c, I32(255)):
                    ck.stop(I, ins, 'memory', 'ctype', 'calls %s() for a character it has no entry for' % name)
            self.ck.good('memory', name)
            if c.const() is None:
                raise Broken('%s() of a character of the text' % name)
            s = chr(c.const() & 255) if c.const() < 128 else '\0'
            if name[:2] == 'to':
                return I32(ord(getattr(s, 'upper' if name == 'toupper' else 'lower')()))
            return I32(int({'isalpha': s.isalpha, 'isdigit': s.isdigit, 'isalnum': s.isalnum, 'isspace': lambda: s in ' \t\n\v\f\r', 'islower': s.islower,
                            'isupper': s.isupper, 'isxdigit': lambda: s in '0123456789abcdefABCDEF', 'isprint': s.isprintable, 'ispunct': lambda: s.isprintable() and not s.isalnum() and s != ' '}[name]()))
        d = I.mod.dem.get(name, '')
        if d.startswith('Src::'):
            s = args[0]
            if d.startswith('Src::Src('):
                self.put(I, s, -1)
                return VOID
            if d.startswith('Src::is_null('):
                return const(int(self.src(I, s) < 0), 1)
            p = self.src(I, s)
            if p < 0 and not d.startswith('Src::same('):
                ck.stop(I, ins, 'result', 'nowhere', 'uses a source that is nowhere')
            if d.startswith('Src::at_eof('):
                return const(int(w.eof(p)), 1)
            if d.startswith('Src::at_bol('):
                return const(int(w.bol(p)), 1)
            if d.startswith('Src::get_char('):
                if w.eof(p):
                    return I32(NONE)
                self.put(I, s, p + 1)
                return w.ch(p)
            if d.startswith('Src::same('):
                return const(int(p == self.src(I, args[1])), 1)
            if d.startswith('Src::operator<('):
                return const(int(p < self.src(I, args[1])), 1)
        if d.startswith('UCS4IsAlphabetic('):
            return const(int(w.alpha(args[0])), 1)
        if d.startswith(('UCS4Digit(', 'UCS4HexDigit(')) and '4D' in d:
            return I32(5 if w.digit(args[0]) else -1)
        if d.startswith(('UCS4ToLower(', 'UCS4ToUpper(')):
            c = args[0]
            return cube.mk(32, [cube.neg(c.bits[0])] + list(c.bits[1:]), 'other', c) if w.cased(c, 'Upper' in d) else c
        return None


class PegCheck(Check):
    mk = PegR

    def __init__(self, rep, mod, root, rules, text, n, start):
        Check.__init__(self, rep, mod, root, rules)
        self.text, self.n, self.start = text, n, start
        self.where = ('include/pegexp.h', 'Pegexp')

    def stop(self, I, ins, rule, key, msg):
        self.bad(I, ins, rule, key, msg)
        raise cube.Stop(key)

    def bad(self, I, ins, rule, key, msg):
        s = site(ins) if ins is not None else ('?', '?')
        if s[0] == '?':
            s = self.where
        self.rep.bad(rule, s[0], '%s:%s:%s' % (self.root, self.text, key), '%s on /%s/: %s' % (self.root, self.text, msg), ['pattern /%s/' % self.text, 'for ' + self.example(I)])

    def good(self, rule, what):
        self.rep.ok(rule, '%s %s' % (self.root, what))


def put(I, obj, off, v):
    m = I.mem.setdefault(obj, {})
    for i in range(8 if isinstance(v, P) else v.w // 8):
        m[off + i] = (v, i)


def check(ck, I):
    I.w = w = World(ck, I)
    for i, c in enumerate(ck.text + '\0'):
        put(I, ('pat',), i, const(ord(c), 8))
    put(I, ('ctx',), L['disabled'], I32(ck.start[0]))
    put(I, ('ctx',), L['nesting'], I32(ck.start[1]))
    put(I, ('src',), L['pos'], I32(0))
    w.log.append('earlier')
    kind, r, ins = I.run(ck.fn, [P((o,), 0) for o in ('pat', 'src', 'ctx', 'from', 'to')])
    if kind != 'ret':
        ck.stop(I, ins, 'result', 'abort', 'does not return')
    ok = bool(I.conc(r, False) & 1)
    s = Spec(w, ck.start)
    s.log.append('earlier')
    nodes, end = Parse(ck.text, ck.root != 'f_plain').all()
    frm, at = 0, None
    while True:
        del s.log[1:]
        at = s.seq(nodes, frm)
        if at is not None and end < len(ck.text):	# a ) that closes nothing
            at = None
            if ck.root != 'f_match':
                s.log = w.log
        if at is not None or ck.root != 'f_match' or w.eof(frm):
            break
        frm += 1
    if ok != (at is not None):
        ck.stop(I, None, 'result', 'success', 'succeeds where it should fail' if ok else 'fails where it should succeed')
    R = I.rule
    if ok:
        got = [R.src(I, P((o,), 0)) for o in ('from', 'to')]
        if got != [frm, at]:
            ck.stop(I, None, 'result', 'place', 'matches from %d to %d instead of %d to %d' % (tuple(got) + (frm, at)))
        if ck.root != 'f_match' and R.src(I, P(('src',), 0)) != at:
            ck.stop(I, None, 'result', 'source', 'leaves the source at %d instead of %d' % (R.src(I, P(('src',), 0)), at))
    ck.good('result', 'match of ' + ck.text)
    if w.calls != s.calls:
        i = next((i for i, (a, b) in enumerate(zip(w.calls, s.calls)) if a != b), min(len(w.calls), len(s.calls)))
        sh = lambda l: '%s at %d%s%s, after %s' % (ck.text[l[i][0]], l[i][1], ' in a look-ahead' if l[i][2] else '', ' in a repetition' if l[i][3] else '', list(l[i][4][1:])) if i < len(l) else 'nothing'
        ck.stop(I, None, 'captures', 'calls', 'calls the extension %s, not %s' % (sh(w.calls), sh(s.calls)))
    if w.log != s.log:
        ck.stop(I, None, 'captures', 'log', 'leaves the captures %s instead of %s' % (w.log[1:], s.log[1:]))
    for f, v in zip(('disabled', 'nesting'), ck.start):
        x = I.conc(I.load(None, P(('ctx',), L[f]), 32, False))
        if x != v:
            ck.stop(I, None, 'captures', f, 'leaves %s %d instead of %d' % ({'disabled': 'capture_disabled', 'nesting': 'repetition_nesting'}[f], x, v))
    ck.good('captures', ck.text)
    if w.fails != s.fails:
        ck.stop(I, None, 'failures', 'report', 'reports failures of %s instead of %s' % tuple([(ck.text[a:e] if a is not None and a < len(ck.text) else '?', 'at %d' % b) for a, b, e in l] for l in (w.fails, s.fails)))
    ck.good('failures', ck.text)


def structural():
    """Each operator over unknown operands, in each context"""
    A, B = '@', '#'
    base = ['', A, A + B, '(' + A + ')', '()', '(' + A + B + ')', '|' + A, '|' + A + '|' + B, '|' + A + '|' + B + '|%', '|@#|%', '|@|#%', '(|' + A + '|' + B + ')', '((@)#)', '@:n', '(@#:n):m', '(|@:n|#:m:):o']
    ops = '?*+&!'
    one = [o + x for o in ops for x in ('@', '()', '(@)', '(@#)', '(|@|#)', '@:n', '(@#:n:):m', '|@|#', '|@#|%', '(@:n#)')]
    two = [p + o + x for p in ops for o in ops for x in ('@', '(@#)')] + [p + '(' + o + '@:n)' for p in ops for o in ops] + [p + '(' + o + '@#:n)' for p in ops for o in ops]
    alt = ['|' + o + '@|#' for o in ops] + ['|' + o + '(@#):n|%:n' for o in ops] + ['|@' + o + '#|%' for o in ops] + ['|(|@|#)%|_', '|@:n#|%', '|(@:n#)|%', '|@|(#:n%)', '|\x01|@', '\x01', '*\x02', '|@#|@%', '|&@#|%', '|!@#|%', '|@|#|', '|@|']
    seqs = [o + '@' + p + '#' for o in ops for p in ops]
    out = base + one + two + alt + seqs
    ctx = [x + '%' for x in base[1:] + one + alt] + ['(' + x + ')%' for x in one] + ['*(' + x + '_)' for x in one if '|' not in x or '(' in x] + ['|' + x + '_|%' for x in one if '|' not in x or '(' in x]
    ctx += ['(@', '*(@', '(|@|#', '@)', '@)#', ')', '(@))', '*(@))', '&(@', '?(@']
    ctx += ['|%' + x + '|_' for x in one if '|' not in x or '(' in x] + ['&(' + x + '%)' for x in one] + ['!(' + x + '%)' for x in one]
    seen = []
    for x in out + ctx:
        if x not in seen:
            seen.append(x)
    return seen


def terminals():
    lits = [chr(c) for c in range(33, 127) if chr(c) not in '^$.\\[?*+(|)&!' + EXT]
    esc = ['\\' + c for c in '^$.\\[]?*+{}()|&!~@#%_;<`:-' + 'ntrbefvcgz9AZ'] + ['\\' + p for p in PROPS]
    num = ['\\0', '\\7', '\\12', '\\101', '\\177', '\\377', '\\1018', '\\08', '\\x4', '\\x41', '\\x4g', '\\xAf', '\\x{4}', '\\x{41}', '\\xfff', '\\u4', '\\u41', '\\u141', '\\u20AC', '\\u20ACA', '\\u{1F600}', '\\u{12345678}', '\\u{fFfFfFfE}', '\\u{80000041}', '\\u00e9z']
    num += ['\\x' + h for d in '0123456789abcdefABCDEF' for h in (d + '3', '4' + d)] + ['\\x5' + c for c in '/:@G`'] + ['\\x{%s}' % h for h in ('0', '0a', 'A0', '007', '4g')] + ['\\u%s' % h for h in ('0', '0a', '00', '9aF', '0000', '004', '00410', '4g')]
    num += ['\\u{%s}' % h for h in ('0', '00', '0a', 'A0', '041', '00000041', '000000041', '41g', 'FFFF', '10000')] + ['\\' + o for o in ('00', '07', '70', '77', '000', '001', '010', '0101', '018', '180', '777', '400', '376')]
    cls = ['[a]', '[abc]', '[a-c]', '[^a]', '[^a-cx]', '[-a]', '[^-a]', '[a-cx-z]', '[\\]]', '[\\^a]', '[^^]', '[\\a]', '[\\d_]', '[^\\s]', '[\\w-]', '[\\L\\U]', '[\\n]', '[\\n\\t]', '[\\x41-\\x43]', '[\\101-\\103z]', '[\\u{1F600}-\\u{1F64F}]', '[\\u20AC]',
           '[\\--a]', '[|]', '[(]', '[)]', '[*+?]', '[a\\-z]', '[\\h]', '[^]', '[]', '[a', '[^a', '[', '[\\t-\\r]', '[\\a\\x7F-\\u{FF}]', '[^\\n]', '[z-a]', '[\\\\]', '[a\\d-]', '[\\x]', '[a\\']
    odd = ['\\', '\\x', '\\x{', '\\u', '\\u{', '\\u{}', '\\xg', '\\x{g}', '{', '}', ']', 'a\\']
    x = ['.', '^', '$', 'ab', '^a', 'a$', '.:n', 'a:n', '[ab]:n', '\\d:n', '^:n', '$:n', '!.', '?a', '*a', '+.', '!^', '&$', '?\\d', '*[a-c]', '&\\x41', '(a)', '|a|b', '|ab|ac', '?[\\]]a', '?\\x{41}a', '?\\101a', '?\\u{41}a', '*\\nb',
         '|[a|b]|c', '|\\||a', '|a:n_1:b|c', '?a:n:b', '?(a\\)b)c', '*(a[)]b)', '!\\da', '?[^\\]]b', '?[\\x41-\\x43]b', '?[a-]', '?\\', '?[a', '?(', '*\\x', '?', '*', '+', '!', '&', '|', '(', '|a', '?|a|bc', '!|a|bc', '*[]', '?(a:n:)b', '?(a:n', '|a:', 'a:', '?a:']
    skip = [o + t + 'z' for t in esc + num + [c for c in cls if c[-1] == ']'] + ['a', '.', '^', '$', '(a)', '@', '\x02'] + EXTRA for o in '?!']
    out = []
    for p in lits + esc + num + cls + odd + x + EXTRA + skip:
        if p not in out and '[a-]' not in p and '[\\w-]' not in p and 'a\\d-]' not in p:
            out.append(p)
    return out


EXTRA = ['[^-]', '[-]', '[^\\]]', '[^|]', '[]:n', '[a]:n_0:', '\\::n', '[:]']


def load():
    mod = ai.Mod(build.lower(['d_pegexp.cpp'], roots=['.*'], inline=False))
    for f in mod.fns:
        if f.startswith('o_'):
            L[f[2:]] = cube.Interp(mod, cube.Cubes(), cube.Rule(), {}).run(mod.fns[f], [P(('o',), 0)])[1].const()
    return mod


def jobs_of(mod, tier):
    jobs = {}

    def add(root, texts, n, start):
        def f(rep):
            for t in texts:
                PegCheck(rep, mod, root, RULES, t, n, start).run(check)
        jobs[(root, texts[0], n, start)] = f
    st = structural()
    k = 6
    for i in range(0, len(st), k):
        add('f_here', st[i:i + k], 2, (0, 0))
    few = [x for x in st if len(x) <= 5]
    for i in range(0, len(few), 8):
        for st_ in (1, 0), (0, 1), (0, 3), (2, 2):
            add('f_here', few[i:i + 8], 1, st_)
        add('f_match', few[i:i + 8], 2, (0, 0))
    tm = terminals()
    for i in range(0, len(tm), 10):
        add('f_here', tm[i:i + 10], 2, (0, 0))
    for x in ['@', 'a@', '~#', '%:n', '*_', '?<a', '`', ';', '\x01', '|@|#']:
        add('f_plain', [x], 2, (0, 0))
    for x in ['a', '\\d', '[a-c]', '^', '$', '*a', '|a|b', '.', 'ab', '!a', '']:
        add('f_match', [x], 2, (0, 0))
    return jobs


RULES = ('result', 'captures', 'failures', 'memory', 'ends')


def check_pegexp(rep):
    mod = load()
    spread(rep, jobs_of(mod, rep.tier))
    rep.require('result', 200)
    rep.require('captures', 200)
    rep.require('memory', 10)
