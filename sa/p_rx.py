"""Regular expressions, end to end: expressions enumerated by shape are compiled and matched by the
current code, followed in place by fast.Machine, over texts whose characters are unknown (every comparison
that depends on one is a case); what it does is compared with the definition of the language, written here
over the syntax tree of an independent parser of expressions."""
import itertools
import json
import os
import sys
from . import build, ai, cube, fast
from .cube import V, const, cat
from .fast import P, Fault
from .p_codec import spread
from .slices import site
from .build import Broken

sys.setrecursionlimit(20000)
ALL = 0x00FFFFF
F = dict(CEscapes=1, Shorthand=2, OctalChar=4, HexChar=8, UnicodeChar=0x10, PropertyChars=0x20, CharClasses=0x40,
         ZeroOrOneQuest=0x100, ZeroOrMore=0x200, OneOrMore=0x400, CountRepetition=0x800, Alternates=0x1000, Group=0x2000,
         Capture=0x4000, NonCapture=0x8000, NegLookahead=0x10000, BOL=0x40000, EOL=0x80000, AnyIsQuest=0x1000000,
         ZeroOrMoreAny=0x2000000, ExtendedRE=0x20000000)
NESTING = 12


class Bad(Exception):
    """The expression is not one"""


class Unspecified(Exception):
    """What the expression means is nowhere said"""


class Ref:
    """The syntax: an expression becomes a tree, or is Bad"""

    def __init__(self, text, features=ALL, rejected=0):
        self.t = text
        self.rej = rejected
        self.on = features & ~rejected
        self.names = []
        self.depth = 1			# the whole expression

    def sup(self, f):
        if self.rej & F[f]:
            raise Bad('rejected %s' % f)
        return bool(self.on & F[f])

    def at(self, i):
        return self.t[i] if i < len(self.t) else ''

    def parse(self):
        n, i = self.alts(0, False)
        return n

    def alts(self, i, inside):
        alts, seq = [], []
        t = self.t
        atom = False			# may the next thing be a repetition of the last?
        while i < len(t):
            c = t[i]
            if c == '|' and self.sup('Alternates'):
                alts.append(seq)
                seq, atom = [], False
                i += 1
            elif c == ')' and self.on & F['Group']:
                if not inside:
                    raise Bad('extra )')
                return ('alt',) + tuple(('seq',) + tuple(s) for s in alts + [seq]), i
            elif c in ' \t\n\r' and self.on & F['ExtendedRE']:
                i += 1
                if self.at(i) == '#':
                    while i < len(t) and t[i] != '\n':
                        i += 1
                    i += 1
                    # white space between an atom and its repetition does not matter
            elif (r := self.repetition(i)) is not None:
                mn, mx, i, what = r
                if what == 'any*':
                    seq.append(('rep', ('any',), 0, 0))
                    atom = False
                    continue
                if not atom:
                    raise Bad('nothing to repeat')
                if mn > 254 or mx > 254:
                    raise Bad('count over 254')
                seq[-1] = ('rep', seq[-1], mn, mx)
                atom = False
            else:
                n, i, atom = self.atom(i)
                seq.append(n)
        if inside:
            raise Bad('unclosed')
        return ('alt',) + tuple(('seq',) + tuple(s) for s in alts + [seq]), i

    def repetition(self, i):
        t, c = self.t, self.t[i]
        if c == '?' and not self.on & F['AnyIsQuest'] and self.sup('ZeroOrOneQuest'):
            return 0, 1, i + 1, ''
        if c == '*' and self.sup('ZeroOrMore'):
            return 0, 0, i + 1, 'any*' if self.on & F['ZeroOrMoreAny'] else ''
        if c == '+' and self.sup('OneOrMore'):
            return 1, 0, i + 1, ''
        if c == '{' and self.sup('CountRepetition'):
            j = t.find('}', i)
            if j < 0:
                raise Bad('no }')
            a, comma, b = t[i + 1:j].partition(',')
            for x in (a, b):
                if x and not (x.isascii() and x.isdigit()):
                    raise Unspecified
            mn = int(a or 0)
            mx = int(b or 0) if comma else mn
            if mx and mx < mn or mn > 65535 or mx > 65535:
                raise Bad('counts')
            if mn == 0 and mx == 0 and (not comma or b):
                raise Unspecified		# {0}: the maximum 0 is no maximum
            return mn, mx, j + 1, ''
        return None

    def atom(self, i):
        t, c = self.t, self.t[i]
        if c == '^' and self.sup('BOL'):
            return ('bol',), i + 1, False
        if c == '$' and self.sup('EOL'):
            return ('eol',), i + 1, False
        if c == '.' and not self.on & F['AnyIsQuest'] or c == '?' and self.on & F['AnyIsQuest']:
            return ('any',), i + 1, True
        if c == '\\':
            return self.escape(i + 1)
        if c == '[' and self.sup('CharClasses'):
            return self.cls(i + 1)
        if c == '(' and self.sup('Group'):
            return self.group(i)
        return ('c', c), i + 1, True

    def escape(self, i):
        if i >= len(self.t):
            raise Bad('escape of nothing')
        t, c = self.t, self.t[i]
        if c in 'befntr' and self.sup('CEscapes'):
            return ('c', {'b': '\b', 'e': '\033', 'f': '\f', 'n': '\n', 't': '\t', 'r': '\r'}[c]), i + 1, True
        for cs, f, digits, n, s in (('01234567', 'OctalChar', '01234567', 3, i), ('x', 'HexChar', '0123456789abcdefABCDEF', 2, i + 1), ('u', 'UnicodeChar', '0123456789abcdefABCDEF', 5, i + 1)):
            if c in cs and self.sup(f):
                j = s
                while j < s + n and j < len(t) and t[j] in digits:
                    j += 1
                if j == s:
                    if self.at(s) and (self.at(s) in '+- \t\n\r' or ord(self.at(s)) > 127):
                        raise Unspecified	# a number with a sign
                    raise Bad('no digits')
                v = int(t[s:j], 8 if cs[0] == '0' else 16)
                if v == 0:
                    raise Unspecified		# no text holds it
                return ('c', chr(v)), j, True
        if c in 'sdh' and self.sup('Shorthand'):
            return ('prop', c), i + 1, True
        if c == 'p' and self.sup('PropertyChars'):
            if self.at(i + 1) != '{':
                raise Bad('property')
            j = t.find('}', i + 2)
            if j <= i + 2:
                raise Bad('property')
            return ('prop', t[i + 2:j]), j + 1, True
        return ('c', c), i + 1, True

    def cls(self, i):
        t = self.t
        neg = self.at(i) == '^'
        i += neg
        r = []

        def one(i):
            if i >= len(t):
                raise Bad('class')
            if t[i] == '\\':
                i += 1
                if i >= len(t):
                    raise Bad('class')
            return t[i], i + 1
        if self.at(i) and self.at(i) in '-]':
            r.append((t[i], t[i]))
            i += 1
        while True:
            if i >= len(t):
                raise Bad('class')
            if t[i] == ']':
                return ('cls', neg, tuple(r)), i + 1, True
            a, i = one(i)
            b = a
            if self.at(i) == '-' and self.at(i + 1) != ']':
                b, i = one(i + 1)
            r.append((a, b))

    def group(self, i):
        t = self.t
        kind, k = 'grp', i + 1
        if self.at(i + 1) == '?' and self.on & (F['Capture'] | F['NonCapture'] | F['NegLookahead']):
            c = self.at(i + 2)
            k = i + 3
            if c == '<' and self.sup('Capture'):
                j = t.find('>', i + 3)
                if j <= i + 3:
                    raise Bad('name')
                nm = t[i + 3:j]
                if nm in self.names:
                    raise Bad('duplicate name')
                if len(self.names) >= 254:
                    raise Bad('too many names')
                self.names.append(nm)
                kind, k = len(self.names), j + 1
            elif c == ':' and self.sup('NonCapture'):
                pass
            elif c == '!' and self.sup('NegLookahead'):
                kind = 'neg'
            else:
                raise Bad('kind of group')
        self.depth += 1
        if self.depth > NESTING:
            raise Bad('too deep')
        n, k = self.alts(k, True)
        self.depth -= 1
        if kind == 'grp':
            return ('grp', n), k + 1, True
        if kind == 'neg':
            return ('neg', n), k + 1, True
        return ('cap', kind, n), k + 1, True


def nullable(n):
    k = n[0]
    if k in ('c', 'any', 'cls', 'prop'):
        return False
    if k == 'seq':
        return all(nullable(x) for x in n[1:])
    if k == 'alt':
        return any(nullable(x) for x in n[1:])
    if k == 'rep':
        return n[2] == 0 or nullable(n[1])
    if k in ('grp', 'cap'):
        return nullable(n[-1])
    return True


def walk(n):
    yield n
    for x in n[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and n[0] in ('seq', 'alt', 'rep', 'grp', 'cap', 'neg'):
            yield from walk(x)


def contextual(n):
    return any(x[0] in ('bol', 'eol', 'neg') for x in walk(n))


def clear(n):
    """Is the meaning of every counted repetition beyond dispute? (not if it repeats what is empty only in places)"""
    return not any(x[0] == 'rep' and (x[2], x[3]) not in ((0, 0), (0, 1), (1, 0)) and nullable(x[1]) and contextual(x[1]) for x in walk(n))


class Meaning:
    """All ways an expression may match a text, as (end, captures)"""

    def __init__(self, w, length, ncap):
        self.w, self.n, self.ncap = w, length, ncap
        self.memo = {}

    def of(self, n, i, caps):
        k = n[0]
        if k in ('c', 'any', 'cls', 'prop'):
            if i >= self.n or not (k == 'any' or self.w.test(n, i)):
                return frozenset()
            return frozenset([(i + 1, caps)])
        key = (id(n), i, caps)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = frozenset(self.comp(n, i, caps))
        return r

    def comp(self, n, i, caps):
        k = n[0]
        if k == 'bol':
            return {(i, caps)} if i == 0 or self.w.test(('c', '\n'), i - 1) else ()
        if k == 'eol':
            return {(i, caps)} if i == self.n or self.w.test(('c', '\n'), i) else ()
        if k == 'seq':
            s = {(i, caps)}
            for x in n[1:]:
                s = {y for p, c in s for y in self.of(x, p, c)}
                if not s:
                    break
            return s
        if k == 'alt':
            return {y for x in n[1:] for y in self.of(x, i, caps)}
        if k == 'grp':
            return self.of(n[1], i, caps)
        if k == 'neg':
            return () if self.of(n[1], i, caps) else {(i, caps)}
        if k == 'cap':
            j = 2 * (n[1] - 1)
            c = caps[:j] + (i,) + caps[j + 1:]
            return {(e, d[:j + 1] + (e,) + d[j + 2:]) for e, d in self.of(n[2], i, c)}
        if k == 'rep':
            mn, mx = n[2], n[3]
            res, seen = set(), set()
            cur = {(i, caps)}
            cnt = 0
            while cur:
                if cnt >= mn:
                    res |= cur
                if mx and cnt == mx:
                    break
                cnt += 1
                nx = {y for p, c in cur for y in self.of(n[1], p, c)}
                if cnt > mn:
                    if mx:
                        key = frozenset(nx)
                        if key <= res and cnt > mn + self.n + 2:
                            break
                    nx -= seen
                    if not mx:
                        seen |= nx
                cur = nx
            return res
        raise Broken('tree %s' % k)

    def match(self, n, i):
        """(end, all captures that may come with it) of the longest match at i, or None"""
        r = self.of(n, i, (0,) * (2 * self.ncap))
        if not r:
            return None
        e = max(x[0] for x in r)
        return e, {c for x, c in r if x == e}


# Which characters a property accepts; whether \v, \f and various spaces beyond the plain ones are white is not said
DIGITS = tuple((a, b) for a, b, k in json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'case.json')))['digit'])
PROPS = {'s': ((9, 10), (13, 13), (32, 32)), 'd': DIGITS, 'h': DIGITS + ((65, 70), (97, 102))}
VAGUE = {'s': ((11, 12), (28, 31), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x180e, 0x180e), (0x2000, 0x200f), (0x2028, 0x202f), (0x205f, 0x206f), (0x3000, 0x3000), (0xfeff, 0xfeff)), 'd': (), 'h': ()}


class Skip(Exception):
    """Not a case that the property is about"""


class Text:
    """A text: characters that are unknown, or known. Unknown characters are one of `abc (alpha None),
    any ASCII character (1), or any character of 2, 3 or 4 bytes of UTF-8"""

    def __init__(self, M, alpha, length, chars=None):
        self.M, self.alpha, self.n, self.chars = M, alpha, length, chars
        self.memo = {}

    def ch(self, i):
        """The character at i"""
        r = self.memo.get(i)
        if r is None:
            a = self.alpha
            n = 2 if a is None else {1: 7, 2: 11, 3: 16, 4: 16}[a]
            v = self.M.I.inbits('char %d' % i, n, 20 - i)
            if a is None:
                v = cat([v, const(0x60 >> 2, 6)])
            elif a == 4:			# the supplementary planes: 1xxxx only
                v = cat([v, const(1, 1)])
            r = self.memo[i] = v
        return r

    def valid(self):
        """Rule out NUL, overlong forms and surrogates"""
        for i in range(self.n):
            if self.alpha is not None:
                c = self.ch(i)
                if c.const() == 0 or self.alpha > 1 and self.within(c, {2: ((0, 0x7f),), 3: ((0, 0x7ff), (0xd800, 0xdfff), (0xfffe, 0xffff)), 4: ()}[self.alpha]):
                    raise Skip

    def within(self, c, ranges):
        lo = sum(1 << k for k, b in enumerate(c.bits) if b == 1)
        hi = sum(1 << k for k, b in enumerate(c.bits) if b != 0)
        maybe = False
        for a, b in ranges:
            if a <= lo and hi <= b:
                return True
            if not (hi < a or b < lo):
                maybe = True
        if maybe:
            self.M.I.conc(c, False)
            raise Broken('undecided')
        return False

    @staticmethod
    def one(x, ranges):
        return any(a <= x <= b for a, b in ranges)

    def test(self, n, i):
        if self.chars is not None:
            c = ord(self.chars[i])
            within = self.one
        else:
            c = self.ch(i)
            within = self.within
            if n[0] == 'c':
                x = ord(n[1])
                return x < 1 << c.w and self.M.I.eq(c, const(x, c.w))
        if n[0] == 'c':
            return c == ord(n[1])
        if n[0] == 'cls':
            return within(c, [(ord(a), ord(b)) for a, b in n[2]]) != n[1]
        if n[1] in PROPS:
            if within(c, VAGUE[n[1]]):
                raise Skip
            return within(c, PROPS[n[1]])
        return True			# properties that are not known accept any character

    def show(self):
        if self.chars is not None:
            return repr(self.chars)
        r = ''
        for i in range(self.n):
            c = self.ch(i).const()
            r += chr(c) if c is not None else '?'
        return repr(r)

    def object(self):
        M = self.M
        if self.chars is not None:
            return M.bytes('the text', self.chars.encode('utf-8') + b'\0')
        k = self.alpha or 1
        p = M.bytes('the text', bytes(k * self.n + 1))
        for i in range(self.n):
            c = self.ch(i)
            if k > 1:
                if k == 4:
                    c = cat([c, const(0, 4)])
                for j in range(1, k):
                    p.obj.c[k * i + k - j] = (M.low(cat([cube.part(c, 6 * (j - 1), 6), const(2, 2)])), 1)
                n = 7 - k
                c = cat([cube.part(c, 6 * (k - 1), n), const((0xff00 >> k & 0xff) >> n, 8 - n)])
            elif c.w == 7:
                c = cat([c, const(0, 1)])
            p.obj.c[k * i] = (M.low(c), 1)
        return p


class Prog(fast.Program):
    def hooked(self, name):
        return False


class Job:
    """One expression"""

    def __init__(self, re, features=ALL, rejected=0, alpha=None, maxlen=2, texts=None, offsets=(0,), at=True, again=False):
        self.re, self.features, self.rejected = re, features, rejected
        self.again = again
        self.alpha, self.maxlen, self.texts, self.offsets, self.doat = alpha, maxlen, texts, offsets, at


KIND = {'abort': 'abort', 'ends': 'ends', 'leak': 'leak', 'modified': 'modified', 'alloc': 'memory'}


class Runner:
    def __init__(self, rep, mod, prog, rules, tier='quick'):
        self.rep, self.mod, self.prog, self.rules = rep, mod, prog, rules
        self.M = M = fast.Machine(prog, dict(strlen=self.strlen, printf=lambda M, ins, *a: 1, putchar=lambda M, ins, *a: 1, puts=lambda M, ins, *a: 1))
        self.rule = cube.Rule()
        M.I = cube.Interp(mod, cube.Cubes(), self.rule, {})
        M.init()
        self.size = {}
        for k in ('str', 'prog', 'res'):
            M.steps = 10000
            self.size[k] = M.call('s_' + k)
        M.checkpoint()
        self.base = dict(M.heap)

    @staticmethod
    def strlen(M, ins, p):
        if p.obj is not None and p.obj.name == 'the text':
            return p.obj.size - 1 - p.off		# NULs are ruled out (Text.valid)
        return fast.h_strlen(M, ins, p)

    def reset(self):
        M = self.M
        while len(M.log) > 1:
            M.restore()
            M.pop()
        M.restore()

    def bad(self, job, rule, key, msg, ins=None, text=None):
        if rule not in self.rules:
            return
        s = site(ins) if ins is not None else ('rx', '?')
        if s[0] == '?':
            s = ('rx', '?')
        re = job.re if len(job.re) < 60 else job.re[:25] + '...(%d characters)...' % len(job.re) + job.re[-25:]
        what = '/%s/' % re.replace('\n', '\\n')
        if job.features != ALL or job.rejected:
            what += ' (features %#x, rejecting %#x)' % (job.features, job.rejected)
        if text is not None:
            what += ' on ' + text
        self.rep.bad(rule, s[0], '%s:%s' % (s[1] if ins is not None else '', key), '%s %s' % (what, msg), ['expression ' + what])

    def ok(self, rule, what):
        if rule in self.rules:
            self.rep.ok(rule, what)

    def fault(self, job, e, text=None):
        if isinstance(e, RecursionError):
            rule, msg, ins = 'ends', 'recurses without end', None
        else:
            rule, msg, ins = KIND.get(e.kind, 'memory'), e.msg, e.ins
        if rule not in self.rules and 'result' in self.rules:
            self.bad(job, 'result', 'none', 'has no result: %s' % msg, ins, text)
        else:
            self.bad(job, rule, rule, msg, ins, text)

    def run(self, job):
        M = self.M
        self.reset()
        M.I = cube.Interp(self.mod, cube.Cubes(), self.rule, {})
        try:
            self.one(job)
        except (Fault, RecursionError) as e:
            self.fault(job, e)
        except cube.Split:
            raise Broken('compiling /%s/ depends on something unknown' % job.re)
        self.rep.paths += 1

    def var(self, name, size):
        return P(self.M.obj(name, size, 'local'), 0)

    def one(self, job):
        M = self.M
        M.steps = 400000 + 3000 * len(job.re)
        ref = Ref(job.re, job.features, job.rejected)
        try:
            tree = ref.parse()
        except Bad:
            tree = None
        except Unspecified:
            tree = 0
        s = self.var('the expression', self.size['str'])
        M.call('f_str', s, M.bytes('the text of the expression', job.re.encode('utf-8') + b'\0'))
        nfa, msg, off = self.var('nfa', 8), self.var('message', 8), self.var('offset', 4)
        ok = M.call('f_compile', s, job.features, job.rejected, nfa, msg, off)
        ok = M.conc(ok, 1)
        if job.again:
            n1, n2 = self.var('nfa', 8), self.var('second nfa', 8)
            same = M.call('f_again', s, job.features, job.rejected, n1, n2)
            p1, p2 = M.ld(n1, 8, 0, None), M.ld(n2, 8, 0, None)
            if same != 7:
                self.bad(job, 'syntax', 'again', 'compiled again by the same compiler, differs in %s' % ('whether it is an expression' if not same & 1 else 'the message' if not same & 2 else 'the error offset'))
            elif ok and self.program(p1) != self.program(p2):
                self.bad(job, 'syntax', 'again', 'compiled again by the same compiler, becomes another program')
            for q in (p1, p2):
                if q.obj is not None:
                    M.free(q, 'new[]', None)
        M.call('f_unstr', s)
        m = M.ld(msg, 8, 0, None)
        p = M.ld(nfa, 8, 0, None)
        self.ok('memory', job.re)
        self.ok('abort', job.re)
        self.ok('ends', job.re)
        if tree is None or tree == 0 and not ok:
            if ok:
                self.bad(job, 'syntax', 'accepted', 'is compiled, but is not an expression')
            else:
                if m.obj is None:
                    self.bad(job, 'syntax', 'message', 'is rejected without a message')
                o = M.ld(off, 4, 32, None)
                if o.__class__ is not int or not 0 <= o <= len(job.re):
                    self.bad(job, 'syntax', 'offset', 'is rejected at %s' % ('an undefined offset' if o.__class__ is not int else 'offset %d' % cube.signed(o, 32)))
                if p.__class__ is not P or p.obj is not None:
                    self.bad(job, 'syntax', 'program', 'is rejected, but leaves a program behind')
                self.ok('syntax', job.re)
                self.leak(job)
            return
        if not ok:
            self.bad(job, 'syntax', 'rejected', 'is rejected: %s' % ('no message' if m.obj is None else M.text(m).decode('latin1')))
            return
        if m.obj is not None:
            self.bad(job, 'syntax', 'message', 'is compiled, with an error message')
        self.ok('syntax', job.re)
        names = ref.names
        if p.obj is None:
            self.bad(job, 'result', 'program', 'is compiled to nothing')
            return
        pr = self.var('the program', self.size['prog'])
        M.steps = 400000
        # A program is a NUL-terminated string: what follows the first NUL in its array is not part of it
        if tree == 0:
            tree = None
            nfa = p
        else:
            text = self.program(p)
            nfa = M.bytes('the compiled program', text)
            M.call('f_prog', pr, p, 1)
            M.call('f_unprog', pr)
            self.leak(job)
        if job.again and 'memory' in self.rules and tree is not None:
            n = M.call('f_dump', nfa)
            if n != len(text):
                self.bad(job, 'memory', 'dump', 'is dumped up to byte %s of the %d of its program' % (n, len(text)))
        M.call('f_prog', pr, nfa, int(nfa is p))
        if tree is not None:
            for i in range(len(names) + 2):
                q = M.call('f_name', pr, i)
                want = names[i - 1] if 1 <= i <= len(names) else ''
                got = M.text(q).decode('utf-8', 'replace') if q.obj is not None else None
                if got != want:
                    self.bad(job, 'result', 'name', 'names group %d %s instead of %s' % (i, got, want))
        frozen = [o for o in M.heap if o not in self.base] + [pr.obj]	# matching changes no program
        kinds = [o.kind for o in frozen]
        if 'result' not in self.rules or tree is None or not clear(tree):
            self.texts(job, frozen, kinds, lambda *a: None, pr)
        else:
            self.texts(job, frozen, kinds, lambda *a: self.matched(job, tree, len(names), *a), pr)
        M.steps = 400000
        M.call('f_unprog', pr)
        self.leak(job)

    def program(self, p):
        r = b''
        while not r.endswith(b'\0'):
            r += bytes([self.M.conc(self.M.ld(P(p.obj, p.off + len(r)), 1, 8, None), 8)])
        return r

    def leak(self, job, text=None):
        left = [o for o in self.M.heap if o not in self.base]
        if left:
            self.bad(job, 'leak', left[0].name, 'leaves behind %s' % left[0].name, None, text)
        self.ok('leak', job.re)

    def texts(self, job, frozen, kinds, want, pr):
        M = self.M
        for o in frozen:
            o.kind = 'frozen'
        M.checkpoint()
        held = dict(M.heap)
        try:
            if job.texts is not None:
                cases = [(len(t), t) for t in job.texts]
            else:
                cases = [(n, None) for n in (range(job.maxlen + 1) if isinstance(job.maxlen, int) else job.maxlen)]
            for length, chars in cases:
                for off in job.offsets:
                    if off > length:
                        continue
                    for fn in {True: ('f_after', 'f_at'), False: ('f_after',), 'only': ('f_at',)}[job.doat]:
                        if not self.explore(job, length, chars, off, fn, pr, want, held):
                            return
        finally:
            M.restore()
            M.pop()
            for o, k in zip(frozen, kinds):
                o.kind = k

    def explore(self, job, length, chars, off, fn, pr, want, held):
        M = self.M
        cubes = cube.Cubes()
        work = [{}]
        while work:
            c = work.pop()
            M.restore()
            M.I = cube.Interp(self.mod, cubes, self.rule, c)
            M.steps = 200000 + 2000 * (length + 1) * (len(job.re) + 10)
            t = Text(M, job.alpha, length, chars)
            try:
                t.valid()
                if not self.match(job, t, off, fn, pr, want, held):
                    return False
            except Skip:
                continue
            except cube.Split as s:
                for v in (0, 1):
                    d = dict(c)
                    d[s.bit] = v
                    work.append(d)
                continue
            except (Fault, RecursionError) as e:
                self.fault(job, e, t.show())
                return False
            self.rep.paths += 1
        return True

    def match(self, job, t, off, fn, pr, want, held):
        M = self.M
        x = self.var('the text value', self.size['str'])
        r = self.var('the result', self.size['res'])
        M.call('f_str', x, t.object())
        M.call(fn, r, pr, x, off)
        ok = M.conc(M.call('f_ok', r), 1)
        got = None
        if ok:
            o, n, k = M.call('f_offset', r), M.call('f_length', r), M.call('f_captures', r)
            got = o, o + n, k, [M.call('f_capture', r, i) for i in range(2 * k)]
        good = want(t, off, fn, got)
        M.call('f_unres', r)
        M.call('f_unstr', x)
        left = [o for o in M.heap if o not in held]
        if left:
            self.bad(job, 'leak', left[0].name, 'leaves behind %s' % left[0].name, None, t.show())
        self.ok('leak', job.re)
        self.ok('modified', job.re)
        self.ok('memory', job.re)
        return good is not False

    def matched(self, job, tree, ncap, t, off, fn, got):
        mean = Meaning(t, t.n, ncap)
        exp = None
        for i in range(off, t.n + 1) if fn == 'f_after' else (off,):
            r = mean.match(tree, i)
            if r:
                exp = (i,) + r
                break
        how = '%s, %s %d' % (t.show(), 'after' if fn == 'f_after' else 'at', off)
        if (got is None) != (exp is None):
            self.bad(job, 'result', 'matches', 'matches (%d to %d), but should not' % got[:2] if got else 'does not match, but should (%d to %d)' % exp[:2], None, how)
            return False
        if got is None:
            self.ok('result', job.re)
            return
        if got[:2] != exp[:2]:
            self.bad(job, 'result', 'place', 'matches %d to %d instead of %d to %d' % (got[:2] + exp[:2]), None, how)
            return False
        self.ok('result', job.re)
        if got[2] != ncap + 1 or got[3][:2] != list(got[:2]):
            self.bad(job, 'result', 'captures', 'has %d captures instead of %d, the first from %s to %s' % (got[2], ncap + 1, got[3][0], got[3][1]), None, how)
            return False
        if tuple(got[3][2:]) not in exp[2]:
            self.bad(job, 'result', 'captures', 'captures %s; possible: %s' % (got[3][2:], sorted(exp[2])[:4]), None, how)
            return False


# ---- expressions
SYM = 'a b|*+?(){},12\\[]^-$.<:!n'.replace(' ', '')


def alphabet(re):
    """Texts to try for an expression over few characters: those it names and another"""
    cs = []
    for c in re:
        if c.isalnum() and c not in cs:
            cs.append(c)
    return cs


def short(alpha, n):
    for k in range(n + 1):
        yield from (''.join(x) for x in itertools.product(alpha, repeat=k))


ABC = set('abc`')


def lazy(re):
    """Can its texts be left unknown characters of `abc?"""
    return not set(re) & set('\\n\n')


def strings(n, syms):
    for t in itertools.product(syms, repeat=n):
        re = ''.join(t)
        if lazy(re):
            yield Job(re, maxlen=1 if n > 3 else 2, at=False)
        else:
            yield Job(re, texts=['', '\n', 'a', 'n', '1', '\\'], at=False)


ATOMS = [('c', 'a'), ('c', 'b'), ('any',), ('cls', False, (('a', 'b'),)), ('cls', True, (('a', 'a'),))]
UNARY = ['*', '+', '?', '{2}', '{1,2}', '{2,}', '{,2}', '()', '(?<>)', '(?!)']


def atomic(t):
    return t[0] in ('c', 'any', 'cls', 'grp', 'cap', 'neg', 'x')


def shapes(n):
    """All expressions of n operators, as text; @ stands for a capture's name"""
    if n == 0:
        return [('a', 1), ('b', 1), ('.', 1), ('[ab]', 1), ('[^a]', 1), ('^', 0), ('$', 0), ('', -1)]
    out = []
    for t, a in SH(n - 1):
        for u in UNARY:
            if u == '()':
                if a != 1:
                    out.append(('(' + t + ')', 1))
            elif u == '(?<>)':
                out.append(('(?<@>' + t + ')', 1))
            elif u == '(?!)':
                out.append(('(?!' + t + ')', 1))
            elif a == 1:
                out.append((t + u, 0))
            elif a == 0:
                out.append(('(' + t + ')' + u, 0))
    for k in range(n):
        for l, a in SH(k):
            for r, b in SH(n - 1 - k):
                out.append((l + '|' + r, -2))
                if a != -1 and b != -1 and a != -2 and b != -2:
                    out.append((l + r, 0))
                elif a == -2 and b not in (-1, -2):
                    out.append(('(' + l + ')' + r, 0))
                elif b == -2 and a not in (-1, -2):
                    out.append((l + '(' + r + ')', 0))
    return out


_sh = {}


def SH(n):
    if n not in _sh:
        _sh[n] = list(dict.fromkeys(shapes(n)))
    return _sh[n]


def named(t):
    for c in 'xyzuvw':
        if '@' not in t:
            return t
        t = t.replace('@', c, 1)
    return t


def pseudo(n, lo, hi, seed):
    """n expressions of lo..hi operators, by a fixed sequence"""
    import random
    rng = random.Random(seed)

    def gen(k, reps=2):
        if k == 0:
            return rng.choice(SH(0)[:5] * 3 + SH(0))
        if rng.random() < 0.45:
            u = rng.choice(UNARY if reps else UNARY[-3:])
            t, a = gen(k - 1, reps - (u[0] != '('))
            if u == '(?<>)' and t.count('@') > 3:
                u = '()'
            if u in ('()', '(?<>)', '(?!)'):
                return {'()': '(', '(?<>)': '(?<@>', '(?!)': '(?!'}[u] + t + ')', 1
            return (t + u if a == 1 else '(' + t + ')' + u), 0
        i = rng.randrange(k)
        (l, a), (r, b) = gen(i, reps), gen(k - 1 - i, reps)
        if l.count('@') + r.count('@') > 4:
            r = r.replace('?<@>', '')
        if rng.random() < 0.45:
            return l + '|' + r, -2
        l = '(' + l + ')' if a < -1 else l
        r = '(' + r + ')' if b < -1 else r
        return l + r, 0
    for i in range(n):
        yield named(gen(rng.randint(lo, hi))[0])


def sized():
    """Expressions whose parts have sizes around those where an offset needs one more byte"""
    few = ['(%s)*', '(%s)+', '(%s)?', '(%s)*a', '(%sa)*b', 'a(%s)?b', '(a|%s)b', '(%s|a)b', '(%s|a|b)c', '(a|%s|b)', '(a|b|%sc)', '(?!%sb)a', '(?!b)a%s', '(?!a(%s)?b)a', '((%s)*a|b)*c', '(%s){2}', '(a%s){1,2}b', '(?<x>%s)b|a', '(?<x>(%s)?|a)b',
           'a|%s|b', '%s|b', 'a|%s', '(((%sa)?b)?|c)+', '(a%s|b)*', '((a|%s)b)*', '(a(%s)*b)*', '(%s)+?a'.replace('+?', '+'), '(b(?!%s))*a']
    for c in few:
        for n in list(range(38, 66)) + [124, 125, 126, 127, 128]:
            yield Job(c % ('\\p{' + 'p' * n + '}'), maxlen=2, at=False)
    for c in few:
        for n in list(range(994, 1026, 3)) + [1021, 1022, 1023]:
            yield Job(c % ('\\p{' + 'p' * n + '}'), maxlen=1, at=False)
    for n in range(14, 34):			# two parts, of a size each
        for c in ('(%s%s)*', '(%s|%s)a', '(%s*|%sa)*b', '((%s)?(%s)?a)*b'):
            p = '\\p{' + 'p' * n + '}'
            yield Job(c % (p, p), maxlen=2, at=False)
    for n in range(9, 24):
        p = '\\p{' + 'p' * n + '}'
        for c in ('(%s|%s|%s)a', '((%s)*(%s)*a|%s)*', '(%s?%s?%s)+a', '(%s(a|%s)*|b%s)+'):
            yield Job(c % (p, p, p), maxlen=2, at=False)


def long():
    """Many characters, alternatives, options, groups, names; counts; nesting"""
    for n in list(range(1, 80)) + [126, 127, 128, 200]:
        at = dict(at=False if n < 20 else 'only')
        if n < 40:
            yield Job('a' * n, maxlen=(n - 1, n) if n < 12 else (n,), at='only')
        if n < 12:
            yield Job('(' + 'a' * n + '|' + 'b' * n + ')c', maxlen=(n + 1,), at='only')
        yield Job('(' + 'a' * n + '|' + 'b' * n + ')c', texts=['a' * n + 'c', 'b' * n + 'c', 'a' * n], at='only')
        yield Job('a' * n, texts=['a' * n, 'a' * (n - 1), 'b' + 'a' * (n + 1)], **at)
        if n < 80:
            yield Job('(' + 'ab' * n + ')*c', texts=['ab' * n + 'c', 'c', 'ab' * n], **at)
    for n in list(range(1, 27)):
        L = 'abcdefghijklmnopqrstuvwxyz'[:n]
        for re in ('|'.join(L), '(' + '|'.join(L) + ')*-', '?'.join(L) + '?-', '*'.join(L) + '*-', '|'.join('(?<%s>%s%s)' % (c, c, c) for c in L), '[' + L + ']+'):
            yield Job(re, alpha=1, maxlen=1, at=False)
            if n < 6:
                yield Job(re, alpha=1, maxlen=(2,), at='only')
            yield Job(re, maxlen=(2,), at='only')
        yield Job('(' + '|'.join(L) + ')*-', texts=[L + '-', L[::-1] + '-', L], at=False)
        yield Job('?'.join(L) + '?-', texts=[L + '-', L[0] + L[-1] + '-', L], at=False)
        yield Job('*'.join(L) + '*-', texts=[L + '-', L[-1] * 3 + '-', L[0] * 2 + L[-1] + '-', L], at=False)
        yield Job('|'.join('(?<%s>%s%s)' % (c, c, c) for c in L), texts=[L[0] * 2, L[-1] * 2, L[n // 2] * 2, '-'], at=False)
    for n in (1, 5, 10, 20, 30, 40, 60, 100):		# characters of several bytes
        for lo in 0x3b1, 0x4e00, 0x1f600:
            t = ''.join(chr(lo + i) for i in range(n))
            for re in ('[' + t + ']', '[^' + t + ']*', t, '(?<' + t + '>a)', '\\p{' + t + '}', t + '*', '(' + t + '|a)+'):
                yield Job(re, texts=[t[0], t, 'a'], at='only' if n < 60 or '[' not in re else False)
    for n in range(1, 14):
        yield Job('(' * n + 'a' + ')' * n, texts=['a', 'b'])
        yield Job(''.join('(?<n%d>' % i for i in range(n)) + 'a' + ')' * n, texts=['a', 'ba'])
        yield Job('(?!' * n + 'a' + ')' * n + '.', texts=['a', 'b'])
    for n in range(1, 7):
        yield Job('(' * n + 'ab' + ')*' * n + 'c', texts=['ababc', 'c', 'ac'])
        yield Job('(' * n + 'ab' + ')+' * n + 'c', texts=['ababc', 'c', 'ac'])
        yield Job('(' * n + 'a' + '|b)' * n + 'c', texts=['ac', 'bc', 'c'])
    for n in 30, 60, 126, 127, 128, 200, 254, 255:
        yield Job(''.join('(?<n%d>a)' % i for i in range(n)), texts=['a' * n, 'a' * (n - 1)] if n < 200 else ['a' * 9], at='only')
    for c in ('2', '3', '1,2', '2,4', '3,', ',3', '2,', '1,1', '1', '1,', ',1', ',', '5,7', '127', '128', '127,129', '250,254', '254', '254,', '255', '1,255', ',254', '300', '70000', '9,2', '65536', '0,1', '0,3', '0,'):
        a, k, b = c.partition(',')
        lo, hi = int(a or 0), int(b or a or 0)
        ns = sorted({0, 1, lo - 1, lo, lo + 1, hi, hi + 1, 3} - {-1}) if hi < 255 else [1]
        yield Job('a{%s}' % c, texts=['a' * n for n in ns] + ['b' + 'a' * min(lo, 20)], at=False if max(ns) < 40 else 'only')
        if hi < 8:
            yield Job('a{%s}b' % c, texts=['a' * n + 'b' for n in range(0, 9)], at=False)
            yield Job('(ab|a){%s}b' % c, texts=['a' * n + 'b' for n in range(0, 6)] + ['ab' * n for n in range(5)] + ['aabab', 'abaab'], at=False)
            yield Job('((a|b){2}c?){%s}a' % c, texts=['ab' * n + 'a' for n in range(0, 5)] + ['abcabca', 'abcaba', 'aba', 'abcbba'], at=False)
            yield Job('(?<x>a{%s})(?<y>a*)' % c, texts=['a' * n for n in range(0, 7)], at=False)
    for k in 1, 62, 63, 64, 126, 127, 128, 300, 2047, 2048:
        yield Job('(?<%s>a)' % ('n' * k), texts=['a'], at=False)
        yield Job('a\\p{%s}' % ('n' * k), texts=['a', 'ab'], at=False)


SPECIAL = [chr(c) for c in range(1, 128)] + list('\x80\xa0\xe9\u07ff\u0800\u20ac\uffff\U00010000\U0001f600\U0001ffff')


def wide(re):
    return max([1] + [len(c.encode('utf-8')) for c in re])


def special():
    """Each character as itself, escaped, in classes and repeated; numeric escapes; properties; classes; lines"""
    for c in SPECIAL:
        for re in (c, '\\' + c, '[' + c + ']', '[^' + c + ']', '[\\' + c + ']', 'a' + c + 'b', c + '*', '(' + c + ')', '\\' + c + '+', '[a' + c + ']'):
            yield Job(re, alpha=1, maxlen=1 if re != 'a' + c + 'b' else (3,), at=False if len(re) < 3 else 'only')
            if wide(re) > 1:
                yield Job(re, alpha=wide(re), maxlen=1, at=False)
        yield Job(c + '+' if ord(c) > 47 else '\\' + c + '+', alpha=wide(c), maxlen=(2,), at='only')
    for h in ['1', '9', 'a', 'F', '10', '41', '7f', '80', 'E9', 'ff', '0a', '7fF', '123', '20AC', '1F600', '1F6000', '0041', '00041', '000410', 'g', '']:
        for e in ('\\x', '\\u'):
            for tail in ('', 'z', '*', '|b', '2'):
                n = 2 if e == '\\x' else 5
                ds = h[:n]
                v = int(ds, 16) if ds and all(c in '0123456789abcdefABCDEF' for c in ds) else 1
                k = len(chr(v or 1).encode('utf-8'))
                yield Job(e + h + tail, alpha=k, maxlen=1, at=False)
                if h[n:] or tail in ('z', '2'):
                    t = chr(v or 1) + h[n:] + (tail if tail in ('z', '2') else '')
                    yield Job(e + h + tail, texts=[t, t[:-1], t + t], at='only')
    for o in ['1', '7', '10', '101', '141', '377', '1011', '18', '118', '41', '1411', '08', '12z', '7a']:
        for tail in ('', '*', '9'):
            ds = o[:3]
            while not all(c in '01234567' for c in ds):
                ds = ds[:-1]
            v = chr(int(ds, 8) or 1)
            yield Job('\\' + o + tail, alpha=len(v.encode('utf-8')), maxlen=1, at=False)
            t = v + o[len(ds):] + tail.replace('*', '')
            yield Job('\\' + o + tail, texts=[t, t[:-1], t + t], at='only')
    for p in 's', 'd', 'h':
        for re in ('\\' + p, '\\p{%s}' % p, '\\' + p + '+', 'a\\' + p + '|b', '(\\' + p + ')*', '(?!\\' + p + ').', '\\' + p + '{2}'):
            yield Job(re, alpha=1, maxlen=2 if len(re) < 4 else 1, at=False)
            for k in range(2, 5) if len(re) < 4 else ():
                yield Job(re, alpha=k, maxlen=1, at='only')
    yield Job('\\p{other}', alpha=1, maxlen=1, at=False)
    for re in ('[a-c]', '[^a-c]', '[-a]', '[a-]', '[]a]', '[^]a]', '[^-a]', '[a\\]b]', '[a\\-c]', '[\\a-\\c]', '[a-c-e]', '[c-a]', '[b-b]', '[]-a]', '[--a]', '[a-b-]', '[^^]', '[\\^a]', '[a^]', '[[]', '[[a]]', '[a-cb-d]', '[+-9]',
               '[\xe9-\xfc]', '[^\xe9]', '[a\u20ac]', '[\u20ac-\u20af\U0001f600-\U0001f640]', '[a-\xe9]+', '[\x01-\U0001ffff]', '[^a-\u20ac]', '[\u07ff-\u0800]', '[\uffff-\U00010000]', '[', '[]', '[^]', '[a', '[a-', '[a\\', '[a-\\', '[^', '[\\]', '[]]', '[^]]', '[-]', '[--]', '[---]', '[]', '[a-]b]', 'x[abc]y', '[.]', '[*]', '[|]', '[(]', '[)]', '[$]', '[\\n]', '[n-\\p]', '[ab][cd]', '[ab]*[bc]', '[a]{2}', '([ab]|c)+',
               '[' + ''.join(chr(c) for c in range(0x61, 0x7b, 2)) + ']', '[' + ''.join(chr(c) for c in range(0x3b1, 0x3f0)) + ']', '[^' + ''.join(chr(c) for c in range(0x4e00, 0x4e00 + 50)) + ']'):
        for k in range(1, 5):
            if k == 1 or k <= wide(re) or '^' in re:
                yield Job(re, alpha=k, maxlen=1, at=False)
        if len(re) > 4 and wide(re) == 1:
            yield Job(re, maxlen=2, at=False)
    for re in ('^a', 'a$', '^', '$', '^$', '^a$', 'a^b', 'a$b', 'a\n^b', 'a$\nb', '(^|a)b', 'a(b|$)', '^*', '$+', '^{2}', '(^a)*', '(a$)+', '.^a', '$.', '(?!^)a', '(?!$).', '^^a', 'a$$', '(^)', '($)*a', '^.*$', '\n', '.\n.', '[^a]^', 'a|^b|c$', '(^a|b$)+', '^(a|\n)*b'):
        yield Job(re, texts=list(short('ab\n', 3)), offsets=(0, 1))
        yield Job(re, alpha=1, maxlen=(1, 2) if len(re) < 4 else 1, offsets=(0, 1))
    for re in ('\u20ac', '\u20ac+', 'a\u20acb', '(\xe9|\u20ac)\U0001f600', '.\xe9', '(?<\xe9>\u20ac)a', '(?!\xe9).', '\xe9{2}', '\xe9?a', '\u20ac*', '(?<x>.)(?<y>.)', '\\\u20ac', '\\\xe9*'):
        yield Job(re, texts=list(short('\xe9\u20aca', 2)) + ['\xe9\U0001f600', '\u20ac\U0001f600', 'a\u20acba', '\xe9\u20ac\u20ac'], offsets=(0, 1))
        for k in range(1, 5):
            yield Job(re, alpha=k, maxlen=1)


def counted():
    """Counted repetitions in each other"""
    for x in ('(?<x>a)%s', '(a%s)', '(a|b)%s', '(ab?)%s', '(?<x>a%sb?)', '(a?b)%s', '(a*b)%s', '(a%s|b)'):
        for i in ('{2}', '{1,2}', '{2,}', '{,2}', '{1,3}', '{2,3}', '*', '+'):
            t = x % i
            for o in ('{2}', '{3}', '{1,2}', '{2,3}', '{2,}', '{,2}'):
                if t[-1] != ')':
                    yield Job('(' + t + ')' + o, maxlen=(3, 4), at='only')
                else:
                    yield Job(t + o, maxlen=(3, 4), at='only')
    for c in ('{2}', '{1,2}', '{2,3}', '{,3}'):
        for d in ('{2}', '{1,2}', '{2,}'):
            for e in ('{2}', '{1,2}', '{,2}', '*'):
                yield Job('(((a)' + c + ')' + d + ')' + e + 'b', maxlen=(4,) if '3' not in c or c[1] == '2' else (3,), at='only')


CORE = ['a', 'ab', 'a|b', 'a|ab', 'ab|a', 'a*', 'a+', 'a?', 'a*b', 'a*a', '(ab)*', '(a|b)*c', '(a|ab)(c|bc)', '(?<x>a*)(?<y>b*)', '(?<x>a|ab)(?<y>c|bc)', '(?<x>a)|(?<y>b)', '(?<x>(?<y>a)|b)*', 'a.c', '.*b', '.+', '[ab]c*', '(?!a).', '(?!ab)[ab]*', 'a(?!b)', 'a(?!b)c?', '(?!(?!a)).', '(a|(?!b).)*c',
        'a{2}', 'a{1,2}b', 'a{2,}', '(ab?){2}', '(a{1,2}b){2}', '(a|b){2,3}c', '(a*b){2}', '(?<x>a){2}', '(?<x>a|b){1,2}(?<y>b)', '(a*)*', '(a*)+b', '(a?b?)*c', '(a|b|)c', '(|a)b', 'a||b', '()a', '(?:a|b)c', '((a)|(b))(c)', '(a(b(c)?)?)?', 'aa*|b', 'a*|b*', '(a|b)(a|b)(a|b)', 'abc|ab|a', 'a|b|c', '(a+b+)+', '(a+|b)*c', '.a', '..', '[^a]*a']


def core():
    for re in CORE:
        yield Job(re, maxlen=3, offsets=(0, 1, 2, 3), again=True)


def features():
    A = ALL
    probes = {'CEscapes': ('\\n', '\\t', '\\b', '\\e', '\\f', '\\r'), 'Shorthand': ('\\s', '\\d', '\\h', '\\d+'), 'OctalChar': ('\\101', '\\1', '\\7*'), 'HexChar': ('\\x41', '\\x4', '\\x'), 'UnicodeChar': ('\\u41', '\\u20AC', '\\u'),
              'PropertyChars': ('\\p{s}', '\\p{'), 'CharClasses': ('[ab]', '[a', '[^a]b'), 'ZeroOrOneQuest': ('a?', '?', 'ab?'), 'ZeroOrMore': ('a*', '*', 'ab*c'), 'OneOrMore': ('a+', '+'), 'CountRepetition': ('a{2}', '{', 'a{1,2}b'),
              'Alternates': ('a|b', '|', '(a|b)c'), 'Group': ('(a)', '(', ')', '(ab)c'), 'BOL': ('^a', 'a^'), 'EOL': ('a$', '$a'), 'Capture': ('(?<x>a)', '(a)'), 'NonCapture': ('(?:a)', '(a)'), 'NegLookahead': ('(?!a)b', '(a)')}
    def jobs(re, features, rejected=0):
        f = dict(features=features, rejected=rejected)
        if set(re) & set('\\.?[^$(*|'):
            yield Job(re, alpha=1, maxlen=1, **f)
        else:
            yield Job(re, alpha=1, maxlen=1, at=False, **f)
        if len(re) > 1:
            yield Job(re, alpha=1 if len(re) > 2 and not rejected else None, maxlen=(2,), at='only', **f)
            if 2 < len(re) < 9:
                yield Job(re, alpha=1, maxlen=(len(re) - 1, len(re)) if '\\' in re else (len(re),), at='only', **f)
    for f, res in probes.items():
        for re in res:
            yield from jobs(re, A & ~F[f])
            yield from jobs(re, A, F[f])
            yield from jobs('b' + re, A, F[f])
        for g, other in probes.items():
            if g != f:
                yield from jobs(other[0], A & ~F[f])
                yield from jobs(other[0], A, F[f])
    for re in ('a?b', '?', '?*', '.', 'a.?', '(?:a)?', '?+b', 'a|?'):
        yield Job(re, features=A | F['AnyIsQuest'], alpha=1, maxlen=1)
        yield Job(re, features=A | F['AnyIsQuest'], texts=['', 'a', '.', 'ab', 'a?b', 'acb', 'a.c', 'bbb', 'b'])
    for re in ('*', 'a*b', '*a', '(a*)b', 'a*', '**'):
        yield Job(re, features=A | F['ZeroOrMoreAny'], maxlen=3)
    for re in (' a b', 'a b*', 'a b *c', 'a #x\nb', 'a #x', '#a', 'a#b', '(a b)*', 'a\tb', 'a\nb', 'a\\ b', '[ a]b', ' ', ' a | b ', '(?<x> a )b', 'ab c+', 'a {2}', '\\  a', 'a #(\n|b', '( #)\na)', 'a  \t\n b', '^ a $', 'a\\t b', 'a + b', 'ab ?c', '[ab] *c', '(ab) *c', 'a #*\n*b'):
        yield Job(re, features=A | F['ExtendedRE'], maxlen=3, at=False)
        yield Job(re, features=A | F['ExtendedRE'], texts=['#a', 'a#b', ' b', ' a', 'a b', 'a\tb', 'aaaab', 'a*b', ' a b'])
        yield Job(re, texts=['', 'a', 'ab', 'a b', ' a', 'a  ', 'a #x\nb', '#a', 'a\tb', ' '])


def broken():
    """Expressions that are wrong in one place, after, within and before what is right"""
    errs = ['(', ')', '[', '[a', '[]', '[^', '*', '+', '?', '{2}', 'a{', 'a{2', 'a{1,', 'a{3,2}', 'a{255}', 'a{1,300}', 'a{99999}', '(?', '(?<', '(?<>a)', '(?<x', '(?x)', '(?!a', '(?:a', 'a**', 'a{2}*', 'a?+', '|*', '(*)', '^*', '\\', '\\x', '\\xg', '\\u', '\\ug', '\\p', '\\p{', '\\p{}', '\\pa', '[\\', '(?<x>a)(?<x>b)', '(?=a)', '())']
    around = ['%s', 'a%s', 'ab|%s', '(?<y>a)%s', '[ab]%s', '(a%s', '%sb', '%s)', '(%s)', 'a*%s', '(?!a)%s', '\u20ac%s', 'abcdefgh%sijk', '(a|b)*%s', '(%s|a)']
    for e in errs:
        for a in around:
            yield Job(a % e, at=False, again=True)
    for t in ('(?<x>a)(?<y>b)(?<x>c)', '(?<x>(?<x>a))', '(?<x>(?<y>a)(?<x>b))', '(?<x>a)|(?<x>b)', '(?<x>a)(?<xx>b)', '(?<xx>a)(?<x>b)', '(?<x>a)(?<X>b)', '(?<xy>a)(?<xz>b)', '(?<\xe9>a)(?<e>b)(?<\xe9>)'):
        yield Job(t, at=False, again=True)
    for n in (3, 30):
        t = ''.join('(?<n%d>a)' % i for i in range(n))
        for i in range(0, n, n // 3):
            yield Job(t + '(?<n%d>a)' % i, texts=['a' * (n + 1)], at='only')
    for n in (11, 12, 13, 14, 30):
        for o, c in (('(', ')'), ('(?:', ')'), ('(?!', ')')):
            yield Job(o * n + 'a' + c * n, texts=['a'], at=False)
            yield Job('a' + o * n, texts=['a'], at=False)


RX = build.RXSRC


def load():
    return ai.Mod(build.lower(['d_rx.cpp', 'src/char_encoding.cpp'] + RX, roots=['.*'], inline=False))


def sweep(rep, mod, rules, jobs, parts=192):
    jobs = list(jobs)
    prog = Prog(mod)

    def unit(part):
        def f(rep):
            r = Runner(rep, mod, prog, rules)
            for j in part:
                try:
                    r.run(j)
                except Broken as e:
                    rep.undecide(j.re[:80], e)
            rep.functions |= mod.seen | set(prog.code)
        return f
    spread(rep, {i: unit(jobs[i::parts]) for i in range(min(parts, len(jobs)))}, of=len(jobs))
    rep.notes.append('%d expressions' % len(jobs))


def shaped(n, maxlen):
    for k in range(n + 1):
        for i, (t, a) in enumerate(SH(k)):
            yield Job(named(t), maxlen=maxlen, at=k < 2 or i % 4 == 0)


def compiled(n, syms):
    for t in itertools.product(syms, repeat=n):
        yield Job(''.join(t), texts=[])


def check_meaning(rep):
    deep = rep.tier == 'thorough'
    jobs = [*core(), *counted(), *shaped(2, 3 if deep else 2), *sized(), *long(), *special(), *features()]
    jobs += [Job(t, maxlen=3 if deep else 2) for t in pseudo(4000 if deep else 400, 3, 8 if deep else 7, 1)]
    sweep(rep, load(), ('result',), jobs)
    rep.require('result', 1)


def check_safety(rep):
    deep = rep.tier == 'thorough'
    jobs = [*core(), *broken(), *sized(), *long(), *shaped(1, 3)]
    jobs += [j for n in range(4) for j in strings(n, SYM)]
    if deep:
        jobs += [j for j in strings(4, 'ab|*+?(){2,\\[]^-')]
        jobs += special()
    jobs += [Job(t, maxlen=3 if deep else 2) for t in pseudo(4000 if deep else 400, 3, 8 if deep else 7, 2)]
    sweep(rep, load(), ('memory', 'abort', 'ends', 'leak', 'modified'), jobs)
    for r in ('memory', 'abort', 'ends', 'leak', 'modified'):
        rep.require(r, 1)


def check_syntax(rep):
    deep = rep.tier == 'thorough'
    jobs = [*core(), *broken()]
    for j in [*features(), *special()]:
        j.texts, j.again = [], True
        jobs.append(j)
    for n in range(4):
        jobs += compiled(n, SYM)
    jobs += compiled(4, 'a|*?(){2,\\[]^-' if not deep else SYM)
    jobs += compiled(5, 'a|*()[\\' if not deep else 'ab|*()[]\\{2,}')
    sweep(rep, load(), ('syntax',), jobs)
    rep.require('syntax', 1)
