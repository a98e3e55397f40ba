"""Peg with the context that builds a tree: what is captured, under which name and as what, and why a parse failed.

Grammars are enumerated by shape; every text of up to three characters from a set of four is a case of the current
code, followed in place from the parse to the tree it returns, against the definition of a Peg and of its tree."""
from . import ai, build, cube, fast
from .bench import Bench
from .cube import V, const, cat, signed
from .fast import P
from .p_codec import spread
from .p_peg import GSpec, GParse
from .p_pegexp import World
from .p_rx import Prog
from .build import Broken

OPS = '~@#%_;<`)^$.\\?*+(|&!'


# ---------------------------------------------------------------- hooks
def h_strcmp(n=None):
    def h(M, ins, a, b, k=1 << 20):
        for i in range(M.conc(k, 64)):
            x, y = (M.conc(M.ld(P(p.obj, p.off + i), 1, 8, ins), 8) for p in (a, b))
            if x != y:
                return 0xffffffff if x < y else 1
            if x == 0:
                break
        return 0
    return h


def h_strcspn(M, ins, s, t):
    t = M.text(t)
    n = 0
    while True:
        c = M.conc(M.ld(P(s.obj, s.off + n), 1, 8, ins), 8)
        if c == 0 or c in t:
            return n
        n += 1


def h_strchr(M, ins, s, c):
    c = M.conc(c, 32) & 255
    n = 0
    while True:
        x = M.conc(M.ld(P(s.obj, s.off + n), 1, 8, ins), 8)
        if x == c:
            return P(s.obj, s.off + n)
        if x == 0:
            return fast.NULL
        n += 1


def h_isalnum(M, ins, c):
    c = signed(M.conc(c, 32), 32)
    if not -1 <= c <= 255:
        raise fast.Fault('memory', 'calls isalnum() for a character it has no entry for', ins)
    return int(0 <= c < 128 and chr(c).isalnum())


def h_qsort(M, ins, base, n, size, f):
    n, size = M.conc(n, 64), M.conc(size, 64)
    tmp = P(M.obj('an element being sorted', size, 'local'), 0)
    at = lambda i: P(base.obj, base.off + i * size)
    for i in range(1, n):
        for j in range(i, 0, -1):
            if signed(M.conc(M.indirect(f, ins, at(j - 1), at(j)), 32), 32) <= 0:
                break
            M.copy(tmp, at(j), size, ins)
            M.copy(at(j), at(j - 1), size, ins)
            M.copy(at(j - 1), tmp, size, ins)


def h_bsearch(M, ins, key, base, n, size, f):
    lo, hi, size = 0, M.conc(n, 64), M.conc(size, 64)
    while lo < hi:
        i = (lo + hi) // 2
        p = P(base.obj, base.off + i * size)
        r = signed(M.conc(M.indirect(f, ins, key, p), 32), 32)
        if r == 0:
            return p
        if r < 0:
            hi = i
        else:
            lo = i + 1
    return fast.NULL


def event(what, *kinds):
    def h(M, ins, *a):
        r = [what]
        i = 0
        while i < len(a):
            if a[i].__class__ is P:
                if what in ('str', 'key'):
                    n = M.conc(a[i + 1], 32)
                    r.append([M.ld(P(a[i].obj, a[i].off + j), 1, 8, ins) for j in range(n)])
                    i += 1
                else:
                    r.append(a[i])
            else:
                r.append(signed(M.conc(a[i], 32), 32))
            i += 1
        M.events.append(tuple(r))
    return h


HOOKS = {'strcmp': h_strcmp(), 'strncmp': h_strcmp(), 'strcspn': h_strcspn, 'strchr': h_strchr, 'isalnum': h_isalnum, 'qsort': h_qsort, 'bsearch': h_bsearch,
         'printf': lambda M, ins, *a: 1}
for x in ('none', 'str', 'array', 'map', 'key', 'other', 'fail', 'path'):
    HOOKS['x_' + x] = event(x)


# ---------------------------------------------------------------- the definition
class TWorld(World):
    """A text of n characters of four"""

    def __init__(self, b, n, captures):
        self.b, self.I, self.n, self.captures = b, b.M.I, n, captures

    def bits(self, p):
        return self.I.inbits('char %d' % p, 2, 20 - p)

    def byte(self, p):
        return cat([self.bits(p), const(0x60 >> 2, 6)])

    def ch(self, p):
        return cat([self.bits(p), const(0x60 >> 2, 30)])

    def eof(self, p):
        return p >= self.n

    def bol(self, p):
        return p == 0

    def wanted(self, rule, label):
        return label in self.captures[rule]

    def prop(self, p, c):
        a = self.between(c, 97, 99)		# of ` a b c
        return p in 'aLwh' and a

    def show(self):
        r = ''
        for p in range(self.n):
            c = self.ch(p).const()
            r += chr(c) if c is not None else '?'
        return r


class ASpec(GSpec):
    def __init__(self, w, rules):
        GSpec.__init__(self, w, rules)
        self.far, self.why = 0, []

    def atom(self, a, p):
        k = len(self.fails)
        dis, cx = self.dis, self.cx
        r = GSpec.atom(self, a, p)
        if r is None and len(self.fails) > k and self.fails[-1] == (cx.rule, a.off, p) and a.kind not in '?*+(|&!':
            del self.fails[-1]
            self.failed(cx, a, p)
        return r

    def failed(self, cx, a, p):
        """An atom of the text does not match: say so, unless the parse got further, or only looks ahead"""
        if self.dis or self.pats[cx.rule][a.off] in OPS or p < self.far:
            return
        if p > self.far:
            self.far, self.why = p, []
        if any(x[:2] == (cx.rule, a.off) for x in self.why):
            return
        path, c = [], cx
        while c is not None:
            path.append(c.rule)
            c = c.up
        self.why.append((cx.rule, a.off, a.end - a.off, tuple(path[::-1])))

    # ---- what a parse returns
    def value(self, e):
        label, p, r, nest, what = e
        if what[0] == 'sub':
            t = self.tree(what[2])
            if t is not None:
                return t
        return None if p == r else ('str', p, r)

    def tree(self, log):
        """The captures of a rule, or None"""
        t = {}
        for e in log:
            v = self.value(e)
            if v is None:			# nothing
                continue
            k = e[0]
            if k in t:
                t[k] = ('array', (list(t[k][1]) if t[k][0] == 'array' else [t[k]]) + [v])
            else:
                t[k] = ('array', [v]) if e[3] else v
        return ('map', t) if t else None

    def events(self, v, out):
        w = self.w
        if v[0] == 'str':
            out.append(('str', [w.byte(p) for p in range(v[1], v[2])]))
        elif v[0] == 'array':
            out.append(('array', len(v[1])))
            for x in v[1]:
                self.events(x, out)
        else:
            out.append(('map', len(v[1])))
            for k in sorted(v[1]):
                out.append(('key', list(k.encode())))
                self.events(v[1][k], out)


# ---------------------------------------------------------------- the checks
class AstBench(Bench):
    def __init__(self, rep, mod, prog, rules):
        Bench.__init__(self, rep, mod, prog, rules, HOOKS, ('rule', 'peg', 'run'))

    def same(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] not in ('str', 'key'):
            return a == b
        if len(a[1]) != len(b[1]):
            return False
        for x, y in zip(a[1], b[1]):
            if not (x.__class__ is int and y.__class__ is int and x == y or self.M.I.eq(self.M.lift(x, 8), self.M.lift(y, 8))):
                return False
        return True

    def tell(self, ev):
        r = []
        for e in ev:
            r.append(e[0] if len(e) == 1 else '%s %s' % (e[0], ''.join(chr(x) if x.__class__ is int else (chr(x.const()) if x.const() is not None else '?') for x in e[1]) if e[0] in ('str', 'key') else e[1:]))
        return ', '.join(r)

    def case(self, gram, n):
        M = self.M
        names = {}
        M.events = []

        def string(s, what):
            p = M.bytes(what, s.encode() + b'\0')
            return p
        rules = self.var('the rules', self.size['rule'] * len(gram))
        pats = {}
        for i, (name, pat, caps) in enumerate(gram):
            if caps is None:
                c = fast.NULL
            else:
                o = M.obj('the captures of ' + name, 8 * len(caps) + 8, 'const')
                for j, x in enumerate(caps):
                    o.c[8 * j] = (string(x, 'the capture ' + x), 8)
                o.c[8 * len(caps)] = (fast.NULL, 8)
                c = P(o, 0)
            nm, pt = string(name, 'the name ' + name), string(pat, 'the pattern of ' + name)
            pats[pt.obj], names[nm.obj] = name, name
            M.call('f_rule', P(rules.obj, i * self.size['rule']), nm, pt, c)
        peg = self.var('the peg', 'peg')
        M.call('f_peg', peg, rules, len(gram))
        w = TWorld(self, n, {a: c or () for a, p, c in gram})
        o = M.obj('the text', n + 1, 'const')
        for p in range(n):
            o.c[p] = (M.low(w.byte(p)), 1)
        o.c[n] = (0, 1)
        run = self.var('the result', 'run')
        what = ' '.join('%s=/%s/%s' % (a, p, '' if c is None else '{%s}' % ','.join(c)) for a, p, c in gram)
        self.text = what + ' of any text of %d' % n
        M.call('f_parse', run, peg, P(o, 0))
        s = ASpec(w, {a: p for a, p, c in gram})
        at, cx = s.rule('TOP', 0, 0)
        failed = M.conc(M.call('f_failed', run), 1)
        self.text = '%s of "%s"' % (what, w.show())
        if bool(failed) != (at is None):
            self.bad('tree', 'failure', 'fails' if failed else 'succeeds')
            return
        M.call('f_walk', run)
        got, M.events = M.events, []
        want = []
        if at is None:
            want.append(('none',))
        else:
            s.events(s.tree(cx.log) or ('map', {}), want)
            q = M.call('f_at', run)
            if q.obj is not o or q.off != at:
                self.bad('tree', 'place', 'ends at %s instead of %d' % (q.off, at))
        if len(got) != len(want) or not all(self.same(a, b) for a, b in zip(got, want)):
            self.bad('tree', 'tree', 'returns "%s" instead of "%s"' % (self.tell(got), self.tell(want)))
        self.ok('tree', what)
        q = M.call('f_reached', run)
        if q.obj is not o or q.off != s.far:
            self.bad('reasons', 'place', 'says that it got to %s instead of %d' % (q.off if q.obj is o else 'nowhere', s.far))
        else:
            for f, v in ('f_bytes', s.far), ('f_line', 1), ('f_column', s.far + 1):
                x = M.conc(M.call(f, run), 64)
                if x != v:
                    self.bad('reasons', f, 'says that the %s it got to is %d instead of %d' % (f[2:], x, v))
        M.call('f_fails', run)
        why, path = [], None
        for e in M.events:
            if e[0] == 'fail':
                path = []
                why.append((pats.get(e[1].obj), e[1].off, e[2], path))
            else:
                path.append(names.get(e[1].obj))
        M.events = []
        why = [(a, b, c, tuple(d)) for a, b, c, d in why]
        if why != s.why:
            sh = lambda l: ', '.join('%s in %s' % (dict((a, p) for a, p, c in gram).get(a, '')[b:b + c], '/'.join(map(str, d))) for a, b, c, d in l) or 'nothing'
            self.bad('reasons', 'failures', 'says that it failed on %s instead of %s' % (sh(why), sh(s.why)))
        self.ok('reasons', what)
        M.call('f_done', run)


def grammars():
    A, B, AB = ('a', 'a', None), ('b', 'b', None), ('ab', '|a|b', None)
    C = ['a', 'b', 'ab', 'x', 'y']
    # labelled atoms: one, several, repeated, in what fails
    for p in ('a:x', '.:x', 'a:x:b:y', 'a:x.:x', '*a:x', '+.:x', '?a:x', '(ab):x', '*(a:x.:y)', '(a:x|b:y|c:z)', '*|a:x|b:y', '(*a):x', '*(.:x?b:x)', 'a:x*b:x', 'a:x*b:y', '[ab]:x', '[^a]:x*[ab]:y', '&a:x.', '!a:x.:y', '&(a:x)a',
              '|a:xb|a:yc', '|a:x(b:yc)|a:yb:x', '?(a:xb)a:y', '*(a:xb)a:x', '*(a:xb:x)a:y', '|(a:x*(b:xc))|.:x', '(?a):x', '(*b):x.', '+(+a:x?b:y)', '*(|a:x|b)', '?(a:x?(b:x|a|b:x):y)c', '.:x.:x.:x', '.:x*(.:x)', '*(.:xb:x)?(.:x)', '(a.:x):y', 'a:x_1:', 'a:A.:b',
              'b:x|a:xb:xc|a:xb:x', '*(?a:x?b:y&.c)', '.:x!(.:x).:x', '|a:x&c|a:x', '*(a:x&(b:y))?(b:y)', '?(.:x.:xb).:x', '|.:x.:xb|.:x.:x', '+|a:x!b|.:y', ''):
        yield [('TOP', p, C)]
    # nothing, in repetitions; repetitions that fail at once
    for p in ('*((?a):x:b)', '*((*a):x:b:y)', '+(.(?a):x)', '*(?a:x(*b):y:c)', '|+a:x:c|b:x', '|+(a:x)c|.:x', '(|+a:xb|.:x)', '*(+a:x:c)?b:x', '?(+a)b:x', '!+a:x.:y', '?(a+b)a:x', '|a+b:x|a:x', '*|+a:xc|b:y', '|**a:xc|b:x', '|*(+b)c|?a:x'):
        yield [('TOP', p, C)]
    for t, e in (('*(<e>:x:b)', '?a'), ('*(<e>:x:b)', '*a:k'), ('+(.<e>)', '?a'), ('|<e>c|b:x', '+a:k'), ('*(<e>b)', '?a:k'), ('?(<e>c)a:x', '+a')):
        yield [('TOP', t, C + ['e']), ('e', e, ['k'])]
    # looking ahead from rules, to rules
    for e, f, g in (('!<f>b', '<g>c', 'a'), ('&<f>c', 'a<g>', 'b'), ('!<f>.:k', 'a<g>', '|b|c'), ('a!<f>b', '<g>:k<g>:l', '.'), ('*(!<f>.:k)', '<g>a', 'b'), ('&(<f>)<f>:k', '<g>:l', 'a'), ('!(a<f>)a:k', 'b<g>', 'c')):
        for t in '<e>', '*<e>', '|<e>c|a<e>':
            yield [('TOP', t, ['e']), ('e', e, ['f', 'k', 'l']), ('f', f, ['g', 'k', 'l']), ('g', g, None)]
    # calls: whether captured, under which name, of which kind
    for p in ('<a>', '<a>:x', '<a>:x:b', '<a>:z', '<a><b>', '<a>:x<b>:x', '*<ab>', '*<ab>:y', '+(<ab>:y.:x)', '(<a>b):y', '&<a><a>', '!<a>.:x', '|<a>b|<a>:x:c', '?(<a><b>)<a>', '*(<a><b>)?<a>', '?<a>*<b>', '<a>:x:?b:x', '*<ab>:x:?(c:x)'):
        for c in (C, ['x'], None):
            yield [('TOP', p, c), A, B, AB]
    # trees of trees
    for t, p, q in (('<e>', 'a<f>', 'b'), ('<e>', 'a:k<f>', 'b:l'), ('*<e>', '|a:k|<f>', 'b:l'), ('<e>:x', '<f>:l*(b<f>:r)', '.'), ('<e><e>', '.:k', ''), ('<e><f>', '?a:k', '*b:l'), ('*<e>:x', '<f>', '.:k'), ('+<e>', '(a:k|b:l)', ''),
                    ('|<e>c|<f>', 'a:kb:l', '.:k.'), ('?(<e>c)<f>', '.:k*b:k', '.:l'), ('<e>', '|<f>c|<f>b|.:l', 'a:k?a:k'), ('&<e><f>', 'a:k', 'a:l'), ('*(<e>!c)', '.:k', ''), ('<e>*<e>', '.:k:?b:l', ''), ('*(<e>:x<f>:y)', '<f>', '[ab]'), ('<e>', '?<f><f>', '&a.:k?b'), ('!<e>.:x', 'a:k<f>:l', 'b')):
        for c, d in ((['e', 'f', 'x', 'y'], ['f', 'k', 'l', 'r']), (['x', 'e'], None)):
            yield [('TOP', t, c), ('e', p, d), ('f', q, ['k'])]
    yield [('TOP', '<e>', ['e']), ('e', '|a<e>:x|b', ['x'])]
    yield [('TOP', '*<e>', ['e']), ('e', '|a:l?<e>:r|b:l', ['r', 'l'])]
    yield [('TOP', '|<e>b|<e>c', ['e']), ('e', 'a:k<f>', ['f']), ('f', '?a:k', None)]
    yield [('TOP', '<e>', ['e']), ('e', '|<e>a|a:k', ['e'])]
    yield [('TOP', 'a<e>', ['ex', 'e_', 'e']), ('e', '.:k', None)]
    yield [('TOP', 'a<e>:xy', ['x', 'e', 'xyz']), ('e', '.', None)]
    yield [('TOP', '|<e>a|<f>b|<g>c', ['e', 'f', 'g']), ('e', '.:k', None), ('f', '.:l', None), ('g', '.:m.:m', None)]
    # reasons
    for p in ('abc', '|ab|ac|b', '*(ab)c', '!abc', '&abc', 'a[bc]', 'a|b[a]|c[b-c]', '[^abc]b', '?ab', '|a|ab', '|b|b|a', '(|b|(b)|b)', '*a*a', '*[b]c[\\d]', 'aa!a', 'ab&c', '?(abc)ab', '*|ab|ac', '+[ab][c]', '|a[bc]|ab', 'a\\b', '[\\x61]b', '|aac|aab', '[a]:x[b]:yc:x', '|[a]a[^bc`]|..[\\]]'):
        yield [('TOP', p, C)]
    for t, p in (('<e>c', 'ab'), ('|<e>c|<e>b', 'a?b'), ('!<e>a', 'ab'), ('*<e>', 'a[b]'), ('<e><e>', 'a?b'), ('?<e>b', '|ab|ac|b'), ('&<e>a', 'aa'), ('|a<e>|aa', '|b|c')):
        yield [('TOP', t, ['e']), ('e', p, None)]


def load():
    return ai.Mod(build.lower(['d_ast.cpp', 'src/char_encoding.cpp', 'src/variant.cpp'], roots=['.*'], inline=False))


RULES = ('tree', 'reasons', 'memory')

def check_ast(rep):
    mod = load()
    jobs = {}
    prog = Prog(mod)

    def job(gs):
        def f(r):
            b = AstBench(r, mod, prog, RULES)
            for g, n in gs:
                try:
                    b.explore('include/peg_ast.h', lambda b, g=g, n=n: b.case(g, n), 400000)
                except Broken as e:
                    r.undecide(str(g)[:80], e)
            r.functions |= mod.seen | set(prog.code)
        return f
    seen, todo = set(), []
    for g in grammars():
        if str(g) in seen:
            continue
        seen.add(str(g))
        for n in range(4 if rep.tier == 'quick' else 5):
            todo.append((g, n))
    k = 24 if rep.tier == 'quick' else 48
    for i in range(k):
        jobs['%02d' % i] = job(todo[i::k])
    spread(rep, jobs, of=len(todo))
    rep.notes.append('%d grammars' % len(seen))
    rep.require('tree', 150)
    rep.require('reasons', 150)
