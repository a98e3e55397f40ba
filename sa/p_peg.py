"""Peg grammars: rule lookup, rule calls, labels and captures per rule, left recursion; as p_pegexp, with rules.

Grammars are enumerated by shape; the text, what rules capture, and the end of the text are arbitrary decisions."""
import itertools
from . import build, ai, cube
from .cube import P, V, NULL, const, cat
from .p_codec import Check, spread, I32
from .slices import site
from .build import Broken
from . import p_pegexp
from .p_pegexp import Node, Parse, World, Spec, PegR, PegCheck, put

L = p_pegexp.L
S = {}


class GParse(Parse):
    """The grammar of a Pegexp that may call rules; other extension characters are literals"""

    def __init__(self, text):
        Parse.__init__(self, text, False)

    def atom(self, i):
        if self.t[i] != '<':
            return Parse.atom(self, i)
        start = i
        j = self.t.find('>', i)
        name, i = (self.t[i + 1:j], j + 1) if j >= 0 else (self.t[i + 1:-1], len(self.t) - 1)
        n = Node('call', start, rule=name, label=None)
        if self.t[i] == ':':
            k = i + 1
            while self.t[k].isalnum() or self.t[k] == '_':
                k += 1
            n.label = self.t[i + 1:k]
            i = k + (self.t[k] == ':')
        if self.t[i] == ':':
            k = i + 1
            while self.t[k].isalnum() or self.t[k] == '_':
                k += 1
            n.name = self.t[i + 1:k]
            i = k + (self.t[k] == ':')
        return n, i


class GWorld(World):
    def __init__(self, ck, I):
        World.__init__(self, ck, I)
        self.trace, self.fails = [], []
        self.ctx = {}			# open contexts
        self.stack = []
        self.nctx = 0

    def ch(self, p):
        return cat([self.I.inbits('char at %d' % p, 2, 20 - p), const(0x60 >> 2, 30)])

    def wanted(self, rule, label):
        return self.yes('rule', rule, 'captures', label)


class Cx:
    def __init__(self, rule, origin, dis, up):
        self.rule, self.origin, self.dis, self.nest, self.log, self.up = rule, origin, dis, 0, [], up


class GSpec(Spec):
    def __init__(self, w, rules):
        Spec.__init__(self, w, (0, 0))
        self.rules = {n: GParse(p).all() for n, p in rules.items()}
        self.pats = rules
        self.trace = []
        self.cx = None

    def swap(self, cx):
        if self.cx is not None:
            self.cx.dis, self.cx.nest = self.dis, self.nest
        self.cx = cx
        if cx is not None:
            self.dis, self.nest, self.log = cx.dis, cx.nest, cx.log

    def rule(self, name, p, disabled):
        old = self.cx
        cx = Cx(name, p, disabled, old)
        self.trace.append(('call', name, p, tuple(old.log) if old else ()))
        self.swap(cx)
        nodes, end = self.rules[name]
        r = self.seq(nodes, p)
        if end < len(self.pats[name]):
            r = None
        self.trace.append(('end', name, p, tuple(cx.log)))
        self.swap(old)
        return r, cx

    def atom(self, a, p):
        n0 = len(self.log)
        r = self.plain(a, p)
        if r is None:
            del self.log[n0:]
            if a.kind not in '?*+(|&!':
                self.fails.append((self.cx.rule, a.off, p))
            return None
        if a.name and not self.dis:
            nm = a.name if isinstance(a.name, str) else self.pats[self.cx.rule][a.name[0]:a.name[0] + a.name[1]]
            self.log.append((nm, p, r, self.nest > 0, ('text',)))
        return r

    def plain(self, a, p):
        if a.kind != 'call':
            return Spec.plain(self, a, p)
        if a.rule not in self.rules:
            return None
        c = self.cx
        while c is not None and c.origin == p:
            if c.rule == a.rule:
                return None			# left recursion
            c = c.up
        r, cx = self.rule(a.rule, p, self.dis)
        if r is None:
            return None
        label = a.rule if a.label is None else a.label
        if not self.dis and self.w.wanted(self.cx.rule, label):
            self.log.append((label, p, r, self.nest > 0, ('sub', a.rule, tuple(cx.log))))
        return r


class GR(PegR):
    def access(self, I, ins, obj, off, n, write, val):
        if obj is not None and obj[0] == 'str':
            if write:
                self.ck.stop(I, ins, 'memory', 'write', 'writes into the grammar')
            if not 0 <= off <= off + n <= len(self.ck.strs[obj]) + 1:
                self.ck.stop(I, ins, 'memory', 'text', 'reads outside a text of the grammar')
            self.ck.good('memory', site(ins)[0] if ins is not None else '')
        elif obj == ('rules',) and not 0 <= off <= off + n <= S['rule'] * len(self.ck.rules):
            self.ck.stop(I, ins, 'memory', 'rules', 'accesses memory outside the table of rules')

    def byte(self, I, ins, p, i):
        o = I.conc(p.off) + i
        self.access(I, ins, p.obj, o, 1, False, None)
        v, b = I.cell(p.obj, o, ins)
        return I.conc(cube.part(v, 8 * b, 8), False)

    def text(self, I, ins, p, lim=1000, end=lambda c: False):
        s = ''
        while len(s) < lim:
            c = chr(self.byte(I, ins, p, len(s)))
            if c == '\0' or end(c):
                break
            s += c
        return s

    def name(self, I, p):
        """The name of the rule an address in the table of rules is of"""
        if p.obj != ('rules',) or I.conc(p.off) % S['rule']:
            raise Broken('not a rule')
        return self.text(I, None, I.load(None, P(p.obj, I.conc(p.off) + L['name']), 64, True))

    def compare(self, I, ins, f, a, b):
        kind, r, i = I.run(I.mod.fns[f.obj[1]], [a, b])
        if kind != 'ret':
            self.ck.stop(I, i, 'result', 'abort', 'comparing names does not return')
        return I.conc(r)

    def call(self, I, ins, name, args):
        VOID = ('void',)
        ck, w = self.ck, I.w
        ident = lambda c: not (c.isalnum() or c == '_')
        if name is None:
            return None
        if name == 'x_open':
            up = I.conc(args[1])
            if up >= 0 and (not w.stack or w.stack[-1] != up):
                ck.stop(I, ins, 'context', 'parent', 'opens a context whose parent is not the calling one')
            if len(w.stack) > 80:
                ck.stop(I, ins, 'ends', 'recursion', 'recurses without end')
            w.nctx += 1
            c = Cx(self.name(I, args[0]), I.conc(args[2]), 0, w.ctx.get(up))
            w.ctx[w.nctx] = c
            w.stack.append(w.nctx)
            c.left, u = False, c.up
            while u is not None and u.origin == c.origin:
                c.left = c.left or u.rule == c.rule
                u = u.up
            if not c.left:
                w.trace.append(('call', c.rule, c.origin, tuple(c.up.log) if c.up else ()))
            return I32(w.nctx)
        if name == 'x_close':
            i = I.conc(args[0])
            if not w.stack or w.stack[-1] != i:
                ck.stop(I, ins, 'context', 'close', 'closes a context that is not the innermost')
            w.stack.pop()
            c = w.ctx[i]
            if not c.left:
                w.trace.append(('end', c.rule, c.origin, tuple(c.log)))
            return VOID
        if name.startswith('x_') and name != 'x_captured':
            c = w.ctx.get(I.conc(args[0]))
            if c is None or I.conc(args[0]) not in w.stack:
                ck.stop(I, ins, 'context', 'closed', 'uses a context that is not open')
            if name == 'x_count':
                return I32(len(c.log))
            if name == 'x_rollback':
                n = I.conc(args[1])
                if not 0 <= n <= len(c.log):
                    ck.stop(I, ins, 'captures', 'forward', 'rolls back to %d of %d captures' % (n, len(c.log)))
                del c.log[n:]
                return VOID
            if name == 'x_failure':
                if args[1].obj is None or args[1].obj[0] != 'str':
                    ck.stop(I, ins, 'failures', 'where', 'reports a failure of something that is not in the grammar')
                w.fails.append((c.rule, I.conc(args[1].off), self.src(I, args[3])))
                return VOID
            if name == 'x_capture':
                n, m = I.conc(args[2]), args[3]
                nm = self.text(I, ins, args[1], n)
                if len(nm) != n:
                    ck.stop(I, ins, 'captures', 'label', 'captures under a name of %d characters that has %d' % (n, len(nm)))
                by = w.ctx.get(I.conc(args[4]))
                frm, to = (self.src(I, P(m.obj, I.conc(m.off) + L[f] + L['source'])) for f in ('from', 'to'))
                what = ('own' if by is c else 'sub', by.rule, tuple(by.log)) if by else ('text',)
                c.log.append((nm, frm, to, bool(I.conc(args[5], False) & 1), what))
                return VOID
        if name == 'x_captured':
            return const(int(w.wanted(self.text(I, ins, args[0]), self.text(I, ins, args[1], end=ident))), 1)
        if name == 'qsort':
            base, n, size, f = args[0], I.conc(args[1]), I.conc(args[2]), args[3]
            o = I.conc(base.off)
            at = lambda i: P(base.obj, o + i * size)
            for i in range(1, n):
                for j in range(i, 0, -1):
                    if self.compare(I, ins, f, at(j - 1), at(j)) <= 0:
                        break
                    m = I.mem[base.obj]
                    for k in range(size):
                        a, b = o + (j - 1) * size + k, o + j * size + k
                        x, y = m.get(a), m.get(b)
                        for q, z in ((a, y), (b, x)):
                            if z is None:
                                m.pop(q, None)
                            else:
                                m[q] = z
            return VOID
        if name == 'bsearch':
            key, base, n, size, f = args[0], args[1], I.conc(args[2]), I.conc(args[3]), args[4]
            lo, hi = 0, n
            while lo < hi:
                i = (lo + hi) // 2
                p = P(base.obj, I.conc(base.off) + i * size)
                r = self.compare(I, ins, f, key, p)
                if r == 0:
                    return p
                if r < 0:
                    hi = i
                else:
                    lo = i + 1
            return NULL
        if name in ('strcmp', 'strncmp'):
            n = I.conc(args[2], False) if name == 'strncmp' else 1 << 20
            for i in range(n):
                a, b = self.byte(I, ins, args[0], i), self.byte(I, ins, args[1], i)
                if a != b:
                    return I32(-1 if a < b else 1)
                if a == 0:
                    break
            return I32(0)
        if name in ('strcspn', 'strspn'):
            g = args[1].obj
            s = self.text(I, ins, args[1]) if g[0] == 'str' else ''.join(chr(I.conc(cube.part(*(lambda v, b: (v, 8 * b, 8))(*I.cell(g, I.conc(args[1].off) + i, ins))), False)) for i in range(len(I.mod.globals[g[1]]['data']) - 1 - I.conc(args[1].off)))
            return const(len(self.text(I, ins, args[0], end=lambda c: (c in s) == (name == 'strcspn'))), 64)
        return PegR.call(self, I, ins, name, args)


class GCheck(PegCheck):
    mk = GR

    def __init__(self, rep, mod, root, rules_, gram, n, what=None):
        PegCheck.__init__(self, rep, mod, root, rules_, ' '.join('%s=/%s/' % x for x in gram) if what is None else what, n, (0, 0))
        self.rules_ = gram
        self.rules = gram
        self.strs = {}

    def bad(self, I, ins, rule, key, msg):
        s = site(ins) if ins is not None else ('?', '?')
        if s[0] == '?':
            s = ('include/peg.h', 'Peg')
        self.rep.bad(rule, s[0], '%s:%s:%s' % (self.root, self.text, key), '%s with %s: %s' % (self.root, self.text, msg), ['grammar %s' % self.text, 'for ' + self.example(I)])

    def string(self, I, s):
        o = ('str', len(self.strs))
        self.strs[o] = s
        for i, c in enumerate(s + '\0'):
            put(I, o, i, const(ord(c), 8))
        return P(o, 0)

    def setup(self, I):
        self.strs = {}
        for i, (n, p) in enumerate(self.rules):
            I.run(self.mod.fns['f_rule'], [P(('rules',), i * S['rule']), self.string(I, n), self.string(I, p)])
        I.run(self.mod.fns['f_peg'], [P(('peg',), 0), P(('rules',), 0), I32(len(self.rules))])


def parse(ck, I):
    I.w = w = GWorld(ck, I)
    ck.setup(I)
    put(I, ('src',), L['pos'], I32(0))
    kind, r, ins = I.run(ck.mod.fns['f_parse'], [P((o,), 0) for o in ('peg', 'src', 'from', 'to')])
    if kind != 'ret':
        ck.stop(I, ins, 'result', 'abort', 'does not return')
    ok = bool(I.conc(r, False) & 1)
    s = GSpec(w, dict(ck.rules))
    at, cx = s.rule('TOP', 0, 0)
    if ok != (at is not None):
        ck.stop(I, None, 'result', 'success', 'succeeds where it should fail' if ok else 'fails where it should succeed')
    if ok:
        got = [I.rule.src(I, P((o,), 0)) for o in ('from', 'to', 'src')]
        if got != [0, at, at]:
            ck.stop(I, None, 'result', 'place', 'matches from %d to %d (source at %d) instead of 0 to %d' % (tuple(got) + (at,)))
    ck.good('result', ck.text)
    if w.stack:
        ck.stop(I, None, 'context', 'left', 'leaves a context open')
    ck.good('context', ck.text)
    for rule, a, b in (('captures', w.trace, s.trace), ('failures', w.fails, s.fails)):
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            sh = lambda l: str(l[i]) if i < len(l) else 'nothing'
            ck.stop(I, None, rule, 'trace', 'step %d is %s instead of %s' % (i, sh(a), sh(b)))
        ck.good(rule, ck.text)


def lookup(names, keys):
    def f(ck, I):
        I.w = GWorld(ck, I)
        ck.setup(I)
        for k in keys:
            for tail in ('', '>', '>:x<TOP>a', '>' + names[0]):
                kind, r, ins = I.run(ck.mod.fns['f_lookup'], [P(('peg',), 0), ck.string(I, k + tail)])
                if kind != 'ret':
                    ck.stop(I, ins, 'result', 'abort', 'lookup does not return')
                got = None if r.obj is None else I.rule.text(I, None, r)
                want = k if k in names else None
                if got != want:
                    ck.stop(I, None, 'result', 'lookup', 'finds rule %s for %s' % (got, k + tail))
                ck.good('result', 'lookup of %s among %s' % (k, ck.text))
    return f


def grammars():
    A, B, AB = ('a', 'a'), ('b', 'b'), ('ab', 'ab')
    for p in ('<a>', '<a><b>', '<a>:x', '<a>:x:b', '<a>:x<b>', '*<a>', '*<a>:x', '+<a>:x:', '*(<a>b)', '(<a>:y)b', '&<a><a>', '&<a>:x', '!<a>.', '!<a>:x<b>', '|<a>b|<a>c', '|<a><b>|<a>:x:c', '|<a>:x:b|<b>:x', '?<a><b>', '?(<a><b>)<a>', '*|<a>|<b>',
              '(<a><b>):z', '<a>:x:y', '<a>:x::y', '<a>::y', '*&<a>:x', '&(<a>:x<b>)<a>', '|&<a>b|<b>', '!(<a><b>)<a>', '<a>*(b<a>:x)', '+(+<a>:x:b)<a>:y', '<a>$', '^<a>', '(<a>', '<a>)', '*(<a>'):
        yield [('TOP', p), A, B]
    for p in ('<zz>', '?<zz>a', '!<zz>a', '<>', '?<>a', '<a', '?<a', '<zz>:x', '?<zz>:x:a', '<abc>', '<b>', '?<aa>b', '|<zz>a|<a>b', '*<zz>', '`', '*`a', '~', '?@a', '|#|_|a', '!%a', ';:x', '*`:x:a'):
        yield [('a', 'a'), ('TOP', p), ('ab', 'b'), ('aab', 'c')]
    for p in ('<TOP>a', '|<TOP>b|a', '?a<TOP>', '*b<TOP>', '&a<TOP>', '!b<TOP>', '(<TOP>)', '|a<TOP>|b', 'a?<TOP>b', '|a<TOP>c|b', '+<TOP>', '*<TOP>a', '()<TOP>', '?<TOP>b', '&<TOP>a', '!<TOP>a', 'a!<TOP>'):
        yield [('TOP', p)]
    for t, p, q in (('<e>', '<f>b', '|<e>|a'), ('<e>:x', '|<f>b|a', '|<e>c|a'), ('<e>', '?c<f>', '?b<e>'), ('<e>', '<f>:l*(b<f>:r)', '|a|c<e>:n'), ('<e><f>', 'a?<f>', 'b?<e>'), ('<e>', '&<f><f>:x', 'a?<e>:y'), ('*<e>:x', '|a<f>:p|<f>:q', 'b'), ('+(<e><f>)', '*a', '?b'),
                    ('<e>', '<f><f>', '?a'), ('!<e>.', 'a<f>', 'b'), ('<e>', '!<f>.?<e>', 'c'), ('&(<e>:x)<f>:y', 'a<f>:z', '?b'), ('|<e>c|<f>:x', '<f>:x<f>:x', 'a'), ('<e>', '*(<f>:x)', 'a:y'), ('<e>:x<f>:x', '(a:m:):k', '|a:v|b:w'), ('<f><e>', '*(!b<f>)', '.')):
        yield [('TOP', t), ('f', q), ('e', p)]
    yield [('TOP', '<e>'), ('e', '<f>'), ('f', '<g>'), ('g', '|<e>|a')]
    for n in 5, 9, 17, 33:			# long cycles
        yield [('TOP', 'a<r0>')] + [('r%d' % i, '<r%d>' % ((i + 1) % n)) for i in range(n)]
    yield [('TOP', '<e>:x'), ('e', '?a<f>:y'), ('f', '|<g>:z|b'), ('g', 'a<e>:w')]
    yield [('TOP', 'a<e>'), ('e', '|b<TOP>:t|<f>'), ('f', '|<TOP>|c')]


def lookups():
    sets = [['TOP'], ['TOP', 'a'], ['TOP', 'a', 'ab', 'abc'], ['a', 'a1', 'a_', 'TOP', 'aa'], ['x', 'xy', 'xyz', 'y', 'TOP', 'TOPs', 'TO'], ['Z', 'a', 'TOP', 'zz', 'z', 'T', 'top']]
    for k in 3, 6, 8, 11, 16, 24, 32, 64:	# names that differ late
        x = ('repeated_group_of_' * 4)[:k]
        sets.append([x + c for c in ('c', 'b', '', 'a', 'ab', 'd')] + ['TOP'])
    for s in sets:
        keys = s + ['', 'A', 'TO', 'TOPx', 'ab', 'abcd', 'b', 'xyy', 'zzz', 'xyzz']
        for o in (s, s[::-1], s[1:] + s[:1], sorted(s)):
            yield o, sorted(set(keys))


RULES = ('result', 'captures', 'failures', 'context', 'memory', 'ends')


def load():
    mod = ai.Mod(build.lower(['d_peg.cpp'], roots=['.*'], inline=False))
    for f in mod.fns:
        if f.startswith('o_'):
            L[f[2:]] = cube.Interp(mod, cube.Cubes(), cube.Rule(), {}).run(mod.fns[f], [P(('o',), 0)])[1].const()
        if f.startswith('s_'):
            S[f[2:]] = cube.Interp(mod, cube.Cubes(), cube.Rule(), {}).run(mod.fns[f], [])[1].const()
    return mod


def jobs_of(mod):
    jobs = {}

    def gram(g, n):
        return lambda rep: GCheck(rep, mod, 'f_parse', RULES, g, n).run(parse)

    def look(o, keys):
        return lambda rep: GCheck(rep, mod, 'f_lookup', RULES, [(x, 'a') for x in o], 0, 'rules ' + ' '.join(o)).run(lookup(o, keys))
    for g in grammars():
        jobs[str(g)] = gram(g, 3)
    for o, keys in lookups():
        jobs[str(o)] = look(o, keys)
    return jobs


def check_peg(rep):
    mod = load()
    spread(rep, jobs_of(mod))
    rep.require('result', 80)
    rep.require('captures', 60)
    rep.require('context', 60)
