"""
The abstract interpreter of cube.py for code that builds and follows large concrete structures: each
function of the IR is translated once to a chain of Python expressions over the same domain (a known
integer is a Python int, anything else is a cube.V of known, input and unknown bits, or an address).
What is not known takes the way through cube.Interp, which splits the cube where a decision needs it.

Every access is an obligation: inside its object, of an object that is alive, of something written before.
"""
import sys
from . import cube
from .cube import V, Stop, Split, const, signed
from .build import Broken


class Obj:
    __slots__ = ('name', 'size', 'c', 'dead', 'kind', 'ep', 'lazy')

    def __init__(self, name, size, kind, ep):
        self.name, self.size, self.kind, self.ep = name, size, kind, ep
        self.c = {}
        self.dead = False
        self.lazy = None

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class P:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def key(self):
        return ('p', id(self.obj), self.off)

    def __repr__(self):
        return 'P(%r,%r)' % (self.obj, self.off)


class SymP(P):
    """An address in a constant table, at an index that is not known; anything but loading from it decides the index"""
    __slots__ = ('base', 'terms', 'm')

    def __init__(self, m, base, terms):
        self.m, self.base, self.terms = m, base, terms
        self.obj = base.obj

    @property
    def off(self):
        return self.base.off + sum(self.m.sx(v, w) * k for v, w, k in self.terms)


NULL = P(None, 0)
UNDEF = ('undef',)


class Fault(Exception):
    """An obligation does not hold: kind, message"""

    def __init__(self, kind, msg, ins=None):
        self.kind, self.msg, self.ins = kind, msg, ins


class Program:
    """The functions of a module, translated when first called"""

    def __init__(self, mod):
        self.mod = mod
        self.code = {}
        self.blocks = {}

    def get(self, name):
        f = self.code.get(name)
        if f is None:
            if name not in self.mod.fns:
                raise Broken('call of %s' % name)
            f = self.code[name] = Gen(self, self.mod.fns[name]).build()
        return f


def san(n):
    return ''.join(c if c.isalnum() else '_' for c in n)


class Gen:
    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.ns = {'P': P, 'NULL': NULL, 'UNDEF': UNDEF, 'Fault': Fault, 'V': V}
        self.out = []
        self.blocks = {b['id']: b for b in f['blocks']}
        self.preds = {}
        for b in f['blocks']:
            for s in set(self.succs(b)):
                self.preds.setdefault(s, set()).add(b['id'])
        uses = {}
        for b in f['blocks']:
            for i in b['ins']:
                if i['op'] == 'dbg':
                    continue
                for x in i.get('ops', ()):
                    if x[0] == 'v':
                        uses.setdefault(x[1], set()).add(i['op'])
                for x in i.get('inc', ()):
                    if x[0][0] == 'v':
                        uses.setdefault(x[0][1], set()).add('phi')
        self.loaded = {v for v, o in uses.items() if o == {'load'}}
        self.bool = set()		# i1 values that are surely known
        self.nc = 0

    def succs(self, b):
        t = b['ins'][-1]
        if t['op'] == 'br':
            return t['succ']
        if t['op'] == 'switch':
            return [t['default']] + [s for c, s in t['cases']]
        return []

    def k(self, v):
        n = 'k%d' % self.nc
        self.nc += 1
        self.ns[n] = v
        return n

    # ---- operands
    def o(self, x):
        k = x[0]
        if k == 'v':
            return 'v%d' % x[1]
        if k == 'a':
            return 'a%d' % x[1]
        if k == 'c':
            return repr(int(x[1]) & ((1 << x[2]) - 1))
        if k == 'null':
            return 'NULL'
        if k == 'g':
            return 'M.g(%r, %d)' % (x[1], x[2] if len(x) > 2 else 0)
        if k == 'f':
            return 'M.fp(%r)' % x[1]
        if k == 'undef':
            return 'UNDEF'
        if k == 'ce' and x[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
            return self.o(x[2][0])
        raise Broken('operand %r' % (x,))

    def known(self, x):
        return x[0] == 'c'

    def isint(self, *xs):
        t = ['%s.__class__ is int' % self.o(x) for x in xs if not self.known(x)]
        return ' and '.join(t) or 'True'

    def w(self, ty):
        return int(ty[1:]) if ty[0] == 'i' and ty[1:].isdigit() else None

    # ---- layout: blocks with one predecessor are written where they are reached
    def build(self):
        f = self.f
        entry = f['blocks'][0]['id']
        self.heads = []
        order = []
        work = [entry]
        seen = set()
        # depth-first order; a block is a head if it is reached from several places or too deep
        heads = {entry} | {b for b in self.blocks if len(self.preds.get(b, ())) > 1}
        depth = {}
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            d = 0 if b in heads else depth.get(b, 0)
            for s in self.succs(self.blocks[b]):
                if s not in heads:
                    depth[s] = d + 1
                    if d + 1 > 12:
                        heads.add(s)
                work.append(s)
        # a switch may reach one block by several cases
        self.headset = heads
        hl = [b for b in self.blocks if b in heads and b in seen]
        self.hidx = {b: i for i, b in enumerate(hl)}
        na = len(f['args'])
        L = self.out
        L.append('def fn(M%s):' % ''.join(', a%d' % i for i in range(na)))
        fr = any(i['op'] == 'alloca' for b in f['blocks'] for i in b['ins'])
        self.fr = fr
        if fr:
            L.append(' fr = []')
        if len(hl) == 1:
            self.emit(entry, 1)
        else:
            L.append(' b = %d' % self.hidx[entry])
            L.append(' while True:')
            L.append('  M.steps -= 1')
            L.append('  if M.steps < 0: M.endless(%r)' % f['name'])
            self.tree(hl, 0, len(hl), 2)
        src = '\n'.join(L)
        try:
            exec(compile(src, '<%s>' % f['name'], 'exec'), self.ns)
        except SyntaxError as e:
            raise Broken('translation of %s: %s' % (f['name'], e))
        fn = self.ns['fn']
        self.prog.mod.seen.add(f['name'])
        return fn

    def tree(self, hl, lo, hi, ind):
        if hi - lo == 1:
            self.emit(hl[lo], ind)
            return
        mid = (lo + hi) // 2
        self.out.append(' ' * ind + 'if b < %d:' % mid)
        self.tree(hl, lo, mid, ind + 1)
        self.out.append(' ' * ind + 'else:')
        self.tree(hl, mid, hi, ind + 1)

    def jump(self, frm, to, ind):
        pad = ' ' * ind
        phis = []
        for i in self.blocks[to]['ins']:
            if i['op'] == 'dbg':
                continue
            if i['op'] != 'phi':
                break
            o = [x for x, b in i['inc'] if b == frm]
            phis.append(('v%d' % i['id'], self.o(o[0])))
        phis = [(a, b) for a, b in phis if a != b]
        if phis:
            self.out.append(pad + ', '.join(a for a, b in phis) + ' = ' + ', '.join(b for a, b in phis))
        if to in self.headset:
            self.out.append(pad + 'b = %d' % self.hidx[to])
            self.out.append(pad + 'continue')
        else:
            self.emit(to, ind)

    def cond(self, x):
        s = self.o(x)
        if x[0] == 'c' or x[0] == 'v' and x[1] in self.bool:
            return s
        return '(%s if %s.__class__ is int else M.truth(%s))' % (s, s, s)

    def emit(self, bid, ind):
        L, pad = self.out, ' ' * ind
        for ins in self.blocks[bid]['ins']:
            op = ins['op']
            if op in ('dbg', 'phi', 'fence'):
                continue
            if op == 'br':
                if len(ins['succ']) == 1 or ins['succ'][0] == ins['succ'][1]:
                    self.jump(bid, ins['succ'][0], ind)
                else:
                    L.append(pad + 'if %s:' % self.cond(ins['ops'][0]))
                    self.jump(bid, ins['succ'][0], ind + 1)
                    L.append(pad + 'else:')
                    self.jump(bid, ins['succ'][1], ind + 1)
                return
            if op == 'switch':
                v = self.o(ins['ops'][0])
                wd = ins['ops'][1][2] if len(ins['ops']) > 1 else 64
                cs = {}
                for c, b in ins['cases']:
                    cs.setdefault(int(c) & ((1 << wd) - 1), b)
                idx = {}
                for b in list(cs.values()) + [ins['default']]:
                    idx.setdefault(b, len(idx))
                t = self.k({c: idx[b] for c, b in cs.items()})
                L.append(pad + 'sw = %s.get(%s if %s.__class__ is int else M.switch(%s, %s), %d)' % (t, v, v, v, t, idx[ins['default']]))
                self.swtree([b for b, i in sorted(idx.items(), key=lambda x: x[1])], 0, len(idx), bid, ind)
                return
            if op == 'ret':
                if self.fr:
                    L.append(pad + 'M.leave(fr)')
                L.append(pad + ('return %s' % self.o(ins['ops'][0]) if ins['ops'] else 'return None'))
                return
            if op == 'unreachable':
                L.append(pad + "raise Fault('abort', 'runs into code that cannot go on', %s)" % self.k(ins))
                return
            r = self.ins(op, ins)
            if r is None:
                continue
            if ins['ty'] != 'void':
                L.append(pad + 'v%d = %s' % (ins['id'], r))
            else:
                L.append(pad + r)

    def swtree(self, bs, lo, hi, frm, ind):
        pad = ' ' * ind
        if hi - lo == 1:
            self.jump(frm, bs[lo], ind)
            return
        mid = (lo + hi) // 2
        self.out.append(pad + 'if sw < %d:' % mid)
        self.swtree(bs, lo, mid, frm, ind + 1)
        self.out.append(pad + 'else:')
        self.swtree(bs, mid, hi, frm, ind + 1)

    # ---- instructions
    def ins(self, op, ins):
        ops = ins['ops']
        if op == 'alloca':
            return 'M.alloca(fr, %r, %d)' % ('%s#%d' % (self.f['name'], ins['id']), ins.get('asz', 1 << 30))
        if op in ('call', 'invoke'):
            return self.call(ins)
        if op == 'getelementptr':
            if not ins['ok']:
                raise Broken('address computation')
            p = self.o(ops[0])
            if not ins['var']:
                return 'P(%s.obj, %s.off + %d)' % (p, p, ins['off']) if ins['off'] else p
            if ins['id'] in self.loaded and len(ins['var']) == 1 and p.startswith('M.g('):
                o, k = ins['var'][0]
                w = self.k(self.width(o))
                s = self.o(o)
                return '(P({0}.obj, {0}.off + M.sx({1}, {2}) * {3} + {4}) if {1}.__class__ is int else M.table({0}, {1}, {2}, {3}, {4}))'.format(p, s, w, k, ins['off'])
            t = []
            for o, k in ins['var']:
                s = self.o(o)
                t.append('M.sx(%s, %s)%s' % (s, self.k(self.width(o)), ' * %d' % k if k != 1 else ''))
            return 'P(%s.obj, %s.off + %s%s)' % (p, p, ' + '.join(t), ' + %d' % ins['off'] if ins['off'] else '')
        if op == 'load':
            w = self.w(ins['ty'])
            if w is None and ins['ty'] != 'ptr':
                raise Broken('loads a %s' % ins['ty'])
            return 'M.ld(%s, %d, %d, %s)' % (self.o(ops[0]), (w or 64) + 7 >> 3, w or 0, self.k(ins))
        if op == 'store':
            n = ins['ssz']
            return 'M.st(%s, %d, %s, %s)' % (self.o(ops[1]), n, self.o(ops[0]), self.k(ins))
        if op == 'icmp':
            a, b = ops
            x, y = self.o(a), self.o(b)
            pr = ins['pred']
            if ins['oty'] == 'ptr':
                return 'M.pcmp(%r, %s, %s, %s)' % (pr, x, y, self.k(ins))
            w = self.w(ins['oty'])
            e = {'eq': '==', 'ne': '!='}.get(pr)
            if e:
                t = '%s %s %s' % (x, e, y)
            else:
                e = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pr[1:]]
                if pr[0] == 's':
                    m = 1 << w - 1
                    f = lambda o, s: str(int(s) ^ m) if self.known(o) else '%s ^ %d' % (s, m)
                    t = '(%s) %s (%s)' % (f(a, x), e, f(b, y))
                else:
                    t = '%s %s %s' % (x, e, y)
            return '(1 if %s else 0) if %s else M.cmp(%r, %s, %s, %d, %s)' % (t, self.isint(a, b), pr, x, y, w, self.k(ins))
        if op == 'select':
            return '%s if %s else %s' % (self.o(ops[1]), self.cond(ops[0]), self.o(ops[2]))
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return self.o(ops[0])
        if op in ('zext', 'sext', 'trunc'):
            x = self.o(ops[0])
            w, v = self.w(ins['ty']), self.w(ins['oty'])
            if op == 'zext':
                t = x
            elif op == 'trunc':
                t = '%s & %d' % (x, (1 << w) - 1)
            else:
                m = 1 << v - 1
                t = '((%s ^ %d) - %d) & %d' % (x, m, m, (1 << w) - 1)
            return '(%s) if %s.__class__ is int else M.ext(%r, %s, %d, %d)' % (t, x, op, x, v, w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = ops
            x, y = self.o(a), self.o(b)
            w = self.w(ins['ty'])
            m = (1 << w) - 1
            t = None
            if op in ('add', 'sub', 'mul'):
                t = '(%s %s %s) & %d' % (x, {'add': '+', 'sub': '-', 'mul': '*'}[op], y, m)
            elif op in ('and', 'or', 'xor'):
                t = '%s %s %s' % (x, {'and': '&', 'or': '|', 'xor': '^'}[op], y)
            elif op in ('shl', 'lshr') and b[0] == 'c':
                t = '(%s << %s) & %d' % (x, y, m) if op == 'shl' else '%s >> %s' % (x, y)
            elif op in ('udiv', 'urem') and b[0] == 'c' and int(b[1]):
                t = '%s %s %s' % (x, '//' if op == 'udiv' else '%', y)
            slow = 'M.arith(%r, %s, %s, %d, %s)' % (op, x, y, w, self.k(ins))
            if t is None:
                return slow
            return '(%s) if %s else %s' % (t, self.isint(a, b), slow)
        if op == 'atomicrmw':
            return 'M.rmw(%r, %s, %s, %d, %s)' % (ins['rmw'], self.o(ops[0]), self.o(ops[1]), ins['sz'], self.k(ins))
        if op == 'cmpxchg':
            raise Broken('instruction cmpxchg')
        if op == 'extractvalue':
            s = self.o(ops[0])
            for i in ins['idx']:
                s += '[%d]' % i
            return s
        if op == 'insertvalue':
            if len(ins['idx']) != 1:
                raise Broken('insertvalue')
            return 'M.insv(%s, %d, %s)' % (self.o(ops[0]), ins['idx'][0], self.o(ops[1]))
        raise Broken('instruction %s' % op)

    def width(self, o):
        if o[0] == 'c':
            return o[2]
        if o[0] == 'a':
            return self.w(self.f['args'][o[1]]['ty'])
        for b in self.f['blocks']:
            for i in b['ins']:
                if i.get('id') == o[1] and i['op'] != 'dbg':
                    return self.w(i['ty'])
        raise Broken('width')

    def call(self, ins):
        name = ins.get('callee')
        t = ins.get('target')
        if name is None and t and t[0] == 'f':
            name = t[1]
        args = ''.join(', ' + ('None' if o[0] == 'md' else self.o(o)) for o in ins['ops'])
        if name is None:
            return 'M.indirect(%s, %s%s)' % (self.o(t), self.k(ins), args)
        if name.startswith('llvm.'):
            n = name.split('.')[1]
            if n in ('lifetime', 'assume', 'dbg', 'donothing') or name.startswith('llvm.experimental.noalias'):
                return None
            if n == 'expect':
                return self.o(ins['ops'][0])
            return 'M.intr(%r, %s%s)' % (n, self.k(ins), args)
        if self.prog.hooked(name) or name not in self.prog.mod.fns:
            return 'M.hook(%r, %s%s)' % (name, self.k(ins), args)
        v = 'F_' + san(name)
        if v not in self.ns:
            code = self.prog.code.get(name)
            if code is None:
                prog, ns = self.prog, self.ns

                def stub(M, *a, name=name, v=v, prog=prog, ns=ns):
                    f = ns[v] = prog.get(name)
                    return f(M, *a)
                code = stub
            self.ns[v] = code
        return '%s(M%s)' % (v, args)


class Machine:
    """The state: objects and what they hold. step limit per run; checkpoint() and restore()"""

    def __init__(self, prog, hooks=None):
        self.prog, self.mod = prog, prog.mod
        self.steps = 0
        self.ep = self.neps = 0
        self.eps = []
        self.log = []
        self.globs, self.fps, self.rel = {}, {}, {}
        self.n = 0
        self.heap = {}
        self.I = None
        self.hooks = hooks or {}

    def endless(self, name):
        raise Fault('ends', '%s does not end' % name)

    # ---- objects
    def obj(self, name, size, kind):
        self.n += 1
        return Obj(name, size, kind, self.ep)

    def alloca(self, fr, name, size):
        o = Obj(name, size, 'local', self.ep)
        fr.append(o)
        return P(o, 0)

    def leave(self, fr):
        for o in fr:
            o.dead = True
            o.c = {}

    def g(self, name, off):
        o = self.globs.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            if g is None or 'data' not in g:	# declared only: its address may be taken
                o = self.globs[name] = Obj(name, 0, 'const', -1)
                return P(o, off)
            o = Obj(name, len(g['data']), 'const' if g.get('const') else 'global', -1)
            o.lazy = g
            self.globs[name] = o
        return P(o, off)

    def fp(self, name):
        o = self.fps.get(name)
        if o is None:
            o = self.fps[name] = Obj(name, 0, 'function', -1)
        return P(o, 0)

    def checkpoint(self):
        self.neps += 1
        self.eps.append(self.ep)
        self.ep = self.neps
        self.log.append((dict(self.heap), []))

    def pop(self):
        """Forget the last checkpoint (just restored)"""
        self.log.pop()
        self.ep = self.eps.pop()

    def restore(self):
        """Back to the last checkpoint, which stays"""
        heap, saved = self.log[-1]
        for o, c, dead in reversed(saved):
            o.c, o.dead = c, dead
            o.ep = -2			# to be saved again
        saved.clear()
        self.heap = dict(heap)

    def own(self, o):
        """Before o changes"""
        if o.ep != self.ep:
            if self.log:
                self.log[-1][1].append((o, o.c, o.dead))
                o.c = dict(o.c)
            o.ep = self.ep

    # ---- memory
    def where(self, p):
        return '%s%s' % (p.obj.name, '+%d' % p.off if p.off else '')

    def check(self, p, n, ins, what):
        if p.__class__ is not P:
            if isinstance(p, V):
                raise Broken('an address that is not known')
            raise Fault('undefined', '%s through something undefined' % what, ins)
        o = p.obj
        if o is None:
            raise Fault('null', '%s a null pointer' % what, ins)
        if o.kind == 'function':
            raise Fault('memory', '%s a function' % what, ins)
        if o.dead:
            raise Fault('freed', '%s %s after its end' % (what, o.name), ins)
        if p.off < 0 or p.off + n > o.size:
            raise Fault('bounds', '%s byte %d of %s, which has %d' % (what, p.off if p.off < 0 else p.off + n - 1, o.name, o.size), ins)

    def fill(self, o, off):
        """Initial content of a global"""
        g = o.lazy
        if g is None or off >= o.size or off < 0:
            return None
        for ro, name, ad in g.get('relocs', ()):
            if ro <= off < ro + 8:
                r = self.rel.get((o, ro))
                if r is None:
                    r = self.rel[o, ro] = self.g(name, ad) if name in self.mod.globals else self.fp(name)
                return (r, 8), ro
        return (g['data'][off], 1), off

    def bytecell(self, o, i):
        """(value, size, byte index) of the cell that holds byte i, or None"""
        c = o.c
        for s in range(i, i - 17, -1):
            e = c.get(s)
            if e is not None:
                if s + e[1] > i:
                    return e[0], e[1], i - s
                break
        f = self.fill(o, i) if o.lazy is not None else None
        if f is not None:
            return f[0][0], f[0][1], i - f[1]
        return None

    def ld(self, p, n, w, ins):
        """w: width in bits, 0 for a pointer"""
        if p.__class__ is P and p.obj is not None:
            e = p.obj.c.get(p.off)
            if e is not None and e[1] == n:
                v = e[0]
                if v.__class__ is int and w == 0:
                    if v == 0:
                        return NULL
                    raise Broken('loads a pointer that was not stored as one')
                return v
        if p.__class__ is SymP:
            return self.lookup(p, n, w, ins)
        self.check(p, n, ins, 'reads')
        o = p.obj
        parts = [self.bytecell(o, p.off + i) for i in range(n)]
        if any(x is None for x in parts):
            return UNDEF
        v, sz, k = parts[0]
        if sz == n and k == 0 and all(x[0] is v and x[2] == i for i, x in enumerate(parts)) and not (w == 0 and v.__class__ is int):
            return v
        if any(x[0].__class__ is P for x in parts):
            raise Broken('loads part of a pointer')
        if any(x[0] is UNDEF for x in parts):
            return UNDEF
        if all(x[0].__class__ is int for x in parts):
            r = 0
            for i, (v, sz, k) in enumerate(parts):
                r |= (v >> 8 * k & 255) << 8 * i
            if w == 0:
                if r == 0:
                    return NULL
                raise Broken('loads a pointer that was not stored as one')
            return r & ((1 << w) - 1)
        r = cube.cat([const(v >> 8 * k & 255, 8) if v.__class__ is int else cube.part(v if v.w >= 8 * k + 8 else cube.zext(v, 8 * k + 8), 8 * k, 8) for v, sz, k in parts])
        return self.low(r if r.w == w else cube.trunc(r, w))

    def table(self, base, v, w, k, off):
        """An address in a table: kept as it is while the table is constant, the index within it, and few bits unknown"""
        v = self.lift(v, w)
        g = base.obj.lazy if base.obj is not None else None
        if g is None or base.obj.kind != 'const' or len(set(v.bits) - {0, 1}) > 6 or v.bits[-1] != 0 or cube.TOP in v.bits:
            return P(base.obj, base.off + off + self.sx(v, w) * k)
        return SymP(self, P(base.obj, base.off + off), [(v, w, k)])

    def lookup(self, p, n, w, ins):
        """What a constant table holds at an index of a few unknown bits"""
        (v, vw, k), = p.terms
        free = sorted({b >> 1 for b in v.bits if b > 1})
        vals = []
        for a in range(1 << len(free)):
            i = sum(((a >> free.index(b >> 1) & 1) ^ (b & 1) if b > 1 else b) << j for j, b in enumerate(v.bits))
            q = p.base.off + i * k
            x = self.ld(P(p.obj, q), n, w, ins) if 0 <= q <= p.obj.size - n else None
            if x.__class__ is not int:
                return self.ld(P(p.obj, p.off), n, w, ins)		# decides the index
            vals.append(x)
        return self.tabulated(w, vals, free)

    def tabulated(self, w, vals, free):
        """A value that is a function, given for every case, of a few unknown bits"""
        for t in reversed(range(len(free))):		# those it depends on
            if all(vals[a] == vals[a ^ 1 << t] for a in range(len(vals))):
                vals = [vals[a] for a in range(len(vals)) if not a >> t & 1]
                free = free[:t] + free[t + 1:]
        bits = []
        for j in range(w):
            c = [x >> j & 1 for x in vals]
            r = cube.TOP
            if len(set(c)) == 1:
                r = c[0]
            else:
                for t, b in enumerate(free):
                    if all(y == a >> t & 1 for a, y in enumerate(c)):
                        r = 2 * b
                    elif all(y != a >> t & 1 for a, y in enumerate(c)):
                        r = 2 * b + 1
            bits.append(r)
        return self.low(cube.V(w, tuple(bits), ('table', tuple(vals), tuple(free)), frozenset(b - 1 for b in free)))

    def low(self, v):
        c = v.const()
        return v if c is None else c

    def clear(self, o, off, n):
        """Take away what is in n bytes at off"""
        c = o.c
        for s in range(off - 15, off + n):
            e = c.get(s)
            if e is None or s + e[1] <= off:
                continue
            if s < off or s + e[1] > off + n:		# partly: leave the other bytes
                v, sz = e
                del c[s]
                for i in range(sz):
                    if not off <= s + i < off + n:
                        if v.__class__ is int:
                            c[s + i] = (v >> 8 * i & 255, 1)
                        elif v.__class__ is V:
                            c[s + i] = (self.low(cube.part(v, 8 * i, 8)), 1)
            else:
                del c[s]

    def writable(self, o, ins):
        if o.kind == 'const':
            raise Fault('memory', 'writes into the constant %s' % o.name, ins)
        if o.kind == 'frozen':
            raise Fault('modified', 'changes %s' % o.name, ins)

    def st(self, p, n, v, ins):
        if p.__class__ is P and p.obj is not None:
            o = p.obj
            if o.ep == self.ep:
                c = o.c
                e = c.get(p.off)
                if e is not None and e[1] == n:
                    c[p.off] = (v, n)
                    return
        self.check(p, n, ins, 'writes')
        o = p.obj
        self.writable(o, ins)
        self.own(o)
        e = o.c.get(p.off)
        if e is None or e[1] != n:
            if o.lazy is not None:
                self.fill_all(o)
            self.clear(o, p.off, n)
        o.c[p.off] = (v, n)

    def fill_all(self, o):
        g, o.lazy = o.lazy, None		# never changes back: what it holds is written out
        rel = {}
        for ro, name, ad in g.get('relocs', ()):
            rel[ro] = self.g(name, ad) if name in self.mod.globals else self.fp(name)
        i = 0
        base = {}
        while i < o.size:
            if i in rel:
                base[i] = (rel[i], 8)
                i += 8
            else:
                base[i] = (g['data'][i], 1)
                i += 1
        base.update(o.c)
        o.c = base
        for l in self.log:
            for j, (q, c, d) in enumerate(l[1]):
                if q is o:
                    l[1][j] = (q, dict(base, **{}) if not c else dict(base, **{}) | c, d)

    def copy(self, d, s, n, ins):
        if n == 0:
            return
        self.check(s, n, ins, 'reads')
        self.check(d, n, ins, 'writes')
        self.writable(d.obj, ins)
        so, i, got = s.obj, s.off, []
        end = i + n
        while i < end:
            e = so.c.get(i)
            if e is not None and i + e[1] <= end:
                got.append((i - s.off, e))
                i += e[1]
                continue
            b = self.bytecell(so, i)
            if b is not None:
                v, sz, k = b
                if v.__class__ is P:
                    if k == 0 and i + 8 <= end:
                        got.append((i - s.off, (v, 8)))
                        i += 8
                        continue
                    raise Broken('copies part of a pointer')
                if v.__class__ is int:
                    got.append((i - s.off, (v >> 8 * k & 255, 1)))
                elif v.__class__ is V:
                    got.append((i - s.off, (self.low(cube.part(v, 8 * k, 8)), 1)))
            i += 1
        do = d.obj
        self.own(do)
        if do.lazy is not None:
            self.fill_all(do)
        self.clear(do, d.off, n)
        for i, e in got:
            do.c[d.off + i] = e

    def alloc(self, size, kind, ins):
        s = self.conc(size, 64)
        if s > 1 << 24:
            raise Fault('alloc', 'allocates %d bytes' % s, ins)
        o = self.obj('memory allocated in %s' % (ins['loc'][0][2] if ins and ins.get('loc') else '?'), s, kind)
        self.heap[o] = True
        return P(o, 0)

    def free(self, p, kind, ins):
        if p.__class__ is not P:
            raise Fault('undefined', 'frees something undefined', ins)
        o = p.obj
        if o is None:
            return
        if o.dead:
            raise Fault('freed', 'frees %s twice' % o.name, ins)
        if o.kind != kind or p.off:
            raise Fault('memory', 'frees with the wrong kind of delete, or not what was allocated', ins)
        self.own(o)
        o.dead = True
        o.c = {}
        self.heap.pop(o, None)

    # ---- values that are not known
    def lift(self, v, w, ins=None):
        if v.__class__ is int:
            return const(v, w)
        if v.__class__ is V:
            return v
        if v is UNDEF or v == UNDEF:
            raise Fault('undefined', 'depends on something undefined', ins)
        raise Broken('a %s is used as a number' % type(v).__name__)

    def conc(self, v, w, ins=None):
        if v.__class__ is int:
            return v
        return self.I.conc(self.lift(v, w, ins), False)

    def sx(self, v, w):
        if v.__class__ is not int:
            v = self.conc(v, w)
        return v - (1 << w) if v >> w - 1 else v

    def truth(self, v):
        return self.I.truth(self.lift(v, 1))

    def switch(self, v, table):
        v = self.lift(v, 64)
        for c in table:
            if self.I.eq(v, const(c, v.w)):
                return c
        return -1

    def cmp(self, pred, a, b, w, ins):
        if a.__class__ is P or b.__class__ is P:
            return self.pcmp(pred, a if a.__class__ is P else P(None, a), b if b.__class__ is P else P(None, b), ins)
        if a is UNDEF or b is UNDEF:
            return UNDEF			# a fault where it decides something
        return int(self.I.cmp(pred, self.lift(a, w, ins), self.lift(b, w, ins)))

    def pcmp(self, pred, a, b, ins):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a.__class__ is not P or b.__class__ is not P:
            raise Broken('compares an address with a number')
        if a.obj is b.obj:
            x, y = a.off, b.off
        elif pred in ('eq', 'ne'):
            return int(pred == 'ne')
        elif a.obj is None or b.obj is None:
            x, y = (0 if a.obj is None else 1), (0 if b.obj is None else 1)
        else:
            r = self.unordered(pred, a, b)
            if r is None:
                raise Broken('compares addresses in different objects')
            return r
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])

    def unordered(self, pred, a, b):
        return None

    def ext(self, op, v, fw, w):
        if v.__class__ is P or v is UNDEF:
            return v
        v = self.lift(v, fw)
        if op == 'zext':
            return self.low(cube.zext(v, w))
        if op == 'trunc':
            return self.low(cube.trunc(v, w))
        return self.low(cube.mk(w, v.bits + (v.bits[-1],) * (w - v.w), 'sext', v))

    def arith(self, op, a, b, w, ins):
        pa, pb = a.__class__ is P, b.__class__ is P
        if pa or pb:
            if op == 'sub' and pa and pb:
                if a.obj is b.obj:
                    return (a.off - b.off) & ((1 << 64) - 1)
                if a.obj is None or b.obj is None:
                    return UNDEF			# a difference with nothing
                raise Broken('subtracts unrelated addresses')
            if op in ('add', 'sub') and pa:
                d = self.sx(b, 64)
                return P(a.obj, a.off + (d if op == 'add' else -d))
            if op == 'add':
                return P(b.obj, b.off + self.sx(a, 64))
            raise Broken('address arithmetic %s' % op)
        if a is UNDEF or b is UNDEF:
            for x in (a, b):			# an operand that is not undefined may decide
                if x.__class__ is int and (op == 'and' and x == 0 or op == 'or' and x == (1 << w) - 1):
                    return x
            return UNDEF
        if a.__class__ is int and b.__class__ is int:
            m = (1 << w) - 1
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    raise Fault('undefined', 'shifts by %d of %d bits' % (b, w), ins)
                return (a << b) & m if op == 'shl' else a >> b if op == 'lshr' else (signed(a, w) >> b) & m
            if b == 0:
                raise Fault('undefined', 'divides by zero', ins)
            if op[0] == 'u':
                return a // b if op == 'udiv' else a % b
            x, y = signed(a, w), signed(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & m
        return self.low(self.I.arith(op, self.lift(a, w, ins), self.lift(b, w, ins), ins))

    def rmw(self, op, p, v, n, ins):
        old = self.ld(p, n, n * 8, ins)
        m = (1 << n * 8) - 1
        if old.__class__ is not int or v.__class__ is not int:
            raise Fault('undefined', 'counts from something undefined', ins)
        if p.obj.kind == 'frozen':		# counting references atomically is no change
            self.own(p.obj)
            p.obj.c[p.off] = ((old + v if op == 'add' else old - v) & m, n)
            return old
        self.st(p, n, {'add': lambda: (old + v) & m, 'sub': lambda: (old - v) & m, 'xchg': lambda: v}[op](), ins)
        return old

    def insv(self, v, i, x):
        d = dict(v) if v.__class__ is dict else {}
        d[i] = x
        return d

    def intr(self, n, ins, *args):
        if n in ('memcpy', 'memmove'):
            self.copy(args[0], args[1], self.conc(args[2], 64), ins)
            return
        if n == 'memset':
            k = self.conc(args[2], 64)
            d = args[0]
            if k:
                self.check(d, k, ins, 'writes')
                self.writable(d.obj, ins)
                self.own(d.obj)
                if d.obj.lazy is not None:
                    self.fill_all(d.obj)
                self.clear(d.obj, d.off, k)
                for i in range(k):
                    d.obj.c[d.off + i] = (args[1], 1)
            return
        w = ins['ops'][0][2] if ins['ops'][0][0] == 'c' else None
        if n == 'trap':
            raise Fault('abort', 'stops', ins)
        w = int(ins['callee'].rsplit('.i', 1)[1]) if '.i' in ins['callee'] else 64
        a = args[0]
        if n == 'abs':
            v = signed(self.conc(a, w), w)
            return abs(v) & ((1 << w) - 1)
        if n in ('umin', 'umax', 'smin', 'smax'):
            lt = self.cmp(n[0] + 'lt', a, args[1], w, ins)
            return a if bool(lt) == (n[1:] == 'min') else args[1]
        if n == 'bswap':
            return int.from_bytes(self.conc(a, w).to_bytes(w // 8, 'little'), 'big')
        if n in ('fshl', 'fshr'):
            x, y, k = self.conc(a, w), self.conc(args[1], w), self.conc(args[2], w) % w
            if n == 'fshr':
                k = w - k
            return ((x << w | y) << k >> w) & ((1 << w) - 1)
        if n in ('ctlz', 'cttz', 'ctpop'):
            c = self.conc(a, w)
            return bin(c).count('1') if n == 'ctpop' else w - c.bit_length() if n == 'ctlz' else (c & -c).bit_length() - 1 if c else w
        if n in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
            x, y = self.conc(a, w), self.conc(args[1], w)
            if n[0] == 's':
                x, y = signed(x, w), signed(y, w)
            t = x + y if 'add' in n else x - y if 'sub' in n else x * y
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if n[0] == 's' else (0, (1 << w) - 1)
            return {0: t & ((1 << w) - 1), 1: int(not lo <= t <= hi)}
        raise Broken('call of %s' % ins.get('callee'))

    def init(self):
        """Dynamic initialisation of globals"""
        g = self.mod.globals.get('llvm.global_ctors')
        for prio, f, what in sorted(g['init'] if g else (), key=lambda x: x[0]):
            self.steps = 10 ** 6
            self.call(f[1])

    # ---- calls that leave the code
    def indirect(self, p, ins, *args):
        if p.__class__ is not P or p.obj is None or p.obj.kind != 'function':
            raise Fault('null' if p.__class__ is P and p.obj is None else 'undefined', 'calls something that is not a function', ins)
        name = p.obj.name
        if self.prog.hooked(name) or name not in self.mod.fns:
            return self.hook(name, ins, *args)
        return self.prog.get(name)(self, *args)

    def hook(self, name, ins, *args):
        h = self.hooks.get(name) or HOOKS.get(name)
        if h is None:
            raise Broken('call of %s' % name)
        return h(self, ins, *args)

    def call(self, name, *args):
        return self.prog.get(name)(self, *args)

    def text(self, p, n=None):
        """The bytes at p: n of them, or to a NUL"""
        r = bytearray()
        while n is None or len(r) < n:
            b = self.conc(self.ld(P(p.obj, p.off + len(r)), 1, 8, None), 8)
            if n is None and b == 0:
                break
            r.append(b)
        return bytes(r)

    def bytes(self, name, data, kind='const'):
        """An object that holds data"""
        o = self.obj(name, len(data), kind)
        for i, b in enumerate(data):
            o.c[i] = (b, 1)
        return P(o, 0)


def h_memcmp(M, ins, a, b, n):
    for i in range(M.conc(n, 64)):
        x, y = (M.ld(P(p.obj, p.off + i), 1, 8, ins) for p in (a, b))
        if x.__class__ is int and y.__class__ is int:
            if x != y:
                return 0xFFFFFFFF if x < y else 1
        elif not M.I.eq(M.lift(x, 8, ins), M.lift(y, 8, ins)):
            return 0xFFFFFFFF if M.I.ult(M.lift(x, 8, ins), M.lift(y, 8, ins)) else 1
    return 0


def h_strlen(M, ins, p):
    n = 0
    while True:
        x = M.ld(P(p.obj, p.off + n), 1, 8, ins)
        if (x == 0) if x.__class__ is int else M.I.eq(M.lift(x, 8, ins), const(0, 8)):
            return n
        n += 1


def abort(what):
    def h(M, ins, *a):
        raise Fault('abort', what, ins)
    return h


def h_assert(M, ins, what, *a):
    raise Fault('abort', 'fails the assertion "%s"' % M.text(what).decode('latin1'), ins)


HOOKS = {
    '_Znwm': lambda M, ins, n: M.alloc(n, 'new', ins),
    '_Znam': lambda M, ins, n: M.alloc(n, 'new[]', ins),
    '_ZdlPv': lambda M, ins, p: M.free(p, 'new', ins),
    '_ZdlPvm': lambda M, ins, p, n: M.free(p, 'new', ins),
    '_ZdaPv': lambda M, ins, p: M.free(p, 'new[]', ins),
    '_ZdaPvm': lambda M, ins, p, n: M.free(p, 'new[]', ins),
    'memcmp': h_memcmp, 'strlen': h_strlen,
    '__assert_fail': h_assert, 'abort': abort('aborts'),
    '__cxa_atexit': lambda M, ins, *a: 0,
    '__cxa_pure_virtual': abort('calls a pure virtual function'),
    '_ZSt20__throw_length_errorPKc': abort('throws length_error'),
    '_ZSt24__throw_out_of_range_fmtPKcz': abort('throws out_of_range'),
    '_ZSt17__throw_bad_allocv': abort('throws bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': abort('throws bad_array_new_length'),
    '_ZSt25__throw_bad_function_callv': abort('throws bad_function_call'),
}
