"""Copy-on-write maps: isolation, reference balance and results, over a model of std::map (drivers/stub/map)."""
from . import build, ai, cube
from .cube import P, V, NULL, const, part, zext
from .p_codec import Check, pick, show, spread, I32
from .slices import site
from .build import Broken, VERIF

NODE_V = 8		# std::pair<const int, long>
LAYOUT = None


class Map:
    def __init__(self, nodes=()):
        self.nodes = list(nodes)	# objects, in key order
        self.fresh = None
        self.dead = False


class W:
    """The modelled heap of one cube"""

    def __init__(self):
        self.maps = {}			# (object, offset) -> Map
        self.owner = {}			# node object -> map key
        self.rc = {}			# body object -> count
        self.dead = set()
        self.calls = []
        self.lists = {}			# (object, offset) -> [values] of an Array being built
        self.new = set()
        self.mine = None		# the body of the map operated on


class MR(cube.Rule):
    opaque = True

    def __init__(self, ck):
        self.ck = ck
        self.w = W()

    def viol(self, I, ins, rule, key, msg):
        self.ck.bad(I, ins, rule, key, msg)

    def null(self, I, ins):
        self.viol(I, ins, 'memory', 'null', 'uses a null pointer')

    def undefined(self, I, ins, what):
        self.viol(I, ins, 'memory', 'undefined', what)

    def unordered(self, I, pred, a, b):
        raise Broken('compares pointers into different objects')

    def missing(self, I, ins, obj, off):
        raise Broken('reads uninitialised %s+%s' % (obj, off))

    def access(self, I, ins, obj, off, n, write, val):
        w = self.w
        if obj in w.dead:
            self.viol(I, ins, 'memory', 'dead', 'uses %s after it is gone' % name(obj))
            raise cube.Stop('dead')
        if obj and obj[0] == 'end':
            self.viol(I, ins, 'memory', 'end', 'uses the end of a map as if it were an entry')
            raise cube.Stop('end')
        if obj in w.owner:
            if write:
                self.change(I, ins, w.owner[obj])
            self.ck.good('memory', site(ins)[0])

    def change(self, I, ins, mk):
        """The contents of a map are about to change"""
        w = self.w
        body = mk[0]
        if w.rc.get(body, 0) > 1:
            self.viol(I, ins, 'isolation', 'shared', 'changes a body that %d references share' % w.rc[body])
        elif body in w.rc and w.rc[body] and body[0] == 'b' and body != w.mine:
            self.viol(I, ins, 'isolation', 'other', 'changes a body that belongs to another map')
        else:
            self.ck.good('isolation', site(ins)[0])

    def mapof(self, I, ins, p):
        w = self.w
        if not isinstance(p, P) or p.obj is None:
            self.null(I, ins)
            raise cube.Stop('null')
        k = (p.obj, p.off)
        if p.obj in w.dead:
            self.viol(I, ins, 'memory', 'dead', 'uses %s after it is gone' % name(p.obj))
            raise cube.Stop('dead')
        if k not in w.maps:
            raise Broken('uses storage that is not a map as one')
        return k, w.maps[k]

    def key(self, I, ins, p):
        return I.load(ins, p, 32, False)

    def order(self, I, a, b):
        """-1, 0, 1: the order of two keys, decided as for any other comparison"""
        if a.const() is not None or b.const() is not None:
            raise Broken('a constant key')
        return I.order_unknown(a, b, 's')

    def nodekey(self, I, n):
        return cellv(I, n, 0, 32)

    def seek(self, I, m, k):
        """(index, found)"""
        for i, n in enumerate(m.nodes):
            c = self.order(I, k, self.nodekey(I, n))
            if c <= 0:
                return i, c == 0
        return len(m.nodes), False

    def insert(self, I, ins, mk, m, k, v):
        i, found = self.seek(I, m, k)
        if found:
            m.fresh = False
            return m.nodes[i]
        n = I.new('entry')
        self.w.owner[n] = mk
        setcell(I, n, 0, k)
        setcell(I, n, NODE_V, v)
        m.nodes.insert(i, n)
        m.fresh = True
        return n

    def drop(self, I, mk, m):
        for n in m.nodes:
            self.w.dead.add(n)
        m.nodes = []

    def copy(self, I, mk, m, o):
        out = []
        for n in o.nodes:
            c = I.new('entry')
            self.w.owner[c] = mk
            setcell(I, c, 0, cellv(I, n, 0, 32))
            setcell(I, c, NODE_V, cellv(I, n, NODE_V, 64))
            out.append(c)
        self.drop(I, mk, m)
        m.nodes = out

    def call(self, I, ins, name_, args):
        w = self.w
        VOID = ('void',)
        if name_ is None:
            raise Broken('calls something unknown')
        if name_.startswith('m_'):
            op = name_[2:]
            if op in ('ctor', 'copy'):
                k = (args[0].obj, args[0].off)
                w.maps[k] = Map()
                if op == 'copy':
                    self.copy(I, k, w.maps[k], self.mapof(I, ins, args[1])[1])
                return VOID
            if op in ('next', 'prev'):
                n = args[0].obj
                if n is not None and n[0] == 'end' and op == 'prev':
                    m = w.maps[n[1]]
                    i = len(m.nodes)
                elif n in w.owner and n not in w.dead:
                    m = w.maps[w.owner[n]]
                    i = m.nodes.index(n)
                else:
                    self.viol(I, ins, 'memory', 'iterator', 'moves an iterator that is at the end, or whose entry is gone')
                    raise cube.Stop('iterator')
                i += 1 if op == 'next' else -1
                if i < 0:
                    self.viol(I, ins, 'memory', 'iterator', 'moves an iterator before the beginning')
                    raise cube.Stop('iterator')
                return P(m.nodes[i], 0) if i < len(m.nodes) else P(('end', w.owner[n] if n in w.owner else n[1]), 0)
            k, m = self.mapof(I, ins, args[0])
            end = P(('end', k), 0)
            at = lambda i: P(m.nodes[i], 0) if i < len(m.nodes) else end
            if op == 'dtor':
                m.dead = True
                self.drop(I, k, m)
                return VOID
            if op == 'begin':
                return at(0)
            if op == 'end':
                return end
            if op == 'size':
                return const(len(m.nodes), 64)
            if op == 'fresh':
                return const(int(m.fresh), 1)
            if op in ('find', 'lower', 'upper'):
                i, found = self.seek(I, m, self.key(I, ins, args[1]))
                if op == 'find':
                    return at(i) if found else end
                return at(i + (op == 'upper' and found))
            if op in ('clear', 'insert', 'slot', 'erase', 'assign', 'swap'):
                if op == 'insert':
                    key, val = self.key(I, ins, args[1]), I.load(ins, P(args[1].obj, args[1].off + NODE_V), 64, False)
                    if self.seek(I, m, key)[1]:		# changes nothing
                        m.fresh = False
                        return at(self.seek(I, m, key)[0])
                if op == 'slot':
                    key, val = self.key(I, ins, args[1]), const(0, 64)
                    if self.seek(I, m, key)[1]:
                        return at(self.seek(I, m, key)[0])
                self.change(I, ins, k)
                if op == 'swap':
                    k2, m2 = self.mapof(I, ins, args[1])
                    self.change(I, ins, k2)
                    m.nodes, m2.nodes = m2.nodes, m.nodes
                    for a, b in ((k, m), (k2, m2)):
                        for n in b.nodes:
                            w.owner[n] = a
                    return VOID
                if op == 'assign':
                    self.copy(I, k, m, self.mapof(I, ins, args[1])[1])
                    return VOID
                if op == 'clear':
                    self.drop(I, k, m)
                    return VOID
                if op in ('insert', 'slot'):
                    return P(self.insert(I, ins, k, m, key, val), 0)
                n = args[1].obj
                if n not in m.nodes:
                    self.viol(I, ins, 'memory', 'iterator', 'erases an entry that is not in the map')
                    raise cube.Stop('iterator')
                i = m.nodes.index(n)
                del m.nodes[i]
                w.dead.add(n)
                return at(i)
            return None
        if name_ not in ('fn_manager', 'fn_invoker') and name_ in I.mod.fns and ('_M_manager' in name_ or '_M_invoke' in name_ or 'EclE' in name_ or 'Function_handler' in name_):
            # a function object of the code itself
            a = I.args
            kind, r, i = I.run(I.mod.fns[name_], args)
            I.args = a
            return ('end', kind) if kind != 'ret' else r if r is not None else VOID
        if name_ == 'fn_manager':
            return const(1, 1)
        if name_ == 'fn_invoker':
            if not all(isinstance(a, P) for a in args):
                raise Broken('calls the function with something unexpected')
            vs = [I.load(ins, a, n, False) for a, n in zip(args[1:], self.ck.sig)]
            return self.ck.function(I, self, vs, args)
        if name_ in ('_Znwm', '_Znam'):
            o = I.new('body')
            w.new.add(o)
            return P(o, 0)
        if name_.startswith('_Zd'):
            w.dead.add(args[0].obj)
            return VOID
        dem = I.mod.dem.get(name_, '')
        if dem.startswith('RefCounted::'):
            b = args[0].obj
            f = dem.split('::')[1].split('(')[0]
            if b is None:
                self.null(I, ins)
                raise cube.Stop('null')
            if b in w.dead:
                self.viol(I, ins, 'memory', 'dead', 'counts %s after it is gone' % name(b))
                raise cube.Stop('dead')
            if f == 'RefCounted':
                w.rc[b] = 0
                return VOID
            if b not in w.rc:
                raise Broken('counts something that is not counted')
            if f == 'GetRefCount':
                return const(w.rc[b], 32)
            if f == 'AddRef':
                w.rc[b] += 1
                return VOID
            if f == 'Release':
                w.rc[b] -= 1
                if w.rc[b] < 0:
                    self.viol(I, ins, 'balance', 'under', 'releases a reference it does not have')
                    raise cube.Stop('under')
                if w.rc[b] == 0:
                    w.dead.add(b)
                    for k, m in w.maps.items():
                        if k[0] == b:
                            self.drop(I, k, m)
                return VOID
        if 'Array' in dem:
            return self.array(I, ins, dem, args)
        return None

    def array(self, I, ins, dem, args):
        """Arrays are only built and handed over: a list of the values appended"""
        w = self.w
        k = (args[0].obj, args[0].off) if isinstance(args[0], P) else None
        f = dem.split('(')[0]
        par = dem[len(f):]
        if 'append(' in dem and 'const&' in par and 'Array' not in par:
            n = int(self.ck.ewidth)
            w.lists[k] = w.lists[k] + [I.load(ins, args[1], n, False)]
            return ('agg', {0: args[0]}) if False else P(*k)
        if '::~' in dem:
            w.lists.pop(k, None)
            return ('void',)
        if 'Array' in f.split('::')[-1]:		# constructors
            if par.count('const&') == 1 and 'Array' in par.split('const&')[0]:
                o = (args[1].obj, args[1].off)
                w.lists[k] = list(w.lists[o])
            elif 'const*' in par:
                if len(args) > 2 and (not isinstance(args[2], V) or args[2].const() != 0):
                    raise Broken('an array starts with elements')
                w.lists[k] = []
            elif par in ('()',):
                w.lists[k] = []
            else:
                raise Broken('constructs an array: %s' % dem)
            return ('void',)
        raise Broken('array operation %s' % dem)


def name(o):
    return 'a map entry' if o[1] == 'entry' or o[0] == 'e' else 'a map body'


def cellv(I, obj, off, w):
    c = I.mem[obj][off]
    if c[1] != 0 or c[0].w != w:
        raise Broken('a map entry is written piecemeal')
    return c[0]


def setcell(I, obj, off, v):
    m = I.mem.setdefault(obj, {})
    for i in range(8 if isinstance(v, P) else v.w // 8):
        m[off + i] = (v, i)


class MapCheck(Check):
    mk = MR
    sig = (32, 64)
    ewidth = 32

    def contents(self, I, body):
        w = I.rule.w
        m = w.maps.get((body, LAYOUT['map']))
        if m is None:
            raise Broken('a body has no map')
        return [(cellv(I, n, 0, 32), cellv(I, n, NODE_V, 64)) for n in m.nodes]

    def initial(self, I, nm, n, rc):
        w = I.rule.w
        b = ('b', nm)
        k = (b, LAYOUT['map'])
        w.maps[k] = Map([('e', nm, i) for i in range(n)])
        w.rc[b] = rc
        for i in range(n):
            e = ('e', nm, i)
            w.owner[e] = k
            kv = I.inbits('key %s%d' % (nm, i), 32)
            if i:
                I.assume(I.inbits('key %s%d' % (nm, i - 1), 32), kv, 's')
            setcell(I, e, 0, kv)
            setcell(I, e, NODE_V, I.inbits('value %s%d' % (nm, i), 64))
        return b

    def hold(self, I, obj, body):
        setcell(I, (obj,), LAYOUT['body'], P(body, 0) if body else NULL)

    def body_of(self, I, obj):
        p = I.load(None, P((obj,), LAYOUT['body']), 64, True)
        return p.obj

    def function(self, I, R, vs, args):
        """A call of the function given: any answer, a function of what it is given"""
        op = self.root[2:]
        I.rule.w.calls.append(tuple(v.key() for v in vs))
        if op == 'each':
            return ('void',)
        nm = tuple(v.key() for v in vs)
        if op == 'map':
            r = ('agg', {0: I.inbits(('mapped key', nm), 32), 1: I.inbits(('mapped value', nm), 64)})
            ret = self.retty
            if ret == '{ i64, i64 }':
                return ('agg', {0: zext(r[1][0], 64), 1: r[1][1]})
            return r
        if op == 'inject':
            return I.inbits(('next', nm), 64)
        return I.inbits(('answer', nm), 1)

    def given(self, I):
        setcell(I, ('fn',), LAYOUT['manager'], P(('f', 'fn_manager'), 0))
        setcell(I, ('fn',), LAYOUT['invoker'], P(('f', 'fn_invoker'), 0))
        for k in range(16):
            I.mem[('fn',)].setdefault(k, (const(0, 8), 0))
        return P(('fn',), 0)


def probe(mod):
    """Where a CowMap keeps its body, a body its map, and a std::function its two pointers"""
    global LAYOUT
    out = {}
    st = []

    class F(MR):
        def access(self, I, ins, obj, off, n, write, val):
            if obj == ('res',) and write and isinstance(val, P):
                out['body'] = off
    ck = MapCheck.__new__(MapCheck)
    I = cube.Interp(mod, cube.Cubes(), F(ck), {})
    I.run(mod.fns['f_ctor'], [P(('res',), 0)])
    k = [k for k in I.rule.w.maps if k[0] in I.rule.w.new]
    if len(k) != 1 or 'body' not in out:
        raise Broken('cannot find the body of a map')
    out['map'] = k[0][1]
    out['manager'], out['invoker'] = 16, 24
    LAYOUT = out


def spec_put(R, I, L, k, v, over):
    for i, (a, b) in enumerate(L):
        c = R.order(I, k, a)
        if c == 0:
            return L[:i] + [(a, v if over else b)] + L[i + 1:]
        if c < 0:
            return L[:i] + [(k, v)] + L[i:]
    return L + [(k, v)]


def spec_find(R, I, L, k):
    for i, (a, b) in enumerate(L):
        c = R.order(I, k, a)
        if c <= 0:
            return i if c == 0 else None
    return None


def same_list(ck, I, got, want, what):
    if len(got) != len(want):
        ck.bad(I, None, 'result', what, '%s has %d entries, not %d' % (what, len(got), len(want)))
        return
    for i, (a, b) in enumerate(zip(got, want)):
        for x, y in zip(a, b):
            if x.key() != y.key():
                ck.bad(I, None, 'result', what, '%s: entry %d is %s, not %s' % (what, i, show(x), show(y)))
                return
    ck.good('result', what)


def step(ck, I):
    op = ck.root[2:]
    R = I.rule
    w = R.w
    args_of = [a['name'] for a in ck.fn['args']]
    res, m, o = P(('res',), 0), P(('m',), 0), P(('o',), 0)
    refs = {}			# references from elsewhere, per body
    n = rc = 0
    body = obody = None
    if 'm' in args_of:
        n = pick(I, 'entries', [0, 1, 2, 3])
        rc = pick(I, 'references', [1, 2, 3])
        if op == 'assign' and I.truth(I.inbits('empty shell', 1, 200)):
            n = 0
        else:
            body = ck.initial(I, 'm', n, rc)
            refs[body] = rc - 1
            w.mine = body
        ck.hold(I, 'm', body)
    if op == 'assign':
        how = pick(I, 'other operand', ['other', 'sharing', 'itself'])
        if how == 'itself':
            o = m
        elif how == 'sharing' and body:
            if rc == 1:
                return
            obody = body
            refs[body] -= 1
        else:
            orc = pick(I, 'other references', [1, 2])
            obody = ck.initial(I, 'o', 1, orc)
            refs[obody] = orc - 1
        if how != 'itself':
            ck.hold(I, 'o', obody)
    before = {b: ck.contents(I, b) for b in refs}
    old = before.get(body)
    args = []
    k = None
    v = None
    calls = []
    for a in args_of:
        if a == 'k':
            byref = ck.byref('k')
            al = pick(I, 'the key is that of an entry', ['no'] + list(range(n))) if byref else 'no'
            if al != 'no':
                args.append(P(('e', 'm', al), 0))
                k = old[al][0]
            else:
                k = I.inbits('key', 32)
                if byref:
                    setcell(I, ('k',), 0, k)
                args.append(P(('k',), 0) if byref else k)
        elif a == 'v':
            v = I.inbits('value', 64)
            args.append(v)
        elif a == 'f':
            args.append(ck.given(I))
        elif a == 'start':
            v = I.inbits('start', 64)
            setcell(I, ('start',), 0, v)
            args.append(P(('start',), 0))
        elif a == 'size':
            n = pick(I, 'size', [0, 1, 2, 3])
            args.append(I32(n))
        elif a in ('keys', 'values'):
            for i in range(3):
                if a == 'keys':
                    setcell(I, (a,), i * 4, I.inbits('key %d' % i, 32))
                else:
                    setcell(I, (a,), i * 8, I.inbits('value %d' % i, 64))
            args.append(P((a,), 0))
        elif a == 'o':
            args.append(o)
        else:
            args.append(P((a,), 0))
    if op == 'data':
        ck.hi = None
    kind, r, ins = I.run(ck.fn, args)
    if kind != 'ret':
        ck.bad(I, ins, 'result', 'end', 'does not return')
        return
    new, newres, want_m = old, None, None
    if op in ('insert', 'put'):
        new = spec_put(R, I, old, k, v, op == 'put')
        if op == 'put':
            ck.exact(I, r, k, 'the answer')
    elif op == 'remove':
        i = spec_find(R, I, old, k)
        new = old if i is None else old[:i] + old[i + 1:]
    elif op == 'clear':
        new = []
    elif op == 'index':
        i = spec_find(R, I, old, k)
        ck.exact(I, r, const(0, 64) if i is None else old[i][1], 'the answer')
    elif op == 'contains':
        ck.exact(I, r, const(int(spec_find(R, I, old, k) is not None), 1), 'the answer')
    elif op in ('find', 'begin', 'end'):
        i = spec_find(R, I, old, k) if op == 'find' else 0 if op == 'begin' and n else None
        ck.exact(I, r, P(('e', 'm', i), 0) if i is not None else P(('end', (body, LAYOUT['map'])), 0), 'the answer')
    elif op == 'size':
        ck.exact(I, r, const(n, 64), 'the answer')
    elif op in ('keys', 'values'):
        got = w.lists.get((('res',), 0))
        if got is None:
            raise Broken('the result is not an array')
        same_list(ck, I, [(x,) for x in got], [(e[op == 'values'],) for e in old], 'the array')
    elif op == 'copy':
        newres = old
    elif op == 'ctor':
        newres = []
    elif op == 'data':
        newres = []
        for i in range(n):
            newres = spec_put(R, I, newres, I.inbits('key %d' % i, 32), I.inbits('value %d' % i, 64), False)
    elif op in ('each', 'all', 'any', 'one', 'select'):
        ans = lambda e: I.truth(I.inbits(('answer', (e[0].key(), e[1].key())), 1))
        seen = [tuple(x.key() for x in e) for e in old]
        if op == 'each':
            good = w.calls == seen
        else:
            good = set(w.calls) <= set(seen)
        if not good:
            ck.bad(I, None, 'result', 'calls', 'calls the function for %d entries, not once for each of the %d in order' % (len(w.calls), n))
        else:
            ck.good('result', 'calls')
        if op == 'select':
            newres = [e for e in old if ans(e)]
        elif op != 'each':
            want = {'all': lambda: all(ans(e) for e in old), 'any': lambda: any(ans(e) for e in old),
                    'one': lambda: sum(1 for e in old if ans(e)) == 1}[op]()
            ck.same(I, r, const(int(want), 1), 'the answer')
    elif op == 'map':
        newres = []
        for e in old:
            nm = (e[0].key(), e[1].key())
            newres = spec_put(R, I, newres, I.inbits(('mapped key', nm), 32), I.inbits(('mapped value', nm), 64), True)
    elif op == 'inject':
        acc = v
        for e in old:
            acc = I.inbits(('next', (acc.key(), e[0].key(), e[1].key())), 64)
        ck.exact(I, r, acc, 'the answer')
    # who refers to what
    held = dict(refs)
    if op == 'assign':
        ck.exact(I, r, m, 'the answer')
        want_m = body if o is m else obody
    for h in ('m', 'o', 'res'):
        if h not in args_of or h == 'm' and op == 'dtor' or h == 'o' and o is m or h == 'res' and op in ('keys', 'values'):
            continue
        b = ck.body_of(I, h)
        if b is None:
            if not (h == 'm' and body is None and op == 'assign'):
                ck.bad(I, None, 'balance', 'none', 'leaves %s without a body' % h)
            continue
        held[b] = held.get(b, 0) + 1
        if b in w.dead:
            ck.bad(I, None, 'memory', 'dangling', 'leaves %s referring to a body that is gone' % h)
            return
        if h == 'm':
            if op == 'assign':
                if b != want_m:
                    ck.bad(I, None, 'result', 'm', 'does not refer to the body of the other operand')
            else:
                same_list(ck, I, ck.contents(I, b), new, 'the map')
        elif h == 'o' and b != obody:
            ck.bad(I, None, 'isolation', 'o', 'changes its other operand')
        elif h == 'res':
            same_list(ck, I, ck.contents(I, b), newres, 'the result')
    for b in set(w.rc):
        if b in w.dead:
            if held.get(b):
                ck.bad(I, None, 'balance', 'lost', 'lets go of a body that %d references still need' % held[b])
            continue
        if w.rc[b] != held.get(b, 0):
            ck.bad(I, None, 'balance', 'count', 'leaves a body with count %d and %d references to it' % (w.rc[b], held.get(b, 0)))
        else:
            ck.good('balance', 'count')
        if b in before and refs.get(b):
            now = ck.contents(I, b)
            if [tuple(x.key() for x in e) for e in now] != [tuple(x.key() for x in e) for e in before[b]]:
                ck.bad(I, None, 'isolation', 'contents', 'changes the contents of a body that other maps share')
            else:
                ck.good('isolation', 'contents')


def exact(ck, I, got, want, what):
    if got is None or isinstance(got, tuple) or got.key() != want.key():
        ck.bad(I, None, 'result', what, '%s is %s, not %s' % (what, show(got), show(want)))
    else:
        ck.good('result', what)


def byref(ck, a):
    for i, x in enumerate(ck.fn['args']):
        if x['name'] == a:
            return x['ty'] == 'ptr'


MapCheck.exact = exact
MapCheck.byref = byref


def check_cowmap(rep):
    mod = ai.Mod(build.lower(['d_cowmap.cpp'], roots=['^f_', '_M_manager', '_M_invoke'], keep=['RefCounted::', 'Array<'], extra=['-I' + VERIF + '/drivers/stub']))
    probe(mod)

    def unit(r):
        def f(rep):
            ck = MapCheck(rep, mod, r, ('memory', 'isolation', 'balance', 'result'))
            ck.retty = ''
            if r == 'f_values':
                ck.ewidth = 64
            if r == 'f_inject':
                ck.sig = (64, 32, 64)
            ck.run(step)
        return f
    spread(rep, {r: unit(r) for r in sorted(mod.fns) if r.startswith('f_')})
    rep.require('isolation', 5)
    rep.require('balance', 15)
    rep.require('result', 15)
    rep.assume.append('std::map behaves as specified; keys and values are copied and compared, and otherwise opaque; maps of at most 3 entries (deeper maps only add iterations of the same loops)')
