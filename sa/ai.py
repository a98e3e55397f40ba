"""
Trace-partitioned abstract interpreter over the JSON IR written by irx.

Domain: integers and pointers are linear expressions (Lin) over atoms; an atom denotes one fixed but
unknown value (an argument, the initial content of a memory cell, a call's result, a loop counter).
A state holds a conjunction of linear inequalities over atoms, a memory log per base object, and a
rule-specific typestate.  States are joined at loop heads (loop-varying cells become init + step*k,
or a fresh atom) so that every loop is analysed for a generic iteration; acyclic joins stay
partitioned up to a cap.  No path is handed to a solver and nothing is executed: a branch is decided
only if a bounded linear combination of known inequalities decides it.
"""
import itertools

INF = float('inf')


class Atoms:
    def __init__(self):
        self.info = []
        self.key = {}

    def get(self, key, **kw):
        i = self.key.get(key)
        if i is None:
            i = len(self.info)
            self.key[key] = i
            d = dict(key=key, name=None, lo=-INF, hi=INF, ptr=False, di=None, size=None)
            d.update(kw)
            self.info.append(d)
        return i


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def add(self, o, k=1):
        if k == 0:
            return self
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        d = dict(self.t)
        for a, n in o.t:
            v = d.get(a, 0) + k * n
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def __add__(self, o):
        return self.add(o if isinstance(o, Lin) else Lin(o))

    def __sub__(self, o):
        return self.add(o if isinstance(o, Lin) else Lin(o), -1)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, n * k) for a, n in self.t))

    def neg(self):
        return self.scale(-1)

    def isconst(self):
        return not self.t

    def coef(self, a):
        for x, n in self.t:
            if x == a:
                return n
        return 0

    def atoms(self):
        return [a for a, _ in self.t]


ZERO = Lin(0)


class B:
    """A boolean (i1) value: kind in cmp(pred,a,b,w,ptr) not(x) and(x,y) or(x,y) odd(lin) const(v)"""
    __slots__ = ('k', 'a', 'h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self.h = hash((k, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, B) and self.h == o.h and self.k == o.k and self.a == o.a

    def __ne__(self, o):
        return not self == o


TRUE, FALSE = B('const', True), B('const', False)


def bnot(b):
    if b.k == 'const':
        return FALSE if b.a[0] else TRUE
    if b.k == 'not':
        return b.a[0]
    return B('not', b)


class Agg:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __hash__(self):
        return hash(tuple(sorted(self.d.items(), key=lambda x: x[0])))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.d == o.d


class Entry:
    """One write in a base object's log. off Lin, size Lin or None (unknown extent); val None = unknown"""
    __slots__ = ('off', 'size', 'val', 'uid')

    def __init__(self, off, size, val, uid):
        self.off, self.size, self.val, self.uid = off, size, val, uid

    def __eq__(self, o):
        return isinstance(o, Entry) and (self.off, self.size, self.val, self.uid) == (o.off, o.size, o.val, o.uid)

    def __hash__(self):
        return hash((self.off, self.size, self.uid))


class Copy:
    """Content of a region written by an element-wise sweep or a block copy."""
    __slots__ = ('kind', 'o0', 'es', 'base', 'off0', 'ratio', 'uid', 'src', 'mem')

    def __init__(self, kind, o0, es, **kw):
        self.kind, self.o0, self.es = kind, o0, es
        self.base = self.off0 = self.ratio = self.uid = self.src = self.mem = None
        for k, v in kw.items():
            setattr(self, k, v)

    def key(self):
        return (self.kind, self.o0, self.es, self.base, self.off0, self.ratio, self.uid, self.src)

    def __eq__(self, o):
        return isinstance(o, Copy) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def at(self, I, st, x, size):
        """-> value at offset x of the destination, or None"""
        if self.es != 0 and size != self.es:
            return None
        if self.kind == 'const':
            return self.src
        if self.kind == 'cell':
            return I.cell(st, self.base, self.off0 + (x - self.o0).scale(self.ratio), size, self.uid)
        t = st.copy()
        t.mem = self.mem
        return I.load(t, self.src + (x - self.o0), size)


class State:
    __slots__ = ('facts', 'factset', 'ne', 'mem', 'vals', 'ts', 'subst', 'pred', 'conds', 'cache', 'trace', 'dead')

    def copy(self):
        s = State()
        s.facts = self.facts
        s.factset = self.factset
        s.ne = self.ne
        s.mem = dict(self.mem)
        s.vals = dict(self.vals)
        s.ts = dict(self.ts)
        s.subst = self.subst
        s.pred = self.pred
        s.conds = self.conds
        s.cache = self.cache
        s.trace = self.trace
        s.dead = False
        return s


class Limit(Exception):
    pass


def width(ty):
    if ty == 'ptr':
        return 64
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return None


class Fn:
    """Function with loop tree."""

    def __init__(self, mod, j):
        self.mod = mod
        self.j = j
        self.name = j['name']
        self.dem = j['dem']
        self.blocks = {b['id']: b for b in j['blocks']}
        self.order = [b['id'] for b in j['blocks']]
        self.args = j['args']
        self.ins = {}
        for b in j['blocks']:
            for i in b['ins']:
                self.ins[i['id']] = i
                i['blk'] = b['id']
        self.succ = {}
        for b in j['blocks']:
            t = [i for i in b['ins'] if i['op'] != 'dbg'][-1]
            if t['op'] == 'br':
                s = t['succ']
            elif t['op'] == 'switch':
                s = [t['default']] + [c[1] for c in t['cases']]
            else:
                s = []
            self.succ[b['id']] = list(dict.fromkeys(s))
        self.dbgtype = {}
        for i in self.ins.values():
            if i['op'] == 'dbg':
                o = i['ops'][0]
                if i['declare'] and o[0] == 'v':
                    self.dbgtype[o[1]] = (i['dit'], i['var'])
        self._loops()

    def _loops(self):
        self.headers = {}
        for b in self.j['blocks']:
            h = b.get('loop')
            if h is not None:
                self.headers.setdefault(h, set())
        # parent chains: a block's innermost loop is b['loop']; loop nesting via depth of the header
        preds = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            if self.blocks[b]['reach']:
                for s in ss:
                    preds[s].append(b)
        self.preds = preds
        # natural loop bodies: header h, backedges b->h where b is in the loop of h or nested (h dominates b)
        dom = self._doms()
        self.dom = dom
        for h in list(self.headers):
            body = {h}
            st = [p for p in preds[h] if h in dom.get(p, ())]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st += preds[x]
            self.headers[h] = body

    def _doms(self):
        reach = [b for b in self.order if self.blocks[b]['reach']]
        entry = reach[0]
        # rpo
        seen, post = set(), []
        stack = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(n)
                stack.pop()
        self.rpo = post[::-1]
        dom = {b: None for b in self.rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ds = [dom[p] for p in self.preds[b] if dom.get(p) is not None]
                if not ds:
                    continue
                n = set.intersection(*ds) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        return dom


class Mod:
    def __init__(self, j):
        self.j = j
        self.types = j['types']
        self.globals = {g['name']: g for g in j['globals']}
        self.fns = {}
        for f in j['functions']:
            self.fns[f['name']] = f
        self.dem = {d['name']: d['dem'] for d in j['defs']}
        self.defs = {d['name']: d for d in j['defs']}
        self._fn = {}
        self.seen = set()		# functions analysed in place

    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = Fn(self, self.fns[name])
        return self._fn[name]

    # ---- debug-info types
    def strip(self, t):
        while t is not None and t >= 0:
            T = self.types[t]
            if T['tag'] in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_atomic_type', 'DW_TAG_restrict_type'):
                t = T.get('base', -1)
            else:
                return t
        return -1

    def pointee(self, t):
        t = self.strip(t)
        if t < 0:
            return -1
        T = self.types[t]
        if T['tag'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return self.strip(T.get('base', -1))
        return -1

    def isptr(self, t):
        t = self.strip(t)
        return t >= 0 and self.types[t]['tag'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type')

    def field(self, t, off, size=None):
        """-> (path string, leaf type id) of the scalar at byte offset off in type t"""
        t = self.strip(t)
        path = []
        while t >= 0:
            T = self.types[t]
            if T['tag'] == 'DW_TAG_array_type':
                e = self.strip(T['base'])
                es = self.types[e]['size'] if e >= 0 else 0
                if not es:
                    break
                path.append('[%d]' % (off // es))
                off = off % es
                t = e
                continue
            if T['tag'] not in ('DW_TAG_class_type', 'DW_TAG_structure_type', 'DW_TAG_union_type'):
                break
            best = None
            for m in T.get('members', []):
                if 'off' not in m:
                    continue
                msz = (m['bits'] + 7) // 8 or (self.types[self.strip(m['type'])]['size'] if self.strip(m['type']) >= 0 else 0)
                if m['off'] <= off < m['off'] + max(msz, 1):
                    if best is None or not m['inherit']:
                        best = m
                    if not m['inherit'] and (size is None or msz == size):
                        best = m
                        break
            if best is None:
                break
            if not best['inherit']:
                path.append(best['name'])
            off -= best['off']
            t = self.strip(best['type'])
        if off:
            path.append('+%d' % off)
        return '.'.join(path), t

    def is_signed(self, t):
        t = self.strip(t)
        if t < 0:
            return None
        T = self.types[t]
        if T['tag'] == 'DW_TAG_base_type':
            e = T.get('enc', '')
            if e in ('DW_ATE_signed', 'DW_ATE_signed_char'):
                return True
            return False
        return False


class Interp:
    MAXSTATES = 160
    MAXSTEPS = 400000

    def __init__(self, mod, rule=None):
        self.mod = mod
        self.A = Atoms()
        self.rule = rule
        self.uid = itertools.count(1)
        self.steps = 0
        self.collect = True
        self.warn = []
        self.loopk = 0

    # ---------------------------------------------------------------- atoms
    def atom(self, key, **kw):
        return Lin(0, ((self.A.get(key, **kw), 1),))

    def fresh(self, what, lo=-INF, hi=INF, ins=None, **kw):
        """An unknown value. Keyed by the producing instruction when there is one: a state executes each
        instruction at most once (loop bodies are analysed for one generic iteration)."""
        key = ('fr', what, ins['id']) if ins is not None else ('fresh', what, next(self.uid))
        nm = what if ins is None else '%s#%d' % (what, ins['id'])
        return self.atom(key, lo=lo, hi=hi, name=nm, seq=next(self.uid), **kw)

    def info(self, a):
        return self.A.info[a]

    def show(self, v):
        if v is None:
            return '?'
        if isinstance(v, Lin):
            s = ''
            for a, n in v.t:
                nm = self.info(a)['name'] or str(self.info(a)['key'])
                s += (' + ' if n > 0 else ' - ') + ('' if abs(n) == 1 else '%d*' % abs(n)) + nm
            if v.c or not s:
                s += (' + ' if v.c >= 0 else ' - ') + str(abs(v.c))
            return s.strip().lstrip('+').strip()
        if isinstance(v, B):
            if v.k == 'cmp':
                return '(%s %s %s)' % (self.show(v.a[1]), v.a[0], self.show(v.a[2]))
            return v.k + '(' + ', '.join(self.show(x) if isinstance(x, (Lin, B)) else str(x) for x in v.a) + ')'
        return str(v)

    # ---------------------------------------------------------------- arithmetic reasoning
    def bounds(self, e):
        lo = hi = e.c
        for a, n in e.t:
            i = self.A.info[a]
            l, h = i['lo'], i['hi']
            if n > 0:
                lo += n * l
                hi += n * h
            else:
                lo += n * h
                hi += n * l
        return lo, hi

    def prove(self, st, e, depth=5):
        """Is e >= 0 implied?"""
        if not e.t:
            return e.c >= 0
        k = e
        r = st.cache.get(k)
        if r is not None:
            return r
        r = self._go(st, e, depth, ())
        st.cache[k] = r
        return r

    def _go(self, st, e, depth, used):
        if self.bounds(e)[0] >= 0:
            return True
        if depth == 0:
            return False
        # pivots: atoms, most harmful first
        harm = []
        for a, n in e.t:
            i = self.A.info[a]
            x = n * i['lo'] if n > 0 else n * i['hi']
            harm.append((x if x == x else -INF, a, n))
        harm.sort(key=lambda z: z[0])
        tried = 0
        for x, a, n in harm:
            cand = [f for f in st.facts if f not in used and f.coef(a) * n > 0]
            if not cand:
                if x == -INF:
                    return False
                continue
            cand.sort(key=lambda f: len(f.t))
            for f in cand[:12]:
                cf = abs(f.coef(a))
                if cf == 1:
                    e2 = e.add(f, -abs(n))
                elif abs(n) % cf == 0:
                    e2 = e.add(f, -(abs(n) // cf))
                else:
                    e2 = e.scale(cf).add(f, -abs(n)) + (cf - 1)	# integers: cf*e > -cf suffices
                if self._go(st, e2, depth - 1, used + (f,)):
                    return True
            tried += 1
            if tried >= (2 if x == -INF else 3):
                return False
        return False

    def prove_eq(self, st, a, b):
        d = a - b
        return (not d.t and d.c == 0) or (self.prove(st, d) and self.prove(st, d.neg()))

    def tighten(self, e):
        if not e.t:
            return e
        import math
        g = 0
        for _, n in e.t:
            g = math.gcd(g, n)
        if g > 1:
            return Lin(e.c // g, tuple((a, n // g) for a, n in e.t))
        return e

    def add_fact(self, st, e):
        """st in place: assume e >= 0. Returns False if infeasible"""
        if not e.t:
            return e.c >= 0
        e = self.tighten(e)
        if e in st.factset:
            return True
        if self.bounds(e)[0] >= 0:
            return True
        if self.prove(st, e.neg() - 1):
            return False
        # drop weaker facts with the same linear part
        fs = [f for f in st.facts if not (f.t == e.t and f.c >= e.c)]
        st.facts = tuple(fs) + (e,)
        st.factset = frozenset(st.facts)
        st.cache = {}
        # disequalities may now bite
        for d in st.ne:
            if self.prove(st, d) and self.prove(st, d.neg()):
                return False
        # strengthen using disequalities with e == 0 excluded
        for d in st.ne:
            if d.t == e.t and d.c == e.c:
                return self.add_fact(st, e - 1)
            if d.neg().t == e.t and -d.c == e.c:
                return self.add_fact(st, e - 1)
        return True

    def add_ne(self, st, e):
        if not e.t:
            return e.c != 0
        lo, hi = self.bounds(e)
        if lo > 0 or hi < 0:
            return True
        p, n = self.prove(st, e), self.prove(st, e.neg())
        if p and n:
            return False
        if p:
            return self.add_fact(st, e - 1)
        if n:
            return self.add_fact(st, e.neg() - 1)
        st.ne = st.ne | {e}
        st.cache = dict(st.cache)
        return True

    def add_eq(self, st, e):
        if e in st.ne or e.neg() in st.ne:
            return False
        if not (self.add_fact(st, e) and self.add_fact(st, e.neg())):
            return False
        # pointer substitution
        ps = [(a, n) for a, n in e.t if self.A.info[a]['ptr']]
        if len(ps) == 2 and ps[0][1] * ps[1][1] == -1:
            # eliminate the later atom
            a, n = ps[1]
            rest = Lin(e.c, tuple(x for x in e.t if x[0] != a)).scale(-1 if n == 1 else 1)
            if a not in st.subst:
                sub = dict(st.subst)
                sub[a] = rest
                st.subst = sub
                if a in st.mem:		# re-key the log
                    log = st.mem.pop(a)
                    b, off = self.split_ptr(st, rest)
                    if b is not None:
                        st.mem[b] = st.mem.get(b, ()) + tuple(Entry(x.off + off, x.size, x.val, x.uid) for x in log)
        return True

    def norm(self, st, e, w, signed):
        """-> [(state, exact Lin)] of e interpreted mod 2^w"""
        if w >= 64:
            return [(st, e)]
        M = 1 << w
        mn, mx = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        lo, hi = self.bounds(e)
        if lo >= mn and hi <= mx:
            return [(st, e)]
        if not e.t:
            v = e.c % M
            if signed and v >= M >> 1:
                v -= M
            return [(st, Lin(v))]
        if self.prove(st, e - mn) and self.prove(st, Lin(mx) - e):
            return [(st, e)]
        out = []
        # a loop variable is assumed not to wrap round its type (documented assumption)
        loopy = any(self.A.info[a]['key'][0] == 'lv' for a, _ in e.t)
        if True:
            for k in ((0,) if loopy else (0, 1, -1)):
                e2 = e + k * M
                l2, h2 = self.bounds(e2)
                if h2 < mn or l2 > mx:
                    continue
                s = st.copy()
                if self.add_fact(s, e2 - mn) and self.add_fact(s, Lin(mx) - e2):
                    out.append((s, e2))
            full = lo >= mn - M and hi <= mx + M
            if not full and not loopy and not (self.prove(st, e - (mn - M)) and self.prove(st, Lin(mx + M) - e)):
                # further wraps possible
                x = self.atom(('mod', e, w, signed), lo=mn, hi=mx, name='wrap%d(%s)' % (w, self.show(e)))
                out.append((st.copy(), x))
        return out

    # ---------------------------------------------------------------- booleans
    def assume(self, st, b, truth):
        """-> list of states (copies) where b == truth"""
        if b.k == 'const':
            return [st] if b.a[0] == truth else []
        if b.k == 'not':
            return self.assume(st, b.a[0], not truth)
        known = st.conds.get(b)
        if known is not None:
            return [st] if known == truth else []
        if b.k in ('and', 'or'):
            x, y = b.a
            if (b.k == 'and') == truth:
                out = []
                for s in self.assume(st, x, truth):
                    out += self.assume(s, y, truth)
                return self._rec(out, b, truth)
            out = list(self.assume(st, x, truth))
            for s in self.assume(st, x, not truth):
                out += self.assume(s, y, truth)
            return self._rec(out, b, truth)
        if b.k == 'odd':
            e = b.a[0]
            lo, hi = self.bounds(e)
            if lo >= 0 and hi <= 1 or e.t and self.prove(st, e) and self.prove(st, Lin(1) - e):
                s = st.copy()
                ok = self.add_eq(s, e - (1 if truth else 0))
                return [s] if ok else []
            if not e.t:
                return [st] if (e.c & 1) == int(truth) else []
            return self._rec([st.copy()], b, truth)
        if b.k == 'cmp':
            pred, x, y, w, isptr = b.a
            if not truth:
                pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult',
                        'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}[pred]
            # boolean-in-integer
            if pred in ('eq', 'ne'):
                bb = self.unbool(x, y)
                if bb is not None:
                    return self._rec(self.assume(st, bb, pred == 'eq'), b, truth)
            pairs = []
            if isptr or w >= 64:
                pairs = [(st.copy(), x, y)]
            elif pred in ('eq', 'ne'):
                # need the same representative: normalise the difference
                d = x - y
                lo, hi = self.bounds(d)
                if -(1 << w) < lo and hi < (1 << w):
                    pairs = [(st.copy(), x, y)]
                else:
                    sg = self.guess_signed(x) or self.guess_signed(y)
                    for s, a in self.norm(st, x, w, sg):
                        for s2, c in self.norm(s, y, w, sg):
                            pairs.append((s2.copy(), a, c))
            else:
                sg = pred[0] == 's'
                for s, a in self.norm(st, x, w, sg):
                    for s2, c in self.norm(s, y, w, sg):
                        pairs.append((s2.copy(), a, c))
            out = []
            for s, a, c in pairs:
                d = a - c
                if pred == 'eq':
                    if isptr and self.distinct(s, a, c):
                        continue
                    ok = self.add_eq(s, d)
                elif pred == 'ne':
                    ok = self.add_ne(s, d)
                else:
                    p = pred[1:]
                    e = {'lt': d.neg() - 1, 'le': d.neg(), 'gt': d - 1, 'ge': d}[p]
                    ok = self.add_fact(s, e)
                if ok:
                    out.append(s)
            return self._rec(out, b, truth)
        return [st.copy()]

    def _rec(self, sts, b, truth):
        out = []
        for s in sts:
            s = s.copy()
            s.conds = dict(s.conds)
            s.conds[b] = truth
            out.append(s)
        return out

    def guess_signed(self, e):
        for a, _ in e.t:
            if self.A.info[a]['lo'] < 0:
                return True
        return e.c < 0 and not e.t

    def unbool(self, x, y):
        """x == y where one side is b2i atom and the other constant -> B equivalent to equality"""
        d = x - y
        if len(d.t) == 1 and abs(d.t[0][1]) == 1:
            inf = self.A.info[d.t[0][0]]
            if inf['key'][0] == 'b2i':
                v = -d.c * d.t[0][1]
                neg = inf['key'][2]		# sext: true = -1
                tv = -1 if neg else 1
                if v == 0:
                    return bnot(inf['key'][1])
                if v == tv or (v & 0xff) == (tv & 0xff):
                    return inf['key'][1]
                return FALSE
        return None

    def identified(self, a):
        return self.A.info[a].get('ident', False)

    def distinct(self, st, x, y):
        bx, ox = self.split_ptr(st, x)
        by, oy = self.split_ptr(st, y)
        if bx is None or by is None:
            z = by if bx is None else bx
            if z is None:
                return False
            return bool(self.A.info[z].get('nonnull')) and ((x if bx is None else y) == ZERO)
        if bx == by:
            return False
        ix, iy = self.A.info[bx], self.A.info[by]
        if ix.get('ident') and iy.get('ident'):
            return True
        if ix.get('ident') == 'new' and iy.get('init') or iy.get('ident') == 'new' and ix.get('init'):
            return True
        if ix.get('ident') == 'alloca' and iy.get('init') or iy.get('ident') == 'alloca' and ix.get('init'):
            return True
        return False

    def decide(self, st, b):
        t = bool(self.assume(st, b, True))
        f = bool(self.assume(st, b, False))
        if t and f:
            return None
        return t

    # ---------------------------------------------------------------- memory
    def resolve(self, st, e):
        n = 0
        while n < 8 and st.subst:
            for a, k in e.t:
                if a in st.subst:
                    e = Lin(e.c, tuple(x for x in e.t if x[0] != a)).add(st.subst[a], k)
                    n += 1
                    break
            else:
                break
        return e

    def split_ptr(self, st, e):
        """pointer Lin -> (base atom, offset Lin) or (None, e)"""
        e = self.resolve(st, e)
        ps = [(a, n) for a, n in e.t if self.A.info[a]['ptr'] and n == 1]
        if len(ps) == 1:
            a = ps[0][0]
            return a, Lin(e.c, tuple(x for x in e.t if x[0] != a))
        if len(ps) > 1:		# e.g. p + (q - r): pick the first that is not cancelled
            neg = [a for a, n in e.t if self.A.info[a]['ptr'] and n < 0]
            a = ps[0][0]
            return a, Lin(e.c, tuple(x for x in e.t if x[0] != a))
        return None, e

    def disjoint(self, st, o1, s1, o2, s2):
        if s1 is None or s2 is None:
            return False
        d = o2 - o1
        if not d.t and not s1.t and not s2.t:
            return d.c >= s1.c or -d.c >= s2.c
        return self.prove(st, d - s1) or self.prove(st, (o1 - o2) - s2)

    def load(self, st, addr, size, ty=None, ins=None):
        """-> value"""
        base, off = self.split_ptr(st, addr)
        if base is None:
            return self.fresh('load?', ins=ins) if ins else self.fresh('load?')
        log = st.mem.get(base, ())
        sz = Lin(size)
        uid = 0
        for en in reversed(log):
            if isinstance(en.val, Copy):
                if self.disjoint(st, en.off, en.size, off, sz):
                    continue
                if self.prove(st, off - en.off) and self.prove(st, en.off + en.size - off - size):
                    v = en.val.at(self, st, off, size)
                    if v is not None:
                        return v
                uid = en.uid
                break
            if en.size is not None and en.off == off and en.size == sz and en.val is not None:
                return en.val
            if self.disjoint(st, en.off, en.size, off, sz):
                continue
            if en.size is not None and en.val is not None and not (en.off - off).t and not en.size.t:
                # contained in a wider constant store
                d = off.c - en.off.c if not (off - en.off).t else None
                d = (off - en.off).c
                if isinstance(en.val, Lin) and not en.val.t and d >= 0 and d + size <= en.size.c:
                    return Lin((en.val.c >> (8 * d)) & ((1 << (8 * size)) - 1))
                if en.val == ZERO and d >= 0 and d + size <= en.size.c:
                    return ZERO
            if en.size is not None and en.val is not None and self.prove_eq(st, en.off, off) and en.size == sz:
                return en.val
            uid = en.uid
            break
        return self.cell(st, base, off, size, uid, ty, ins)

    def load_cases(self, st, addr, size, depth=6):
        """As load, but splits the state where it is unknown whether a write covers addr. -> [(state, value)]"""
        base, off = self.split_ptr(st, addr)
        if base is None:
            return [(st, self.load(st, addr, size))]
        return self._cases(st, base, off, size, tuple(st.mem.get(base, ())), depth)

    def _cases(self, st, base, off, size, log, depth):
        n = len(log)
        while n:
            n -= 1
            en = log[n]
            if en.size is None:
                return [(st, self.cell(st, base, off, size, en.uid))]
            if self.disjoint(st, en.off, en.size, off, Lin(size)):
                continue
            if self.prove(st, off - en.off) and self.prove(st, en.off + en.size - off - size):
                if isinstance(en.val, Copy):
                    if en.val.kind == 'snap' and (en.val.es in (0, size)):
                        t = st.copy()
                        t.mem = en.val.mem
                        out = []
                        for t2, v in self.load_cases(t, en.val.src + (off - en.val.o0), size, depth - 1):
                            t2 = t2.copy()
                            t2.mem = st.mem
                            out.append((t2, v))
                        return out
                    v = en.val.at(self, st, off, size)
                    if v is not None:
                        return [(st, v)]
                    return [(st, self.cell(st, base, off, size, en.uid))]
                if en.val is not None and self.prove_eq(st, en.off, off) and en.size == Lin(size):
                    return [(st, en.val)]
                if en.val == ZERO:
                    return [(st, ZERO)]
                return [(st, self.cell(st, base, off, size, en.uid))]
            if depth <= 0:
                return [(st, self.cell(st, base, off, size, en.uid))]
            out = []
            for f in ((en.off - off - size,), (off - en.off - en.size,), (off - en.off, en.off + en.size - off - size)):
                t = st.copy()
                if all(self.add_fact(t, x) for x in f):
                    out += self._cases(t, base, off, size, log[:n + 1], depth - 1)
            return out
        return [(st, self.cell(st, base, off, size, 0))]

    def cell(self, st, base, off, size, uid, ty=None, ins=None):
        bi = self.A.info[base]
        if uid == 0 and bi.get('global'):
            v = self.global_load(bi['global'], off, size)
            if v is not None:
                return v
        name = None
        di = bi['di']
        leaf = -1
        if di is not None and di >= 0 and not off.t:
            p, leaf = self.mod.field(di, off.c, size)
            name = (bi['name'] or '?') + ('->' + p if p else '[0]')
        if name is None:
            name = '%s[%s]' % (bi['name'], self.show(off))
            if di is not None and di >= 0:
                T = self.mod.types[di]
                if T['size'] and all(n % T['size'] == 0 for _, n in off.t):
                    _, leaf = self.mod.field(di, off.c % T['size'], size)
        isptr = ty == 'ptr' or (leaf >= 0 and self.mod.isptr(leaf))
        w = size * 8
        if isptr:
            lo, hi = 0, (1 << 47)
        else:
            sg = self.mod.is_signed(leaf) if leaf >= 0 else None
            if leaf >= 0 and self.mod.types[leaf]['tag'] == 'DW_TAG_enumeration_type':
                sg = False
            if sg is None:
                sg = False
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if w >= 64:
                lo, hi = (-(1 << 62), 1 << 62) if sg else (0, 1 << 62)
            if leaf >= 0 and self.mod.types[leaf].get('enc') == 'DW_ATE_boolean':
                lo, hi = 0, 1
        return self.atom(('ld', base, off, size, uid), name=name + ('' if not uid else '@%s' % (uid,)), lo=lo, hi=hi, ptr=isptr,
                         di=self.mod.pointee(leaf) if isptr and leaf >= 0 else None, init=(uid == 0), root=base, off=off, leaf=leaf, uid=uid)

    def global_load(self, g, off, size):
        G = self.mod.globals.get(g)
        if not G or not G['const'] or 'init' not in G:
            return None
        init = G['init']
        ty = G['ty']
        # flat arrays of iN
        import re
        m = re.match(r'^\[(\d+) x i(\d+)\]$', ty)
        if m:
            n, es = int(m.group(1)), int(m.group(2)) // 8
            if isinstance(init, dict):
                return ZERO
            if size != es:
                return None
            if not off.t:
                if off.c % es == 0 and 0 <= off.c // es < n:
                    return Lin(init[off.c // es])
                return None
            return self.atom(('tbl', g, off, size), name='%s[%s]' % (G.get('diname') or g, self.show(off)), lo=min(init), hi=max(init))
        return None

    def store(self, st, addr, size, val, uid=None):
        base, off = self.split_ptr(st, addr)
        if base is None:
            return
        self.write(st, base, off, Lin(size), val, uid)

    def write(self, st, base, off, size, val, uid=None):
        log = st.mem.get(base, ())
        uid = uid or next(self.uid)
        if size is None:
            st.mem[base] = (Entry(off or ZERO, None, None, uid),)
            return
        if not size.t:
            new = tuple(e for e in log if not (e.size is not None and not e.size.t and not (e.off - off).t
                        and (e.off - off).c >= 0 and (e.off - off).c + e.size.c <= size.c))
        else:
            new = tuple(e for e in log if not (e.off == off and e.size == size))
        st.mem[base] = new + (Entry(off, size, val, uid),)

    # ---------------------------------------------------------------- operands
    def val(self, st, o, w=None):
        k = o[0]
        if k == 'c':
            if o[2] == 1:
                return TRUE if o[1] else FALSE
            return Lin(int(o[1]))
        if k == 'v':
            return st.vals[o[1]]
        if k == 'a':
            return st.vals[('a', o[1])]
        if k == 'null' or k == 'zero':
            return ZERO
        if k == 'g':
            G = self.mod.globals.get(o[1], {})
            di = G.get('dit')
            return self.atom(('g', o[1]), name='&' + (G.get('diname') or G.get('dem') or o[1]), ptr=True, lo=1 << 12, hi=1 << 47,
                             ident='global', nonnull=True, di=self.mod.strip(di) if di is not None else None, **{'global': o[1]}) + o[2]
        if k == 'f':
            return self.atom(('f', o[1]), name='&' + o[1], ptr=True, lo=1 << 12, hi=1 << 47, ident='fn', nonnull=True, fn=o[1])
        if k == 'ce' and o[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            return self.val(st, o[2][0])
        if k == 'k':
            return Agg({i: self.val(st, x) for i, x in enumerate(o[1])})
        return self.atom(('opnd', repr(o)), name=repr(o)[:40])

    def lin(self, st, o):
        v = self.val(st, o)
        if isinstance(v, B):
            return self.b2i(v)
        if isinstance(v, Agg):
            return self.fresh('agg')
        return v

    def b2i(self, b, sext=False):
        if b.k == 'const':
            return Lin((-1 if sext else 1) if b.a[0] else 0)
        return self.atom(('b2i', b, sext), lo=-1 if sext else 0, hi=0 if sext else 1, name='bool' + self.show(b))

    def boolean(self, st, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Lin):
            if not v.t:
                return TRUE if v.c & 1 else FALSE
            if len(v.t) == 1 and v.c == 0 and abs(v.t[0][1]) == 1:
                k = self.A.info[v.t[0][0]]['key']
                if k[0] == 'b2i':
                    return k[1]
            return B('odd', v)
        return B('odd', self.fresh('b'))

    # ---------------------------------------------------------------- execution
    def init_state(self, fn, ts=None):
        st = State()
        st.facts = ()
        st.factset = frozenset()
        st.ne = frozenset()
        st.mem = {}
        st.vals = {}
        st.ts = dict(ts or {})
        st.subst = {}
        st.pred = None
        st.conds = {}
        st.cache = {}
        st.trace = ()
        st.dead = False
        dis = fn.j.get('ditypes', [])
        if len(dis) == 0:
            dis = [-1]
        nargs = len(fn.args)
        shift = 0
        if fn.args and fn.args[0]['sret']:
            shift = 1
        for i, a in enumerate(fn.args):
            di = -1
            if i >= shift and len(dis) > i - shift + 1:
                di = dis[i - shift + 1]
            w = width(a['ty'])
            nm = a['name'] or 'arg%d' % i
            if a['ty'] == 'ptr':
                ref = di >= 0 and self.mod.strip(di) >= 0 and 'reference' in self.mod.types[self.mod.strip(di)]['tag']
                byref = di >= 0 and not self.mod.isptr(di)		# class passed by invisible reference
                if a['sret']:
                    d2 = self.mod.strip(dis[0]) if dis and dis[0] >= 0 else None
                    v = self.atom(('arg', i), name=nm, ptr=True, lo=1 << 12, hi=1 << 47, di=d2, ident='arg', nonnull=True, init=True, sret=True)
                else:
                    d2 = self.mod.strip(di) if byref else (self.mod.pointee(di) if di >= 0 else None)
                    nn = ref or byref or nm == 'this'
                    v = self.atom(('arg', i), name=nm, ptr=True, lo=1 << 12 if nn else 0, hi=1 << 47, di=d2, nonnull=nn, init=True,
                                  ident='arg' if (nm == 'this' or ref or byref) else False)
            elif w:
                sg = self.mod.is_signed(di) if di >= 0 else True
                M = 1 << w
                lo, hi = (-(M >> 1), (M >> 1) - 1) if sg else (0, M - 1)
                if w >= 64:
                    lo, hi = (-(1 << 62), 1 << 62) if sg else (0, 1 << 62)
                v = self.atom(('arg', i), name=nm, lo=lo, hi=hi, init=True)
                if w == 1:
                    v = B('cmp', 'ne', self.atom(('arg', i), name=nm, lo=0, hi=1), ZERO, 8, False)
            else:
                v = self.atom(('arg', i), name=nm, init=True)
            st.vals[('a', i)] = v
        return st

    def run(self, fn, ts=None, setup=None):
        """-> list of (state, returned value) over all returns"""
        st = self.init_state(fn, ts)
        self.fn = fn
        self.returns = []
        self.steps = 0
        if setup:
            setup(self, st)
        if self.rule:
            self.rule.entry(self, st)
        entry = fn.rpo[0]
        self.exec_region(fn, set(fn.rpo), entry, [st])
        return self.returns

    def sig(self, st):
        return (st.factset, st.ne, tuple(sorted(((k, v) for k, v in st.mem.items()), key=lambda x: x[0])),
                tuple(sorted(st.ts.items(), key=lambda x: str(x[0]))))

    def dedupe(self, states, live=None):
        out, seen = [], set()
        for s in states:
            try:
                k = (self.sig(s), tuple(sorted(((i, v) for i, v in s.vals.items() if live is None or i in live), key=lambda x: str(x[0]))))
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                pass
            out.append(s)
        return out

    def live_in(self, fn):
        if hasattr(fn, '_live'):
            return fn._live
        use, deff = {}, {}
        phiuse = {b: {} for b in fn.rpo}
        for b in fn.rpo:
            u, d = set(), set()
            for i in fn.blocks[b]['ins']:
                if i['op'] == 'dbg':
                    continue
                if i['op'] == 'phi':
                    for v, p in i['inc']:
                        if v[0] == 'v':
                            phiuse.setdefault(p, {}).setdefault(b, set()).add(v[1])
                else:
                    for o in self.opnds(i):
                        if o[0] == 'v' and o[1] not in d:
                            u.add(o[1])
                d.add(i['id'])
            use[b], deff[b] = u, d
        live = {b: set() for b in fn.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                out = set()
                for s in fn.succ[b]:
                    if s not in live:
                        continue
                    ph = {i['id'] for i in fn.blocks[s]['ins'] if i['op'] == 'phi'}
                    out |= live[s] - ph
                    out |= phiuse.get(b, {}).get(s, set())
                n = use[b] | (out - deff[b]) | {i['id'] for i in fn.blocks[b]['ins'] if i['op'] == 'phi'}
                if n != live[b]:
                    live[b] = n
                    ch = True
        fn._live = live
        return live

    def opnds(self, i):
        r = list(i.get('ops', []))
        for v in i.get('var', []):
            r.append(v[0])
        if 'target' in i:
            r.append(i['target'])
        return [o for o in r if isinstance(o, list)]

    def exec_region(self, fn, region, entry, states):
        """Executes the acyclic condensation of region starting at entry (header of the region).
        Returns {(src,dst): [states]} for edges leaving the region or going back to entry."""
        exits = {}
        pend = {entry: list(states)}
        live = self.live_in(fn)
        order = [b for b in fn.rpo if b in region]
        inner = {h: body for h, body in fn.headers.items() if h in region and h != entry and body < region or (h in region and h != entry)}
        done = set()
        for b in order:
            if b in done:
                continue
            sts = pend.pop(b, [])
            if not sts:
                continue
            if len(sts) > 1:
                sts = self.dedupe(sts, live[b])
            if len(sts) > self.MAXSTATES:
                sts = self.widen(sts, live[b])
            if b in inner:
                outs = self.exec_loop(fn, b, inner[b], sts)
                done |= inner[b]
            else:
                outs = {}
                for s in sts:
                    for dst, s2 in self.exec_block(fn, b, s):
                        outs.setdefault((b, dst), []).append(s2)
            for (src, dst), ss in outs.items():
                if dst in region and dst != entry:
                    for s in ss:
                        for s2 in self.enter(fn, src, dst, s):
                            pend.setdefault(dst, []).append(s2)
                else:
                    exits.setdefault((src, dst), []).extend(ss)
        return exits

    def enter(self, fn, src, dst, s):
        """Evaluate the phis of dst for edge src->dst. For a loop header the phis are evaluated by exec_loop."""
        s.pred = src
        new = {}
        for i in fn.blocks[dst]['ins']:
            if i['op'] != 'phi':
                if i['op'] == 'dbg':
                    continue
                break
            for v, p in i['inc']:
                if p == src:
                    new[i['id']] = self.val(s, v)
                    break
        if new:
            s.vals = dict(s.vals)
            s.vals.update(new)
        return [s]

    def widen(self, sts, live):
        """Too many partitions: join those with equal typestate."""
        groups = {}
        for s in sts:
            groups.setdefault(tuple(sorted(s.ts.items(), key=lambda x: str(x[0]))), []).append(s)
        out = []
        for g in groups.values():
            out.append(self.join(g, live))
        w = 'joined %d states into %d' % (len(sts), len(out))
        if w not in self.warn:
            self.warn.append(w)
        return out

    def join(self, g, live=None):
        if len(g) == 1:
            return g[0]
        r = g[0].copy()
        fs = frozenset.intersection(*[s.factset for s in g])
        # also keep facts of the first that all others can prove
        keep = [f for f in g[0].facts if f in fs or all(self.prove(s, f) for s in g[1:])]
        r.facts = tuple(keep)
        r.factset = frozenset(keep)
        r.cache = {}
        r.ne = frozenset.intersection(*[s.ne for s in g])
        r.conds = {k: v for k, v in g[0].conds.items() if all(s.conds.get(k) == v for s in g[1:])}
        r.subst = {k: v for k, v in g[0].subst.items() if all(s.subst.get(k) == v for s in g[1:])}
        joined = {}

        def phi(vals, what):
            v0 = vals[0]
            if all(v == v0 for v in vals):
                return v0
            key = tuple(vals)
            if key in joined:
                return joined[key]
            if all(isinstance(v, B) for v in vals):
                x = B('odd', self.fresh('joinb', lo=0, hi=1))
            elif all(isinstance(v, Lin) for v in vals):
                bs = [self.bounds(v) for v in vals]
                isptr = any(self.A.info[a]['ptr'] for v in vals for a, n in v.t)
                di = None
                for v in vals:
                    for a, n in v.t:
                        if self.A.info[a]['ptr']:
                            di = self.A.info[a]['di']
                x = self.fresh('join(%s)' % what, lo=min(b[0] for b in bs), hi=max(b[1] for b in bs), ptr=isptr, di=di, alts=tuple(dict.fromkeys(vals)))
            else:
                x = self.fresh('join(%s)' % what)
            joined[key] = x
            return x
        nv = {}
        for k in r.vals:
            if live is not None and not isinstance(k, tuple) and k not in live:
                continue
            if all(k in s.vals for s in g):
                nv[k] = phi([s.vals[k] for s in g], 'v%s' % (k,))
        r.vals = nv
        mem = {}
        bases = set()
        for s in g:
            bases |= set(s.mem)
        for b in bases:
            logs = [s.mem.get(b, ()) for s in g]
            if all(l == logs[0] for l in logs):
                if logs[0]:
                    mem[b] = logs[0]
                continue
            # common prefix, then havoc the differing entries
            n = 0
            while all(len(l) > n for l in logs) and all(l[n] == logs[0][n] for l in logs):
                n += 1
            out = list(logs[0][:n])
            cells = {}
            unknown = False
            for l in logs:
                for e in l[n:]:
                    if e.size is None:
                        unknown = True
                    else:
                        cells[(e.off, e.size)] = 1
            uid = next(self.uid)
            if unknown or any(k[1].t for k in cells):
                out.append(Entry(ZERO, None, None, uid))
            for (off, size) in cells:
                if size.t:
                    continue
                vs = []
                for s in g:
                    vs.append(self.load(s, Lin(0, ((b, 1),)) + off, size.c))
                out.append(Entry(off, size, phi(vs, 'm'), next(self.uid)))
            mem[b] = tuple(out)
        r.mem = mem
        return r

    # ---- loops
    def exec_loop(self, fn, h, body, sts):
        """sts: states at the header with phis already evaluated for the entering edge"""
        live = self.live_in(fn)[h]
        groups = {}
        for s in sts:
            groups.setdefault(tuple(sorted(s.ts.items(), key=lambda x: str(x[0]))), []).append(s)
        outs = {}
        todo = []
        for g in groups.values():
            g = self.dedupe(g, live)
            if len(g) > 12:
                g = [self.join(g, live)]
            todo += g
        for n, s in enumerate(todo):
            for e, ss in self.loop_one(fn, h, body, s, n).items():
                outs.setdefault(e, []).extend(ss)
        return outs

    def loop_one(self, fn, h, body, s0, idx):
        phis = [i for i in fn.blocks[h]['ins'] if i['op'] == 'phi']
        cells = {}		# (base, off, size) -> True
        havocb = set()		# bases wholly clobbered
        tsset = [dict(s0.ts)]
        tag = (h, idx)
        self.loopstart = dict(getattr(self, 'loopstart', {}))
        self.loopstart[tag] = next(self.uid)
        saved = self.collect
        self.collect = False
        form = {}		# var -> ('const',d,k) etc
        var0 = {('p', i['id']): s0.vals[i['id']] for i in phis}
        self.linit = getattr(self, 'linit', {})
        self.linit[tag] = (s0, {i['id']: s0.vals[i['id']] for i in phis})

        def header_state(ts, form, extra=()):
            s = s0.copy()
            s.ts = dict(ts)
            k = None
            vals = {}
            for v in list(var0) + [('m',) + c for c in cells]:
                init = var0[v] if v[0] == 'p' else self.load(s0, Lin(0, ((v[1], 1),)) + v[2], v[3].c)
                f = form.get(v)
                vals[v] = self.loop_value(s, tag, v, init, f, form)
            s.vals = dict(s.vals)
            for v, x in vals.items():
                if v[0] == 'p':
                    s.vals[v[1]] = x
            for b in havocb:
                if b in sweeps:
                    k = self.atom(('lv', tag, 'k'), lo=0, hi=1 << 40, name='k%s' % (tag[0],))
                    for n, (o0, c, sz, cv) in enumerate(sweeps[b]):
                        o = o0 if c > 0 else o0 + k.scale(c) - c + (sz - abs(c) if sz < abs(c) else 0)
                        s.mem[b] = s.mem.get(b, ()) + (Entry(o, k.scale(abs(c)), cv, ('L',) + tag + (n,)),)
                else:
                    s.mem[b] = s.mem.get(b, ()) + (Entry(ZERO, None, None, ('L',) + tag),)
            for v, x in vals.items():
                if v[0] == 'm':
                    self.write(s, v[1], v[2], v[3], x, ('Lc',) + tag + (v[1], v[2].h & 0xffff))
            for e in extra:
                if not self.add_fact(s, e(vals) if callable(e) else e):
                    return None
            return s

        sweeps = {}		# base -> [(first offset, stride, size, content)] writes of one iteration

        def one_pass(form, extra=()):
            latch, outs = [], {}
            for ts in tsset:
                s = header_state(ts, form, extra)
                if s is None:
                    continue
                hs = s.copy()
                ex = self.exec_region(fn, body, h, [s])
                for (src, dst), ss in ex.items():
                    if dst == h:
                        for x in ss:
                            x = x.copy()
                            self.enter(fn, src, h, x)
                            latch.append((hs, x))
                    else:
                        outs.setdefault((src, dst), []).extend(ss)
            return latch, outs

        try:
            # 1. discover what changes (everything fresh)
            for _ in range(6):
                latch, outs = one_pass({v: ('fresh',) for v in list(var0) + [('m',) + c for c in cells]})
                grew = False
                for hs, x in latch:
                    t = dict(x.ts)
                    if self.rule:
                        t = self.rule.loop_ts(self, t)
                    if t not in tsset and len(tsset) < 8:
                        tsset.append(t)
                        grew = True
                    for b, log in x.mem.items():
                        hl = hs.mem.get(b, ())
                        if b in havocb and log == hl:
                            continue
                        if log == hl:
                            continue
                        hset = set(hl)
                        lset = set(log)
                        for en in log:
                            if en in hset:
                                continue
                            if en.size is None or en.size.t or (self.varying(en.off, tag)) or not self.base_in(s0, b):
                                if b not in havocb:
                                    havocb.add(b)
                                    grew = True
                            else:
                                c = (b, en.off, en.size)
                                if c not in cells:
                                    cells[c] = True
                                    grew = True
                if not grew:
                    break
            if not latch:	# the body never loops back
                self.collect = saved
                s = s0.copy()
                res = {}
                ex = self.exec_region(fn, body, h, [s])
                for (src, dst), ss in ex.items():
                    if dst == h:
                        continue
                    res.setdefault((src, dst), []).extend(ss)
                return res
            # 2. infer forms of the loop variables
            form = self.infer(s0, tag, var0, cells, latch, header_state)
            # verify the forms; drop to fresh any that fails
            for _ in range(4):
                latch, outs = one_pass(form)
                bad = self.verify(form, tag, var0, cells, latch)
                if not bad:
                    break
                for v in bad:
                    form[v] = ('fresh',)
            # 3. candidate invariants
            extra = self.invariants(fn, s0, tag, var0, cells, form, latch, outs, one_pass, header_state)
            # 4. regions swept by writes at a fixed stride
            if havocb:
                latch, outs = one_pass(form, extra)
                for b in havocb:
                    r = self.find_sweep(tag, b, latch)
                    if r:
                        sweeps[b] = r
                for _ in range(3):
                    if not sweeps:
                        break
                    latch, outs = one_pass(form, extra)
                    redo = False
                    for b in list(sweeps):
                        r = self.find_sweep(tag, b, latch)
                        if r is None or [x[:3] for x in r] != [x[:3] for x in sweeps[b]]:
                            del sweeps[b]
                            redo = True
                        elif r != sweeps[b]:
                            # content found: it must hold again with that content assumed
                            sweeps[b] = [x if y[3] is None or y[3] == x[3] else x[:3] + (None,) for x, y in zip(r, sweeps[b])]
                            redo = True
                    if not redo:
                        break
                else:
                    for b in sweeps:
                        sweeps[b] = [x[:3] + (None,) for x in sweeps[b]]
                if sweeps:
                    extra = self.invariants(fn, s0, tag, var0, cells, form, latch, outs, one_pass, header_state)
        finally:
            self.collect = saved
        latch, outs = one_pass(form, extra)
        if not latch and tsset == [dict(s0.ts)]:	# it never gets round
            return {e: ss for e, ss in self.exec_region(fn, body, h, [s0.copy()]).items() if e[1] != h}
        for (hs, x) in latch:
            if self.rule and self.collect:
                self.rule.latch(self, hs, x, tag)
        return outs

    def find_sweep(self, tag, b, latch):
        """Do all iterations write base b only at offsets o0 + c*k?  -> [(o0, c, size, content)] or None"""
        ka = self.A.key.get(('lv', tag, 'k'))
        if ka is None:
            return None
        found = {}
        for hs, x in latch:
            log = x.mem.get(b, ())
            hl = hs.mem.get(b, ())
            if log[:len(hl)] != hl:
                return None
            seen = set()
            for en in log[len(hl):]:
                if en.size is None or en.size.t:
                    return None
                c = en.off.coef(ka)
                o0 = en.off - Lin(0, ((ka, c),))
                if not c or abs(c) < en.size.c or self.varying(o0, tag):
                    return None
                k = (o0, c, en.size.c)
                seen.add(k)
                cv = None
                v = en.val
                if isinstance(v, Lin) and abs(c) == en.size.c:
                    if not self.varying(v, tag):
                        cv = Copy('const', o0, en.size.c, src=v)
                    elif v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
                        key = self.A.info[v.t[0][0]]['key']
                        if key[0] == 'ld' and key[3] == en.size.c and not self.mentions(self.A.info[key[1]]['key'], tag) and not self.mentions(key[4], tag) \
                                and not (isinstance(key[4], tuple) and key[4] and key[4][0] in ('s', 'L', 'Lc') and self.uid_in(key[4], tag)):
                            e = key[2].coef(ka)
                            s0 = key[2] - Lin(0, ((ka, e),))
                            if abs(e) == abs(c) and not self.varying(s0, tag):
                                cv = Copy('cell', o0, en.size.c, base=key[1], off0=s0, ratio=e // c, uid=key[4])
                if k in found and found[k] != cv:
                    cv = None
                found[k] = cv
            for k in found:
                if k not in seen:
                    found[k] = None
        # a write absent from some iteration leaves gaps: content unknown
        for hs, x in latch:
            n = len(hs.mem.get(b, ()))
            have = {(en.off - Lin(0, ((ka, en.off.coef(ka)),)), en.off.coef(ka), en.size.c) for en in x.mem.get(b, ())[n:]}
            for k in found:
                if k not in have:
                    found[k] = None
        return [k + (cv,) for k, cv in found.items()] or None

    def uid_in(self, u, tag):
        if u[0] == 's':
            return self.fn.ins[u[1]]['blk'] in self.fn.headers[tag[0]]
        return u[1] in self.fn.headers[tag[0]]

    def base_in(self, s0, b):
        """base existed before the loop (not allocated inside)"""
        return True

    def varying(self, e, tag):
        for a, _ in e.t:
            k = self.A.info[a]['key']
            if self.mentions(k, tag):
                return True
        return False

    def mentions(self, k, tag):
        if isinstance(k, tuple):
            if len(k) >= 2 and k[0] == 'lv':
                # this loop's variables, or those of a loop nested in it
                return k[1][0] in self.fn.headers[tag[0]]
            if len(k) == 5 and k[0] == 'ld':
                u = k[4]
                if isinstance(u, tuple) and u and u[0] == 's' and self.fn.ins[u[1]]['blk'] in self.fn.headers[tag[0]]:
                    return True
                if isinstance(u, tuple) and u and u[0] in ('L', 'Lc') and u[1] in self.fn.headers[tag[0]]:
                    return True
                return self.mentions(self.A.info[k[1]]['key'], tag) or self.varying(k[2], tag)
            if k and k[0] == 'fr':
                return self.fn.ins[k[2]]['blk'] in self.fn.headers[tag[0]]
            if k and k[0] == 'fresh':
                i = self.A.key.get(k)
                return i is None or self.A.info[i].get('seq', 1 << 60) > self.loopstart[tag]
            return any(self.mentions(x, tag) for x in k)
        if isinstance(k, Lin):
            return self.varying(k, tag)
        if isinstance(k, B):
            return any(self.mentions(x, tag) for x in k.a)
        return False

    def ptrinfo(self, init):
        isptr, di = False, None
        if isinstance(init, Lin):
            for a, n in init.t:
                if self.A.info[a]['ptr'] and n == 1:
                    isptr, di = True, self.A.info[a]['di']
        return isptr, di

    def loop_value(self, s, tag, v, init, f, form):
        if isinstance(init, (B, Agg)):
            if f and f[0] == 'same':
                return init
            return B('odd', self.atom(('lv', tag, v, 'b1'), lo=0, hi=1, name='loopb'))
        if f is None or f[0] == 'fresh':
            isptr, di = self.ptrinfo(init)
            # a pointer advanced within the same object keeps its base: model as init + fresh offset
            if isptr:
                off = self.atom(('lv', tag, v, 'off'), name='d%s' % (v[1],))
                if f and len(f) > 1 and f[1] == 'newbase':
                    return self.atom(('lv', tag, v, 'b'), name='lp%s' % (v[1],), ptr=True, lo=0, hi=1 << 47, di=di)
                return init + off
            lo, hi = -INF, INF
            if f and len(f) > 1 and f[1] is not None and f[1] != 'newbase':
                lo, hi = f[1]
            return self.atom(('lv', tag, v, lo, hi), name='lv%s' % (v[1],), lo=lo, hi=hi)
        if f[0] == 'same':
            return init
        if f[0] == 'step':
            k = self.atom(('lv', tag, 'k'), lo=0, hi=1 << 40, name='k%s' % (tag[0],))
            return init + k.scale(f[1])
        if f[0] == 'count':	# each iteration adds 0 or d
            m = self.atom(('lv', tag, 'm', f[2]), lo=0, hi=1 << 40, name='m%s_%s' % (tag[0], f[2]))
            k = self.atom(('lv', tag, 'k'), lo=0, hi=1 << 40, name='k%s' % (tag[0],))
            self.add_fact(s, k - m)
            return init + m.scale(f[1])
        if f[0] == 'rel':	# init + c*(p - p0)
            p = self.loop_value(s, tag, f[2], f[3], form.get(f[2]), form)
            return init + (p - f[3]).scale(f[1])
        if f[0] == 'mono':
            m = self.atom(('lv', tag, v, 'mono'), lo=0, name='inc%s' % (v[1],))
            return init + m.scale(f[1])
        raise Exception(f)

    def latch_val(self, x, v):
        if v[0] == 'p':
            return x.vals[v[1]]
        return self.load(x, Lin(0, ((v[1], 1),)) + v[2], v[3].c)

    def infer(self, s0, tag, var0, cells, latch, header_state):
        form = {}
        vs = list(var0) + [('m',) + c for c in cells]
        deltas = {}
        for v in vs:
            ds = []
            for hs, x in latch:
                a, b = self.latch_val(hs, v), self.latch_val(x, v)
                if isinstance(a, Lin) and isinstance(b, Lin):
                    ds.append(b - a)
                else:
                    ds.append(None if a != b else ZERO)
            deltas[v] = ds
        counts = {}
        for v in vs:
            ds = deltas[v]
            init = var0[v] if v[0] == 'p' else None
            if all(d is not None and d == ZERO for d in ds):
                form[v] = ('same',)
                continue
            if any(d is None for d in ds):
                form[v] = ('fresh',)
                continue
            if all(not d.t for d in ds):
                cs = sorted({d.c for d in ds})
                if len(cs) == 1:
                    form[v] = ('step', cs[0])
                    continue
                nz = [c for c in cs if c]
                if len(nz) == 1 and 0 in cs:
                    vec = tuple(1 if d.c else 0 for d in ds)
                    key = counts.setdefault(vec, len(counts))
                    form[v] = ('count', nz[0], key)
                    continue
                if all(c >= 0 for c in cs):
                    form[v] = ('mono', 1)
                    continue
                if all(c <= 0 for c in cs):
                    form[v] = ('mono', -1)
                    continue
            # relation to an earlier variable with the same (non-constant) deltas
            done = False
            for u in vs:
                if u == v or form.get(u, ('?',))[0] not in ('mono', 'fresh') or u not in form:
                    continue
                du = deltas[u]
                if any(d is None for d in du):
                    continue
                for c in (1, -1):
                    if all(a == b.scale(c) for a, b in zip(ds, du)):
                        u0 = var0[u] if u[0] == 'p' else self.load(s0, Lin(0, ((u[1], 1),)) + u[2], u[3].c)
                        form[v] = ('rel', c, u, u0)
                        done = True
                        break
                if done:
                    break
            if done:
                continue
            if all(self.prove(x, d) for (hs, x), d in zip(latch, ds)):
                form[v] = ('mono', 1)
                continue
            if all(self.prove(x, d.neg()) for (hs, x), d in zip(latch, ds)):
                form[v] = ('mono', -1)
                continue
            # pointer replaced by a different object
            bases = set()
            for hs, x in latch:
                b, _ = self.split_ptr(x, self.latch_val(x, v))
                bases.add(b)
            i0 = self.latch_val(latch[0][0], v)
            b0, _ = self.split_ptr(latch[0][0], i0)
            if b0 is not None and bases != {b0}:
                form[v] = ('fresh', 'newbase')
                continue
            # interval
            rng = None
            try:
                los, his = zip(*[self.bounds(self.latch_val(x, v)) for hs, x in latch])
                init = var0[v] if v[0] == 'p' else self.load(s0, Lin(0, ((v[1], 1),)) + v[2], v[3].c)
                l0, h0 = self.bounds(init)
                lo, hi = min(los + (l0,)), max(his + (h0,))
                if lo > -INF or hi < INF:
                    rng = (lo, hi)
            except Exception:
                pass
            form[v] = ('fresh', rng) if rng else ('fresh',)
        return form

    def verify(self, form, tag, var0, cells, latch):
        bad = []
        for v, f in form.items():
            if f[0] == 'fresh':
                continue
            for hs, x in latch:
                a, b = self.latch_val(hs, v), self.latch_val(x, v)
                if f[0] == 'same':
                    ok = a == b
                elif not (isinstance(a, Lin) and isinstance(b, Lin)):
                    ok = False
                else:
                    d = b - a
                    if f[0] == 'step':
                        ok = d == Lin(f[1]) or self.prove_eq(x, d, Lin(f[1]))
                    elif f[0] == 'count':
                        ok = d == ZERO or d == Lin(f[1])
                    elif f[0] == 'mono':
                        ok = self.prove(x, d.scale(f[1]))
                    elif f[0] == 'rel':
                        ua, ub = self.latch_val(hs, f[2]), self.latch_val(x, f[2])
                        ok = d == (ub - ua).scale(f[1])
                    else:
                        ok = False
                if not ok:
                    bad.append(v)
                    break
        # vars related to a bad var are bad too
        for v, f in form.items():
            if f[0] == 'rel' and f[2] in bad and v not in bad:
                bad.append(v)
        return bad

    def invariants(self, fn, s0, tag, var0, cells, form, latch, outs, one_pass, header_state):
        """Houdini over candidate inequalities: those compared against in the loop, and entry facts on loop variables."""
        cands = []

        def addc(e):
            if e.t and e not in cands and self.varying(e, tag) and len(cands) < 24 and not any(self.A.info[a]['key'][0] in ('fresh', 'fr') and self.mentions(self.A.info[a]['key'], tag) for a, _ in e.t):
                cands.append(e)
        hs = [h for h, _ in latch][:2]
        ptys = {i['id']: i['ty'] for i in fn.blocks[tag[0]]['ins'] if i['op'] == 'phi'}
        for ss in list(outs.values()) + [[x for _, x in latch]]:
            for x in ss[:8]:
                for f in x.facts:
                    if f not in s0.factset:
                        addc(f)
                        addc(f + 1)
                        addc(f.neg())
                for e in x.ne:
                    addc(e)
                    addc(e.neg())
        for v in var0:
            if form.get(v, ('',))[0] != 'same' and isinstance(var0[v], Lin) and hs:
                x = hs[0].vals.get(v[1])
                if isinstance(x, Lin):
                    addc(x - var0[v])
                    addc(var0[v] - x)
                    if ptys.get(v[1]) == 'i8' and not var0[v].t:		# a flag
                        addc(Lin(1) - x)
        if not cands:
            return ()
        # entry: substitute loop atoms at iteration 0 -- do it by evaluating with header atoms equal to init
        keep = []
        h0 = header_state(s0.ts, form)
        ent = h0.copy()
        okent = True
        for v in list(var0) + [('m',) + c for c in cells]:
            x = self.latch_val(h0, v)
            i = var0[v] if v[0] == 'p' else self.load(s0, Lin(0, ((v[1], 1),)) + v[2], v[3].c)
            if isinstance(x, Lin) and isinstance(i, Lin) and x != i:
                okent = self.add_eq(ent, x - i) and okent
        kk = self.A.key.get(('lv', tag, 'k'))
        if kk is not None:
            self.add_eq(ent, Lin(0, ((kk, 1),)))
        for e in cands:
            if self.prove(ent, e):
                keep.append(e)
        for _ in range(5):
            if not keep:
                return ()
            latch, outs = one_pass(form, tuple(keep))
            drop = []
            for e in keep:
                for hs, x in latch:
                    e2 = self.shift(e, tag, hs, x, form, var0, cells)
                    if e2 is None or not self.prove(x, e2):
                        drop.append(e)
                        break
            if not drop:
                return tuple(keep)
            keep = [e for e in keep if e not in drop]
        return ()

    def shift(self, e, tag, hs, x, form, var0, cells):
        """e over header atoms -> the same expression at the next iteration"""
        sub = {}
        for v, f in form.items():
            a, b = self.latch_val(hs, v), self.latch_val(x, v)
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                continue
            d = b - a
            # which loop atom does a use?
            for at, n in a.t:
                k = self.A.info[at]['key']
                if k[0] == 'lv' and k[1] == tag and at not in sub:
                    if f[0] == 'step':
                        sub[at] = Lin(1)
                    elif f[0] == 'count':
                        sub[at] = Lin(d.c // f[1])
                    elif abs(n) == 1:
                        sub[at] = d.scale(n)
        r = e
        for at, n in e.t:
            k = self.A.info[at]['key']
            if k[0] == 'lv' and k[1] == tag:
                if len(k) > 2 and k[2] == 'k':
                    r = r + n
                elif at in sub:
                    r = r.add(sub[at], n)
                else:
                    return None
            elif self.varying(Lin(0, ((at, 1),)), tag):
                return None
        return r

    # ---- blocks
    def exec_block(self, fn, b, st):
        """-> [(dst, state)]"""
        work = [(st, 0)]
        ins = [i for i in fn.blocks[b]['ins'] if i['op'] not in ('phi', 'dbg')]
        out = []
        while work:
            s, n = work.pop()
            while True:
                i = ins[n]
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Limit('step limit in ' + fn.dem)
                op = i['op']
                if op == 'br':
                    if len(i['succ']) == 1:
                        out.append((i['succ'][0], s))
                    else:
                        c = self.boolean(s, self.val(s, i['ops'][0]))
                        for d, t in ((i['succ'][0], True), (i['succ'][1], False)):
                            for s2 in self.assume(s, c, t):
                                s2 = s2 if s2 is not s else s.copy()
                                if self.rule:
                                    self.rule.branch(self, s2, i, c, t)
                                out.append((d, s2))
                    break
                if op == 'switch':
                    v = self.lin(s, i['ops'][0])
                    w = 64
                    bits = 32
                    cur = [s]
                    dsts = {}
                    for val, d in i['cases']:
                        nxt = []
                        for x in cur:
                            cb = B('cmp', 'eq', v, Lin(int(val)), bits, False)
                            for s2 in self.assume(x, cb, True):
                                s2 = s2.copy()
                                if self.rule:
                                    self.rule.branch(self, s2, i, cb, True)
                                out.append((d, s2))
                            nxt += self.assume(x, cb, False)
                        cur = nxt
                    for x in cur:
                        out.append((i['default'], x.copy()))
                    break
                if op == 'ret':
                    v = self.val(s, i['ops'][0]) if i['ops'] else None
                    if self.rule and self.collect:
                        self.rule.ret(self, s, i, v)
                    if self.collect:
                        self.returns.append((s, v, i))
                    break
                if op == 'unreachable':
                    break
                rs = self.step(s, i)
                if not rs:
                    break
                s = rs[0]
                for x in rs[1:]:
                    work.append((x, n + 1))
                n += 1
        return out

    def setv(self, s, i, v):
        s.vals[i['id']] = v
        return [s]

    def step(self, s, i):
        op = i['op']
        f = getattr(self, 'op_' + op, None)
        if f:
            return f(s, i)
        return self.setv(s, i, self.app(op, s, i))

    def app(self, op, s, i):
        w = width(i['ty'])
        ops = tuple(self.lin(s, o) for o in i.get('ops', []))
        lo, hi = -INF, INF
        if w and w < 64:
            lo, hi = -(1 << (w - 1)), (1 << w) - 1
        return self.atom(('app', op, w, ops), name='%s(%s)' % (op, ', '.join(self.show(o) for o in ops)), lo=lo, hi=hi)

    def op_alloca(self, s, i):
        dt, nm = self.fn.dbgtype.get(i['id'], (None, None))
        v = self.atom(('alloca', self.fn.name, i['id']), name=nm or 'tmp%d' % i['id'], ptr=True, lo=1 << 12, hi=1 << 47, ident='alloca', nonnull=True,
                      di=self.mod.strip(dt) if dt is not None else None, size=i['asz'])
        return self.setv(s, i, v)

    def op_load(self, s, i):
        a = self.lin(s, i['ops'][0])
        rs = [s]
        if self.rule:
            r = self.rule.access(self, s, i, a, i['sz'], False, None)
            if r is not None:
                rs = r
        for x in rs:
            v = self.load(x, a, i['sz'], i['ty'], i)
            if i['ty'] == 'i1':
                v = self.boolean(x, v)
            x.vals[i['id']] = v
        return rs

    def op_store(self, s, i):
        v = self.val(s, i['ops'][0])
        a = self.lin(s, i['ops'][1])
        rs = [s]
        if self.rule:
            r = self.rule.access(self, s, i, a, i['ssz'], True, v)
            if r is not None:
                rs = r
        if isinstance(v, B):
            v = self.b2i(v)
        for x in rs:
            self.store(x, a, i['ssz'], v, ('s', i['id']))
            if self.rule:
                self.rule.stored(self, x, i, a, i['ssz'], v)
        return rs

    def op_getelementptr(self, s, i):
        e = self.lin(s, i['ops'][0])
        if not i['ok']:
            return self.setv(s, i, self.fresh('gep', ptr=True, ins=i))
        e = e + i['off']
        for o, k in i['var']:
            e = e.add(self.lin(s, o), k)
        return self.setv(s, i, e)

    def op_icmp(self, s, i):
        a, b = self.val(s, i['ops'][0]), self.val(s, i['ops'][1])
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(b, B) and b.k == 'const' and isinstance(a, B):
                eq = i['pred'] == 'eq'
                return self.setv(s, i, a if b.a[0] == eq else bnot(a))
            a = self.b2i(a) if isinstance(a, B) else a
            b = self.b2i(b) if isinstance(b, B) else b
        if isinstance(a, Agg) or isinstance(b, Agg):
            return self.setv(s, i, B('odd', self.fresh('icmp', lo=0, hi=1, ins=i)))
        w = width(i['oty']) or 64
        return self.setv(s, i, B('cmp', i['pred'], a, b, w, i['oty'] == 'ptr'))

    def op_fcmp(self, s, i):
        return self.setv(s, i, B('odd', self.fresh('fcmp', lo=0, hi=1, ins=i)))

    def ext(self, s, i, signed):
        v = self.val(s, i['ops'][0])
        if isinstance(v, B):
            return self.setv(s, i, self.b2i(v, signed))
        w = width(i['oty'])
        rs = []
        for s2, e in self.norm(s, v, w, signed):
            s2 = s2 if len(rs) == 0 and s2 is s else s2.copy()
            s2.vals[i['id']] = e
            rs.append(s2)
        return rs

    def op_zext(self, s, i):
        return self.ext(s, i, False)

    def op_sext(self, s, i):
        return self.ext(s, i, True)

    def op_trunc(self, s, i):
        v = self.lin(s, i['ops'][0])
        if i['ty'] == 'i1':
            return self.setv(s, i, self.boolean(s, v))
        return self.setv(s, i, v)

    def op_add(self, s, i):
        return self.setv(s, i, self.lin(s, i['ops'][0]) + self.lin(s, i['ops'][1]))

    def op_sub(self, s, i):
        return self.setv(s, i, self.lin(s, i['ops'][0]) - self.lin(s, i['ops'][1]))

    def op_mul(self, s, i):
        a, b = self.lin(s, i['ops'][0]), self.lin(s, i['ops'][1])
        if not b.t:
            return self.setv(s, i, a.scale(b.c))
        if not a.t:
            return self.setv(s, i, b.scale(a.c))
        return self.setv(s, i, self.app('mul', s, i))

    def op_shl(self, s, i):
        a, b = self.lin(s, i['ops'][0]), self.lin(s, i['ops'][1])
        if not b.t and 0 <= b.c < 64:
            return self.setv(s, i, a.scale(1 << b.c))
        return self.setv(s, i, self.app('shl', s, i))

    def div(self, s, i, signed, shift=False):
        a, b = self.lin(s, i['ops'][0]), self.lin(s, i['ops'][1])
        if b.t or b.c == 0:
            return self.setv(s, i, self.app(i['op'], s, i))
        d = (1 << b.c) if shift else b.c
        w = width(i['ty'])
        rs = []
        for s2, e in self.norm(s, a, w, signed):
            s2 = s2.copy()
            if all(n % d == 0 for _, n in e.t) and e.c % d == 0:
                v = Lin(e.c // d, tuple((x, n // d) for x, n in e.t))
            elif not e.t:
                v = Lin(e.c // d if shift or e.c >= 0 else -((-e.c) // d))
            else:
                lo, hi = self.bounds(e)
                v = self.atom(('div', e, d), name='(%s)/%d' % (self.show(e), d), lo=-INF if lo == -INF else lo // d, hi=INF if hi == INF else hi // d if hi >= 0 else 0)
                if shift or self.prove(s2, e):
                    self.add_fact(s2, e.add(v, -d))
                    self.add_fact(s2, v.scale(d) + (d - 1) - e)
            s2.vals[i['id']] = v
            rs.append(s2)
        return rs

    def op_udiv(self, s, i):
        return self.div(s, i, False)

    def op_sdiv(self, s, i):
        return self.div(s, i, True)

    def op_lshr(self, s, i):
        return self.div(s, i, False, True)

    def op_ashr(self, s, i):
        return self.div(s, i, True, True)

    def rem(self, s, i, signed):
        """What division leaves: the dividend less a multiple of the quotient"""
        a, b = self.lin(s, i['ops'][0]), self.lin(s, i['ops'][1])
        if b.t or b.c <= 0:
            return self.setv(s, i, self.app(i['op'], s, i))
        rs = []
        for s2, e in self.norm(s, a, width(i['ty']), signed):
            s2 = s2.copy()
            if not e.t:
                v = Lin(e.c % b.c if e.c >= 0 else -(-e.c % b.c))
            elif not self.prove(s2, e):
                v = self.app(i['op'], s2, i)
            else:
                lo, hi = self.bounds(e)
                q = self.atom(('div', e, b.c), name='(%s)/%d' % (self.show(e), b.c), lo=-INF if lo == -INF else lo // b.c, hi=INF if hi == INF else hi // b.c if hi >= 0 else 0)
                v = e.add(q, -b.c)
                self.add_fact(s2, v)
                self.add_fact(s2, Lin(b.c - 1) - v)
            s2.vals[i['id']] = v
            rs.append(s2)
        return rs

    def op_urem(self, s, i):
        return self.rem(s, i, False)

    def op_srem(self, s, i):
        return self.rem(s, i, True)

    def logic(self, s, i):
        x, y = self.val(s, i['ops'][0]), self.val(s, i['ops'][1])
        op = i['op']
        if i['ty'] == 'i1':
            x, y = self.boolean(s, x), self.boolean(s, y)
            if op == 'xor':
                if y.k == 'const':
                    return bnot(x) if y.a[0] else x
                if x.k == 'const':
                    return bnot(y) if x.a[0] else y
                return B('or', B('and', x, bnot(y)), B('and', bnot(x), y))
            for p, q in ((x, y), (y, x)):
                if p.k == 'const':
                    if op == 'and':
                        return q if p.a[0] else FALSE
                    return TRUE if p.a[0] else q
            return B(op, x, y)
        x = self.b2i(x) if isinstance(x, B) else x
        y = self.b2i(y) if isinstance(y, B) else y
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return self.fresh(op, ins=i)
        w = width(i['ty'])
        if not w:
            return self.fresh(op, ins=i)
        M = (1 << w) - 1
        if not x.t:
            x, y = y, x
        if not x.t and not y.t:
            a, b = x.c & M, y.c & M
            return Lin({'and': a & b, 'or': a | b, 'xor': a ^ b}[op])
        if x == y:
            return x if op != 'xor' else ZERO
        if not y.t:
            c = y.c & M
            lo, hi = self.bounds(x)
            if op == 'and':
                if c == M:
                    return x
                if c == 0:
                    return ZERO
                if (c & (c + 1)) == 0 and (0 <= lo and hi <= c or (self.prove(s, x) and self.prove(s, Lin(c) - x))):
                    return x
                v = self.atom(('and', x, c, w), lo=0, hi=c if c <= M >> 1 or lo < 0 or hi > M else min(c, hi), name='(%s)&0x%x' % (self.show(x), c))
                return v
            if op == 'or':
                if c == 0:
                    return x
                v = self.atom(('or', x, c, w), lo=-INF if w >= 64 and c >> 63 else c if lo >= 0 else -INF, hi=INF, name='(%s)|0x%x' % (self.show(x), c))
                i2 = self.A.info[v.t[0][0]]
                if lo >= -1 and hi != INF and c <= M >> 1 and (lo >= 0 or self.prove(s, x)):
                    if lo >= 0:
                        i2['hi'] = (1 << max(int(hi), c).bit_length()) - 1
                    self.add_fact(s, v - c)
                    # x <= x|c <= x+c
                    self.add_fact(s, v - x)
                    self.add_fact(s, x + c - v)
                return v
            if op == 'xor' and c == M:
                return x.neg() - 1
        return self.atom((op, w) + tuple(sorted((x, y), key=lambda z: z.h)), name='%s %s %s' % (self.show(x), op, self.show(y)),
                         lo=-INF if w >= 64 else -(1 << (w - 1)), hi=INF if w >= 64 else M)

    def op_and(self, s, i):
        return self.setv(s, i, self.logic(s, i))

    op_or = op_and
    op_xor = op_and

    def op_select(self, s, i):
        c = self.boolean(s, self.val(s, i['ops'][0]))
        a, b = self.val(s, i['ops'][1]), self.val(s, i['ops'][2])
        if a == b:
            return self.setv(s, i, a)
        if i['ty'] == 'i1':
            a, b = self.boolean(s, a), self.boolean(s, b)
            if b == FALSE:
                return self.setv(s, i, B('and', c, a))
            if a == TRUE:
                return self.setv(s, i, B('or', c, b))
        rs = []
        for t, v in ((True, a), (False, b)):
            for x in self.assume(s, c, t):
                x = x.copy()
                x.vals[i['id']] = v
                rs.append(x)
        return rs

    def ident(self, s, i):
        return self.setv(s, i, self.val(s, i['ops'][0]))

    op_freeze = op_bitcast = op_inttoptr = op_ptrtoint = ident

    def op_extractvalue(self, s, i):
        v = self.val(s, i['ops'][0])
        if isinstance(v, Agg) and len(i['idx']) == 1 and i['idx'][0] in v.d:
            return self.setv(s, i, v.d[i['idx'][0]])
        if isinstance(v, Lin):
            return self.setv(s, i, self.atom(('xv', v, tuple(i['idx'])), name='%s.%s' % (self.show(v), i['idx']), ptr=i['ty'] == 'ptr'))
        return self.setv(s, i, self.fresh('xv', ptr=i['ty'] == 'ptr', ins=i))

    def op_insertvalue(self, s, i):
        v = self.val(s, i['ops'][0])
        d = dict(v.d) if isinstance(v, Agg) else {}
        if len(i['idx']) == 1:
            d[i['idx'][0]] = self.val(s, i['ops'][1])
        return self.setv(s, i, Agg(d))

    def op_fence(self, s, i):
        return [s]

    def op_atomicrmw(self, s, i):
        a = self.lin(s, i['ops'][0])
        v = self.lin(s, i['ops'][1])
        sz = i['sz']
        if self.rule:
            self.rule.access(self, s, i, a, sz, True, None)
        old = self.load(s, a, sz, i['ty'], i)
        if isinstance(old, B):
            old = self.b2i(old)
        new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v}.get(i['rmw'], lambda: self.fresh('rmw', ins=i))()
        self.store(s, a, sz, new, ('s', i['id']))
        return self.setv(s, i, old)

    def op_cmpxchg(self, s, i):
        a = self.lin(s, i['ops'][0])
        if self.rule:
            self.rule.access(self, s, i, a, 8, True, None)
        base, off = self.split_ptr(s, a)
        if base is not None:
            self.write(s, base, off, Lin(8), self.fresh('cas', ins=i), ('s', i['id']))
        return self.setv(s, i, Agg({0: self.fresh('casold', ins=i), 1: B('odd', self.fresh('casok', lo=0, hi=1, ins=i))}))

    # ---- calls
    def result(self, s, i, what, **kw):
        if i['ty'] == 'void':
            return [s]
        w = width(i['ty'])
        lo, hi = -INF, INF
        if i['ty'] == 'ptr':
            kw.setdefault('ptr', True)
            lo, hi = kw.pop('lo', 0), 1 << 47
        elif w:
            if w == 1:
                return self.setv(s, i, B('odd', self.fresh(what, lo=0, hi=1, ins=i)))
            lo, hi = kw.pop('lo', -(1 << (w - 1))), kw.pop('hi', (1 << w) - 1 if w < 64 else 1 << 62)
        return self.setv(s, i, self.fresh(what, lo=lo, hi=hi, ins=i, **kw))

    def op_call(self, s, i):
        name = i.get('callee')
        if self.rule:
            r = self.rule.call(self, s, i, name)
            if r is not None:
                return r
        return self.default_call(s, i, name)

    NEW = ('_Znwm', '_Znam', 'malloc', 'calloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'realloc')
    PURE = ('strlen', 'memcmp', 'strcmp', 'toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', 'abort', 'puts', 'printf', 'fprintf', 'strchr', 'memchr')

    def default_call(self, s, i, name):
        ops = i['ops']
        if name is None:
            self.clobber_args(s, i)
            return self.result(s, i, 'icall')
        if name.startswith('llvm.'):
            if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                return self.do_memcpy(s, i, self.lin(s, ops[0]), self.lin(s, ops[1]), self.lin(s, ops[2]))
            if name.startswith('llvm.memset'):
                d, v, n = self.lin(s, ops[0]), self.lin(s, ops[1]), self.lin(s, ops[2])
                if self.rule:
                    self.rule.access(self, s, i, d, n if n.t else n.c, True, v)
                b, off = self.split_ptr(s, d)
                if b is not None:
                    self.write(s, b, off, n, ZERO if v == ZERO else None, ('s', i['id']))
                return [s]
            if name.startswith('llvm.lifetime'):
                b, off = self.split_ptr(s, self.lin(s, ops[1]))
                if b is not None and b in s.mem:
                    s.mem[b] = ()
                    del s.mem[b]
                return [s]
            if name.startswith('llvm.assume') or name.startswith('llvm.experimental') or name.startswith('llvm.prefetch'):
                return [s]
            if name.startswith('llvm.expect'):
                return self.setv(s, i, self.val(s, ops[0]))
            if '.with.overflow' in name:
                # operand sizes are bounded (see assumptions): the product of an element count and size fits
                x, y = self.lin(s, ops[0]), self.lin(s, ops[1])
                r = None
                if '.umul' in name or '.smul' in name:
                    r = x.scale(y.c) if not y.t else y.scale(x.c) if not x.t else None
                elif 'add' in name:
                    r = x + y
                elif 'sub' in name:
                    r = x - y
                return self.setv(s, i, Agg({0: r if r is not None else self.fresh('ovf', ins=i), 1: FALSE if r is not None else B('odd', self.fresh('ovfb', lo=0, hi=1, ins=i))}))
            if name.startswith('llvm.abs'):
                v = self.lin(s, ops[0])
                out = []
                for t, r in ((True, v), (False, v.neg())):
                    for x in self.assume(s, B('cmp', 'sge', v, ZERO, width(i['ty']), False), t):
                        x = x.copy()
                        x.vals[i['id']] = r
                        out.append(x)
                return out
            return self.result(s, i, name)
        if name in ('memcpy', 'memmove'):
            d = self.lin(s, ops[0])
            r = self.do_memcpy(s, i, d, self.lin(s, ops[1]), self.lin(s, ops[2]))
            for x in r:
                x.vals[i['id']] = d
            return r
        if name in self.NEW:
            n = self.lin(s, ops[0])
            v = self.fresh('new', ptr=True, lo=1 << 12, hi=1 << 47, ident='new', nonnull=True, loc=i['loc'], ins=i)
            s.vals[('nsize', v.t[0][0])] = n
            return self.setv(s, i, v)
        if i.get('noret') or name in ('__assert_fail', 'abort', 'exit'):
            return []
        if name == 'strlen':
            v = self.atom(('strlen', self.lin(s, ops[0]), i['id']), lo=0, hi=1 << 31, name='strlen(%s)' % self.show(self.lin(s, ops[0])))
            return self.setv(s, i, v)
        if name not in self.PURE:
            self.clobber_args(s, i)
        return self.result(s, i, self.mod.dem.get(name, name).split('(')[0])

    def clobber_args(self, s, i):
        """An opaque call may write any object whose address it is given (not what those objects point to)."""
        for o in i['ops']:
            v = self.val(s, o)
            if isinstance(v, Lin):
                b, off = self.split_ptr(s, v)
                if b is not None and self.A.info[b].get('ident') == 'alloca':
                    self.write(s, b, ZERO, None, None, ('s', i['id']))

    def do_memcpy(self, s, i, d, src, n):
        rs = [s]
        if self.rule:
            sz = n if n.t else n.c
            self.rule.access(self, s, i, src, sz, False, None)
            self.rule.access(self, s, i, d, sz, True, ('copy', src))
        b, off = self.split_ptr(s, d)
        sb, soff = self.split_ptr(s, src)
        if b is None:
            return rs
        if not n.t and sb is not None and n.c <= 256:
            # struct copy: transfer known scalar cells
            cells = []
            di = self.A.info[sb]['di']
            if di is None or di < 0:
                di = self.A.info[b]['di']
            for (o, sz) in self.scalars(di, n.c) if di is not None and di >= 0 else ([(k, 8) for k in range(0, n.c - n.c % 8, 8)] if n.c % 8 == 0 else []):
                cells.append((o, sz, self.load(s, Lin(0, ((sb, 1),)) + soff + o, sz)))
            self.write(s, b, off, n, None, ('s', i['id']))
            for o, sz, v in cells:
                self.write(s, b, off + o, Lin(sz), v, ('s', i['id'], o))
            return rs
        self.write(s, b, off, n, Copy('snap', off, 0, src=src, mem=dict(s.mem), uid=i['id']) if sb is not None else None, ('s', i['id']))
        return rs

    def scalars(self, di, limit):
        out = []

        def rec(t, base):
            t = self.mod.strip(t)
            if t < 0:
                return
            T = self.mod.types[t]
            if T['tag'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'):
                for m in T.get('members', []):
                    if 'off' in m:
                        rec(m['type'], base + m['off'])
                return
            if T['tag'] in ('DW_TAG_union_type', 'DW_TAG_array_type'):
                n = T['size']
                for k in range(0, n, 8):
                    out.append((base + k, min(8, n - k)))
                return
            sz = T['size'] or 8
            out.append((base, sz))
        rec(di, 0)
        return [(o, z) for o, z in out if o + z <= limit]


class Rule:
    """Hooks; subclass what you need."""

    def entry(self, I, st): pass
    def access(self, I, st, ins, addr, size, write, val): return None
    def stored(self, I, st, ins, addr, size, val): pass
    def call(self, I, st, ins, name): return None
    def branch(self, I, st, ins, cond, truth): pass
    def ret(self, I, st, ins, val): pass
    def latch(self, I, hs, ls, header): pass
    def loop_ts(self, I, ts): return ts


def where(ins):
    """Outermost-to-innermost 'file:line (fn)' of an instruction; the innermost is where the code is written."""
    l = ins.get('loc') or []
    return ['%s:%d' % (f.replace('/repo/', ''), n) for f, n, _ in l]


def at(ins):
    w = [x for x in where(ins)]
    for x in w:
        if not x.startswith('/usr') and '/drivers/' not in x and not x.split(':')[1] == '0':
            return x
    return w[0] if w else '?'
