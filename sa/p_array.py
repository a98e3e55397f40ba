"""Array slices: value semantics, bounds and content."""
import re
from . import build, ai
from .ai import Lin, ZERO, B, Interp
from .slices import Roles, SliceRule, Slice, site
from .report import Report
from .build import Broken

ES = 4

# How each operation is specified. n, m: lengths of the two slices.
# -> (preconditions [Lin >= 0], [(conditions, what the first argument / the result holds, returned value)])
# A piece is (length, source, first element).


def whole(a):
    return [(a.num, a, ZERO)]


def spec(root, g, I):
    A = g.get('a')
    Bb = g.get('b')
    n = A.num
    m = Bb.num if isinstance(Bb, Slice) else None
    e = g.get('e')
    op = root[2:]
    one = Lin(1)

    def ld(p):
        b, o = I.split_ptr(g['st'], p)
        return I.cell(g['st'], b, o, ES, 0)

    def elem(i):
        return ('elem', A, i)
    keep = dict(arg=whole(A))
    if op in ('length',):
        return [], [([], dict(ret=n))]
    if op in ('isEmpty',):
        return [], [([n - 1], dict(ret=ZERO)), ([n.neg()], dict(ret=one))]
    if op in ('index', 'elem', 'elem_ref'):
        i = g['i']
        return [i, n - 1 - i], [([], dict(ret=elem(i)) if op != 'elem_ref' else dict(retptr=i))]
    if op in ('last', 'last_ref'):
        return [n - 1], [([], dict(ret=elem(n - 1)) if op == 'last' else dict(retptr=n - 1))]
    if op == 'slice':
        at, ln = g['at'], g['len']
        return [ln + 1], [([at - n], dict(res=[])), ([n - 1 - at, ln.neg() - 1], dict(res=[(n - at, A, at)])),
                          ([n - 1 - at, ln, n - at - ln], dict(res=[(ln, A, at)])), ([n - 1 - at, ln - (n - at)], dict(res=[(n - at, A, at)]))]
    if op == 'head':
        k = g['n']
        return [Lin((1 << 31) - 1) - k], [([n - k], dict(res=[(k, A, ZERO)])), ([k - n - 1], dict(res=whole(A)))]
    if op == 'tail':
        k = g['n']
        return [n - k], [([], dict(res=[(k, A, n - k)]))]
    if op == 'shorter':
        k = g['n']
        return [], [([n - k], dict(res=[(n - k, A, ZERO)])), ([k - n], dict(res=[]))]
    if op == 'drop':
        k = g['n']
        return [n - k], [([], dict(res=[(n - k, A, k)]))]
    if op in ('copy',):
        return [], [([], dict(res=whole(A)))]
    if op == 'plus':
        return [], [([], dict(res=whole(A) + whole(Bb), fresh=1))]
    if op == 'plus_elem':
        return [], [([], dict(res=whole(A) + [(one, ld(e), ZERO)]))]
    if op in ('assign',):
        return [], [([], dict(arg=whole(Bb)))]
    if op in ('add', 'append'):
        return [], [([], dict(arg=whole(A) + whole(Bb), fresh=1))]
    if op in ('add_elem', 'shl', 'push', 'append_elem'):
        return [], [([], dict(arg=whole(A) + [(one, ld(e), ZERO)]))]
    if op == 'unshift':
        return [], [([], dict(arg=[(one, ld(e), ZERO)] + whole(A)))]
    if op == 'insert':
        p = g['pos']
        return [n - p], [([], dict(arg=[(p, A, ZERO), (m, Bb, ZERO), (n - p, A, p)], fresh=1))]
    if op == 'insert_self':
        p = g['pos']
        return [n - p], [([], dict(arg=[(p, A, ZERO), (n, A, ZERO), (n - p, A, p)]))]
    if op in ('append_self', 'add_self'):
        return [], [([], dict(arg=whole(A) + whole(A)))]
    if op == 'push_own':
        i = g['i']
        return [n - 1 - i], [([], dict(arg=whole(A) + [(one, elem(i), ZERO)]))]
    if op == 'remove':
        at, ln = g['at'], g['len']
        return [ln + 1, n - at], [([ln.neg() - 1], dict(arg=[(at, A, ZERO)])),
                                  ([ln, n - at - ln], dict(arg=[(at, A, ZERO), (n - at - ln, A, at + ln)])),
                                  ([ln - (n - at) - 1], None)]
    if op == 'delete_at':
        at = g['at']
        return [n - 1 - at], [([], dict(arg=[(at, A, ZERO), (n - at - 1, A, at + 1)], ret=elem(at)))]
    if op == 'pull':
        return [n - 1], [([], dict(arg=[(n - 1, A, ZERO)], ret=elem(n - 1)))]
    if op == 'shift':
        return [n - 1], [([], dict(arg=[(n - 1, A, one)], ret=elem(ZERO)))]
    if op == 'clear':
        return [], [([], dict(arg=[]))]
    if op == 'set':
        i = g['i']
        return [i, n - 1 - i], [([], dict(arg=[(i, A, ZERO), (one, ld(e), ZERO), (n - i - 1, A, i + 1)]))]
    if op == 'reverse':
        return [], [([], dict(arg=[(n, ('rev', A), n - 1)]))]
    if op == 'elem_mut':
        i = g['i']
        return [i, n - 1 - i], [([], dict(arg=whole(A), retptr=i))]
    if op == 'last_mut':
        return [n - 1], [([], dict(arg=whole(A), retptr=n - 1))]
    if op in ('compare', 'eq', 'ne'):
        return [], [([], dict(cmp=op))]
    if op in ('find', 'findf'):
        return [g['after'] + 1, n - 1 - g['after']], [([], dict(search=1))]
    if op in ('rfind', 'rfindf'):
        return [g['before'] + 1, n - g['before']], [([], dict(search=-1))]
    if op in ('detect',):
        return [], [([], dict(search=1))]
    if op in ('select', 'delete_if'):
        return [], [([], dict(shorter=op, every=1))]
    if op in ('each', 'map', 'inject'):
        return [], [([], dict(every=1, longer=op == 'map', **({'accum': 1} if op == 'inject' else {})))]
    if op in ('all', 'any', 'one'):
        return [], [([], dict(quant=op))]
    if op == 'bsearch':
        return [], [([], dict(bsearch=1))]
    return [], [([], {})]


class ArrayRule(SliceRule):
    def expected(self, I, st, src, k):
        if isinstance(src, tuple) and src[0] == 'rev':
            a = src[1]
            return SliceRule.expected(self, I, st, a, a.num - 1 - (k - (a.num - 1)))
        if isinstance(src, tuple) and src[0] == 'elem':
            return SliceRule.expected(self, I, st, src[1], src[2])
        return SliceRule.expected(self, I, st, src, k)

    def in_domain(self, I, st):
        for conds, what in self.spec[1]:
            s2 = st.copy()
            if what is not None and all(I.add_fact(s2, c) for c in conds):
                return True
        return False

    def foreign_read(self, I, st, ins, b, off, sz, inf):
        pass

    def ret(self, I, st, ins, val):
        g = self.args
        g['st'] = st
        finals = []
        a = self.slice_at(I, st, self.slices[0].ptr)
        for s in self.slices:
            finals.append(self.slice_at(I, st, s.ptr))
        res = None
        if self.fnret is not None:
            res = self.slice_at(I, st, self.fnret)
            finals.append(res)
            if not (self.contract and I.split_ptr(st, res.ptr)[0] in self.contract_objs):
                self.check_slice(I, st, ins, res, 'the result')
        if not self.const0 and not (self.contract and I.split_ptr(st, finals[0].ptr)[0] in self.contract_objs):
            self.check_slice(I, st, ins, finals[0], 'the array')
        if not self.contract:
            self.check_refs(I, st, ins, finals)
        for conds, what in self.spec[1]:
            s2 = st.copy()
            if not all(I.add_fact(s2, c) for c in conds):
                continue
            if what is None:
                self.viol(I, s2, ins, 'domain', 'accepts arguments outside its domain', 'domain')
                continue
            if 'res' in what:
                if res is None:
                    raise Broken('%s returns no array' % self.root)
                self.check_pieces(I, s2, ins, res, what['res'], 'the result')
            if 'arg' in what and not self.const0:
                self.check_pieces(I, s2, ins, finals[0], what['arg'], 'the array')
            if 'ret' in what:
                w = what['ret']
                if isinstance(w, tuple):
                    w = self.expected(I, s2, w, ZERO)
                v = I.b2i(val) if isinstance(val, B) else val
                vs = [(s2, v)]
                if isinstance(val, B):
                    vs = [(x, Lin(t)) for t in (0, 1) for x in I.assume(s2, val, bool(t))]
                for s3, v in vs:
                    if self.same_value(I, s3, v, w):
                        self.good('content', ins)
                    else:
                        self.viol(I, s3, ins, 'content', 'returns %s, should be %s' % (I.show(v), I.show(w)), 'ret')
            if 'retptr' in what:
                self.check_ptr(I, s2, ins, val, what['retptr'], finals[0])
            if 'search' in what:
                self.check_search(I, s2, ins, val, what['search'])
            if 'shorter' in what:
                r = res if what['shorter'] == 'select' else finals[0]
                if what['shorter'] == 'delete_if' and not (I.prove_eq(s2, self.slices[0].num, ZERO) and I.prove_eq(s2, r.num, ZERO) or self.counter.get(r.num)):
                    self.viol(I, s2, ins, 'content', 'the length does not count the elements kept', 'count')
                elif I.prove(s2, self.slices[0].num - r.num):
                    self.good('content', ins)
                else:
                    self.viol(I, s2, ins, 'content', 'the result may be longer than the array', 'long')
            if 'every' in what:
                if self.covered(I, s2, ZERO, self.slices[0].num - 1, 1):
                    self.good('search', ins)
                else:
                    self.viol(I, s2, ins, 'search', 'does not present every element, in order, to the callback', 'every')
            if what.get('longer') and not I.prove_eq(s2, res.num, self.slices[0].num):
                self.viol(I, s2, ins, 'content', 'the result has length %s, should be %s' % (I.show(res.num), I.show(self.slices[0].num)), 'len')
            if 'quant' in what:
                self.check_quant(I, s2, ins, val, what['quant'])
            if 'cmp' in what:
                self.check_cmp(I, s2, ins, val, what['cmp'])
            if 'bsearch' in what:
                self.check_bsearch(I, s2, ins, val)
            if 'accum' in what:
                self.check_accum(I, s2, ins, val)
            if 'fresh' in what and self.case.endswith('T') and not self.slices[1].same:
                r = finals[0] if res is None else res
                if not r.null and self.slices[1].body is not None and I.prove_eq(s2, r.body, self.slices[1].body):
                    self.viol(I, s2, ins, 'static', 'keeps the borrowed storage of the array it adds instead of copying it', 'kept')
                else:
                    self.good('static', ins)

    # ---- binary search: what remains to be searched, as an interval [lower, upper) of the array
    def index_of(self, I, st, v):
        a = self.slices[0]
        if not isinstance(v, Lin):
            return None
        b, o = I.split_ptr(st, v)
        if a.data is not None and b == a.data.t[0][0]:
            x = o - a.off.scale(ES)
            if x.c % ES or any(n % ES for _, n in x.t):
                return None
            return Lin(x.c // ES, tuple((y, n // ES) for y, n in x.t))
        return v if b is None else None

    def intervals(self, I, tag):
        s0, init = I.linit[tag]
        n = self.slices[0].num
        idx = {p: self.index_of(I, s0, v) for p, v in init.items()}
        idx = {p: v for p, v in idx.items() if v is not None}
        los = [p for p, v in idx.items() if I.prove_eq(s0, v, ZERO)]
        out = []
        for p in los:
            for q in idx:
                if q == p:
                    continue
                for d in (0, 1):
                    if I.prove_eq(s0, idx[q] + d, n):
                        out.append((p, q, d, False))
                        out.append((p, q, d, True))
        return out

    def interval(self, I, st, c):
        p, q, d, rel = c
        l, u = (self.index_of(I, st, st.vals.get(x)) for x in (p, q))
        if l is None or u is None:
            return None, None
        u = u + d
        return l, (l + u if rel else u)

    def bsearch_iteration(self, I, hs, ls, tag):
        cs = self.ivals[tag] if tag in self.ivals else self.ivals.setdefault(tag, self.intervals(I, tag))
        m = ls.ts.get('probe')
        c = ls.vals.get(ls.ts.get('pred'))
        if not cs or m is None or not isinstance(c, Lin):
            return
        left = []
        for x in cs:
            l, u = self.interval(I, hs, x)
            l2, u2 = self.interval(I, ls, x)
            if None in (l, u, l2, u2):
                continue
            ok = self.shrinks(I, ls, u - l, u2 - l2)
            if I.assume(ls, B('cmp', 'slt', c, ZERO, 32, False), True):		# the element may be too small: go right of it
                ok = ok and I.prove(ls, m + 1 - l2) and I.prove(ls, u2 - u)
            if I.assume(ls, B('cmp', 'sgt', c, ZERO, 32, False), True):		# too great: go left of it
                ok = ok and I.prove(ls, l - l2) and I.prove(ls, u2 - m)
            if ok:
                left.append(x)
        if left:
            self.good('search')
        else:
            self.viol(I, ls, None, 'search', 'a probe drops elements that may match, or does not narrow the search', 'narrow')
        self.ivals[tag] = left or cs

    def shrinks(self, I, st, d, d2):
        a, b = st.copy(), st.copy()		# by cases: halving one is zero
        return (not I.add_eq(a, d - 1) or I.prove(a, Lin(0) - d2)) and (not I.add_fact(b, d - 2) or I.prove(b, d - 1 - d2))

    def check_bsearch(self, I, st, ins, v):
        a = self.slices[0]
        if I.prove_eq(st, v, Lin(-1)):
            if I.prove_eq(st, a.num, ZERO) or any(u is not None and I.prove(st, l - u) for cs in self.ivals.values() for l, u in (self.interval(I, st, x) for x in cs)) \
                    or not any(self.ivals.values()):
                self.good('search', ins)
            else:
                self.viol(I, st, ins, 'search', 'gives up although elements remain to be searched', 'givesup')
            return
        if not (I.prove(st, v) and I.prove(st, a.num - 1 - v)):
            self.viol(I, st, ins, 'content', 'returns %s, not -1 or an index of the array' % I.show(v), 'range')
            return
        m, c = st.ts.get('probe'), st.vals.get(st.ts.get('pred'))
        if m is not None and isinstance(c, Lin) and I.prove_eq(st, m, v) and I.prove_eq(st, c, ZERO):
            self.good('search', ins)
        else:
            self.viol(I, st, ins, 'search', 'returns an index whose element need not match', 'match')

    # ---- inject: the accumulator is what the last callback returned
    def check_accum(self, I, st, ins, val):
        p = st.ts.get('accum')
        b, o = I.split_ptr(st, self.args['s'])
        if I.prove_eq(st, self.slices[0].num, ZERO):
            ok = self.same_value(I, st, val, I.cell(st, b, o, ES, 0))
        else:
            ok = p is None or self.same_value(I, st, val, I.load(st, p, ES))
        if ok:
            self.good('content', ins)
        else:
            self.viol(I, st, ins, 'content', 'returns %s, not what the last callback returned' % I.show(val), 'accum')

    def check_quant(self, I, st, ins, val, op):
        for t in (True, False):
            for s2 in I.assume(st, val, t) if isinstance(val, B) else [st] if val == Lin(int(t)) else []:
                allseen = self.covered(I, s2, ZERO, self.slices[0].num - 1, 1)
                p = self.predicate(I, s2) if 'pred' in s2.ts else None
                if op == 'all':
                    ok = allseen if t else p is False
                elif op == 'any':
                    ok = p is True if t else allseen
                else:
                    cs = [self.truth(s2.vals.get(x), I, s2) for ok, x in ((all(v), k) for k, v in self.ones.items()) if ok]
                    if not cs:
                        ok = allseen if t else allseen or p is True
                    elif t:
                        ok = allseen and any(c == 1 for c in cs)
                    else:
                        ok = allseen and any(c in (0, 2) for c in cs) or p is True and any(c in (1, 2) for c in cs)
                if ok:
                    self.good('search', ins)
                else:
                    self.viol(I, s2, ins, 'search', 'answers %s without having seen what settles it' % t, 'quant')

    def truth(self, v, I, st):
        """0, 1, 2 (more than 1) or None: how many matches a flag or counter stands for"""
        if isinstance(v, B):
            r = [t for t in (True, False) if I.assume(st, v, t)]
            return int(r[0]) if len(r) == 1 else None
        if not isinstance(v, Lin):
            return None
        return 0 if I.prove_eq(st, v, ZERO) else 1 if I.prove_eq(st, v, Lin(1)) else 2 if I.prove(st, v - 2) else None

    def one_iteration(self, I, hs, ls, tag):
        p = self.predicate(I, ls) if 'pred' in ls.ts else None
        s0, init = I.linit[tag]
        flags = {}
        for i in I.fn.blocks[tag[0]]['ins']:
            if i['op'] == 'phi' and i['ty'] in ('i1', 'i8', 'i32', 'i64') and I.prove_eq(s0, I.b2i(init[i['id']]) if isinstance(init[i['id']], B) else init[i['id']], ZERO):
                x, y = hs.vals.get(i['id']), ls.vals.get(i['id'])
                flags[i['id']] = (i['ty'] in ('i1', 'i8'), x, y)
        for k, (flag, x, y) in flags.items():
            if p is None:
                continue
            if p:
                ok = self.truth(x, I, ls) == 0 and self.truth(y, I, ls) == 1 or not flag and isinstance(x, Lin) and isinstance(y, Lin) and I.prove_eq(ls, y - x, Lin(1))
            else:
                ok = x == y
            self.ones.setdefault(k, []).append(ok)
            if flag and p is True and not ok:
                self.viol(I, ls, None, 'search', 'goes on after a second match, or forgets the first', 'second')

    def accum_iteration(self, I, hs, ls):
        p = ls.ts.get('accum')
        r = ls.vals.get(ls.ts.get('pred'))
        if p is not None and isinstance(r, Lin):
            if self.same_value(I, ls, I.load(ls, p, ES), r):
                self.good('content')
            else:
                self.viol(I, ls, None, 'content', 'the accumulator is not what the callback returned', 'accum')

    def check_ptr(self, I, st, ins, val, i, r):
        a = self.slices[0]
        want = r.start + (r.off + i).scale(ES)
        if not I.prove_eq(st, val, want):
            self.viol(I, st, ins, 'content', 'returns a reference to %s, should be %s' % (I.show(val), I.show(want)), 'ref')
        elif not self.const0 and not I.prove(st, Lin(1) - r.rc):
            self.viol(I, st, ins, 'cow', 'returns a mutable reference into a body that may be shared', 'mutref')
        else:
            self.good('content', ins)

    def check_search(self, I, st, ins, v, d):
        a = self.slices[0]
        g = self.args
        lo, hi = ZERO, a.num - 1
        if 'after' in g:
            lo = g['after'] + 1
        if 'before' in g:
            for s2 in I.assume(st, B('cmp', 'sge', g['before'], ZERO, 32, False), True):
                self.search_range(I, s2, ins, v, d, ZERO, g['before'] - 1)
            for s2 in I.assume(st, B('cmp', 'sge', g['before'], ZERO, 32, False), False):
                self.search_range(I, s2, ins, v, d, ZERO, a.num - 1)
            return
        self.search_range(I, st, ins, v, d, lo, hi)

    def search_range(self, I, st, ins, v, d, lo, hi):
        a = self.slices[0]
        e = self.args.get('e')
        scans = st.ts.get('scan', ())
        if I.prove_eq(st, v, Lin(-1)):
            if I.prove(st, lo - hi - 1):
                self.good('search', ins)		# nothing to search
                return
            # every position in lo..hi was looked at
            if self.covered(I, st, lo, hi, d):
                self.good('search', ins)
            else:
                self.viol(I, st, ins, 'search', 'reports no match without looking at every element of the range', 'missed')
            return
        if not (I.prove(st, v - lo) and I.prove(st, hi - v)):
            self.viol(I, st, ins, 'search', 'returns %s, which may lie outside the range to search' % I.show(v), 'range')
            return
        if isinstance(e, Lin) and a.data is not None:
            b, o = I.split_ptr(st, e)
            ev = I.cell(st, b, o, ES, 0)
            rv = I.cell(st, a.data.t[0][0], (a.off + v).scale(ES), ES, 0)
            ok = self.eq_known(I, st, ev, rv)
            if not ok:
                self.viol(I, st, ins, 'search', 'returns a position whose element need not match', 'match')
                return
        # nothing before the match (in search direction) was skipped
        if not (self.covered(I, st, lo, v - 1, d) if d > 0 else self.covered(I, st, v + 1, hi, d)):
            self.viol(I, st, ins, 'search', 'may skip a match nearer the start of the search', 'skip')
            return
        self.good('search', ins)

    def eq_known(self, I, st, x, y):
        if self.same_value(I, st, x, y):
            return True
        # a cell that is syntactically different but provably at the same place
        for f in st.facts:
            for g in (f,):
                if len(g.t) == 2 and {n for _, n in g.t} == {1, -1} and g.c == 0:
                    p, q = g.t[0][0], g.t[1][0]
                    for u, w in ((p, q), (q, p)):
                        if Lin(0, ((u, 1),)) == x and self.same_value(I, st, Lin(0, ((w, 1),)), y) and I.prove_eq(st, Lin(0, ((p, 1),)), Lin(0, ((q, 1),))):
                            return True
        return False

    def covered(self, I, st, lo, hi, d):
        """Did the scan, one element per iteration, pass over every index in lo..hi?"""
        a = self.slices[0]
        if I.prove(st, lo - hi - 1):
            return True
        for (first, c, ka) in self.allscans():
            k = Lin(0, ((ka, 1),))
            # iterations 0..k-1 are complete at the return
            if c == d and d > 0 and I.prove(st, lo - first) and I.prove(st, first + k - 1 - hi):
                return True
            if c == d and d < 0 and I.prove(st, first - hi) and I.prove(st, lo - (first - k + 1)):
                return True
        return False

    def allscans(self):
        return [s for ss in self.scans.values() for s in ss]

    def latch(self, I, hs, ls, header):
        self.may_continue(I, hs, ls, header)
        # reads that every completed iteration makes
        got = set(ls.ts.get('scan', ())) - set(hs.ts.get('scan', ()))
        self.scans[header] = self.scans[header] & got if header in self.scans else got

    def loop_ts(self, I, ts):
        ts.pop('scan', None)
        ts.pop('pred', None)
        ts.pop('did', None)
        ts.pop('seen', None)
        ts.pop('probe', None)
        ts.pop('accum', None)
        return ts

    def predicate(self, I, st):
        """What the callback returned in this iteration: True, False or None"""
        b = st.vals.get(st.ts.get('pred'))
        if not isinstance(b, B):
            return None
        r = [t for t in (True, False) if I.assume(st, b, t)]
        return r[0] if len(r) == 1 else None

    def may_continue(self, I, hs, ls, tag):
        """The scan may pass an element only if that element does not settle the answer."""
        op = self.root[2:]
        ins = None
        a = self.slices[0]
        if op in CONT:
            if 'pred' not in ls.ts:
                return
            if self.predicate(I, ls) == CONT[op]:
                self.good('search')
            else:
                self.viol(I, ls, None, 'search', 'goes on past an element that settles the answer', 'goeson')
        elif op in ('find', 'rfind') and a.data is not None:
            e = self.args.get('e')
            b, o = I.split_ptr(ls, e)
            ev = I.cell(ls, b, o, ES, 0)
            ka = I.A.key.get(('lv',) + ())
            for first, c, k in set(ls.ts.get('scan', ())) - set(hs.ts.get('scan', ())):
                x = I.cell(ls, a.data.t[0][0], (a.off + first + Lin(0, ((k, c),))).scale(ES), ES, 0)
                if I.add_eq(ls.copy(), x - ev):
                    self.viol(I, ls, None, 'search', 'goes on past a matching element', 'goeson')
                else:
                    self.good('search')
        elif op in ('eq', 'ne', 'compare') and len(self.slices) == 2 and a.data is not None and self.slices[1].data is not None:
            b = self.slices[1]
            for first, c, k in set(ls.ts.get('scan', ())) - set(hs.ts.get('scan', ())):
                i = first + Lin(0, ((k, c),))
                x = I.cell(ls, a.data.t[0][0], (a.off + i).scale(ES), ES, 0)
                y = I.cell(ls, b.data.t[0][0], (b.off + i).scale(ES), ES, 0)
                if I.prove_eq(ls, x, y):
                    self.good('compare')
                else:
                    self.viol(I, ls, None, 'compare', 'goes on past elements that differ', 'goeson')
        elif op == 'bsearch':
            self.bsearch_iteration(I, hs, ls, tag)
        elif op == 'one':
            self.one_iteration(I, hs, ls, tag)
        elif op == 'inject':
            self.accum_iteration(I, hs, ls)
        elif op in CONTRACT:
            self.contract_iteration(I, hs, ls, op, tag)

    # ---- operations analysed against the specification of push and set rather than through them
    def contract_call(self, I, st, ins, name):
        dem = I.mod.dem.get(name, name)
        m = re.search(KEEP, dem)
        if not m:
            return None
        op = m.group(1)
        this = I.lin(st, ins['ops'][0])
        self.contract_objs.add(I.split_ptr(st, this)[0])
        R = self.R
        num = self.cur(I, st, this, R.num)
        if op in ('push', 'append', 'operator<<', 'operator+=') and 'int const&' in dem.split('::')[-1]:
            I.store(st, this + R.num[0], R.num[1], num + 1)
            v = self.arg_value(I, st, I.lin(st, ins['ops'][1]))
            st.ts['did'] = st.ts.get('did', ()) + (('push', v),)
        elif op == 'set':
            i = I.lin(st, ins['ops'][1])
            if I.collect and not (I.prove(st, i) and I.prove(st, num - 1 - i)):
                self.viol(I, st, ins, 'abort', 'sets an element outside the array', 'set')
            v = self.arg_value(I, st, I.lin(st, ins['ops'][2]))
            st.ts['did'] = st.ts.get('did', ()) + (('set', i, v),)
        else:
            raise Broken('%s uses %s, for which there is no summary' % (self.root, dem))
        body = I.fresh('unshared body', ptr=True, lo=1 << 12, hi=1 << 47, ident='contract', ins=ins)
        I.store(st, this + R.body[0], R.body[1], body)
        I.store(st, this + R.off[0], R.off[1], I.fresh('unshared offset', lo=0, hi=1 << 26, ins=ins))
        return I.result(st, ins, op)

    def arg_value(self, I, st, p):
        b, o = I.split_ptr(st, p)
        return I.load(st, p, ES)

    def contract_iteration(self, I, hs, ls, op, tag):
        if 'pred' not in ls.ts:
            return
        did = ls.ts.get('did', ())
        new = [d for d in did if d not in hs.ts.get('did', ())]
        scan = list(set(ls.ts.get('scan', ())) - set(hs.ts.get('scan', ())))
        a = self.slices[0]
        cells = [v for v in ls.ts.get('seen', ()) if v not in hs.ts.get('seen', ())]
        if op == 'map':
            r = ls.vals.get(ls.ts['pred'])
            ok = len(new) == 1 and new[0][0] == 'push' and new[0][1] == r
            msg = 'an iteration does not append exactly what the callback returned'
        elif op == 'select':
            p = self.predicate(I, ls)
            ok = p is not None and (len(new) == int(p)) and all(d[0] == 'push' and any(self.same_value(I, ls, d[1], c) for c in cells) for d in new)
            msg = 'an iteration does not append exactly the element the condition accepted'
        else:
            p = self.predicate(I, ls)
            ok = False
            for i in I.fn.blocks[tag[0]]['ins']:		# which variable counts the elements kept?
                if i['op'] != 'phi' or p is None:
                    continue
                x, y = hs.vals.get(i['id']), ls.vals.get(i['id'])
                if not isinstance(x, Lin) or not isinstance(y, Lin):
                    continue
                right = y - x == Lin(int(not p))
                self.counter[x] = self.counter.get(x, True) and right
                if right and not p:
                    for f, c, k in scan:
                        at = f + Lin(0, ((k, c),))
                        if not new and I.prove_eq(ls, x, at) or len(new) == 1 and new[0][0] == 'set' and I.prove_eq(ls, new[0][1], x) \
                                and I.prove(ls, at - x) and any(self.same_value(I, ls, new[0][2], z) for z in cells):
                            ok = True
            if p and not new:
                ok = True
            msg = 'an iteration does not keep exactly the element the condition spared'
        if ok:
            self.good('content')
        else:
            self.viol(I, ls, None, 'content', msg, 'iteration')

    def call(self, I, st, ins, name):
        if self.contract and name is not None:
            r = self.contract_call(I, st, ins, name)
            if r is not None:
                return r
        return SliceRule.call(self, I, st, ins, name)

    def access(self, I, st, ins, addr, size, write, val):
        SliceRule.access(self, I, st, ins, addr, size, write, val)
        # element reads that move by one element per iteration
        a = self.slices[0] if self.slices else None
        if not write and a is not None and a.data is not None and self.scanning:
            self.note_scan(I, st, addr)

    def icall(self, I, st, ins):
        if len(ins['ops']) == 3 and ins['ops'][2][0] == 'c' and ins['ty'] == 'i1':
            return		# std::function copying or destroying its target
        st.ts['pred'] = ins['id']
        if self.root[2:] == 'bsearch' and len(ins['ops']) == 2:
            st.ts['probe'] = self.index_of(I, st, I.val(st, ins['ops'][1]))
        if self.root[2:] == 'inject' and len(ins['ops']) == 3:
            st.ts['accum'] = I.val(st, ins['ops'][1])
        if self.scanning and self.slices and self.slices[0].data is not None:
            for o in ins['ops']:
                v = I.val(st, o)
                if isinstance(v, Lin):
                    self.note_scan(I, st, v)

    def where_elems(self, I, st):
        """(base, offset) of the array's elements now: its body may have been replaced by a summarised operation"""
        a = self.slices[0]
        if not self.contract or self.const0:
            return (a.data.t[0][0], a.off) if a.data is not None else (None, None)
        body = self.cur(I, st, a.ptr, self.R.body)
        if I.resolve(st, body) == ZERO:
            return None, None
        d, z = I.split_ptr(st, I.resolve(st, self.cur(I, st, body, self.R.start)))
        return d, self.cur(I, st, a.ptr, self.R.off)

    def note_scan(self, I, st, addr):
        a = self.slices[0]
        b, off = I.split_ptr(st, addr)
        d, aoff = self.where_elems(I, st)
        if b is not None and b == d:
            for at, n in off.t:
                k = I.info(at)['key']
                if k[0] == 'lv' and k[2] == 'k' and abs(n) == ES:
                    first = off - Lin(0, ((at, n),)) - aoff.scale(ES)
                    if all(x % ES == 0 for _, x in first.t) and first.c % ES == 0:
                        f = Lin(first.c // ES, tuple((y, x // ES) for y, x in first.t))
                        sc = (f, n // ES, at)
                        offs = {x for s in self.slices for x, _ in s.off.t}
                        if any(x in offs for x, _ in f.t):
                            continue		# a read through the other slice of the same body
                        if self.contract:
                            v = I.load(st, addr, ES)
                            if v not in st.ts.get('seen', ()):
                                st.ts['seen'] = st.ts.get('seen', ()) + (v,)
                        if sc not in st.ts.get('scan', ()):
                            st.ts['scan'] = st.ts.get('scan', ()) + (sc,)

    def check_cmp(self, I, st, ins, val, op):
        a, b = self.slices[0], self.slices[1]
        if isinstance(val, B):
            for t in (True, False):
                for s2 in I.assume(st, val, t):
                    self.cmp_one(I, s2, ins, Lin(int(t)), op)
            return
        self.cmp_one(I, st, ins, val, op)

    def cmp_one(self, I, st, ins, v, op):
        a, b = self.slices[0], self.slices[1]
        n, m = a.num, b.num
        ks = self.allscans()
        if v.t:
            self.viol(I, st, ins, 'compare', 'returns an undetermined value %s' % I.show(v), 'odd')
            return
        sign = (v.c > 0) - (v.c < 0)
        if op in ('eq', 'ne'):
            sign = 0 if v.c == (1 if op == 'eq' else 0) else 2
        # where did the scan stop?
        def elem(s, i):
            return I.cell(st, s.data.t[0][0], (s.off + i).scale(ES), ES, 0) if s.data is not None else None
        stops = [ZERO] + [f + Lin(0, ((k, 1),)) for f, c, k in ks if c == 1]
        for p in stops:
            if p != ZERO and not any(I.prove_eq(st, f, ZERO) for f, c, k in ks):
                continue
            inside = I.prove(st, n - 1 - p) and I.prove(st, m - 1 - p)
            if sign == 0 and I.prove_eq(st, n, m) and I.prove(st, p - n):
                return self.good('compare', ins)
            if sign == 2 and not I.add_eq(st.copy(), n - m):
                return self.good('compare', ins)
            if inside:
                x, y = elem(a, p), elem(b, p)
                if sign == -1 and I.prove(st, y - x - 1) or sign == 1 and I.prove(st, x - y - 1):
                    return self.good('compare', ins)
                if sign == 2 and (I.prove(st, y - x - 1) or I.prove(st, x - y - 1) or not I.add_eq(st.copy(), x - y)):
                    return self.good('compare', ins)
            if sign == -1 and I.prove_eq(st, p, n) and I.prove(st, m - n - 1):
                return self.good('compare', ins)
            if sign == 1 and I.prove_eq(st, p, m) and I.prove(st, n - m - 1):
                return self.good('compare', ins)
        self.viol(I, st, ins, 'compare', 'returns %s where the order of the arrays does not follow' % I.show(v), 'order')


CONT = {'all': True, 'any': False, 'findf': False, 'rfindf': False, 'detect': False}
CONTRACT = ('select', 'map', 'delete_if')
KEEP = r'ArrayR<[^()]*>::(push|append|operator<<|operator\+=|insert|unshift|set|remove)\('
A_CONST = ['N', 'S', 'T']
A_MUT = ['N', 'E', 'U', 'S', 'T']
SCAN = ('find', 'rfind', 'compare', 'eq', 'ne', 'findf', 'rfindf', 'detect',
        'each', 'all', 'any', 'one', 'select', 'map', 'inject', 'delete_if')


def jobs(mod, roles):
    out = []
    for f in sorted(mod.fns):
        if f[:2] not in ('c_', 'm_', 'w_'):
            continue
        fn = mod.fn(f)
        ns = sum(1 for i, a in enumerate(fn.args) if a['ty'] == 'ptr' and not a['sret'] and
                 mod.pointee(fn.j['ditypes'][i - (1 if fn.args[0]['sret'] else 0) + 1]) == roles.slice_t)
        c0 = f[0] == 'c'
        if f == 'c_last':
            c0 = True
        first = A_CONST if c0 else A_MUT
        if ns == 1:
            out += [(f, c0, (k,), False) for k in first]
        elif ns == 2:
            out += [(f, c0, (k, l), False) for k in first for l in A_CONST]
            out += [(f, c0, (k, k), True) for k in 'ST']
        else:
            raise Broken('root %s has %d slices' % (f, ns))
    return out


def run_job(mod, roles, job, prop, tier):
    f, c0, kinds, same = job
    rep = Report(prop, tier)
    case = ','.join(kinds) + ('=' if same else '')
    rule = ArrayRule(roles, rep, f, case, c0)
    rule.scanning = f[2:] in SCAN
    rule.scans = {}
    rule.contract_objs = set()
    rule.counter = {}
    rule.ivals = {}
    rule.ones = {}
    rule.contract = f[2:] in CONTRACT
    fn = mod.fn(f)
    I = Interp(mod, rule)
    I.MAXSTATES = 400
    rule.fnret = None

    def setup(I, st):
        rule.setup_args(I, st, fn, kinds, same)
        sret = [st.vals[('a', n)] for n, a in enumerate(fn.args) if a['sret']]
        d = fn.j['ditypes'][0]
        if sret and I.mod.strip(d) == roles.slice_t:
            rule.fnret = sret[0]
        rule.args['st'] = st
        rule.spec = spec(f, rule.args, I)
        rule.feasible = all(I.add_fact(st, p) for p in rule.spec[0])
    try:
        # an infeasible precondition means the case does not arise
        probe = I.init_state(fn)
        setup(I, probe)
        if not rule.feasible:
            return rep.dump()
        rule.slices = []
        rets = I.run(fn, None, setup)
    except ai.Limit as e:
        raise Broken('%s %s: %s' % (f, case, e))
    rep.paths = len(rets)
    rep.functions.add(f[2:] + ' (' + f + ')')
    for x in fn.j['blocks']:
        for i in x['ins']:
            for fr in i.get('loc') or []:
                if fr[0].startswith(build.REPO):
                    rep.functions.add(fr[2])
    for w in I.warn:
        rep.notes.append('%s: %s' % (f, w))
    return rep.dump()


# ---- the checks
ISOLATION = ('cow', 'const', 'static', 'refcount', 'memory', 'bounds')
RESULT = ('content', 'search', 'compare', 'invariant', 'abort', 'domain')
_ctx = {}


def _job(job):
    mod, roles = _ctx['contract' if job[0][2:] in CONTRACT else 'plain']
    try:
        return job, run_job(mod, roles, job, _ctx['prop'], _ctx['tier']), None
    except (Broken, ai.Limit) as e:
        return job, None, str(e)


def run_all(rep, rules):
    from multiprocessing import Pool
    j = build.lower(['d_array.cpp'], roots=['^[rcmw]_'])
    j2 = build.lower(['d_array.cpp'], roots=['^r_', '^[cm]_(%s)' % '|'.join(CONTRACT)], keep=[KEEP])
    for n, x in (('plain', j), ('contract', j2)):
        mod = ai.Mod(x)
        _ctx[n] = (mod, Roles(mod, ES))
    _ctx.update(prop=rep.prop, tier=rep.tier)
    js = jobs(*_ctx['plain'])
    js.sort(key=lambda x: x[0] not in ('m_insert', 'm_add', 'm_append'))
    undecided = []
    with Pool(8) as p:
        for job, r, err in p.imap_unordered(_job, js):
            if err:
                undecided.append((job, err))
                continue
            r['viol'] = {k: v for k, v in r['viol'].items() if v['rule'] in rules}
            for d in ('oblig', 'sites'):
                r[d] = {k: v for k, v in r[d].items() if k in rules}
            r['sample'] = [s for s in r['sample'] if s['rule'] in rules]
            rep.merge(r)
    for job, err in undecided:
        rep.notes.append('undecided: %s %s: %s' % (job[0], ','.join(job[2]), err))
    if len(undecided) > len(js) // 4:
        raise Broken('%d of %d cases undecided, first: %s' % (len(undecided), len(js), undecided[0]))
    rep.assume += ['an array body holds at most 2^26 elements, so that byte sizes do not overflow',
                   'instantiated at Array<int>; element type operations are plain loads and stores',
                   'callbacks do not modify the array they are called from']


def check_isolation(rep):
    run_all(rep, ISOLATION)
    rep.require('bounds', 20)
    rep.require('refcount', 30)


def check_results(rep):
    run_all(rep, RESULT)
    rep.require('content', 25)
    rep.require('search', 6)
