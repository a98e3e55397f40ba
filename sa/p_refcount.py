"""The reference counting protocol: the count itself (atomicity, who deletes) and the counted reference (balance, order)."""
from . import build, ai
from .ai import Lin, ZERO, B, Interp, Rule
from .slices import site
from .build import Broken

STRONG = ('acq_rel', 'seq_cst')


class CountRule(Rule):
    """AddRef / Release: every access to the count is one whose value another thread may have changed."""

    def __init__(self, rep, root, rc):
        self.rep, self.root, self.rc = rep, root, rc

    def viol(self, ins, rule, msg, key):
        loc, k = site(ins) if ins else ('?', '?')
        self.rep.bad(rule, loc, '%s:%s' % (k, key), '%s: %s' % (self.root[2:], msg))

    def good(self, rule, ins):
        self.rep.ok(rule, '%s %s' % (self.root, site(ins)[0] if ins else ''))

    def access(self, I, st, ins, addr, size, write, val):
        b, off = I.split_ptr(st, addr)
        if b != self.this:
            return
        if st.ts.get('deleted'):
            self.viol(ins, 'lifetime', 'uses the object after deleting it', 'after')
        elif st.ts.get('given') is not None and not self.sole(I, st):
            self.viol(ins, 'lifetime', 'touches the object after giving up its reference, when another thread may have deleted it', 'given')
        if off != Lin(self.rc[0]):
            return
        if ins['op'] in ('load', 'store') and not ins.get('atomic') or ins['op'] not in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            self.viol(ins, 'atomic', 'accesses the count non-atomically', 'plain')
            return
        self.good('atomic', ins)
        if ins['op'] == 'cmpxchg':
            raise Broken('%s uses compare-and-swap, for which there is no rule' % self.root)
        if ins['op'] == 'store' and self.root != 'a_construct':
            self.viol(ins, 'atomic', 'overwrites the count, losing what other threads did', 'store')
        # another thread may have got in since
        I.write(st, b, off, Lin(self.rc[1]), I.fresh('count', lo=-(1 << 31), hi=(1 << 31) - 1, ins=ins), ('s', ins['id']))
        if ins['op'] == 'atomicrmw':
            v = I.lin(st, ins['ops'][1])
            d = v if ins['rmw'] == 'add' else v.neg() if ins['rmw'] == 'sub' else None
            if d is None or d.t:
                self.viol(ins, 'atomic', 'changes the count other than by one', 'rmw')
                return
            old = I.load(st, addr, self.rc[1])
            st.ts['rmw'] = st.ts.get('rmw', ()) + ((d.c if d.c < 1 << 31 else d.c - (1 << 32), old, ins['ordering']),)
            if st.ts['rmw'][-1][0] < 0:
                st.ts['given'] = old

    def sole(self, I, st):
        """Did our own decrement take the count to zero?"""
        return I.prove_eq(st, st.ts['given'], Lin(1))

    def call(self, I, st, ins, name):
        if name is None and ins['ops'] and I.lin(st, ins['ops'][0]) == Lin(0, ((self.this, 1),)):
            if st.ts.get('deleted'):
                self.viol(ins, 'lifetime', 'deletes the object twice', 'twice')
            st.ts['deleted'] = True
            st.ts['delins'] = ins['id']
            if st.ts.get('given') is None:
                self.viol(ins, 'lifetime', 'deletes the object without giving up a reference', 'undec')
            elif not self.sole(I, st):
                self.viol(ins, 'lifetime', 'deletes the object though its own decrement need not have been the last', 'notlast')
            else:
                self.good('lifetime', ins)
                if st.ts['rmw'][-1][2] not in STRONG and not st.ts.get('fence'):
                    self.viol(ins, 'atomic', 'the decrement is too weakly ordered (%s) for other threads\' changes to be complete before deletion' % st.ts['rmw'][-1][2], 'order')
            return [st]
        if name in ('_ZdlPv', '_ZdlPvm', '_ZN3ObjD0Ev'):
            st.ts['deleted'] = True
            if not (st.ts.get('given') is not None and self.sole(I, st)):
                self.viol(ins, 'lifetime', 'deletes the object though its own decrement need not have been the last', 'notlast')
            return [st]
        if name == '__assert_fail':
            return []
        return None

    def op_fence(self, *a):
        pass

    def ret(self, I, st, ins, val):
        rm = st.ts.get('rmw', ())
        net = [d for d, _, _ in rm]
        want = {'a_addref': [1], 'a_release': [-1]}.get(self.root, [])
        if net != want:
            self.viol(ins, 'atomic', 'changes the count by %s on some path; should be %s, in one atomic step' % (net or 'nothing', want or 'nothing'), 'net')
            return
        self.good('atomic', ins)
        if self.root == 'a_release' and not st.ts.get('deleted'):
            s2 = st.copy()
            if I.add_eq(s2, st.ts['given'] - 1):
                self.viol(ins, 'lifetime', 'does not delete the object though its own decrement may have been the last', 'leak')
            else:
                self.good('lifetime', ins)


class RefRule(Rule):
    def __init__(self, rep, root, case, cell):
        self.rep, self.root, self.case, self.cell = rep, root, case, cell

    def viol(self, ins, rule, msg, key):
        loc, k = site(ins) if ins else ('?', '?')
        self.rep.bad(rule, loc, '%s:%s:%s' % (self.root, k, key), '%s: %s' % (self.root[2:], msg), ['case %s' % self.case])

    def good(self, rule, ins):
        self.rep.ok(rule, '%s[%s] %s' % (self.root, self.case, site(ins)[0] if ins else ''))

    def obj(self, I, st, v):
        b, off = I.split_ptr(st, I.resolve(st, v))
        return b

    def alive(self, st, b):
        return self.init.get(b, 0) + st.ts.get(('n', b), 0) >= 1 or not st.ts.get(('rel', b))

    def access(self, I, st, ins, addr, size, write, val):
        b, off = I.split_ptr(st, addr)
        if b in self.objs and not self.alive(st, b):
            self.viol(ins, 'balance', 'uses an object after releasing what may be the last reference to it', 'dead')

    def call(self, I, st, ins, name):
        dem = I.mod.dem.get(name, '') if name else ''
        if dem.startswith('RefCounted::AddRef') or dem.startswith('RefCounted::Release'):
            b = self.obj(I, st, I.lin(st, ins['ops'][0]))
            if b is None or I.prove(st, I.lin(st, ins['ops'][0]).neg()):
                self.viol(ins, 'balance', 'counts a reference to null', 'null')
                return [st]
            if not self.alive(st, b):
                self.viol(ins, 'balance', 'counts an object after releasing what may be the last reference to it', 'dead')
            add = 'AddRef' in dem
            st.ts[('n', b)] = st.ts.get(('n', b), 0) + (1 if add else -1)
            if not add:
                st.ts[('rel', b)] = True
                # a released reference must not still be what somebody may follow
                if self.root != 'f_dtor' and self.init.get(b, 0) + st.ts[('n', b)] < self.held(I, st, b):
                    self.viol(ins, 'balance', 'releases an object while a reference still points to it: its destructor could see or reuse that reference', 'order')
            self.good('balance', ins)
            return [st]
        if name == '__assert_fail':
            return []
        return None

    def held(self, I, st, b):
        """References known to hold b: the operands (temporaries are not looked at)"""
        n = 0
        for c in self.cells:
            v = I.resolve(st, I.load(st, c + self.cell[0], self.cell[1]))
            if isinstance(v, Lin) and v == Lin(0, ((b, 1),)):
                n += 1
        return n


# expected final operand values: name -> (reference operand, what) pairs; None = as before
def expect(root, a):
    r, o = a.get('r'), a.get('o')
    return {'f_ctor': {'m': ZERO}, 'f_ctor_raw': {'m': o}, 'f_ctor_copy': {'m': o}, 'f_assign': {'r': o}, 'f_assign_raw': {'r': o},
            'f_assign_null': {'r': ZERO}, 'f_return_copy': {'m': o}, 'f_swap': {'a': a.get('b'), 'b': a.get('a')}}.get(root, {})


def check_refcount(rep):
    j = build.lower(['d_refcount.cpp'], roots=['^[ra]_'])
    mod = ai.Mod(j)
    I = Interp(mod, None)
    rs = I.run(mod.fn('r_count'))
    v = rs[0][1]
    if len(rs) != 1 or not isinstance(v, Lin) or len(v.t) != 1 or I.info(v.t[0][0])['key'][0] != 'ld':
        raise Broken('cannot find the count')
    k = I.info(v.t[0][0])['key']
    rc = (k[2].c, k[3])
    for root in ('a_addref', 'a_release', 'a_count', 'a_construct'):
        rule = CountRule(rep, root, rc)
        I = Interp(mod, rule)
        fn = mod.fn(root)

        def setup(I, st):
            rule.this = st.vals[('a', 0)].t[0][0]
            I.info(rule.this)['ident'] = 'arg'
        if root == 'a_construct':
            rule.access = lambda *a: None
            for s, v, i in I.run(fn, None, setup):
                c = I.load(s, Lin(rc[0], ((rule.this, 1),)), rc[1])
                if c == ZERO:
                    rule.good('atomic', i)
                else:
                    rule.viol(i, 'atomic', 'a new object starts with count %s' % I.show(c), 'init')
        else:
            rets = I.run(fn, None, setup)
            rep.paths += len(rets)
            if not rets:
                raise Broken('%s never returns' % root)
        rep.functions.add(root[2:])
    j = build.lower(['d_refcount.cpp'], roots=['^[rf]_'], keep=[r'RefCounted::(AddRef|Release)\('])
    mod = ai.Mod(j)
    I = Interp(mod, None)
    v = [v for s, v, i in I.run(mod.fn('r_ptr'))]
    if len(v) != 1 or not isinstance(v[0], Lin) or len(v[0].t) != 1:
        raise Broken('cannot find the pointer in a counted reference')
    k = I.info(v[0].t[0][0])['key']
    cell = (k[2].c, k[3])
    for root in sorted(mod.fns):
        if root[0] != 'f':
            continue
        fn = mod.fn(root)
        names = [a['name'] for a in fn.args]
        ops = [n for n in names if n != 'm']
        kinds = [(x,) for x in 'nA'] if len(ops) == 1 else [(x, y) for x in 'nA' for y in 'nAB'] if len(ops) == 2 else [()]
        for case in kinds:
            run_ref(rep, mod, fn, root, cell, dict(zip(ops, case)))
    rep.require('atomic', 4)
    rep.require('lifetime', 2)
    rep.require('balance', 20)


def run_ref(rep, mod, fn, root, cell, case):
    rule = RefRule(rep, root, ','.join('%s=%s' % c for c in case.items()), cell)
    I = Interp(mod, rule)
    start = {}

    def setup(I, st):
        rule.objs, rule.init, rule.cells = {}, {}, []
        at = {}
        for n in 'AB':
            at[n] = I.atom(('obj', n), name='object ' + n, ptr=True, lo=1 << 12, hi=1 << 47, nonnull=True, ident='init', init=True)
        for i, a in enumerate(fn.args):
            v = st.vals[('a', i)]
            nm = a['name']
            isref = I.mod.types[I.mod.strip(fn.j['ditypes'][i + 1])]['tag'].find('reference') >= 0
            x = at.get(case.get(nm), ZERO)
            if nm != 'm' and not isref:
                st.vals[('a', i)] = x		# a raw pointer
                start[nm] = x
                if x.t:
                    rule.objs[x.t[0][0]] = nm
                continue
            I.info(v.t[0][0])['ident'] = 'arg'
            rule.cells.append(v)
            if nm == 'm':
                continue
            start[nm] = x
            I.write(st, v.t[0][0], Lin(cell[0]), Lin(cell[1]), x, ('init', cell[0]))
            if x.t:
                b = x.t[0][0]
                rule.objs[b] = nm
                rule.init[b] = rule.init.get(b, 0) + 1
        rule.start = start
    try:
        rets = I.run(fn, None, setup)
    except ai.Limit as e:
        raise Broken('%s: %s' % (root, e))
    if not rets:
        raise Broken('%s never returns' % root)
    rep.paths += len(rets)
    rep.functions.add(root[2:])
    for st, val, ins in rets:
        want = dict(start)
        want.update(expect(root, start))
        fin = {}
        for i, a in enumerate(fn.args):
            nm = a['name']
            if st.vals[('a', i)] not in rule.cells:
                continue
            v = I.resolve(st, I.load(st, st.vals[('a', i)] + cell[0], cell[1]))
            if root == 'f_dtor':
                continue
            if root != 'f_unshare' and nm in want and v != want[nm] and not I.prove_eq(st, v, want[nm]):
                rule.viol(ins, 'balance', 'leaves %s referring to %s, should be %s' % (nm, I.show(v), I.show(want[nm])), 'value')
            b = rule.obj(I, st, v) if v != ZERO else None
            if b is not None:
                fin[b] = fin.get(b, 0) + 1
        for b in set(fin) | set(rule.init) | {k[1] for k in st.ts if isinstance(k, tuple) and k[0] == 'n'}:
            d = fin.get(b, 0) - rule.init.get(b, 0)
            n = st.ts.get(('n', b), 0)
            if d != n:
                rule.viol(ins, 'balance', 'the count of %s changes by %+d, but the references to it by %+d' % (I.info(b)['name'], n, d), 'net')
            else:
                rule.good('balance', ins)
        if root in ('f_get', 'f_arrow', 'f_star') and val != start['r']:
            if not (root == 'f_star' and start['r'] == ZERO):
                rule.viol(ins, 'balance', 'returns %s, not the object referred to' % I.show(val), 'ret')
