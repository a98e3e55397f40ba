"""Copy-on-write slices (arrays, strings): roles, entry cases, ownership rule, class invariants, content specifications."""
import re
from . import ai
from .ai import Lin, ZERO, B, Interp, Rule, where, at
from .build import Broken, REPO

SZ = 1 << 26		# assumed bound on body lengths (elements)


def site(ins):
    """(printable location, stable key): the innermost frame inside /repo"""
    l = ins.get('loc') or []
    best = None
    for f, n, fn in l:
        if '/drivers/' in f or f.startswith('/usr') or n == 0:
            continue
        best = (f.replace(REPO + '/', ''), n, fn)
        break
    if not best:
        return ('?', '?')
    return ('%s:%d' % best[:2], '%s/%s' % (best[0], short(best[2])))


_dem = {}


def demangle(fn):
    if not fn or not fn.startswith('_Z'):
        return fn
    if fn not in _dem:
        import subprocess
        _dem[fn] = subprocess.run(['c++filt', fn], stdout=subprocess.PIPE, text=True).stdout.strip() or fn
    return _dem[fn]


def short(fn):
    s = demangle(fn) or '?'
    s = s.replace('operator<<', 'operator-shl').replace('operator<', 'operator-lt').replace('operator->', 'operator-arrow').replace('operator>', 'operator-gt')
    s = s.replace('operator()', 'operator-call').replace('operator ', 'operator-')
    s = s.replace('(anonymous namespace)', 'anon')
    # drop template arguments and parameters
    for _ in range(6):
        t = re.sub(r'<[^<>]*>', '', s)
        if t == s:
            break
        s = t
    s = s.split('(')[0]
    return s.split(' ')[-1]


class Roles:
    """Where the slice keeps its body, start position and length, and the body its data, length, allocation and count.
    Found from what the accessors read, so a rename or a change of layout is followed."""

    def __init__(self, mod, es, need_off=True):
        self.mod, self.es = mod, es
        g = self.one('r_length')
        self.num = self.cell(g, 'r_length')
        self.slice_t = self.argtype('r_length')
        lens = self.all('r_elements')
        body = None
        for st, v in lens:
            if isinstance(v, Lin) and v.t:
                b = off = None
                for a, n in v.t:
                    i = self.I.info(a)
                    if i['ptr'] and n == 1 and i['key'][0] == 'ld':
                        self.start = (i['key'][2].c, i['key'][3])
                        bi = self.I.info(i['key'][1])
                        if bi['key'][0] == 'ld':
                            self.body = (bi['key'][2].c, bi['key'][3])
                            body = True
                    elif n == es and i['key'][0] == 'ld':
                        self.off = (i['key'][2].c, i['key'][3])
        if body is None or not hasattr(self, 'off'):
            raise Broken('cannot identify body/offset of the slice from its element accessor')
        self.bnum = self.cell(self.one('r_body_length'), 'r_body_length')
        self.rc = self.cell(self.one('r_body_refs'), 'r_body_refs')
        self.alloc = None
        for st, v in self.all('r_body_static'):
            for f in list(st.facts) + list(st.ne) + ([v] if isinstance(v, Lin) else []) + self.blins(v):
                for a, n in f.t:
                    k = self.I.info(a)['key']
                    if k[0] == 'ld' and (k[2].c, k[3]) != self.bnum:
                        self.alloc = (k[2].c, k[3])
        if self.alloc is None:
            raise Broken('cannot identify the allocation size of the body')
        self.body_t = self.argtype('r_body_length')
        _, leaf = mod.field(self.body_t, self.start[0], self.start[1])
        self.elem_t = mod.pointee(leaf)
        self.slice_size = mod.types[self.slice_t]['size']
        self.body_size = mod.types[self.body_t]['size']

    def blins(self, v):
        if isinstance(v, B):
            out = []
            for x in v.a:
                if isinstance(x, Lin):
                    out.append(x)
                elif isinstance(x, B):
                    out += self.blins(x)
            return out
        return []

    def all(self, root):
        self.I = Interp(self.mod, None)
        if root not in self.mod.fns:
            raise Broken('accessor %s vanished' % root)
        return [(s, v) for s, v, i in self.I.run(self.mod.fn(root))]

    def one(self, root):
        r = self.all(root)
        if len(r) != 1:
            raise Broken('accessor %s is not a plain read' % root)
        return r[0][1]

    def cell(self, v, what):
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            k = self.I.info(v.t[0][0])['key']
            if k[0] == 'ld' and not k[2].t:
                return (k[2].c, k[3])
        raise Broken('%s does not read a single field' % what)

    def argtype(self, root):
        d = self.mod.fns[root]['ditypes']
        return self.mod.pointee(d[1])


class Slice:
    """The initial state of one slice argument."""
    def __init__(self, name):
        self.name = name


class SliceRule(Rule):
    BODY_EXTRA = ()		# further body cells that a const operation may fill in: (offset, size)

    def __init__(self, roles, rep, root, case, const0, constrest=True):
        self.R, self.rep, self.root, self.case = roles, rep, root, case
        self.const0 = const0
        self.slices = []		# Slice per slice argument
        self.precond = []
        self.aborts = True		# assertion failures reachable under the precondition are violations

    # ---- entry state
    def setup_args(self, I, st, fn, kinds, same):
        R = self.R
        self.args = {}
        k = 0
        for n, a in enumerate(fn.args):
            v = st.vals.get(('a', n))
            if a['sret']:
                self.sret = v
                continue
            if a['ty'] != 'ptr' or not isinstance(v, Lin) or len(v.t) != 1:
                self.args[a['name']] = v
                continue
            info = I.info(v.t[0][0])
            if info['di'] == R.slice_t:
                s = Slice(a['name'])
                s.ptr = v
                s.kind = kinds[k]
                s.same = same and k == 1
                k += 1
                self.slices.append(s)
                self.args[a['name']] = s
            else:
                info['ident'] = 'arg'
                self.args[a['name']] = v
        for s in self.slices:
            self.init_slice(I, st, s)

    def cellw(self, I, st, base, cell, val):
        I.write(st, base, Lin(cell[0]), Lin(cell[1]), val, ('init', cell[0]))

    def atom(self, I, name, lo, hi, **kw):
        return I.atom(('init', name), name=name, lo=lo, hi=hi, init=True, **kw)

    def init_slice(self, I, st, s):
        R = self.R
        p = s.ptr.t[0][0]
        if s.kind == 'N':
            s.body = s.data = None
            s.num = s.off = ZERO
            self.cellw(I, st, p, R.body, ZERO)
            self.cellw(I, st, p, R.off, ZERO)
            self.cellw(I, st, p, R.num, ZERO)
            return
        n = s.name
        if s.same:
            o = self.slices[0]
            s.body, s.data, s.bnum, s.alloc, s.rc = o.body, o.data, o.bnum, o.alloc, o.rc
        else:
            s.body = self.atom(I, n + '.body', 1 << 12, 1 << 47, ptr=True, di=R.body_t, ident='init', nonnull=True, owner=n)
            b = s.body.t[0][0]
            if s.kind == 'E':
                s.data = None
                s.bnum = s.alloc = ZERO
                self.cellw(I, st, b, R.start, ZERO)
            else:
                s.data = self.atom(I, n + '.data', 1 << 12, 1 << 47, ptr=True, ident='init', nonnull=True, owner=n, isdata=True, di=R.elem_t)
                s.bnum = self.atom(I, n + '.body_length', 1 if s.kind == 'T' else 0, SZ)
                s.alloc = ZERO if s.kind == 'T' else self.atom(I, n + '.alloc', 1, 2 * SZ)
                self.cellw(I, st, b, R.start, s.data)
                if s.alloc.t:
                    I.add_fact(st, s.alloc - s.bnum)
            s.rc = Lin(1) if s.kind == 'U' else self.atom(I, n + '.refs', 2 if s.kind in 'ST' else 1, 1 << 30)
            self.cellw(I, st, b, R.bnum, s.bnum)
            self.cellw(I, st, b, R.alloc, s.alloc)
            self.cellw(I, st, b, R.rc, s.rc)
            self.init_body(I, st, s)
        if s.kind == 'E':
            s.off = s.num = ZERO
        else:
            s.off = self.atom(I, n + '.offset', 0, SZ)
            s.num = self.atom(I, n + '.length', 0, SZ)
            I.add_fact(st, s.bnum - s.off - s.num)
        self.cellw(I, st, p, R.body, s.body)
        self.cellw(I, st, p, R.off, s.off)
        self.cellw(I, st, p, R.num, s.num)
        self.init_more(I, st, s)

    def init_body(self, I, st, s): pass
    def init_more(self, I, st, s): pass

    # ---- reporting
    def lab(self):
        return '%s[%s]' % (self.root, self.case)

    def viol(self, I, st, ins, rule, msg, key=''):
        loc, k = site(ins) if ins else ('?', '?')
        facts = [I.show(f) + ' >= 0' for f in st.facts[-60:]] if st is not None else []
        self.rep.bad(rule, loc, '%s:%s:%s' % (self.root, k, key), '%s: %s' % (self.opname(), msg), ['case %s' % self.case] + facts)

    def opname(self):
        return self.root[2:] if self.root[1] == '_' else self.root

    def good(self, rule, ins=None):
        loc = site(ins)[0] if ins else ''
        self.rep.ok(rule, '%s %s' % (self.root, loc))

    def owner(self, a):
        for s in self.slices:
            if s.body is not None and s.body.t[0][0] == a:
                return s, 'body'
            if s.data is not None and s.data.t[0][0] == a:
                return s, 'data'
        return None, None

    def cur(self, I, st, base, cell):
        return I.load(st, base + cell[0], cell[1])

    # ---- hooks
    def access(self, I, st, ins, addr, size, write, val):
        if not I.collect:
            return
        b, off = I.split_ptr(st, addr)
        R = self.R
        sz = size if isinstance(size, Lin) else Lin(size)
        if b is None:
            if not sz.t and sz.c == 0 or (I.prove(st, sz.neg())):
                return
            if not addr.t and addr.c < 4096:
                self.viol(I, st, ins, 'memory', 'dereferences a null pointer', 'null')
            return
        if b in st.ts.get('freed', ()):
            self.viol(I, st, ins, 'memory', 'uses %s after it was deleted' % I.info(b)['name'], 'uaf')
            return
        inf = I.info(b)
        for s in self.slices:
            if s.ptr.t[0][0] == b:
                if write and (self.const0 or s is not self.slices[0]):
                    old = I.load(st, addr, size) if not sz.t else None
                    if old is not None and old == val:
                        return
                    self.viol(I, st, ins, 'const', 'writes its argument %s, which must stay as it was' % s.name, 'arg')
                return
        s, part = self.owner(b)
        if s is None:
            if inf.get('ident') == 'new' and ('nsize', b) in st.vals:
                n = st.vals[('nsize', b)]
                if I.prove(st, sz.neg()):		# nothing accessed
                    return
                if I.prove(st, off) and I.prove(st, n - off - sz):
                    self.good('bounds', ins)
                else:
                    self.viol(I, st, ins, 'bounds', '%s outside an allocation: offset %s of %s' % ('write' if write else 'read', I.show(off), I.show(n)), 'new')
            elif inf.get('sret'):
                pass
            elif inf.get('ident') == 'arg' or inf.get('init'):
                if write and inf.get('ident') != 'alloca':
                    self.foreign_write(I, st, ins, addr, inf)
                elif not write:
                    self.foreign_read(I, st, ins, b, off, sz, inf)
            return
        if part == 'body':
            if not write:
                return
            if not off.t and (off.c, R.rc[1]) == R.rc:
                return
            if self.lazy_ok(I, st, ins, s, off, sz, val):
                return
            self.owned_write(I, st, ins, s, 'the body')
            return
        # element data
        es = R.es
        if I.prove(st, sz.neg()):
            return
        if write:
            self.owned_write(I, st, ins, s, 'elements')
            limit = self.cur(I, st, s.body, R.alloc)
            if I.prove(st, off) and I.prove(st, limit.scale(es) - off - sz):
                self.good('bounds', ins)
            else:
                self.viol(I, st, ins, 'bounds', 'write outside the allocated elements of %s (offset %s)' % (s.name, I.show(off)), 'write')
            return
        ok = False
        if not self.const0 and s.kind == 'U':		# may look at its own whole body (to grow it, say)
            ok = I.prove(st, off) and I.prove(st, s.bnum.scale(es) - off - sz)
        for t in self.slices:
            if not ok and t.data == s.data:
                ok = I.prove(st, off - t.off.scale(es)) and I.prove(st, (t.off + t.num).scale(es) - off - sz)
        if ok:
            self.good('bounds', ins)
        else:
            self.viol(I, st, ins, 'bounds', 'reads element data of %s outside the slice (byte offset %s, %s bytes)' % (s.name, I.show(off), I.show(sz)), 'read')

    def lazy_ok(self, I, st, ins, s, off, sz, val):
        return False

    def foreign_write(self, I, st, ins, addr, inf):
        self.viol(I, st, ins, 'const', 'writes through %s, which it must not change' % I.show(addr), 'foreign')

    def foreign_read(self, I, st, ins, b, off, sz, inf):
        pass

    def owned_write(self, I, st, ins, s, what):
        if self.const0:
            self.viol(I, st, ins, 'cow', 'writes %s of %s, whose value must not change' % (what, s.name), 'const')
            return
        if s is not self.slices[0] and not s.same:
            self.viol(I, st, ins, 'cow', 'writes %s of its read-only argument %s' % (what, s.name), 'other')
            return
        rc = self.cur(I, st, s.body, self.R.rc)
        if I.prove(st, Lin(1) - rc):
            self.good('cow', ins)
        else:
            self.viol(I, st, ins, 'cow', 'writes %s of %s while the body may be shared (count %s)' % (what, s.name, I.show(rc)), 'shared')

    def free(self, I, st, ins, b):
        f = st.ts.get('freed', ())
        if b in f:
            self.viol(I, st, ins, 'memory', 'deletes %s twice' % I.info(b)['name'], 'double')
        st.ts['freed'] = tuple(sorted(set(f) | {b}))

    def destroy_body(self, I, st, ins, body):
        """A body's destructor: its data goes if it was allocated."""
        R = self.R
        b, _ = I.split_ptr(st, body)
        if b is None:
            return
        rc = self.cur(I, st, body, R.rc)
        if I.collect:
            if I.prove_eq(st, rc, ZERO):
                self.good('refcount', ins)
            else:
                self.viol(I, st, ins, 'refcount', 'deletes a body whose count may not be zero (%s)' % I.show(rc), 'del')
        al = self.cur(I, st, body, R.alloc)
        start = self.cur(I, st, body, R.start)
        self.free(I, st, ins, b)
        d, _ = I.split_ptr(st, start)
        if d is not None and not I.prove_eq(st, al, ZERO):
            self.free(I, st, ins, d)

    def icall(self, I, st, ins):
        pass

    def call(self, I, st, ins, name):
        if name is None:
            self.icall(I, st, ins)
            t = ins.get('target')
            tv = I.val(st, t) if t else None
            # virtual call on a body: only the destructor is virtual
            if isinstance(tv, Lin) and len(tv.t) >= 1:
                inf = I.info(tv.t[0][0])
                args = [I.val(st, o) for o in ins['ops']]
                k = inf['key']
                if k[0] in ('ld', 'tbl', 'fr', 'f') and args and isinstance(args[0], Lin):
                    b, off = I.split_ptr(st, args[0])
                    if b is not None and self.isbody(I, st, b):
                        self.destroy_body(I, st, ins, args[0])
                        return I.result(st, ins, 'dtor')
            return None
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            v = I.lin(st, ins['ops'][0])
            b, off = I.split_ptr(st, v)
            if b is not None and I.collect:
                s, part = self.owner(b)
                if part == 'data':
                    al = self.cur(I, st, s.body, self.R.alloc)
                    if s.kind == 'T':
                        self.viol(I, st, ins, 'static', 'deletes borrowed data of %s' % s.name, 'borrowed')
                    elif not self.const0 and (s is self.slices[0]) and (s.kind == 'U' or b in st.ts.get('freed', ())):
                        self.good('cow', ins)
                    elif I.prove(st, self.cur(I, st, s.body, self.R.rc).neg()):
                        self.good('refcount', ins)
                    else:
                        self.viol(I, st, ins, 'cow', 'deletes element data of %s, which may be shared' % s.name, 'data')
                if off.t or off.c:
                    self.viol(I, st, ins, 'memory', 'deletes an address inside an allocation', 'inside')
            if b is not None:
                self.free(I, st, ins, b)
            return [st]
        if ins.get('noret') or name == '__assert_fail':
            if I.collect and self.aborts and self.in_domain(I, st) and name in ('__assert_fail', 'abort', '_ZSt9terminatev'):
                self.viol(I, st, ins, 'abort', 'can abort on arguments in its domain (%s)' % self.why(I, st), 'assert')
            return []
        return None

    def in_domain(self, I, st):
        return True

    def why(self, I, st):
        return '; '.join(I.show(f) + '>=0' for f in st.facts[-4:])

    def isbody(self, I, st, b):
        inf = I.info(b)
        return inf['di'] == self.R.body_t or self.owner(b)[1] == 'body' or self.newbody(I, st, b)

    def newbody(self, I, st, b):
        inf = I.info(b)
        if inf.get('ident') != 'new' or st.vals.get(('nsize', b)) != Lin(self.R.body_size):
            return False
        v = I.load(st, Lin(0, ((b, 1),)), 8)
        return isinstance(v, Lin) and any(str(I.info(a).get('global', '')).startswith('_ZTV') for a, _ in v.t)

    # ---- results
    def slice_at(self, I, st, ptr):
        R = self.R
        r = Slice('result')
        r.ptr = ptr
        r.body = I.resolve(st, self.cur(I, st, ptr, R.body))
        r.off = self.cur(I, st, ptr, R.off)
        r.num = self.cur(I, st, ptr, R.num)
        r.null = r.body == ZERO or I.prove(st, r.body.neg())
        if not r.null:
            r.bnum = self.cur(I, st, r.body, R.bnum)
            r.start = I.resolve(st, self.cur(I, st, r.body, R.start))
            r.alloc = self.cur(I, st, r.body, R.alloc)
            r.rc = self.cur(I, st, r.body, R.rc)
        return r

    def check_slice(self, I, st, ins, r, what):
        """Class invariants of a slice at a return."""
        if r.null:
            if not I.prove_eq(st, r.num, ZERO):
                self.viol(I, st, ins, 'invariant', '%s has no body but length %s' % (what, I.show(r.num)), what + ':null')
            else:
                self.good('invariant', ins)
            return
        b, _ = I.split_ptr(st, r.body)
        if b is not None and I.info(b).get('ident') == 'contract':
            return
        if b in st.ts.get('freed', ()):
            self.viol(I, st, ins, 'memory', '%s refers to a deleted body' % what, what + ':freed')
            return
        for ok, msg in ((I.prove(st, r.off), 'negative offset'),
                        (I.prove(st, r.num), 'negative length'),
                        (I.prove(st, r.bnum - r.off - r.num), 'reaches past the end of its body (%s + %s > %s)' % (I.show(r.off), I.show(r.num), I.show(r.bnum))),
                        (I.prove(st, r.alloc - r.bnum) or I.prove_eq(st, r.alloc, ZERO), 'body longer than its allocation')):
            if not ok:
                self.viol(I, st, ins, 'invariant', '%s: %s' % (what, msg), what + ':' + msg[:16])
            else:
                self.good('invariant', ins)

    def check_refs(self, I, st, ins, finals):
        """Count of references = change of every body's count."""
        init, fin = {}, {}
        objs = {}
        for s in self.slices:
            if s.body is not None:
                objs[s.body.t[0][0]] = s
        for s in self.slices:
            if s.body is not None:
                init[s.body.t[0][0]] = init.get(s.body.t[0][0], 0) + 1
        for r in finals:
            if r.null:
                continue
            b, _ = I.split_ptr(st, r.body)
            fin[b] = fin.get(b, 0) + 1
        for b, s in objs.items():
            d = fin.get(b, 0) - init.get(b, 0)
            if b in st.ts.get('freed', ()):
                continue
            rc = self.cur(I, st, s.body, self.R.rc)
            if I.prove_eq(st, rc - s.rc, Lin(d)):
                self.good('refcount', ins)
            else:
                self.viol(I, st, ins, 'refcount', 'the count of the body of %s changes by %s, but %+d references were made or dropped' % (s.name, I.show(rc - s.rc), d), 'balance')
        for b, log in list(st.mem.items()):
            inf = I.info(b)
            if self.newbody(I, st, b) and b not in st.ts.get('freed', ()):
                rc = self.cur(I, st, Lin(0, ((b, 1),)), self.R.rc)
                if I.prove_eq(st, rc, Lin(fin.get(b, 0))):
                    self.good('refcount', ins)
                else:
                    self.viol(I, st, ins, 'refcount', 'a new body has count %s but %d references' % (I.show(rc), fin.get(b, 0)), 'newbal')

    def check_len(self, I, st, ins, r, want, what):
        if I.prove_eq(st, r.num, want):
            self.good('content', ins)
            return True
        self.viol(I, st, ins, 'content', '%s has length %s, should be %s' % (what, I.show(r.num), I.show(want)), what + ':len')
        return False

    def check_pieces(self, I, st, ins, r, pieces, what):
        """Element by element: the result is the concatenation of pieces (length, source, first)."""
        total = ZERO
        for L, _, _ in pieces:
            total = total + L
        if not self.check_len(I, st, ins, r, total, what) or r.null:
            return
        es = self.R.es
        pos = ZERO
        for n, (L, src, first) in enumerate(pieces):
            j = I.atom(('idx', n), lo=0, hi=1 << 40, name='j')
            s2 = st.copy()
            if not I.add_fact(s2, L - 1 - j):
                pos = pos + L
                continue
            addr = r.start + (r.off + pos + j).scale(es)
            for s3, v in I.load_cases(s2, addr, es):
                want = self.expected(I, s3, src, first + j)
                if want is None:
                    continue
                if self.same_value(I, s3, v, want):
                    self.good('content', ins)
                else:
                    self.viol(I, s3, ins, 'content', 'element %s of %s is %s, should be %s' % (I.show(pos + j), what, I.show(v), I.show(want)), what + ':elem')
                    break
            pos = pos + L

    def expected(self, I, st, src, k):
        if isinstance(src, Slice):
            if src.data is None:
                return None
            return I.cell(st, src.data.t[0][0], (src.off + k).scale(self.R.es), self.R.es, 0)
        if isinstance(src, Lin):
            return src
        return None

    def same_value(self, I, st, v, w):
        if not isinstance(v, Lin) or not isinstance(w, Lin):
            return v == w
        if v == w or I.prove_eq(st, v, w):
            return True
        if len(v.t) == 1 and len(w.t) == 1 and v.c == w.c and v.t[0][1] == w.t[0][1]:
            a, b = I.info(v.t[0][0])['key'], I.info(w.t[0][0])['key']
            if a[0] == b[0] == 'ld' and a[1] == b[1] and a[3] == b[3] and a[4] == b[4]:
                return I.prove_eq(st, a[2], b[2])
        return False
