"""Errors: what they were made with is what they, their copies and what they are assigned to give, for any number"""
from . import ai, build, cube
from .bench import Bench
from .cube import V, const, cat
from .fast import P
from .p_codec import spread
from .p_rx import Prog


def check(rep):
    mod = ai.Mod(build.lower(['d_error.cpp'], roots=['.*'], inline=False))
    b = Bench(rep, mod, Prog(mod), ('result', 'bounds', 'memory'), {}, ('err',))
    M = b.M

    def make(how, name, k):
        e = b.var(name, 'err')
        if how == 'none':
            M.call('x_none', e)
            return e, None
        n = M.I.inbits('number %d' % k, 32)
        text = P(M.obj('a text %d' % k, 4, 'const'), 0) if how in ('both', 'text', 'num') else P(None, 0)
        params = P(M.obj('parameters %d' % k, 8, 'const'), 0) if how in ('both', 'params') else P(None, 0)
        if how == 'only':
            M.call('x_only', e, n)
        elif how == 'num':
            M.call('x_num', e, n, text)
        else:
            M.call('x_new', e, n, text, params)
        zero = M.I.eq(n, const(0, 32))
        return e, (const(0, 32) if zero else cat([cube.part(n, 0, 30), const(3, 2)]), text, params)

    def same(e, w, what):
        num, text, params = w or (const(0, 32), P(None, 0), P(None, 0))
        for f in 'x_err', 'x_int':
            if not M.I.eq(M.lift(M.call(f, e), 32), num):
                b.bad('result', f, '%s has another number (as %s)' % (what, {'x_err': 'ErrNum', 'x_int': 'integer'}[f]))
        for f, v in ('x_text', text), ('x_params', params):
            r = M.call(f, e)
            if (r.obj, r.off if r.obj is not None else 0) != (v.obj, v.off if v.obj is not None else 0) if r.__class__ is P else v.obj is not None:
                b.bad('result', f, '%s has another %s' % (what, f[2:]))

    KINDS = ['none', 'both', 'text', 'params', 'neither', 'only', 'num']
    for how in KINDS:
        for other in KINDS:
            def case(b):
                b.text = 'an error (%s) and another (%s)' % (how, other)
                e, w = make(how, 'the error', 0)
                o, v = make(other, 'the other', 1)
                same(e, w, 'it')
                c = b.var('a copy', 'err')
                M.call('x_copy', c, e)
                same(c, w, 'a copy')
                r = M.call('x_assign', e, o)
                if r.obj is not e.obj:
                    b.bad('result', 'answer', 'assignment gives something else')
                same(e, v, 'what was assigned to')
                same(c, w, 'a copy made before')
                M.call('x_un', o)
                same(e, v, 'what was assigned to, alone')
                M.call('x_assign', e, e)
                same(e, v, 'what was assigned to itself')
                M.call('x_assign', c, e)
                M.call('x_un', e)
                same(c, v, 'the last')
                M.call('x_un', c)
                b.ok('result', 'error ' + how)
            b.explore('include/error.h', case)
    rep.functions |= mod.seen | set(b.prog.code)
