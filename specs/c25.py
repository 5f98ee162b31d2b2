import z3
from lib import *
from engine import F64, ffun

D = 'comb.cpp'
NATIVE = dict(src=['c25.cpp'])
TRUST = ['combinators are templates: proved for the listed instantiations (bool, int, pointers; 8, 32 and 64 bit sums; double with uninterpreted floating-point operations)',
         'bool objects hold 0 or 1']
W = dict(int=4, u8=1, i64=8, u64=8, u32=4, double=8, bool=1, ptr=8)


def verify(s):
    i = z3.Int('i')
    j = z3.Int('j')

    def setup(p, kind):
        size = getattr(p.k, 'size_' + p.entry.split('_', 2)[2])
        c = p.stack('combinator')
        out = p.stack('out')
        rs = p.ptr('results')
        n = p.u('n', 40)
        return size, c, out, rs, n

    def unchanged_or(p, size, c, extra=()):
        """candidates: every cell of the combinator keeps its value / equals one of extra(k)"""
        def gen(ctx):
            cs = []
            for w in (1, 4, 8):
                for off in range(0, size - w + 1, w):
                    if not extra:
                        cs.append(lambda v, w=w, off=off: zi(v.rd(w, c + off)) == zi(v.rd0(w, c + off)) if z3.is_int(zi(v.rd(w, c + off))) else None)
                    for f in extra:
                        cs.append(lambda v, w=w, off=off, f=f: f(v, w, c + off))
            return cs
        p.ex.cands.append(gen)

    def logic(ty, is_and):
        w = W[ty]

        def f(p):
            size, c, out, rs, n = setup(p, ty)
            M0 = p.M(w, p.st0)
            if ty == 'bool':
                p.assume(z3.ForAll([j], z3.And(z3.Select(M0, rs + j) >= 0, z3.Select(M0, rs + j) <= 1)))
            unchanged_or(p, size, c)
            outs = p.nothrow(p.call(args=[c, rs, n, out]))
            p.cover(outs)
            tr = lambda x: z3.Select(M0, rs + w * x) != 0
            for o in outs:
                r = zi(p.rd(o.st, 1, out)) != 0
                k = zi(o.val)
                stopv = (lambda x: z3.Not(tr(x))) if is_and else tr
                p.prove(o.st, z3.And(k >= 0, k <= n), 'stops within the results')
                p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Not(stopv(i)))), 'no deciding result before the stop')
                p.prove(o.st, z3.Implies(k < n, stopv(k)), 'stops only at the first deciding result')
                p.prove(o.st, r == ((k == n) if is_and else (k < n)), 'result: true iff %s' % ('all are true' if is_and else 'some is true'))
        return f

    for ty in ('bool', 'int', 'ptr'):
        for nm, b in (('and', True), ('or', False)):
            e = '%s_%s' % (nm, ty)
            s.contract('boolean_%s<%s>: call' % (nm, ty), D, 'vf_new_' + e, logic(ty, b))
            s.contract('boolean_%s<%s>: call after reset' % (nm, ty), D, 'vf_reset_' + e, logic(ty, b))

            def init(p, b=b):
                size, c, out, rs, n = setup(p, 'bool')
                outs = p.nothrow(p.call(args=[c, out]))
                p.cover(outs)
                for o in outs:
                    p.prove(o.st, zi(p.rd(o.st, 1, out)) == int(b), 'initial value')
            s.contract('boolean_%s<%s>: initial value' % (nm, ty), D, 'vf_init_' + e, init)
            s.contract('boolean_%s<%s>: value after reset' % (nm, ty), D, 'vf_rinit_' + e, init)

    def arith(ty, mean):
        w = W[ty]
        fl = ty == 'double'

        def f(p):
            size, c, out, rs, n = setup(p, ty)
            M0 = p.M(w, p.st0)
            if fl:
                i2f = engine.i2f
                S = z3.Function('S_' + p.entry, z3.IntSort(), F64)
                add = ffun('fadd', F64, F64, F64)
                zero = ffun('fc_0.000000e+00', F64)()
                x, y = z3.Consts('x y', F64)
                p.assume(S(0) == zero)
                p.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.And(S(j + 1) == add(S(j), i2f(z3.Select(M0, rs + w * j))), S(j + 1) == add(i2f(z3.Select(M0, rs + w * j)), S(j))))))
                val = lambda a: i2f(zi(a)) if not (not is_c(a) and a.sort() == F64) else a
                inv = [lambda v, ww, a: (val(v.rd(ww, a)) == S(v.k)) if ww == w else None]
            else:
                S = z3.Function('S_' + p.entry, z3.IntSort(), z3.IntSort())
                m = 1 << (8 * w)
                el = lambda q: z3.Select(M0, rs + w * q)
                p.assume(S(0) == 0)
                p.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.And(S(j) >= 0, S(j) < m, el(j) >= 0, el(j) < m))))
                p.assume(z3.ForAll([j], z3.Implies(j >= 0, S(j + 1) == z3.If(S(j) + el(j) >= m, S(j) + el(j) - m, S(j) + el(j)))))
                inv = [lambda v, ww, a: (zi(v.rd(ww, a)) == S(v.k)) if ww == w else None]
            unchanged_or(p, size, c, inv)
            if mean:
                p.assume(n >= 1, n < (1 << 31))
            outs = p.nothrow(p.call(args=[c, rs, n, out]))
            p.cover(outs)
            for o in outs:
                p.prove(o.st, zi(o.val) == n, 'takes every result')
                r = p.rd(o.st, w, out)
                if fl:
                    want = S(n)
                    if mean:
                        want = ffun('fdiv', F64, F64, F64)(S(n), ffun('uitofp64', z3.IntSort(), F64)(n))
                    p.prove(o.st, val(r) == want, 'result is the %s in order' % ('sum divided by the number of results' if mean else 'sum'))
                elif mean:
                    sg = ty != 'u32'
                    sv = signed(S(n), 8 * w) if sg else S(n)
                    q = z3.If(sv >= 0, sv / n, -((-sv) / n))
                    rr = signed(r, 8 * w) if sg else zi(r)
                    p.prove(o.st, zi(rr) == q, 'result is the sum divided by the number of results')
                else:
                    p.prove(o.st, zi(r) == S(n), 'result is the sum in order')
        return f

    for ty in ('int', 'u8', 'i64', 'u64', 'double'):
        e = 'sum_' + ty
        s.contract('sum<%s>: call' % ty, D, 'vf_new_' + e, arith(ty, False))
        s.contract('sum<%s>: call after reset' % ty, D, 'vf_reset_' + e, arith(ty, False))
        w = W[ty]

        def init0(p, w=w, ty=ty):
            size, c, out, rs, n = setup(p, ty)
            outs = p.nothrow(p.call(args=[c, out]))
            p.cover(outs)
            for o in outs:
                r = p.rd(o.st, w, out)
                if not is_c(r) and r.sort() == F64:
                    p.prove(o.st, r == ffun('fc_0.000000e+00', F64)(), 'initial value is zero')
                else:
                    p.prove(o.st, zi(r) == 0, 'initial value is zero')
        if ty != 'double':
            s.contract('sum<%s>: initial value' % ty, D, 'vf_init_' + e, init0)
            s.contract('sum<%s>: value after reset' % ty, D, 'vf_rinit_' + e, init0)
    for ty in ('int', 'i64', 'u32', 'double'):
        e = 'mean_' + ty
        s.contract('mean<%s>: call' % ty, D, 'vf_new_' + e, arith(ty, True))
        s.contract('mean<%s>: call after reset' % ty, D, 'vf_reset_' + e, arith(ty, True))
