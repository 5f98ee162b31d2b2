import z3
from lib import *
from svspec import *

D = 'common_funcs.c'
NATIVE = dict(src=['c23.cpp'], lib='c')
TRUST = ['the C library memcpy/memset/memcmp meet their standard contracts',
         'source and target mixin memory do not overlap (two distinct mixins), and neither overlaps the mixin info']


def setup(p, two=True, overlap=False):
    W = p.k.szw
    info = p.ptr('info')
    a = p.ptr('a')
    n = zi(p.rd0(W // 8, info + p.k.size))
    p.assume(n >= 0, n < (1 << W), a + n < PRE_MAX)
    rs = [info, a]
    apart = lambda x, nx, y, ny: z3.Or(x + nx <= y, y + ny <= x)
    if two:
        b = p.ptr('b')
        p.assume(b + n < PRE_MAX)
        if not overlap:
            p.assume(apart(a, n, b, n))
        p.assume(apart(b, n, info, p.k.infosize))
        rs.append(b)
    p.assume(apart(a, n, info, p.k.infosize))
    return n, rs


def frame(p, o, inside, what='no other byte changes'):
    f = z3.Int('addr!frame')
    for w in (1, 2, 4, 8):
        near = inside(f, w)
        p.prove(o.st, z3.Implies(z3.Not(near), z3.Select(p.M(w, o.st), f) == z3.Select(p.M(w, p.st0), f)), '%s (%d)' % (what, w))


def verify(s):
    i = z3.Int('i')

    def rng(x, n):
        return lambda f, w: z3.And(f > x - w, f < x + n)

    def both(x, y, n):
        return lambda f, w: z3.Or(z3.And(f > x - w, f < x + n), z3.And(f > y - w, f < y + n))
    nothing = lambda f, w: z3.BoolVal(False)

    def fill(v):
        def f(p):
            n, (info, a) = setup(p, False)
            outs = p.nothrow(p.call(args=[info, a]))
            p.cover(outs)
            for o in outs:
                if o.val is not None and v == 0:
                    p.prove(o.st, zi(o.val) == 0, 'returns success')
                M = p.M(1, o.st)
                p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(M, a + i) == v)), 'every byte of the mixin set to %#x' % v)
                frame(p, o, rng(a, n))
        return f
    s.contract('dnmx_mixin_common_init_func', D, 'vf_init', fill(0))
    s.contract('dnmx_mixin_common_destroy_func', D, 'vf_destroy', fill(0xfe))

    def copy(move):
        def f(p):
            n, (info, a, b) = setup(p)
            outs = p.nothrow(p.call(args=[info, a, b]))
            p.cover(outs)
            M0 = p.M(1, p.st0)
            for o in outs:
                if o.val is not None and p.entry == 'vf_copy':
                    p.prove(o.st, zi(o.val) == 0, 'returns success')
                M = p.M(1, o.st)
                r = z3.And(i >= 0, i < n)
                p.prove(o.st, z3.ForAll([i], z3.Implies(r, z3.Select(M, a + i) == z3.Select(M0, b + i))), 'target bytes are the source bytes')
                if move:
                    p.prove(o.st, z3.ForAll([i], z3.Implies(r, z3.Select(M, b + i) == 0)), 'source zeroed')
                    frame(p, o, both(a, b, n))
                else:
                    frame(p, o, rng(a, n), 'source and other bytes unchanged')
        return f
    s.contract('dnmx_mixin_common_copy_func', D, 'vf_copy', copy(False))
    s.contract('dnmx_mixin_common_move_func_copy', D, 'vf_move_copy', copy(False))
    s.contract('dnmx_mixin_common_move_func', D, 'vf_move', copy(True))

    def cmpf(eq):
        def f(p):
            n, (info, a, b) = setup(p, overlap=True)
            outs = p.nothrow(p.call(args=[info, a, b]))
            p.cover(outs)
            for o in outs:
                lt, e = lex(p, o.st, a, a + n, b, b + n)
                if eq:
                    p.prove(o.st, b8(o.val) == e, 'true iff the bytes are equal')
                else:
                    r = signed(o.val, 32)
                    p.prove(o.st, z3.And((zi(r) < 0) == lt, (zi(r) == 0) == e), 'sign of the byte-wise comparison')
                frame(p, o, nothing, 'writes nothing')
        return f
    s.contract('dnmx_mixin_common_cmp_func', D, 'vf_cmp', cmpf(False))
    s.contract('dnmx_mixin_common_eq_func', D, 'vf_eq', cmpf(True))

    def noop(k):
        def f(p):
            n, rs = setup(p, k == 3, True)
            outs = p.nothrow(p.call(args=rs))
            p.cover(outs)
            for o in outs:
                if p.entry != 'vf_noop_move':
                    p.prove(o.st, zi(o.val) == 0, 'returns zero')
                frame(p, o, nothing, 'writes nothing')
        return f
    s.contract('dnmx_mixin_noop_init_func', D, 'vf_noop_init', noop(2))
    s.contract('dnmx_mixin_noop_copy_func', D, 'vf_noop_copy', noop(3))
    s.contract('dnmx_mixin_noop_move_func', D, 'vf_noop_move', noop(3))
    s.contract('dnmx_mixin_noop_cmp_func', D, 'vf_noop_cmp', noop(3))
