import z3
from lib import *

D = 'order.cpp'
NATIVE = dict(src=['c03.cpp'])
TRUST = ['size + alignment (and s + n for next_multiple) fit the size type: the library adds them without a check']


def verify(s):
    def setb(p):
        k = p.k
        W = k.szw
        m = p.ptr('info')
        sz, al = p.u('s', W), p.u('a', W)
        pw = z3.Or(al == 0, *[al == (1 << i) for i in range(W)])
        mx = z3.If(al < 8, 8, al)
        p.assume(pw, sz + mx < (1 << W))
        outs = p.nothrow(p.call(args=[m, sz, al]))
        p.cover(outs)
        w = W // 8
        for o in outs:
            size, align, off, bs = (p.rd(o.st, w, m + x) for x in (k.size, k.align, k.boff, k.bsize))
            p.prove(o.st, z3.And(zi(size) == sz, zi(align) == al), 'size and alignment recorded')
            p.prove(o.st, zi(off) == mx, 'offset and buffer alignment are max(alignment, pointer size)')
            p.prove(o.st, zi(bs) == zi(off) + sz, 'buffer is the offset plus the size')
            p.prove(o.st, z3.And(zi(off) % 8 == 0, z3.Implies(al > 0, z3.Or(*[z3.And(al == (1 << i), zi(off) % (1 << i) == 0) for i in range(W)]))), 'mixin and pointer aligned')
            p.prove(o.st, z3.And(zi(off) >= 8, zi(off) + sz <= zi(bs)), 'whole pointer in front, mixin in bounds')
            f = z3.Int('addr!frame')
            own = z3.Or(*[z3.And(f > m + x - w, f < m + x + w) for x in (k.size, k.align, k.boff, k.bsize)])
            for ww in (1, 2, 4, 8):
                p.prove(o.st, z3.Implies(z3.Not(own if ww <= w else z3.Or(*[z3.And(f > m + x - ww, f < m + x + w) for x in (k.size, k.align, k.boff, k.bsize)])),
                                         z3.Select(p.M(ww, o.st), f) == z3.Select(p.M(ww, p.st0), f)), 'no other field changes (%d)' % ww)
    s.contract('dnmx_set_mixin_info_size_and_alignment', D, 'vf_set', setb)
    s.contract('dnmx_mixin_info::set_size_alignment', D, 'vf_setm', setb)

    def nm(p):
        W = p.k.szw
        v, n = p.u('s', W), p.u('n', W)
        p.assume(n > 0, v + n <= (1 << W))
        outs = p.nothrow(p.call(args=[v, n]))
        p.cover(outs)
        for o in outs:
            r = zi(o.val)
            # the least multiple of n at or above v: unique q with (q-1)*n < v <= q*n
            q = z3.Int('q')
            p.prove(o.st, z3.And(r >= v, r < v + n), 'not below the argument, less than one multiple above')
            p.prove(o.st, r % n == 0, 'a multiple')
    s.contract('util::next_multiple', D, 'vf_next', nm, timeout=20000)

    def nmp(p):
        # powers of two (alignments): exact for each
        W = p.k.szw
        for i in range(0, 13):
            n = 1 << i
            st = p.st0.copy()
            v = z3.Int('s%d' % i)
            st.assume(z3.And(v >= 0, v + n <= (1 << W)))
            outs = p.nothrow(p.call(args=[v, n], st=st), 'does not throw (n=%d)' % n)
            for o in outs:
                r = zi(o.val)
                p.prove(o.st, z3.And(r >= v, r < v + n, r % n == 0), 'least multiple of %d' % n)
    s.contract('util::next_multiple (alignments)', D, 'vf_next', nmp)

    def mk(p):
        k = p.k
        r = p.stack('ret')
        outs = p.nothrow(p.call(args=[r]))
        p.cover(outs)
        w = k.szw // 8
        for o in outs:
            g = lambda off, ww=w: zi(p.rd(o.st, ww, r + off))
            p.prove(o.st, z3.And(g(k.size) == 0, g(k.align) == 0, g(k.boff) == 8, g(k.bsize) == 8, g(k.id, k.idw // 8) == k.invalid), 'default info: empty, unregistered, room for the pointer')
    s.contract('dnmx_make_mixin_info', D, 'vf_make', mk)
