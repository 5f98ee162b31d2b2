import z3
from lib import *
from svspec import *

D = 'order.cpp'
NATIVE = dict(src=['c02.cpp'])
TRUST = ['mixin names are well-formed views; pointers are compared by address']


def fields(p, st, m):
    k = p.k
    pr = signed(p.rd(st, 4, m + k.prio), 32)
    nb, ne = p.rd(st, 8, m + k.name), p.rd(st, 8, m + k.name + 8)
    i = p.rd(st, k.idw // 8, m + k.id)
    return pr, nb, ne, i


def spec(p, st, a, b):
    """the documented order: priority (signed), name, id, address"""
    pa, ab, ae, ia = fields(p, st, a)
    pb, bb, be, ib = fields(p, st, b)
    lt, eq = lex(p, st, ab, ae, bb, be)
    return z3.Or(pa < pb, z3.And(pa == pb, z3.Or(lt, z3.And(eq, z3.Or(ia < ib, z3.And(ia == ib, zi(a) < zi(b)))))))


def setup(p, names='ab'):
    ms = []
    for n in names:
        m = p.ptr(n)
        pr, b, e, i = fields(p, p.st0, m)
        sv_pre(p, b, e)
        ms.append(m)
    return ms


def verify(s):
    def order(p):
        a, b = setup(p)
        outs = p.nothrow(p.call(args=[a, b]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, b8(o.val) == spec(p, o.st, a, b), 'true iff (priority, name, id, address) is smaller')
            f = z3.Int('addr!frame')
            for w in (1, 4, 8):
                p.prove(o.st, z3.Select(p.M(w, o.st), f) == z3.Select(p.M(w, p.st0), f), 'writes nothing (%d)' % w)
    s.contract('dnmx_mixin_canonical_order', D, 'vf_order', order)
    s.contract('canonical_mixin_order(ptr, ptr)', D, 'vf_order_p', order)
    s.contract('canonical_mixin_order(ref, ref)', D, 'vf_order_r', order)

    def same(p):
        a, = setup(p, 'a')
        outs = p.nothrow(p.call(args=[a, a]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, z3.Not(b8(o.val)), 'irreflexive')
    s.contract('dnmx_mixin_canonical_order(a, a)', D, 'vf_order', same)

    def lemmas(p):
        st = p.st0
        ns = []
        for n in 'abc':
            x, y = p.u(n, 47), p.u(n + 'e', 47)
            sv_pre(p, x, y)
            ns.append((x, y))
        l, q = {}, {}
        for i in range(3):
            for j in range(3):
                if i != j:
                    l[i, j], q[i, j] = lex(p, st, *ns[i], *ns[j])
        # name order: proved here, then used as hypotheses
        facts = []

        def lem(f, n):
            if p.prove(st, f, n):
                facts.append(f)
        for i in range(3):
            for j in range(3):
                if i < j:
                    lem(z3.And(z3.Not(z3.And(l[i, j], l[j, i])), q[i, j] == q[j, i], z3.Or(l[i, j], l[j, i], q[i, j]),
                               z3.Not(z3.And(l[i, j], q[i, j])), z3.Not(z3.And(l[j, i], q[i, j]))), 'names: trichotomy')
        i, j, k = 0, 1, 2
        lem(z3.Implies(z3.And(z3.Or(l[i, j], q[i, j]), z3.Or(l[j, k], q[j, k])), z3.And(z3.Or(l[i, k], q[i, k]), z3.Implies(z3.Or(l[i, j], l[j, k]), l[i, k]))), 'names: transitivity')
        # the whole order over abstract names
        L = {x: z3.Bool('L%d%d' % x) for x in l}
        Q = {x: z3.Bool('Q%d%d' % x) for x in q}
        sub = [(l[x], L[x]) for x in l] + [(q[x], Q[x]) for x in q]
        hyp = []
        for i in range(3):
            for j in range(3):
                if i < j:
                    hyp.append(z3.And(z3.Not(z3.And(L[i, j], L[j, i])), Q[i, j] == Q[j, i], z3.Or(L[i, j], L[j, i], Q[i, j]),
                                      z3.Not(z3.And(L[i, j], Q[i, j])), z3.Not(z3.And(L[j, i], Q[i, j]))))
        i, j, k = 0, 1, 2
        hyp.append(z3.Implies(z3.And(z3.Or(L[i, j], Q[i, j]), z3.Or(L[j, k], Q[j, k])), z3.And(z3.Or(L[i, k], Q[i, k]), z3.Implies(z3.Or(L[i, j], L[j, k]), L[i, k]))))
        P = [z3.Int('P%d' % x) for x in range(3)]
        I = [z3.Int('I%d' % x) for x in range(3)]
        A = [z3.Int('A%d' % x) for x in range(3)]

        def O(x, y):
            return z3.Or(P[x] < P[y], z3.And(P[x] == P[y], z3.Or(L[x, y], z3.And(Q[x, y], z3.Or(I[x] < I[y], z3.And(I[x] == I[y], A[x] < A[y]))))))
        H = z3.And(*hyp)
        p.prove(st, z3.Implies(H, z3.Not(z3.And(O(0, 1), O(1, 0)))), 'order: asymmetric')
        p.prove(st, z3.Implies(z3.And(H, A[0] != A[1]), z3.Or(O(0, 1), O(1, 0))), 'order: total on distinct mixins')
        p.prove(st, z3.Implies(z3.And(H, O(0, 1), O(1, 2)), O(0, 2)), 'order: transitive')
    s.contract('lemma: strict total order', D, None, lemmas, timeout=20000)
