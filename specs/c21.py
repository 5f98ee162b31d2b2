import z3
from lib import *
from typespec import *

NATIVE = dict(src=['c21.cpp'], lib='lib')
TRUST = TRUST_T + ['two different types of a domain have different mixin lists (C09)', 'the canonical mixin order is a strict total order (proved under C02)',
                   'equals and compare functions are functions of their arguments without effects, and do not throw (they are noexcept)']
H = 1 << 31


def verify(s):
    i, j, q, f = z3.Ints('i j q f')

    def first_diff(A, B, f):
        return z3.And(f >= 0, f <= A.n, f <= B.n, z3.Not(z3.And(f == A.n, f == B.n)), z3.Or(f == A.n, f == B.n, A.mix(f) != B.mix(f)),
                      z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), A.mix(j) == B.mix(j))))

    def tcmp(p):
        abstract_order(p)
        A, B = Ty(p, 'a', ids=False), Ty(p, 'b', ids=False)
        outs = p.nothrow(p.call(args=[A.t, B.t]))
        f0 = z3.Int('f0')
        # (two types of a domain differ: f0 is the first difference)
        p.cover(outs)
        for o in outs:
            st = o.st.copy()
            st.assume(first_diff(A, B, f0))
            r = zi(o.val)
            lt = z3.If(A.dom != B.dom, A.dom < B.dom, z3.Or(f0 == A.n, z3.And(f0 < B.n, ORD(A.mix(f0), B.mix(f0)))))
            p.prove(st, z3.And(r >= 0, r < (1 << 32), r != 0), 'different types are never equal')
            p.prove(st, (r >= H) == lt, 'negative exactly when smaller by (domain, mixins in canonical order)')
            frame(p, o)
    s.contract('type::compare(other)', TD, 'vf_compare', tcmp)

    def tsame(p):
        abstract_order(p)
        A = Ty(p, 'a', ids=False)
        for e, want in (('compare', 0), ('teq', 1), ('tne', 0)):
            outs = p.nothrow(p.call('vf_' + e, [A.t, A.t]))
            p.cover(outs)
            for o in outs:
                p.prove(o.st, b8(o.val) == (want != 0), e + ' with itself')
    s.contract('type::compare, ==, != (same)', TD, 'vf_compare', tsame)

    def tdiff(p):
        a, b = p.ptr('a'), p.ptr('b')
        for e, neg in (('teq', 0), ('tne', 1)):
            outs = p.nothrow(p.call('vf_' + e, [a, b]))
            p.cover(outs)
            for o in outs:
                p.prove(o.st, b8(o.val) == ((a != b) if neg else (a == b)), e + ' is identity')
    s.contract('type ==, !=', TD, 'vf_teq', tdiff)

    def lemma(p):
        """lexicographic order over a strict total order: antisymmetric, transitive, total"""
        class Seq:
            def __init__(self, t):
                self.n = z3.Int(t + 'n')
                self.fn = z3.Function(t, z3.IntSort(), z3.IntSort())
                self.d = z3.Int(t + 'd')
                p.assume(self.n >= 0)

            def mix(self, i):
                return self.fn(i)
        S = [Seq(x) for x in 'xyz']
        x, y, z = z3.Ints('x y z')
        p.assume(z3.ForAll([x, y], z3.Implies(ORD(x, y), z3.Not(ORD(y, x)))), z3.ForAll([x, y], z3.Or(ORD(x, y), ORD(y, x), x == y)),
                 z3.ForAll([x, y, z], z3.Implies(z3.And(ORD(x, y), ORD(y, z)), ORD(x, z))))

        def less(a, b, f):
            A, B = S[a], S[b]
            return z3.If(A.d != B.d, A.d < B.d, z3.Or(f == A.n, z3.And(f < B.n, ORD(A.mix(f), B.mix(f)))))
        F = {}
        for a, b in ((0, 1), (1, 2), (0, 2)):
            F[a, b] = z3.Int('F%d%d' % (a, b))
            p.assume(first_diff(S[a], S[b], F[a, b]))
        p.prove(p.st0, less(0, 1, F[0, 1]) != less(1, 0, F[0, 1]), 'antisymmetric and total')
        p.prove(p.st0, z3.Implies(z3.And(less(0, 1, F[0, 1]), less(1, 2, F[1, 2])), less(0, 2, F[0, 2])), 'transitive')
    s.contract('lemma: lexicographic order', TD, None, lemma, timeout=15000)

    def fn(p, T, i, off):
        return z3.Select(p.ex.base_arrs[8], T.mix(i) + off)

    def osetup(p, same_type=True):
        pure_user(p)
        abstract_order(p)
        T = Ty(p, 't', ids=False)
        A = Ob(p, T, 'a')
        B = Ob(p, T, 'b')
        p.assume(z3.ForAll([i, q], z3.And(*[USER(i, q, x, y) >= 0 for x, y in ()]) if () else z3.BoolVal(True)))
        return T, A, B

    def oeq(p):
        T, A, B = osetup(p)
        k = p.k
        outs = p.nothrow(p.call(args=[A.o, B.o]))
        p.cover(outs)

        def ok(c):
            e, m = fn(p, T, c, k.i_equals), fn(p, T, c, k.i_compare)
            return z3.If(e != 0, USER(e, T.mix(c), A.mixin(c), B.mixin(c)) != 0, z3.And(m != 0, USER(m, T.mix(c), A.mixin(c), B.mixin(c)) == 0))
        for o in outs:
            r = b8(o.val)
            p.prove(o.st, z3.Implies(r, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), ok(i)))), 'true only if every mixin is equal')
            p.prove(o.st, z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), ok(i))), r), 'false only if some mixin is not')
            frame(p, o)
    s.contract('object::equals (same type)', TD, 'vf_oeq', oeq)

    def oeq2(p):
        pure_user(p)
        T, U = Ty(p, 't', ids=False), Ty(p, 'u', ids=False)
        A, B = Ob(p, T, 'a'), Ob(p, U, 'b')
        for args, want in (([A.o, B.o], False), ([A.o, A.o], True)):
            outs = p.nothrow(p.call(args=args))
            p.cover(outs)
            for o in outs:
                p.prove(o.st, b8(o.val) == want, 'different types: false' if not want else 'itself: true')
    s.contract('object::equals (different types, itself)', TD, 'vf_oeq', oeq2)

    def ocmp(p):
        T, A, B = osetup(p)
        k = p.k
        outs = p.call(args=[A.o, B.o])
        p.cover(outs)
        p.cover([o for o in outs if o.kind == 'ret'], 'can return')
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        cf = lambda c: fn(p, T, c, k.i_compare)
        cv = lambda c: USER(cf(c), T.mix(c), A.mixin(c), B.mixin(c))
        zero = lambda c: z3.And(cf(c) != 0, cv(c) == 0)
        dec = lambda c: z3.And(c >= 0, c < T.n, z3.Not(zero(c)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), zero(j))))
        f0 = z3.Int('f0')
        allz = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < T.n), zero(j)))
        for o in outs:
            st = o.st.copy()
            # f0: the first mixin which does not compare zero, if any
            st.assume(z3.Or(dec(f0), allz))
            if o.kind == 'throw':
                p.prove(st, z3.And(f0 >= 0, f0 < T.n, cf(f0) == 0, z3.Not(allz)), 'throws only when a needed compare function is missing')
                continue
            r = zi(o.val)
            p.prove(st, z3.Implies(allz, r == 0), 'equal if every mixin compares zero')
            p.prove(st, z3.Implies(dec(f0), z3.And(cf(f0) != 0, r != 0, (r >= H) == (cv(f0) >= H))), 'otherwise ordered by the first mixin comparing non-zero')
            frame(p, o)
    s.contract('object::compare (same type)', TD, 'vf_ocmp', ocmp)

    def ocmp2(p):
        pure_user(p)
        T, U = Ty(p, 't', ids=False), Ty(p, 'u', ids=False)
        A, B = Ob(p, T, 'a'), Ob(p, U, 'b')
        tc = p.u('type_compare', 32)
        p.assume(tc != 0)

        def h(ex, st, args, inst, dem):
            ok = is_c(args[0]) and is_c(args[1]) and (args[0], args[1]) in ((T.t, U.t), (U.t, T.t))
            ex.prove_pre(st, zb(ok), 'type::compare of the types of the two objects')
            if not ok:
                raise Unsupported('type::compare of something else')
            if args[0] == T.t:
                return [Out('ret', st, tc)]
            t2 = fresh('neg')
            st.assume(z3.And(t2 > 0, t2 < (1 << 32), (t2 >= H) != (tc >= H)))
            return [Out('ret', st, t2)]
        p.ex.contracts.insert(0, (r'^dynamix::type::compare\(', h))
        outs = p.nothrow(p.call(args=[A.o, B.o]))
        p.cover(outs)
        for o in outs:
            r = zi(o.val)
            p.prove(o.st, z3.And(r != 0, (r >= H) == (tc >= H)), 'different types: ordered by type')
        for o in p.nothrow(p.call(args=[A.o, A.o])):
            p.prove(o.st, zi(o.val) == 0, 'itself: 0')
    s.contract('object::compare (different types, itself)', TD, 'vf_ocmp', ocmp2)
