import z3
from lib import *
from svspec import *

D = 'sv.cpp'
NATIVE = dict(src=['c01.cpp'])
BOUNDED = []
TRUST = ['views are well formed: begin <= end, a null begin only with a null end']


def args2(p):
    a, b, c, d = (p.u(n, 47) for n in 'abcd')
    sv_pre(p, a, b)
    sv_pre(p, c, d)
    return a, b, c, d


def verify(s):
    def cmp3(p):
        a, b, c, d = args2(p)
        outs = p.nothrow(p.call(args=[a, b, c, d]))
        p.cover(outs)
        for o in outs:
            lt, eq = lex(p, o.st, a, b, c, d)
            r = signed(o.val, 32)
            p.prove(o.st, (r < 0) == lt if not is_c(r) else (lt if r < 0 else z3.Not(lt)), 'negative iff lexicographically smaller')
            p.prove(o.st, (zi(r) == 0) == eq, 'zero iff same length and bytes')
    s.contract('dnmx_sv_cmp', D, 'vf_cmp', cmp3)

    def boolf(spec):
        def f(p):
            a, b, c, d = args2(p)
            outs = p.nothrow(p.call(args=[a, b, c, d]))
            p.cover(outs)
            for o in outs:
                lt, eq = lex(p, o.st, a, b, c, d)
                p.prove(o.st, b8(o.val) == spec(lt, eq), 'result equals the spec')
        return f
    for e, t, sp in (('vf_eq', 'dnmx_sv_eq', lambda l, e: e), ('vf_op_eq', 'dnmx_sv::operator==(dnmx_sv)', lambda l, e: e),
                     ('vf_op_ne', 'dnmx_sv::operator!=(dnmx_sv)', lambda l, e: z3.Not(e)), ('vf_op_lt', 'dnmx_sv::operator<', lambda l, e: l),
                     ('vf_op_eqsv', 'dnmx_sv::operator==(string_view)', lambda l, e: e), ('vf_op_nesv', 'dnmx_sv::operator!=(string_view)', lambda l, e: z3.Not(e)),
                     ('vf_op_sveq', 'operator==(string_view, dnmx_sv)', lambda l, e: e)):
        s.contract(t, D, e, boolf(sp))

    def lemmas(p):
        # the spec order is a total order: antisymmetric, transitive, zero is equality
        a, b, c, d = args2(p)
        e, f = p.u('e', 47), p.u('f', 47)
        sv_pre(p, e, f)
        st = p.st0
        l1, q1 = lex(p, st, a, b, c, d)
        l2, q2 = lex(p, st, c, d, a, b)
        p.prove(st, z3.And(z3.Not(z3.And(l1, l2)), q1 == q2, z3.Or(l1, l2, q1)), 'spec order: trichotomy')
        l3, q3 = lex(p, st, c, d, e, f)
        l4, q4 = lex(p, st, a, b, e, f)
        p.prove(st, z3.Implies(z3.And(z3.Or(l1, q1), z3.Or(l3, q3)), z3.And(z3.Or(l4, q4), z3.Implies(z3.Or(l1, l3), l4))), 'spec order: transitivity')
        p.prove(st, q1 == eqbytes(p, st, a, b, c, d), 'spec equality is equality of the byte sequences')
    s.contract('lemma: lexicographic order', D, None, lemmas, timeout=20000)

    def first(p):
        a, b = p.u('a', 47), p.u('b', 47)
        sv_pre(p, a, b)
        q = p.u('q', 8)
        outs = p.nothrow(p.call(args=[a, b, q]))
        p.cover(outs)
        i = z3.Int('i')
        for o in outs:
            M = p.M(1, o.st)
            r = zi(o.val)
            p.prove(o.st, z3.Or(r == 0, z3.And(r >= a, r < b)), 'null or inside of the view')
            p.prove(o.st, z3.Implies(r != 0, z3.Select(M, r) == q), 'points to the searched character')
            end = z3.If(r == 0, b, r)
            p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < end - a), z3.Select(M, a + i) != q)), 'no earlier occurrence')
    s.contract('dnmx_sv_find_first', D, 'vf_first', first)

    def last(p):
        a, b = p.u('a', 47), p.u('b', 47)
        sv_pre(p, a, b)
        q = p.u('q', 8)
        outs = p.nothrow(p.call(args=[a, b, q]))
        p.cover(outs)
        i = z3.Int('i')
        for o in outs:
            M = p.M(1, o.st)
            r = zi(o.val)
            p.prove(o.st, z3.Or(r == 0, z3.And(r >= a, r < b)), 'null or inside of the view')
            p.prove(o.st, z3.Implies(r != 0, z3.Select(M, r) == q), 'points to the searched character')
            beg = z3.If(r == 0, a, r + 1)
            p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= beg, i < b), z3.Select(M, i) != q)), 'no later occurrence')
    s.contract('dnmx_sv_find_last', D, 'vf_last', last)

    def starts(p):
        a, b = p.u('a', 47), p.u('b', 47)
        sv_pre(p, a, b)
        c = p.ptr('c')
        outs = p.nothrow(p.call(args=[a, b, c]))
        p.cover(outs)
        i = z3.Int('i')
        f = engine.ffun('strlen_', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort())
        for o in outs:
            M = p.M(1, o.st)
            n = f(c, M)
            # n is the length of the C string c
            st = o.st.copy()
            engine.c_strlen(p.ex, st, [c], None, '')
            spec = z3.And(n <= b - a, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(M, a + i) == z3.Select(M, c + i))))
            p.prove(st, b8(o.val) == spec, 'true iff the C string is a prefix')
    s.contract('dnmx_sv_starts_with', D, 'vf_starts', starts)

    def simple(spec):
        def f(p):
            a, b = p.u('a', 47), p.u('b', 47)
            sv_pre(p, a, b)
            outs = p.nothrow(p.call(args=[a, b]))
            p.cover(outs)
            for o in outs:
                p.prove(o.st, spec(o.val, a, b), 'result equals the spec')
        return f
    s.contract('dnmx_sv_len', D, 'vf_len', simple(lambda r, a, b: zi(r) == b - a))
    s.contract('dnmx_sv_is_empty', D, 'vf_empty', simple(lambda r, a, b: b8(r) == (a == b)))
    s.contract('dnmx_sv::empty', D, 'vf_memp', simple(lambda r, a, b: b8(r) == (a == b)))
    s.contract('dnmx_sv_is_null', D, 'vf_null', simple(lambda r, a, b: b8(r) == (a == 0)))

    def out(kind):
        def f(p):
            a, b = p.u('a', 47), p.u('b', 47)
            sv_pre(p, a, b)
            r = p.stack('out')
            st = p.st0
            if kind == 'to_std':
                outs = p.nothrow(p.call(args=[a, b, r, r + 8]))
                want = (a, b - a)
            elif kind == 'mk_str':
                outs = p.nothrow(p.call(args=[a, r]))
            elif kind == 'mk_len':
                outs = p.nothrow(p.call(args=[a, b - a, r]))
                want = (a, b)
            else:
                outs = p.nothrow(p.call(args=[a, b, r]))
                want = (a, b)
            p.cover(outs)
            for o in outs:
                x, y = p.rd(o.st, 8, r), p.rd(o.st, 8, r + 8)
                if kind == 'mk_str':
                    M = p.M(1, o.st)
                    i = z3.Int('i')
                    p.prove(o.st, z3.Implies(a == 0, z3.And(zi(x) == 0, zi(y) == 0)), 'null string gives the null view')
                    p.prove(o.st, z3.Implies(a != 0, z3.And(zi(x) == a, zi(y) >= a)), 'view starts at the string')
                    p.prove(o.st, z3.Implies(a != 0, z3.And(z3.Select(M, zi(y)) == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(y) - a), z3.Select(M, a + i) != 0)))), 'view ends at the first nul')
                else:
                    p.prove(o.st, z3.And(zi(x) == want[0], zi(y) == want[1]), 'same range')
        return f
    s.contract('dnmx_sv::to_std', D, 'vf_to_std', out('to_std'))
    s.contract('dnmx_sv::from_std', D, 'vf_from_std', out('from'))
    s.contract('dnmx_make_sv_be', D, 'vf_mk_be', out('be'))
    s.contract('dnmx_make_sv_len', D, 'vf_mk_len', out('mk_len'))
    s.contract('dnmx_make_sv_str', D, 'vf_mk_str', out('mk_str'))
