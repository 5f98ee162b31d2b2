"""Type queries on the feature table and on type classes (used by C06, C13, C19)."""
import z3
from lib import *
from typespec import *

i, q = z3.Ints('i q')


def strong(s):
    def fid_of(p, T, arg):
        if arg == 'id':
            x = p.u('fid', 32)
            return x, x
        f = p.ptr('feature')
        x = z3.Select(p.ex.base_arrs[4], f + p.k.f_id)
        p.assume(x >= 0, x < (1 << 32))
        return f, x

    def byid(p, arg, soft=False):
        T = Ty(p)
        a, x = fid_of(p, T, arg)
        E = T.entry(x)
        outs = p.nothrow(p.call(args=[T.t, a]))
        p.cover(outs)
        want = z3.And(x < T.nf, E.N > 0)
        if soft:
            want = z3.Or(want, z3.Select(p.ex.base_arrs[8], a + p.k.f_def) != 0)
        for o in outs:
            p.prove(o.st, b8(o.val) == want, 'true exactly when the type has a payload of the feature' + (' or the feature has a default' if soft else ''))
            frame(p, o)
    s.contract('type::implements_strong(id)', TD, 'vf_strong_id', lambda p: byid(p, 'id'))
    s.contract('type::implements_strong(info)', TD, 'vf_strong_info', lambda p: byid(p, 'info'))
    s.contract('type::implements(info)', TD, 'vf_implements', lambda p: byid(p, 'info', True))

    def at(p):
        T = Ty(p)
        x = p.u('fid', 32)
        E = T.entry(x)
        r = p.stack('out')
        outs = p.nothrow(p.call(args=[T.t, x, r]))
        p.cover(outs)
        k = p.k
        for o in outs:
            b, t, e = [zi(p.rd(o.st, 8, r + z)) for z in (k.e_begin, k.e_top, k.e_end)]
            p.prove(o.st, z3.If(z3.And(x < T.nf, E.N > 0), z3.And(b == E.B, t == E.at(E.tb), e == E.at(E.N)), z3.And(b == 0, t == 0, e == 0)), 'the entry of the feature, empty beyond the table')
            frame(p, o)
    s.contract('type::ftable_at', TD, 'vf_ftable_at', at)
    s.contract('dnmx_ftable_at', TD, 'vf_cftable_at', at)

    def name(p):
        """the table here is an array in memory: entry c of begin pointer eb(c)"""
        T = Ty(p, ids=False)
        k = p.k
        fb = p.ptr('fb')
        p.assume(fb + k.e_size * T.nf < PRE_MAX)
        p.wr(8, T.t + k.t_ftable, fb)
        M8 = p.ex.base_arrs[8]
        eb = lambda c: z3.Select(M8, fb + k.e_size * c + k.e_begin)
        data = lambda c: z3.Select(M8, eb(c) + k.p_data)
        info = lambda c: z3.Select(M8, data(c) + k.d_info)
        nm = lambda c: (z3.Select(M8, info(c) + k.f_name), z3.Select(M8, info(c) + k.f_name + 8))
        b, e = nm(i)
        okp = lambda v: z3.And(v >= 4096, v < PRE_MAX)
        p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.nf), z3.And(z3.Or(eb(i) == 0, z3.And(okp(eb(i)), okp(data(i)), okp(info(i)), b >= 0, b <= e, e < PRE_MAX, z3.Implies(b == 0, e == 0)))))))
        abstract_bytes(p)
        nb, l = p.ptr('nb', nonnull=False), p.u('nl', 40)
        sv_pre(p, nb, nb + l)
        outs = p.nothrow(p.call(args=[T.t, nb, l]))
        p.cover(outs)
        has = lambda c: z3.And(c >= 0, c < T.nf, eb(c) != 0, sveq(*nm(c), nb, nb + l))
        for o in outs:
            p.prove(o.st, b8(o.val) == z3.Exists([i], has(i)), 'true exactly when a feature of that name has a payload')
            frame(p, o)
    s.contract('type::implements_strong(name)', TD, 'vf_strong_name', name)


def classes(s):
    def is_of(p, obj):
        pure_user(p)
        T = Ty(p, ids=False)
        tc = p.ptr('class')
        m = z3.Select(p.ex.base_arrs[8], tc + p.k.tc_m)
        p.assume(m != 0)
        outs = p.nothrow(p.call(args=[Ob(p, T).o if obj else T.t, tc]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, b8(o.val) == (USER(m, T.t, 0, 0) != 0), 'the predicate of the class on the type')
            frame(p, o)
    s.contract('type::is_of(class)', TD, 'vf_is_of', lambda p: is_of(p, 0))
    s.contract('object::is_of(class)', TD, 'vf_obj_is_of', lambda p: is_of(p, 1))

    def by_name(p, obj):
        pure_user(p)
        T = Ty(p, ids=False)
        nb, l = p.ptr('nb', nonnull=False), p.u('nl', 40)
        sv_pre(p, nb, nb + l)
        tc = p.ptr('class', nonnull=False)
        m = z3.Select(p.ex.base_arrs[8], tc + p.k.tc_m)
        p.assume(m != 0, z3.Or(tc == 0, tc >= 4096))

        def look(ex, st, args, inst, dem):
            d, n, b = args
            ex.prove_pre(st, z3.And(zi(d) == T.dom, zi(n) == l, zi(b) == nb), 'get_type_class: asks the domain of the type for that name')
            return [Out('ret', st, tc)]
        p.ex.contracts.insert(0, (r'^dynamix::domain::get_type_class\(', look))
        outs = p.call(args=[Ob(p, T).o if obj else T.t, nb, l])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            if o.kind == 'throw':
                p.prove(o.st, tc == 0, 'throws only for unknown names')
                continue
            p.prove(o.st, z3.And(tc != 0, b8(o.val) == (USER(m, T.t, 0, 0) != 0)), 'the predicate of the registered class on the type')
            frame(p, o)
    s.contract('type::is_of(name)', TD, 'vf_is_of_name', lambda p: by_name(p, 0))
    s.contract('object::is_of(name)', TD, 'vf_obj_is_of_name', lambda p: by_name(p, 1))


def traits(s):
    def tr(p, ok):
        T = Ty(p, ids=False)
        k = p.k
        fn = lambda c, f: z3.Select(p.ex.base_arrs[8], T.mix(c) + getattr(k, f)) != 0
        outs = p.nothrow(p.call(args=[T.t]))
        p.cover(outs)
        all_ = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), ok(lambda f: fn(i, f))))
        for o in outs:
            p.prove(o.st, z3.Implies(b8(o.val), all_), 'true only if every mixin has the function')
            p.prove(o.st, z3.Implies(all_, b8(o.val)), 'true if every mixin has the function')
            frame(p, o)
    for e, t, ok in (('defc', 'default_constructible', lambda f: f('i_init')), ('cc', 'copy_constructible', lambda f: f('i_cinit')), ('ca', 'copy_assignable', lambda f: f('i_casgn')),
                     ('cp', 'copyable', lambda f: z3.And(f('i_cinit'), f('i_casgn'))), ('ec', 'equality_comparable', lambda f: z3.Or(f('i_equals'), f('i_compare'))),
                     ('cmpb', 'comparable', lambda f: f('i_compare'))):
        s.contract('type::' + t, TD, 'vf_' + e, lambda p, ok=ok: tr(p, ok))
