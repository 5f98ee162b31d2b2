import z3
from lib import *
from typespec import *

NATIVE = dict(src=['c05.cpp'], lib='lib')
TRUST = TRUST_T


def verify(s):
    i = z3.Int('i')

    def by_id(p, res, neg=False, arg='id', index=False):
        T = Ty(p)
        if arg == 'id':
            x = p.u('id', 32)
            a = x
        else:
            a = p.ptr('info')
            x = T.idof(a)
            p.assume(x >= 0, x < (1 << 32))
        outs = p.nothrow(p.call(args=[T.t, a]))
        p.cover(outs)
        for o in outs:
            if index:
                r = zi(o.val)
                p.prove(o.st, z3.Or(r == INVALID, z3.And(r >= 0, r < T.n, T.idof(T.mix(r)) == x)), 'the position of the mixin with that id')
                p.prove(o.st, z3.Implies(r == INVALID, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), T.idof(T.mix(i)) != x))), 'invalid only if there is no such mixin')
                p.prove(o.st, z3.Implies(x == INVALID, r == INVALID), 'the invalid id is in no type')
            else:
                r = b8(o.val)
                r = z3.Not(r) if neg else r
                p.prove(o.st, z3.Implies(r, z3.And(x < T.ns, T.sp(x) < T.n, T.idof(T.mix(T.sp(x))) == x)), 'yes only if there is a mixin with that id')
                p.prove(o.st, z3.Implies(z3.Not(r), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), T.idof(T.mix(i)) != x))), 'no only if there is no such mixin')
            frame(p, o)
    s.contract('type::index_of(id)', TD, 'vf_index_id', lambda p: by_id(p, 0, index=True))
    for e, arg, neg in (('has_id', 'id', 0), ('has_info', 'info', 0), ('lacks_id', 'id', 1), ('lacks_info', 'info', 1)):
        s.contract('type::' + e.replace('_', '(') + ')', TD, 'vf_' + e, lambda p, arg=arg, neg=neg: by_id(p, 0, neg, arg))

    def by_name(p, index=False, neg=False):
        T = Ty(p, ids=False)
        T.names_ok()
        abstract_bytes(p)
        b, l = p.ptr('nb', nonnull=False), p.u('nl', 40)
        sv_pre(p, b, b + l)
        outs = p.nothrow(p.call(args=[T.t, b, l]))
        p.cover(outs)
        for o in outs:
            st = o.st

            def eqn(st, q):
                nb, ne = T.name(T.mix(q))
                return sveq(nb, ne, b, b + l)
            if index:
                r = zi(o.val)
                p.prove(st, z3.Or(r == INVALID, z3.And(r >= 0, r < T.n)), 'a position or invalid')
                p.prove(st, z3.Implies(r != INVALID, eqn(st, r)), 'the mixin there has that name')
                lim = z3.If(r == INVALID, T.n, r)
                p.prove(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lim), z3.Not(eqn(st, i)))), 'no mixin before it has that name')
            else:
                r = z3.Not(b8(o.val)) if neg else b8(o.val)
                ex = z3.And(i >= 0, i < T.n, eqn(st, i))
                p.prove(st, r == z3.Exists([i], ex), 'exactly when there is a mixin with that name')
            frame(p, o)
    s.contract('type::index_of(name)', TD, 'vf_index_name', lambda p: by_name(p, index=True))
    s.contract('type::has(name)', TD, 'vf_has_name', lambda p: by_name(p))
    s.contract('type::lacks(name)', TD, 'vf_lacks_name', lambda p: by_name(p, neg=True))
