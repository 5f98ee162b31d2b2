import z3
from lib import *
from typespec import *

NATIVE = dict(src=['c18.cpp'], lib='lib')
TRUST = TRUST_T + ['the object satisfies its invariant: one entry of the mixin table for each mixin of its type, each mixin preceded by a pointer to the object (established by the operations under C16, C17 and C20)']


def verify(s):
    i, q = z3.Ints('i q')

    def setup(p, ids=True):
        T = Ty(p, ids=ids)
        A = Ob(p, T)
        # the back pointers of the mixins
        p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), z3.Select(p.ex.base_arrs[8], A.mixin(i) - 8) == A.o)))
        return T, A

    def get(p, arg, has=False):
        T, A = setup(p)
        if arg == 'id':
            x = p.u('id', 32)
            a = x
        else:
            a = p.ptr('info')
            x = T.idof(a)
            p.assume(x >= 0, x < (1 << 32))
        outs = p.nothrow(p.call(args=[A.o, a]))
        p.cover(outs)
        at = lambda c: z3.And(c >= 0, c < T.n, T.idof(T.mix(c)) == x)
        for o in outs:
            if has:
                r = b8(o.val)
                p.prove(o.st, z3.ForAll([i], z3.Implies(at(i), r)), 'true if the type has the mixin')
                p.prove(o.st, z3.Implies(r, z3.And(x < T.ns, at(T.sp(x)))), 'true only if the type has the mixin')
            else:
                r = zi(o.val)
                p.prove(o.st, z3.ForAll([i], z3.Implies(at(i), r == A.mixin(i))), 'the mixin at the position of that mixin in the type')
                p.prove(o.st, z3.Implies(z3.ForAll([i], z3.Not(at(i))), r == 0), 'null if the type lacks it')
            frame(p, o)
    for e, t in (('get', 'object::get'), ('cget', 'object::get const'), ('ohas', 'object::has')):
        for a in ('id', 'info'):
            s.contract('%s(%s)' % (t, a), TD, 'vf_%s_%s' % (e, a), lambda p, a=a, e=e: get(p, a, e == 'ohas'))

    def name(p, has=False):
        T, A = setup(p, ids=False)
        T.names_ok()
        abstract_bytes(p)
        b, l = p.ptr('nb', nonnull=False), p.u('nl', 40)
        sv_pre(p, b, b + l)
        outs = p.nothrow(p.call(args=[A.o, b, l]))
        p.cover(outs)
        eqn = lambda c: z3.And(c >= 0, c < T.n, sveq(*T.name(T.mix(c)), b, b + l))
        first = lambda c: z3.And(eqn(c), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), z3.Not(eqn(i)))))
        for o in outs:
            if has:
                p.prove(o.st, b8(o.val) == z3.Exists([i], eqn(i)), 'true exactly if a mixin has the name')
            else:
                r = zi(o.val)
                p.prove(o.st, z3.ForAll([q], z3.Implies(first(q), r == A.mixin(q))), 'the first mixin with that name')
                p.prove(o.st, z3.Implies(z3.ForAll([q], z3.Not(eqn(q))), r == 0), 'null if there is none')
            frame(p, o)
    for e, t in (('get', 'object::get'), ('cget', 'object::get const'), ('ohas', 'object::has')):
        s.contract('%s(name)' % t, TD, 'vf_%s_name' % e, lambda p, e=e: name(p, e == 'ohas'))

    def at(p):
        T, A = setup(p)
        x = p.u('index', 32)
        outs = p.nothrow(p.call(args=[A.o, x]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, zi(o.val) == z3.If(x < T.n, A.mixin(x), z3.IntVal(0)), 'the mixin at that position, null out of range')
            frame(p, o)
    s.contract('object::get_at', TD, 'vf_get_at', at)
    s.contract('object::get_at const', TD, 'vf_cget_at', at)

    def of(p):
        T, A = setup(p)
        x = p.u('index', 32)
        p.assume(x < T.n)
        outs = p.nothrow(p.call(args=[A.mixin(x)]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, zi(o.val) == A.o, 'object_of a mixin is its object')
            frame(p, o)
    s.contract('object_of', TD, 'vf_object_of', of)
    s.contract('object_of const', TD, 'vf_cobject_of', of)

    def setobj(p):
        T, A = setup(p)
        d, ob = p.stack('data'), p.ptr('obj')
        m = p.ptr('mixin')
        p.assume(m >= 8192, m % 8 == 0)
        p.wr(8, d + p.k.md_mixin, m)
        p.wr(8, d + p.k.md_buf, p.u('buf', 47))
        outs = p.nothrow(p.call(args=[d, ob]))
        p.cover(outs)
        f = z3.Int('f')
        for o in outs:
            for o2 in p.nothrow(p.call('vf_object_of', [m], o.st)):
                p.prove(o2.st, zi(o2.val) == ob, 'object_of reads what set_object stored')
            p.prove(o.st, z3.Implies(z3.And(f >= 0, f < PRE_MAX, f != m - 8), z3.Select(p.M(8, o.st), f) == z3.Select(p.ex.base_arrs[8], f)), 'only the pointer before the mixin is written')
            p.prove(o.st, zi(p.rd(o.st, 8, d + p.k.md_mixin)) == m, 'the mixin pointer is kept')
    s.contract('object_mixin_data::set_object', TD, 'vf_set_object', setobj)

    def simple(p):
        T, A = setup(p)
        for e, want in (('onum', T.n), ('otype', T.t), ('odom', T.dom)):
            outs = p.nothrow(p.call('vf_' + e, [A.o]))
            p.cover(outs, e)
            for o in outs:
                p.prove(o.st, zi(o.val) == want, e + ': that of the type')
                frame(p, o)
        for e, want in (('oempty', T.n == 0), ('osealed', A.sealed != 0)):
            outs = p.nothrow(p.call('vf_' + e, [A.o]))
            p.cover(outs, e)
            for o in outs:
                p.prove(o.st, b8(o.val) == want, e)
        for o in p.nothrow(p.call('vf_oseal', [A.o])):
            p.prove(o.st, zi(p.rd(o.st, 1, A.o + p.k.ob_sealed)) == 1, 'seal() seals')
            frame(p, o)
        for o in p.nothrow(p.call('vf_dom', [T.t])):
            p.prove(o.st, zi(o.val) == T.dom, 'layout of type::dom')
    s.contract('object: num_mixins, get_type, get_domain, empty, sealed', TD, 'vf_onum', simple)
