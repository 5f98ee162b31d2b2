import itertools
import z3
import engine
from lib import *

NATIVE = dict(src=['c29.cpp'], lib='lib')
D = 'mutate.cpp'
LEVEL = 'other'
NOTE = ('deductive for each operation (what it does to the mutation, which mixin it overrides and with what), mutate(), gradual mutation, mutate_to '
        '(for up to three overrides, all indices and orders) and update_at; more operations in one call are bounded')
BOUNDED = ['more than three operations with overrides in one call of mutate_to']
TRUST = ['type_mutation, domain::get_type and object::reset_type by contract (C15, C10, C20)', 'the operations, mutate and mutate_to are templates: proved for the instances in the driver', 'std::sort gives an ordered permutation']
BAD = ('std', '_ZTISt9bad_alloc')


class W:
    """the calls which a mutation makes, in order, are recorded"""
    def __init__(self, p, throws=True):
        self.p = p
        self.obj = p.stack('object')
        self.dom, self.ot, self.rt, self.g = p.ptr('domain'), p.ptr('type of the object'), p.ptr('resulting type'), p.ptr('the_info')
        p.ex.uncaught = p.u('uncaught', 16)
        C = lambda rx, h: p.ex.contracts.insert(0, (rx, h))
        T = r'^dynamix::type_mutation::'

        def rec(st, *e):
            st.ghost['$ev'] = tuple(st.ghost.get('$ev', ())) + (tuple(e),)

        def ret(f):
            return lambda ex, st, a, inst, dem: [Out('ret', st, f(ex, st, a))]

        def op(what, throw, val=False):
            def h(ex, st, a, inst, dem):
                outs = []
                if throw and throws:
                    s = st.copy()
                    rec(s, what + '!', *a)
                    outs.append(Out('throw', s, BAD))
                rec(st, what, *a)
                v = None
                if 'string_view' in dem:
                    v = p.ptr('named', st=st) if what == 'add' else fresh('named')
                    st.ghost['$named'] = v
                elif what in ('remove',):
                    v = fresh('there')
                    st.assume(z3.Or(v == 0, v == 1))
                return outs + [Out('ret', st, v)]
            return h

        def has(ex, st, a, inst, dem):
            s = st.copy()
            rec(st, 'has', *a)
            rec(s, 'lacks', *a)
            return [Out('ret', st, True), Out('ret', s, False)]

        def get_type(ex, st, a, inst, dem):
            outs = []
            if throws:
                s = st.copy()
                rec(s, 'type!', *a)
                outs.append(Out('throw', s, BAD))
            rec(st, 'type', *a)
            return outs + [Out('ret', st, self.rt)]

        def begin(ex, st, a, inst, dem):
            if 'type const&' not in dem:
                raise Unsupported('mutation which starts otherwise')
            rec(st, 'begin', *a[:2])
            return [Out('ret', st, None)]

        def to(ex, st, a, inst, dem):
            rec(st, 'to', *a)
            st.ghost['$ops'] = tuple(ex.load(st, engine.IntTy(64), x) for x in a[2:])
            outs = []
            if throws:
                outs = [Out('throw', st.copy(), BAD)]
            return outs + [Out('ret', st, None)]
        C(T + r'type_mutation\(', begin)
        C(T + r'~type_mutation\(', ret(lambda *_: None))
        C(T + r'add\(', op('add', True))
        C(T + r'add_if_lacking\(std::', op('addif', True))
        C(T + r'remove\(', op('remove', False))
        C(T + r'to_back\(', op('back', True))
        C(T + r'has\(dnmx_mixin_info const&\) const', has)
        C(r'^dynamix::object::get_type\(\) const', lambda ex, st, a, i, d: (ex.prove_pre(st, zi(a[0]) == self.obj, 'on the object'), [Out('ret', st, self.ot)])[1])
        C(r'^dynamix::object::get_domain\(\) const', lambda ex, st, a, i, d: (ex.prove_pre(st, zi(a[0]) == self.obj, 'on the object'), [Out('ret', st, self.dom)])[1])
        C(r'^dynamix::domain::get_type\(dynamix::type_mutation', get_type)
        C(r'^void dynamix::mutate_to<', to)
        C(r'^dynamix::object::reset_type\(dynamix::type const&\)', to)
        C(r'^std::pmr::get_default_resource', ret(lambda *_: self.g))
        C(r'_dynamix_get_mixin_info', ret(lambda *_: self.g))
        C(r'^dynamix::domain::get_mixin_info\(std::', self.lookup)
        record_events(p)

    def lookup(self, ex, st, a, inst, dem):
        v = fresh('named')
        st.assume(z3.Or(v == 0, v >= 4096))
        st.ghost['$ev'] = tuple(st.ghost.get('$ev', ())) + (('lookup',) + tuple(a),)
        st.ghost['$named'] = v
        return [Out('ret', st, v)]

    def same(self, o, want, what):
        """exactly these calls; None: any value"""
        ev = events(o)
        ok = len(ev) == len(want) and all(e[0] == w[0] and len(e) >= len(w) for e, w in zip(ev, want))
        f = z3.And(z3.BoolVal(ok), *([zi(x) == zi(y) for e, w in zip(ev, want) for x, y in zip(e[1:], w[1:]) if y is not None] if ok else []))
        self.p.prove(o.st, f, what)
        return ok


def arg(p, how):
    if how == 'i':
        m = p.ptr('info')
        return [m], [m]
    s, n = p.ptr('name'), p.u('length', 40)
    return [s, n], [n, s]


def apply(p, how, what):
    w = W(p)
    m = p.stack('mutation')
    if how == 't':
        args, want = [], [w.g]
    elif how == 'x':
        args, want = [p.ptr('x')], [w.g]
    else:
        args, want = arg(p, how)
    outs = p.call(args=[m] + args)
    p.cover([o for o in outs if o.kind == 'ret'])
    for o in outs:
        w.same(o, [(what + ('!' if o.kind == 'throw' else ''), m, *want)], 'exactly the operation on the mutation' + (', whose error is passed on' if o.kind == 'throw' else ''))


def none(p, how):
    w = W(p)
    args, _ = arg(p, how)
    outs = p.nothrow(p.call(args=args + [w.obj]))
    p.cover(outs)
    for o in outs:
        p.prove(o.st, b8(o.val), 'overrides nothing')
        w.same(o, [], 'does nothing')


def override(p, kind, how):
    w = W(p, throws=False)
    mut = p.stack('mutation')
    args, want = arg(p, how) if how != 'x' else ([p.ptr('x')], [])
    outs = p.nothrow(p.call(args=args + [w.obj] + ([mut] if kind == 'fun' and how == 'n' else [])))
    p.cover(outs)
    for o in outs:
        info = want[0] if how == 'i' else w.g if how == 'x' else o.st.ghost.get('$named', z3.IntVal(-1))
        p.prove(o.st, zi(o.val) == info, 'overrides the construction of exactly its mixin')
        if how == 'n':
            w.same(o, [('add', mut, *want)] if kind == 'fun' else [('lookup', w.dom, *want)], 'the mixin is that of the name')


def call(p, how):
    w = W(p)
    k = p.k
    f, a = p.ptr('function'), p.stack('arguments')
    info, buf, ty = p.ptr('info'), p.ptr('buffer'), p.ptr('type')
    for o, v in ((k.a_info, info), (k.a_buf, buf), (k.a_type, ty)):
        p.wr(8, a + o, v)
    p.wr(4, a + k.a_type + 8, p.u('index', 32))
    outs = p.nothrow(p.call(args=[f, a] + ([p.ptr('name'), p.u('length', 40)] if how == 'n' else [])))
    p.cover(outs)
    for o in outs:
        w.same(o, [(1, f, buf), (3, info, ty)], 'calls exactly the given function, once, with the arguments of the construction')


def sequence(p, ops, how, mode):
    """ops: (what, which of the arguments)"""
    w = W(p)
    if how == 'n':
        n = p.u('length', 40)
        names = [p.ptr(c) for c in 'abc']
        args, val = names + [n], lambda c: (n, names['abc'.index(c)])
    elif how == 't':
        args, val = [], lambda c: (w.g,)
    else:
        names = [p.ptr(c) for c in 'abc']
        args, val = names, lambda c: (names['abc'.index(c)],)
    if how == 'i' and mode in ('apply', 'cancel'):
        args = args[:2 if mode == 'apply' else 1]
    outs = p.call(args=[w.obj] + args)
    p.cover([o for o in outs if o.kind == 'ret'])
    for o in outs:
        ev = events(o)
        muts = [e[1] for e in ev if e[0] == 'begin']
        p.prove(o.st, z3.BoolVal(len(muts) == 1 and bool(ev) and ev[0][0] == 'begin'), 'one mutation')
        if len(muts) != 1:
            continue
        m = muts[0]
        full = [('begin', m, w.ot)]
        alts = [full]
        for what, c in ops:
            if what == 'addif' and how != 'n':
                alts = [l + t for l in alts for t in ([('has', m, *val(c))], [('lacks', m, *val(c)), ('add', m, *val(c))])]
            else:
                alts = [l + [(what, m, *val(c))] for l in alts]
        end = [] if mode == 'cancel' else [('type', w.dom, m), ('to', w.obj, w.rt)]
        alts = [l + end for l in alts]
        kinds = [e[0] for e in ev]
        if o.kind == 'throw':
            # up to the operation which fails, and nothing after it
            at = len(kinds) - 1
            p.prove(o.st, z3.BoolVal(kinds[at].endswith('!') or kinds[at] == 'to'), 'an error is passed on, and nothing is done after it')
            l = next((l for l in alts if [e[0] for e in l[:at + 1]] == [x.rstrip('!') for x in kinds]), None)
            p.prove(o.st, z3.BoolVal(l is not None), 'the operations in order, up to the error')
            if l is not None:
                w.same(o, [(e[0] + ('!' if x.endswith('!') else ''),) + e[1:] for e, x in zip(l[:at + 1], kinds)], 'each with its mixin, up to the error')
            continue
        l = next((l for l in alts if [e[0] for e in l] == kinds), alts[0])
        if mode != 'cancel' and kinds[-1] == 'type':
            p.prove(o.st, w.rt == w.ot, 'the change is only left out when there is none')
            l = next((l[:-1] for l in alts if [e[0] for e in l[:-1]] == kinds), alts[0])
        w.same(o, l, 'exactly the operations in order on a mutation of the type of the object, then %s' % ('nothing' if mode == 'cancel' else 'the change to the resulting type'))
        if mode == 'fun' and kinds[-1] == 'to':
            got = o.st.ghost.get('$ops', ())
            last = ev[-1]
            ok = len(last) == 6
            p.prove(o.st, z3.BoolVal(ok), 'all operations are given to the change')
            if ok:
                af = lambda i: p.ld(o.st, 8, last[3 + i] + p.k.op_in_fun + p.k.op_info)
                p.prove(o.st, z3.And(zi(af(0)) == names[0], zi(af(2)) == names[2]), 'the overrides are given to the change in order')


def late(p):
    """unwinding out of the mutation: not applied"""
    w = W(p, throws=False)
    a, t = p.ptr('a'), p.ptr('t')

    def ev(ex, st, args, inst, dem):
        s = st.copy()
        s.ghost['$ev'] = tuple(s.ghost['$ev']) + (('out',),)
        s.ghost['$unc'] = 1
        return [Out('throw', s, ('user', 'x')), Out('ret', st, None)]
    p.ex.contracts.insert(0, (r'^ev\b', ev))
    outs = p.call(args=[w.obj, a, t])
    p.cover([o for o in outs if o.kind == 'ret'])
    p.cover([o for o in outs if o.kind == 'throw'], 'unwinding')
    for o in outs:
        m = [e[1] for e in events(o) if e[0] == 'begin']
        m = m[0] if m else 0
        if o.kind == 'throw':
            w.same(o, [('begin', m, w.ot), ('add', m, a), ('out',)], 'not applied when it is left by an exception')
        else:
            w.same(o, [('begin', m, w.ot), ('add', m, a), ('remove', m, a), ('type', w.dom, m), ('to', w.obj, w.rt)], 'applied at its end')


INVALID = (1 << 32) - 1
IDX = z3.Function('IDX', z3.IntSort(), z3.IntSort())     # id of a mixin -> its index in the type


def to(p, n, n0):
    w = W(p, throws=False)
    k = p.k
    ty = p.ptr('type')
    infos = [p.ptr(c) for c in 'abc']
    fns = [p.ptr(c) for c in 'fgh']
    buf = p.ptr('buffer')
    C = lambda rx, h: p.ex.contracts.insert(0, (rx, h))
    idx = [IDX(p.ld(p.st0, 4, infos[c] + k.i_id)) for c in range(n)]
    p.assume(*[z3.And(v >= 0, v <= INVALID) for v in idx])
    rec = lambda st, *e: st.ghost.__setitem__('$ev', tuple(st.ghost.get('$ev', ())) + (tuple(e),))

    def index_of(ex, st, a, inst, dem):
        ex.prove_pre(st, zi(a[0]) == ty, 'in the resulting type')
        v = IDX(zi(a[1]))
        st.assume(z3.And(v >= 0, v <= INVALID))
        return [Out('ret', st, v)]

    def equal(ex, st, a, inst, dem):
        ex.prove_pre(st, z3.Or(z3.And(zi(a[0]) == w.ot, zi(a[1]) == ty), z3.And(zi(a[1]) == w.ot, zi(a[0]) == ty)), 'the types of the object and of the change')
        s = st.copy()
        st.assume(w.ot == ty)
        s.assume(w.ot != ty)
        return [Out('ret', st, 'operator==' in dem), Out('ret', s, 'operator!=' in dem)]

    def begin(ex, st, a, inst, dem):
        rec(st, 'begin', *a[:3])
        return [Out('ret', st, None)]

    def end(ex, st, a, inst, dem):
        rec(st, 'end', a[0])
        return [Out('ret', st, None)]
    lam = [f for f in p.m.funcs if re.search(r'mutate_to<.*::operator\(\)\(dynamix::init_new_args\) const', p.m.dem.get(f, f))]

    def update(ex, st, a, inst, dem):
        """constructs a new mixin with the given function, and leaves a common one alone; or throws"""
        bad, com = st.copy(), st.copy()
        rec(bad, 'bad', *a[:2])
        rec(com, 'common', *a[:2])
        rec(st, 'at', *a[:2])
        n0 = len(st.ghost['$ev'])
        arg = ex.new_region('arguments')
        p.wr(8, arg + k.a_buf, buf, st)
        p.wr(8, arg + k.a_info, buf, st)
        p.wr(8, arg + k.a_type, ty, st)
        p.wr(4, arg + k.a_type + 8, a[1], st)
        mine = [f for f in lam if p.m.dem[f].split('::{lambda')[0].split('::operator')[0] in dem]
        if len(mine) != 1:
            raise Unsupported('what a mixin is constructed with')
        outs = ex.call(st, mine[0], [a[2], arg], inst)
        return [Out('throw', bad, BAD), Out('ret', com, None)] + outs
    def sort(ex, st, a, inst, dem):
        """a permutation in which no element is less than the one before it"""
        if not (is_c(a[0]) and is_c(a[1])) or not 0 <= a[1] - a[0] <= 8 * n:
            raise Unsupported('sorting of other than the overrides')
        els = [ex.load(st, engine.IntTy(64), x) for x in range(a[0], a[1], 8)]
        less = [f for f in p.m.funcs if re.search(r'::operator\(\)\(dynamix::object_mutate_op const\*, dynamix::object_mutate_op const\*\) const$', p.m.dem.get(f, f))
                and p.m.dem[f].split('::operator()(dynamix::object_mutate_op')[0] in dem]
        if len(less) != 1:
            raise Unsupported('the order of the overrides')
        cmp_ = ex.new_region('order')
        outs = []
        for pm in itertools.permutations(els):
            sts = [st.copy()]
            for e, f in zip(pm, pm[1:]):
                nx = []
                for s in sts:
                    for r in ex.call(s, less[0], [cmp_, f, e], inst):
                        if r.kind != 'ret':
                            raise Unsupported('an order which throws')
                        r.st.assume(z3.Not(b8(r.val)))
                        if ex.feasible(r.st):
                            nx.append(r.st)
                sts = nx
            for s in sts:
                for q, e in enumerate(pm):
                    p.wr(8, a[0] + 8 * q, e, s)
                outs.append(Out('ret', s, None))
        return outs
    C(r'^void std::(stable_)?sort<dynamix::object_mutate_op\*\*, dynamix::mutate_to<', sort)
    T = r'dynamix::object_mutation::'
    C('^' + T + r'object_mutation\(dynamix::object&, dynamix::type const&\)', begin)
    C('^' + T + r'~object_mutation\(', end)
    C(r'^(void )?' + T + r'update_at<', update)
    C(r'^dynamix::type::index_of\((dnmx_mixin_id|unsigned int)\) const', index_of)
    C(r'dynamix::type::operator[!=]=\(|dynamix::operator[!=]=\(dynamix::type const&', equal)
    for q, (rx, h) in enumerate(p.ex.contracts):
        if rx.startswith('^void dynamix::mutate_to<'):
            del p.ex.contracts[q]
            break
    args = [w.obj, ty]
    for c in range(n):
        args += [infos[c], fns[c]]
    args += infos[n:n + n0]
    if p.entry == 'vf_t5':
        args += [p.u('used_i', 32), p.u('used_j', 32)]
    outs = p.call(args=args)
    p.cover([o for o in outs if o.kind == 'ret'])
    for o in outs:
        ev = events(o)
        at = [e for e in ev if e[0] in ('at', 'common', 'bad')]
        if not ev:
            p.prove(o.st, w.ot == ty, 'does nothing only when the object is of the type')
            continue
        if ev[0][0] == 'to':
            w.same(o, [('to', w.obj, ty)], 'nothing but the change to the type')
            p.prove(o.st, z3.And(*[v == INVALID for v in idx]), 'without overrides only when none applies')
            continue
        ok = ev[0][0] == 'begin' and ev[-1][0] == 'end' and [e[0] for e in ev].count('begin') == 1 and [e[0] for e in ev].count('end') == 1
        p.prove(o.st, z3.And(z3.BoolVal(ok), zi(ev[0][2]) == w.obj, zi(ev[0][3]) == ty) if ok else False, 'one mutation of the object to the type')
        if not ok:
            continue
        p.prove(o.st, z3.And(*[zi(e[1]) == zi(ev[0][1]) for e in at]), 'on this mutation')
        p.prove(o.st, z3.And(*[zi(e[2]) <= zi(f[2]) for e, f in zip(at, at[1:])]), 'in the order of the type')
        p.prove(o.st, z3.BoolVal([e[0] for e in ev].count('bad') == (o.kind == 'throw') and all(e[0] != 'bad' for e in at[:-1])), 'an error is passed on, and nothing is done after it')
        inv = z3.And(*[z3.Or(*[z3.And(v != INVALID, zi(e[2]) == v) for v in idx]) for e in at])
        p.prove(o.st, inv, 'only where a mixin is overridden')
        if o.kind != 'throw':
            p.prove(o.st, z3.Sum([z3.If(v != INVALID, 1, 0) for v in idx] + [z3.IntVal(0)]) == len(at), 'every override of a mixin of the type is used, once')
            p.prove(o.st, z3.And(*[z3.Or(v == INVALID, *[zi(e[2]) == v for e in at]) for v in idx]), 'at the index of its mixin')
        # every construction is with the function of a mixin with this index
        for q, e in enumerate(ev):
            if e[0] == 'at':
                nx = ev[q + 1] if q + 1 < len(ev) else ('none',)
                good = nx[0] == 1
                p.prove(o.st, z3.And(z3.Or(*[z3.And(zi(nx[1]) == fns[c], idx[c] == zi(e[2])) for c in range(n)]), zi(nx[2]) == buf) if good else False, 'constructed by the override of its mixin')
        p.prove(o.st, z3.BoolVal(sum(e[0] == 1 for e in ev) == sum(e[0] == 'at' for e in ev)), 'no other override is called')


def at_index(p):
    k = p.k
    m, f = p.stack('mutation'), p.ptr('function')
    up, i, n = p.u('updated_upto', 32), p.u('index', 32), p.u('n', 32)
    p.wr(4, m + k.mu_uu, up)
    t = p.nothrow(p.call('vf_target', [m]))[0].val
    C = lambda rx, h: p.ex.contracts.insert(0, (rx, h))
    T = r'dynamix::object_mutation::'
    rec = lambda st, *e: st.ghost.__setitem__('$ev', tuple(st.ghost.get('$ev', ())) + (tuple(e),))

    def num(ex, st, a, inst, dem):
        ex.prove_pre(st, zi(a[0]) == zi(t), 'of the resulting type')
        return [Out('ret', st, n)]

    def step(what):
        def h(ex, st, a, inst, dem):
            s = st.copy()
            rec(s, what + '!', *a[:2])
            rec(st, what, *a[:2])
            if what == 'default':
                # up to the given index or the end, and never back
                old, d = zi(ex.load(st, engine.IntTy(32), m + k.mu_uu)), zi(a[1])
                d = z3.If(d > n, n, d)
                p.wr(4, m + k.mu_uu, z3.If(d > old, d, old), st)
            else:
                ex.prove_pre(st, zi(ex.load(st, engine.IntTy(32), m + k.mu_uu)) == i, 'at the index')
            return [Out('throw', s, BAD), Out('ret', st, None)]
        return h
    C(r'^dynamix::type::num_mixins\(\) const', num)
    C('^' + T + r'throw_bad_piecewise_mutation', lambda ex, st, a, inst, dem: [Out('throw', st, ('std', 'mutation_error'))])
    C('^' + T + r'default_construct_each_new_mixin\(', step('default'))
    C('^(void )?' + T + r'update_next_mixin<', step('next'))
    outs = p.call(args=[m, i, f])
    p.cover([o for o in outs if o.kind == 'ret'])
    p.cover([o for o in outs if not events(o)], 'refused')
    for o in outs:
        ev = events(o)
        bad = z3.Or(i < up, i >= n)
        if not ev:
            p.prove(o.st, z3.And(z3.BoolVal(o.kind == 'throw'), bad), 'refused only out of order or out of range, before anything is done')
            continue
        p.prove(o.st, z3.Not(bad), 'refused when out of order or out of range')
        ks = [e[0] for e in ev]
        base = [x.rstrip('!') for x in ks]
        ok = all(b == 'default' for b in base[:-1]) and not any(x.endswith('!') for x in ks[:-1]) and (o.kind == 'throw') == ks[-1].endswith('!')
        ok = ok and (base[-1] == 'next' or o.kind == 'throw')
        p.prove(o.st, z3.And(z3.BoolVal(ok), *[zi(e[1]) == m for e in ev], *[zi(e[2]) == f for e in ev if e[0][:4] == 'next'], *[zi(e[2]) <= i for e in ev if e[0][:4] != 'next']),
                'the mixins before it by default, then exactly this one with the given function')


def verify(s):
    for e, what, how, title in (('add_i', 'add', 'i', 'add(info)'), ('add_n', 'add', 'n', 'add(name)'), ('rem_i', 'remove', 'i', 'remove(info)'),
                                ('rem_n', 'remove', 'n', 'remove(name)'), ('bak_i', 'back', 'i', 'to_back(info)'), ('bak_n', 'back', 'n', 'to_back(name)'),
                                ('add_t', 'add', 't', 'add<Mixin>()'), ('rem_t', 'remove', 't', 'remove<Mixin>()'), ('bak_t', 'back', 't', 'to_back<Mixin>()'),
                                ('fun_i', 'add', 'i', 'add(info, function)'), ('fun_n', 'add', 'n', 'add(name, function)'), ('arg', 'add', 'x', 'add<Mixin>(arguments)')):
        s.contract(title + ': apply_to_type_mutation', D, 'vf_o_' + e, lambda p, how=how, what=what: apply(p, how, what))
        if e[-2:] in ('_i', '_n') and e[:3] != 'fun':
            s.contract(title + ': to_obj_mutate', D, 'vf_n_' + e, lambda p, how=how: none(p, how))
    for e, kind, how, title in (('fun_i', 'fun', 'i', 'add(info, function)'), ('fun_n', 'fun', 'n', 'add(name, function)'), ('con_i', 'con', 'i', 'construct(info, function)'),
                                ('con_n', 'con', 'n', 'construct(name, function)'), ('arg', 'fun', 'x', 'add<Mixin>(arguments)'), ('carg', 'con', 'x', 'construct<Mixin>(arguments)')):
        s.contract(title + ': overridden mixin', D, 'vf_p_' + e, lambda p, kind=kind, how=how: override(p, kind, how))
        if how != 'x':
            s.contract(title + ': do_init', D, 'vf_f_' + e, lambda p, how=how: call(p, how))
    seq = lambda e, t, ops, how, mode: s.contract(t, D, e, lambda p: sequence(p, ops, how, mode))
    seq('vf_m_i', 'mutate(add, remove, to_back)', [('add', 'a'), ('remove', 'b'), ('back', 'c')], 'i', '')
    seq('vf_m_i2', 'mutate(to_back, add, remove, add)', [('back', 'a'), ('add', 'b'), ('remove', 'c'), ('add', 'a')], 'i', '')
    seq('vf_m_n', 'mutate(remove, to_back, add) by name', [('remove', 'a'), ('back', 'b'), ('add', 'c')], 'n', '')
    seq('vf_m_f', 'mutate(add with a function, add, add with a function)', [('add', 'a'), ('add', 'b'), ('add', 'c')], 'i', 'fun')
    g = [('add', 'a'), ('remove', 'b'), ('back', 'c'), ('addif', 'a')]
    seq('vf_g_i', 'gradual mutation', g, 'i', '')
    seq('vf_g_n', 'gradual mutation by name', g, 'n', '')
    seq('vf_g_t', 'gradual mutation by class', [('back', 'a'), ('add', 'a'), ('remove', 'a'), ('addif', 'a')], 't', '')
    seq('vf_g_apply', 'gradual mutation: apply', [('add', 'a'), ('remove', 'b')], 'i', 'apply')
    seq('vf_g_cancel', 'gradual mutation: cancel', [('add', 'a')], 'i', 'cancel')
    s.contract('gradual mutation left by an exception', D, 'vf_g_late', late)
    for e, n, n0, t in (('vf_t0', 0, 2, 'no override'), ('vf_t1', 1, 0, 'one override'), ('vf_t2', 2, 0, 'two overrides'), ('vf_t3', 2, 1, 'two overrides and another operation'),
                        ('vf_t4', 3, 0, 'three overrides'), ('vf_t5', 2, 0, 'two overrides which were used before')):
        s.contract('mutate_to: ' + t, D, e, lambda p, n=n, n0=n0: to(p, n, n0), limit=200)
    s.contract('object_mutation::update_at', D, 'vf_at', at_index)
