import z3
from lib import *
from svspec import *
from vecspec import *
from typespec import TRUST_T

NATIVE = dict(src=['c15.cpp'], lib='lib')
TRUST = TRUST_T[1:] + TRUST_V + ['domain::get_mixin_info(name) by contract: the registered mixin or null (C13)']
D = 'tmut.cpp'
NOTE = ('every operation of type_mutation except dedup is proved for all inputs from the IR of the current sources; dedup is checked by a bounded run only; '
        'trusts the VC generator, clang front end, solvers and the contracts listed in the evidence')


def verify(s):
    i, j, q = z3.Ints('i j q')

    class S:
        def __init__(self, p, oom=True):
            self.p = p
            self.m = p.stack('mutation')
            vec_contracts(p, oom)
            abstract_bytes(p)
            self.dom = p.ptr('dom')
            p.wr(8, self.m, self.dom)
            self.b, self.n, self.el = vec_pre(p, self.m + p.k.tm_mixins)
            nm = self.name(i)
            p.assume(z3.ForAll([i], z3.Implies(self.rng(i), z3.And(nm[0] >= 0, nm[0] <= nm[1], nm[1] < PRE_MAX, z3.Implies(nm[0] == 0, nm[1] == 0)))))
            self.found = None

            def look(ex, st, args, inst, dem):
                d, l, nb = args
                ex.prove_pre(st, z3.And(zi(d) == self.dom, zi(l) == self.nl, zi(nb) == self.nb), 'get_mixin_info: asks its own domain for that name')
                return [Out('ret', st, self.found)]
            p.ex.contracts.insert(0, (r'^dynamix::domain::get_mixin_info\(std::basic_string_view', look))

        def rng(self, i):
            return z3.And(i >= 0, i < self.n)

        def name(self, i):
            a = self.p.ex.base_arrs[8]
            return z3.Select(a, self.el(i) + self.p.k.i_name), z3.Select(a, self.el(i) + self.p.k.i_name + 8)

        def arg_info(self):
            x = self.p.ptr('info')
            return [self.m, x], (lambda c: self.el(c) == x), x

        def arg_name(self):
            p = self.p
            self.nb, self.nl = p.ptr('nb', nonnull=False), p.u('nl', 40)
            sv_pre(p, self.nb, self.nb + self.nl)
            self.found = p.ptr('found', nonnull=False)
            p.assume(z3.Or(self.found == 0, self.found >= 4096))
            return [self.m, self.nb, self.nl], (lambda c: sveq(*self.name(c), self.nb, self.nb + self.nl)), self.found

        def list_is(self, o, n, el, what):
            """the list after: n elements el(i)"""
            p = self.p
            v = Vec(p, o.st, self.m + p.k.tm_mixins)
            p.prove(o.st, v.bytes() == 8 * zi(n), what + ' (length)')
            p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), v.at(i) == el(i))), what)
            p.prove(o.st, zi(p.ld(o.st, 8, self.m)) == self.dom, 'the domain is kept')

        def same(self, o, what='the list is unchanged'):
            self.list_is(o, self.n, self.el, what)

    def has(match, c):
        return z3.Exists([j], z3.And(c.rng(j), match(j)))

    def none(match, c):
        return z3.ForAll([j], z3.Implies(c.rng(j), z3.Not(match(j))))

    def first(match, c, f):
        return z3.And(c.rng(f), match(f), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), z3.Not(match(j)))))
    isthrow = lambda o: o.kind == 'throw'
    oom = lambda o: isthrow(o) and 'bad_alloc' in str(o.val)

    def add(p):
        c = S(p)
        args, match, x = c.arg_info()
        outs = p.call(args=args)
        p.cover([o for o in outs if not isthrow(o)])
        for o in outs:
            if isthrow(o):
                p.prove(o.st, zb(oom(o)), 'throws only when out of memory')
                c.same(o)
            else:
                c.list_is(o, c.n + 1, lambda t: z3.If(t == c.n, x, c.el(t)), 'appends')
    s.contract('type_mutation::add(info)', D, 'vf_add', add)

    def add_if(p):
        c = S(p)
        args, match, x = c.arg_info()
        outs = p.call(args=args)
        p.cover([o for o in outs if not isthrow(o)])
        for o in outs:
            if isthrow(o):
                p.prove(o.st, zb(oom(o)), 'throws only when out of memory')
                c.same(o)
                continue
            r = b8(o.val)
            p.prove(o.st, z3.Implies(r, none(match, c)), 'true only if it was absent')
            p.prove(o.st, z3.Implies(none(match, c), r), 'true if it was absent')
            c.list_is(o, z3.If(r, c.n + 1, c.n), lambda t: z3.If(t == c.n, x, c.el(t)), 'appends if absent')
    s.contract('type_mutation::add_if_lacking(info)', D, 'vf_add_if', add_if)

    def removed(c, f):
        return lambda t: z3.If(t < f, c.el(t), c.el(t + 1))

    def remove(p, byname):
        c = S(p)
        args, match, x = c.arg_name() if byname else c.arg_info()
        outs = p.nothrow(p.call(args=args))
        p.cover(outs)
        f = z3.Int('f')
        for o in outs:
            r = (zi(o.val) != 0) if byname else b8(o.val)
            st = o.st.copy()
            st.assume(z3.Or(first(match, c, f), none(match, c)))
            o2 = Out('ret', st, o.val)
            p.prove(st, z3.Implies(none(match, c), z3.Not(r)), 'nothing to remove: says so')
            p.prove(st, z3.Implies(first(match, c, f), zi(o.val) == c.el(f) if byname else r), 'removed: ' + ('returns the first mixin with that name' if byname else 'says so'))
            v = Vec(p, st, c.m + p.k.tm_mixins)
            s1 = st.copy()
            s1.assume(first(match, c, f))
            c.list_is(Out('ret', s1), c.n - 1, removed(c, f), 'erases the first occurrence only')
            s1 = st.copy()
            s1.assume(none(match, c))
            c.same(Out('ret', s1))
    s.contract('type_mutation::remove(info)', D, 'vf_remove', lambda p: remove(p, 0))
    s.contract('type_mutation::remove(name)', D, 'vf_remove_n', lambda p: remove(p, 1))

    def to_back(p, byname):
        c = S(p)
        args, match, x = c.arg_name() if byname else c.arg_info()
        outs = p.call(args=args)
        p.cover([o for o in outs if not isthrow(o)])
        p.cover([o for o in outs if isthrow(o)], 'can throw')
        f = z3.Int('f')
        for o in outs:
            if isthrow(o):
                p.prove(o.st, none(match, c), 'throws only if it is absent')
                c.same(o)
                continue
            st = o.st.copy()
            st.assume(none(match, c))
            p.prove(st, False, 'returns only if it is there')
            st = o.st.copy()
            st.assume(first(match, c, f))
            c.list_is(Out('ret', st), c.n, lambda t: z3.If(t == c.n - 1, c.el(f), removed(c, f)(t)), 'moves the first occurrence to the end')
            if byname:
                p.prove(st, zi(o.val) == c.el(f), 'returns that mixin')
    s.contract('type_mutation::to_back(info)', D, 'vf_to_back', lambda p: to_back(p, 0))
    s.contract('type_mutation::to_back(name)', D, 'vf_to_back_n', lambda p: to_back(p, 1))

    def hasq(p, byname, neg):
        c = S(p)
        args, match, x = c.arg_name() if byname else c.arg_info()
        outs = p.nothrow(p.call(args=args))
        p.cover(outs)
        f = z3.Int('f')
        for o in outs:
            if byname and not neg:
                st = o.st.copy()
                p.prove(st, z3.ForAll([f], z3.Implies(first(match, c, f), zi(o.val) == c.el(f))), 'the first mixin with that name')
                p.prove(st, z3.Implies(none(match, c), zi(o.val) == 0), 'null if there is none')
            else:
                r = z3.Not(b8(o.val)) if neg else b8(o.val)
                p.prove(o.st, z3.Implies(none(match, c), z3.Not(r)), 'absent')
                p.prove(o.st, z3.Implies(r == False, none(match, c)), 'present')
            c.same(o)
    for e, n, g in (('has', 0, 0), ('lacks', 0, 1), ('has_n', 1, 0), ('lacks_n', 1, 1)):
        s.contract('type_mutation::%s(%s)' % (e[:-2] if n else e, 'name' if n else 'info'), D, 'vf_' + e, lambda p, n=n, g=g: hasq(p, n, g))

    def add_n(p, safe):
        c = S(p)
        args, match, x = c.arg_name()
        outs = p.call(args=args)
        p.cover([o for o in outs if not isthrow(o)])
        for o in outs:
            if isthrow(o):
                if not oom(o):
                    p.prove(o.st, z3.And(x == 0, zb(not safe)), 'throws only for an unknown name')
                c.same(o)
                continue
            p.prove(o.st, zi(o.val) == x, 'returns the registered mixin')
            if not safe:
                p.prove(o.st, x != 0, 'unknown names throw')
            c.list_is(o, z3.If(x == 0, c.n, c.n + 1), lambda t: z3.If(t == c.n, x, c.el(t)), 'appends the registered mixin')
    s.contract('type_mutation::add(name)', D, 'vf_add_n', lambda p: add_n(p, 0))
    s.contract('type_mutation::safe_add(name)', D, 'vf_sadd_n', lambda p: add_n(p, 1))

    def add_if_n(p, safe):
        c = S(p)
        args, match, x = c.arg_name()
        outs = p.call(args=args)
        p.cover([o for o in outs if not isthrow(o)])
        for o in outs:
            if isthrow(o):
                p.prove(o.st, none(match, c), 'throws only if absent')
                if not oom(o):
                    p.prove(o.st, z3.And(x == 0, zb(not safe)), 'throws only for an unknown name')
                c.same(o)
                continue
            nn = none(match, c)
            for hyp, nm in ((nn, 'absent'), (z3.Not(nn), 'present')):
                st = o.st.copy()
                st.assume(hyp)
                o2 = Out('ret', st)
                if nm == 'absent':
                    p.prove(st, zi(o.val) == x, 'absent: returns the registered mixin')
                    if not safe:
                        p.prove(st, x != 0, 'absent: unknown names throw')
                    c.list_is(o2, z3.If(x == 0, c.n, c.n + 1), lambda t: z3.If(t == c.n, x, c.el(t)), 'absent: appends the registered mixin')
                else:
                    p.prove(st, zi(o.val) == 0, 'present: returns null')
                    c.same(o2, 'present: the list is unchanged')
    s.contract('type_mutation::add_if_lacking(name)', D, 'vf_add_if_n', lambda p: add_if_n(p, 0))
    s.contract('type_mutation::safe_add_if_lacking(name)', D, 'vf_sadd_if_n', lambda p: add_if_n(p, 1))

    # features: mixin c has nf(c) features, fi(c, t) is the info of feature t
    def feats(p, c):
        k = p.k
        M8, M4 = p.ex.base_arrs[8], p.ex.base_arrs[4]
        fb = lambda m: z3.Select(M8, c.el(m) + k.i_features)
        nf = lambda m: z3.Select(M4, c.el(m) + k.i_nfeatures)
        fi = lambda m, t: z3.Select(M8, fb(m) + k.d_size * t + k.d_info)
        p.assume(z3.ForAll([i], z3.Implies(c.rng(i), z3.And(nf(i) >= 0, nf(i) < (1 << 32), fb(i) >= 0, fb(i) < (1 << 46), z3.Implies(fb(i) == 0, nf(i) == 0)))))
        return nf, fi

    def seen(p, nf, no):
        """invariant candidate: no feature of the mixins seen so far matches"""
        p.ex.cands.append(lambda ctx: [lambda v: z3.And(
            z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < v.k - 1, j >= 0, j < nf(i)), no(i, j))),
            z3.Implies(v.k > 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nf(v.k - 1)), no(v.k - 1, j)))))])

    def strong(p, soft):
        c = S(p)
        nf, fi = feats(p, c)
        x = p.ptr('feature')
        is_ = lambda m, t: z3.And(c.rng(m), t >= 0, t < nf(m), fi(m, t) == x)
        seen(p, nf, lambda a, b: fi(a, b) != x)
        outs = p.nothrow(p.call(args=[c.m, x]))
        p.cover(outs)
        d = z3.Select(p.ex.base_arrs[8], x + p.k.f_def)
        for o in outs:
            r = b8(o.val)
            no = z3.ForAll([i, j], z3.Not(is_(i, j)))
            st = o.st.copy()
            st.assume(no)
            if soft:
                st.assume(d == 0)
            p.prove(st, z3.Not(r), 'no feature: false')
            st = o.st.copy()
            st.assume(is_(i, j))
            p.prove(st, r, 'some mixin has it: true')
            if soft:
                st = o.st.copy()
                st.assume(d != 0)
                p.prove(st, r, 'default: true')
            c.same(o)
    s.contract('type_mutation::implements_strong(info)', D, 'vf_strong', lambda p: strong(p, 0))
    s.contract('type_mutation::implements(info)', D, 'vf_impl', lambda p: strong(p, 1))

    def strong_n(p):
        c = S(p)
        nf, fi = feats(p, c)
        args, match, x = c.arg_name()
        M8 = p.ex.base_arrs[8]
        nm = lambda f: (z3.Select(M8, f + p.k.f_name), z3.Select(M8, f + p.k.f_name + 8))
        b, e = nm(fi(i, j))
        p.assume(z3.ForAll([i, j], z3.Implies(z3.And(c.rng(i), j >= 0, j < nf(i)), z3.And(fi(i, j) >= 4096, fi(i, j) < PRE_MAX, b >= 0, b <= e, e < PRE_MAX, z3.Implies(b == 0, e == 0)))))
        is_ = lambda m, t: z3.And(c.rng(m), t >= 0, t < nf(m), sveq(*nm(fi(m, t)), c.nb, c.nb + c.nl))
        seen(p, nf, lambda a, b: z3.Not(sveq(*nm(fi(a, b)), c.nb, c.nb + c.nl)))
        outs = p.nothrow(p.call(args=args))
        p.cover(outs)
        for o in outs:
            st = o.st.copy()
            st.assume(z3.ForAll([i, j], z3.Not(is_(i, j))))
            p.prove(st, zi(o.val) == 0, 'no feature: null')
            st = o.st.copy()
            st.assume(is_(i, j))
            p.prove(st, zi(o.val) != 0, 'some mixin has it: not null')
            st = o.st.copy()
            st.assume(zi(o.val) != 0)
            p.prove(st, sveq(*nm(zi(o.val)), c.nb, c.nb + c.nl), 'a feature of that name')
            c.same(o)
    s.contract('type_mutation::implements_strong(name)', D, 'vf_strong_n', strong_n)

    def ctor(p):
        vec_contracts(p, False)
        m, t, a = p.stack('mutation'), p.stack('type'), p.stack('alloc')
        mb, n, dom, res = p.ptr('mb'), p.u('n', 32), p.ptr('dom'), p.ptr('res')
        p.assume(mb + 8 * n < PRE_MAX)
        p.wr(8, t + p.k.t_mixins, mb)
        p.wr(8, t + p.k.t_mixins + 8, mb + 8 * n)
        p.wr(8, t + p.k.t_mixins - 8, dom)
        p.wr(8, a, res)
        outs = p.nothrow(p.call(args=[m, t, a]))
        p.cover(outs)
        for o in outs:
            v = Vec(p, o.st, m + p.k.tm_mixins)
            p.prove(o.st, v.bytes() == 8 * n, 'as many mixins as the type')
            p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), v.at(i) == z3.Select(p.ex.base_arrs[8], mb + 8 * i))), 'the mixins of the type in order')
            p.prove(o.st, z3.And(zi(p.ld(o.st, 8, m)) == dom, zi(p.ld(o.st, 8, m + p.k.tm_mixins)) == res), 'the domain of the type, the given allocator')
        d2 = p.ptr('dom2')
        for o in p.nothrow(p.call('vf_ctor0', [m, d2, a])):
            v = Vec(p, o.st, m + p.k.tm_mixins)
            p.prove(o.st, z3.And(v.bytes() == 0, zi(p.ld(o.st, 8, m)) == d2), 'from a domain: empty')
    s.contract('type_mutation::type_mutation', D, 'vf_ctor', ctor)
