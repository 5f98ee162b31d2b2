"""The element registry of a domain: three vectors of pointers (null: a free slot)."""
import z3
from lib import *
from svspec import *
from vecspec import *

DD = 'dom.cpp'
INVALID = (1 << 32) - 1
TRUST_D = ['locks (std::shared_mutex) have no effect on a sequential run',
           'the infos passed in and the registered ones do not overlap the registry (distinct objects)',
           'itlib::data_mutex is the stand-in of /verif/standins (itlib is not part of the repository)']
i, j, q = z3.Ints('i j q')


def locks(p):
    p.ex.contracts.append((r'^(pthread_rwlock_|std::__shared_mutex_pthread::|std::__glibcxx_rwlock|__pthread)', lambda ex, st, args, inst, dem: [Out('ret', st, 0)]))
    p.ex.contracts.append((r'^std::(shared_mutex|__shared_mutex_pthread)::', lambda ex, st, args, inst, dem: [Out('ret', st, None)]))


class Reg:
    """one registry vector in the pre-state"""
    def __init__(self, p, v, tag, noff):
        self.p, self.v, self.tag, self.noff = p, v, tag, noff
        b, n, cap = p.ptr(tag + '_b', nonnull=False), p.u(tag + '_n', 31), p.u(tag + '_cap', 32)
        self.b, self.n, self.cap = b, n, cap
        p.assume(cap >= n, b + 8 * cap < PRE_MAX, z3.Implies(b == 0, cap == 0), z3.Or(b == 0, b >= 4096))
        p.wr(8, v, p.ptr(tag + '_res'))
        p.wr(8, v + 8, b)
        p.wr(8, v + 16, b + 8 * n)
        p.wr(8, v + 24, b + 8 * cap)
        nb, ne = self.name(self.el(i))
        p.assume(z3.ForAll([i], z3.Implies(self.rng(i), z3.Or(self.el(i) == 0, z3.And(self.el(i) >= 4096, self.el(i) < PRE_MAX, nb >= 0, nb <= ne, ne < PRE_MAX, z3.Implies(nb == 0, ne == 0))))))

    def el(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.b + 8 * c)

    def rng(self, c):
        return z3.And(c >= 0, c < self.n)

    def name(self, x):
        a = self.p.ex.base_arrs[8]
        return z3.Select(a, x + self.noff), z3.Select(a, x + self.noff + 8)

    def same(self, o, what=''):
        self.is_(o, self.n, self.el, 'registry of %s unchanged%s' % (self.tag, what))

    def is_(self, o, n, el, what):
        p = self.p
        V = Vec(p, o.st, self.v)
        p.prove(o.st, V.bytes() == 8 * zi(n), what + ' (length)')
        p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), V.at(i) == el(i))), what)


class Dom:
    def __init__(self, p, oom=True):
        self.p, k = p, p.k
        vec_contracts(p, oom)
        abstract_bytes(p)
        locks(p)
        self.d, self.im = p.stack('domain'), p.stack('impl')
        p.wr(8, self.d + k.d_impl, self.im)
        p.wr(8, self.im + k.im_dom, self.d)
        self.dupm, self.dupf = p.u('dupm', 1), p.u('dupf', 1)
        p.wr(1, self.d + k.d_set + k.s_dupm, self.dupm)
        p.wr(1, self.d + k.d_set + k.s_dupf, self.dupf)
        er = self.im + k.im_er
        self.f = Reg(p, er + k.er_f, 'features', k.f_name)
        self.m = Reg(p, er + k.er_m, 'mixins', k.i_name)
        self.c = Reg(p, er + k.er_c, 'classes', k.c_name)
        self.all = (self.f, self.m, self.c)
        self.heap = [(R.b, R.b + 8 * R.cap) for R in self.all]
        for x, y in ((0, 1), (0, 2), (1, 2)):
            a, b = self.heap[x], self.heap[y]
            p.assume(z3.Or(a[1] <= b[0], b[1] <= a[0]))
        # the registered infos lie apart from the vectors
        for R in self.all:
            e = R.el(i)
            for a, b in self.heap:
                p.assume(z3.ForAll([i], z3.Implies(z3.And(R.rng(i), e != 0), z3.Or(e + 4096 <= a, e >= b))))

    def rest(self, o, *but):
        for R in self.all:
            if R not in but:
                R.same(o)

    def no_writes(self, o, what='nothing is changed'):
        f = z3.Int('addr!frame')
        for w in (1, 4, 8):
            self.p.prove(o.st, z3.Implies(z3.And(f >= 0, f < PRE_MAX), z3.Select(self.p.M(w, o.st), f) == z3.Select(self.p.ex.base_arrs[w], f)), what + ' (%d)' % w)
        self.rest(o)


def lookups(s):
    def byid(p, which):
        d = Dom(p)
        R = getattr(d, which)
        x = p.u('id', 32)
        outs = p.nothrow(p.call(args=[d.d, x]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, zi(o.val) == z3.If(x < R.n, R.el(x), 0), 'the element of that slot, null beyond')
            d.no_writes(o)
    s.contract('domain::get_mixin_info(id)', DD, 'vf_get_m', lambda p: byid(p, 'm'))
    s.contract('domain::get_feature_info(id)', DD, 'vf_get_f', lambda p: byid(p, 'f'))

    def byname(p, which):
        d = Dom(p)
        R = getattr(d, which)
        b, l = p.ptr('nb', nonnull=False), p.u('nl', 40)
        sv_pre(p, b, b + l)
        outs = p.nothrow(p.call(args=[d.d, b, l]))
        p.cover(outs)
        hit = lambda c: z3.And(R.el(c) != 0, sveq(*R.name(R.el(c)), b, b + l))
        for o in outs:
            none = z3.ForAll([j], z3.Implies(R.rng(j), z3.Not(hit(j))))
            st = o.st.copy()
            st.assume(none)
            p.prove(st, zi(o.val) == 0, 'null if no registered element has the name')
            f = z3.Int('f')
            st = o.st.copy()
            st.assume(z3.And(R.rng(f), hit(f), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), z3.Not(hit(j))))))
            p.prove(st, zi(o.val) == R.el(f), 'the registered element of the least id with that name')
            d.no_writes(o)
    for e, w, t in (('mn', 'm', 'mixin_info'), ('fn', 'f', 'feature_info'), ('cn', 'c', 'type_class')):
        s.contract('domain::get_%s(name)' % t, DD, 'vf_get_' + e, lambda p, w=w: byname(p, w))


def unknowns(ctx):
    """readers of the loop variables (registers and memory) whose value is not a function of the
    iteration number"""
    out = [lambda v, r=r: v.phi.get(r) for r in ctx.init if ctx.steps[r] is False or ctx.steps[r] is None]
    out += [lambda v, w=w, a=a: v.rd(w, a) for w, a in ctx.cells]
    return out


def free_slot(p, R):
    """invariant candidates for loops which look for the first free slot, in either direction"""
    def gen(ctx):
        out = []
        for get in unknowns(ctx):
            def back(v, get=get, fwd=False):
                x = get(v)
                if isinstance(x, (tuple, bool)) or x is None or not z3.is_int(zi(x)):
                    return None
                x = zi(x)
                lo, hi = (0, v.k) if fwd else (R.n - v.k, R.n)
                none = z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), R.el(j) != 0))
                return z3.And(z3.Implies(x == INVALID, none), z3.Implies(x != INVALID, z3.And(x >= lo, x < hi, R.el(x) == 0)),
                              z3.Implies(x != INVALID, z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < x), R.el(j) != 0))))
            out += [back, lambda v, get=get: back(v, get, True)]
        return out
    p.ex.cands.append(gen)


class Info:
    """the element passed in, at a place of its own"""
    def __init__(self, p, d, tag, ido, nameo, regs=True):
        self.p = p
        self.x = p.stack(tag)
        self.ido = ido
        self.id = p.u('id', 32)
        p.wr(4, self.x + ido, self.id)
        self.nb, self.ne = p.ptr('nb', nonnull=False), p.ptr('ne', nonnull=False)
        sv_pre(p, self.nb, self.ne)
        p.wr(8, self.x + nameo, self.nb)
        p.wr(8, self.x + nameo + 8, self.ne)

    def newid(self, o):
        return zi(self.p.rd(o.st, 4, self.x + self.ido))


def frame_but(p, o, lo, hi=None, what='nothing else is written'):
    """lo, hi: the range of words which may be written (or: width -> range)"""
    but = lo if isinstance(lo, dict) else {8: (lo, hi)}
    f = z3.Int('addr!frame')
    for w in (1, 4, 8):
        g = z3.Select(p.M(w, o.st), f) == z3.Select(p.ex.base_arrs[w], f)
        c = z3.And(f >= 0, f < PRE_MAX)
        if w in but:
            c = z3.And(c, *[z3.Or(f < l, f >= h) for l, h in zip(but[w][::2], but[w][1::2])])
        p.prove(o.st, z3.Implies(c, g), what + ' (%d)' % w)


def registered(p, d, R, I, outs, dup, dom=None):
    """the contract of registering element I in registry R"""
    hit = lambda c: z3.And(R.el(c) != 0, sveq(*R.name(R.el(c)), I.nb, I.ne))
    nodup = [z3.Implies(dup == 0, I.nb != I.ne), z3.Implies(dup == 0, z3.ForAll([j], z3.Implies(R.rng(j), z3.Not(hit(j)))))]
    full = z3.ForAll([j], z3.Implies(R.rng(j), R.el(j) != 0))
    f = z3.Int('f')
    for o in outs:
        if o.kind == 'throw':
            if 'bad_alloc' in str(o.val):
                p.prove(o.st, full, 'memory is needed only when no slot is free')
            else:
                st = o.st.copy()
                st.assume(I.id == INVALID)
                for g in nodup:
                    st.assume(g)
                p.prove(st, False, 'throws only for registered elements and bad names')
            p.prove(o.st, I.newid(o) == I.id, 'failed: the element is unchanged')
            d.no_writes(o, 'failed: nothing is changed')
            continue
        p.prove(o.st, I.id == INVALID, 'registered elements are refused')
        p.prove(o.st, z3.Implies(dup == 0, I.nb != I.ne), 'empty names are refused')
        p.prove(o.st, z3.Implies(dup == 0, z3.ForAll([j], z3.Implies(R.rng(j), z3.Not(hit(j))))), 'duplicate names are refused')
        s1 = o.st.copy()
        s1.assume(full)
        o1 = Out('ret', s1)
        p.prove(s1, I.newid(o1) == R.n, 'no free slot: the id is the next one')
        R.is_(o1, R.n + 1, lambda c: z3.If(c == R.n, I.x, R.el(c)), 'no free slot: appended')
        s1 = o.st.copy()
        s1.assume(z3.And(R.rng(f), R.el(f) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), R.el(j) != 0))))
        o1 = Out('ret', s1)
        p.prove(s1, I.newid(o1) == f, 'a free slot: the id is the least free one')
        R.is_(o1, R.n, lambda c: z3.If(c == f, I.x, R.el(c)), 'a free slot: fills exactly that slot')
        frame_but(p, o, R.b, R.b + 8 * R.cap)
        d.rest(o, R)


def registration(s):
    def reg_f(p):
        d = Dom(p)
        k = p.k
        I = Info(p, d, 'info', k.f_id, k.f_name)
        free_slot(p, d.f)
        outs = p.call(args=[d.d, I.x])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        registered(p, d, d.f, I, outs, d.dupf)
    s.contract('domain::register_feature', DD, 'vf_reg_f', reg_f)

    def reg_m(p, nfeat):
        """features: any number of registered ones, or exactly one new one"""
        d = Dom(p)
        k = p.k
        I = Info(p, d, 'info', k.i_id, k.i_name)
        dom = p.ptr('idom', nonnull=False)
        p.assume(z3.Or(dom == 0, dom >= 4096))
        own = p.u('own', 1)
        p.wr(8, I.x + k.i_dom, z3.If(own == 1, zi(d.d), dom))
        idom = z3.If(own == 1, zi(d.d), dom)
        M8, M4 = p.ex.base_arrs[8], p.ex.base_arrs[4]
        F = None
        if nfeat == 1:
            F = Info2(p, 'feature', k.f_id, k.f_name)
            fa = p.stack('features')
            p.wr(8, fa + k.d_info, F.x)
            p.wr(8, I.x + k.i_features, fa)
            p.wr(4, I.x + k.i_nfeatures, 1)
            p.assume(F.id == INVALID)
        else:
            fb, nf = p.ptr('fb', nonnull=False), p.u('nf', 31)
            p.assume(fb + k.d_size * nf < PRE_MAX, z3.Implies(fb == 0, nf == 0))
            p.wr(8, I.x + k.i_features, fb)
            p.wr(4, I.x + k.i_nfeatures, nf)
            fi = lambda t: z3.Select(M8, fb + k.d_size * t + k.d_info)
            p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nf), z3.And(fi(i) >= 4096, fi(i) < PRE_MAX, z3.Select(M4, fi(i) + k.f_id) != INVALID))))
        free_slot(p, d.m)

        def reg(ex, st, args, inst, dem):
            """registering a feature, by its contract (proved as domain::register_feature)"""
            x, v, uniq = args[1:4]
            if not F:
                ex.prove_pre(st, z3.BoolVal(False), 'registered features are not registered again')
                return []
            R = d.f
            ex.prove_pre(st, z3.And(zi(x) == F.x, zi(v) == R.v, zb(uniq) == (d.dupf == 0), zi(p.rd(st, 4, F.x + k.f_id)) == INVALID), 'registers the feature in the registry of features')
            outs = [Out('throw', st.copy(), ('ext', 'registration error'))]
            s2 = st.copy()
            f = engine.fresh('slot')
            s2.assume(z3.And(R.rng(f), R.el(f) == 0))
            s2.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), R.el(j) != 0)))
            p.wr(8, R.b + 8 * f, F.x, s2)
            p.wr(4, F.x + k.f_id, f, s2)
            outs.append(Out('ret', s2, None))
            st.assume(z3.ForAll([j], z3.Implies(R.rng(j), R.el(j) != 0)))
            s3 = st.copy()
            st.assume(R.cap > R.n)
            p.wr(8, R.b + 8 * R.n, F.x, st)
            p.wr(8, R.v + 16, R.b + 8 * R.n + 8, st)
            p.wr(4, F.x + k.f_id, R.n, st)
            r = new_storage(ex, s3)
            ex.memcpy(s3, r, R.b, 8 * R.n)
            for a, y in ((r + 8 * R.n, F.x), (R.v + 8, r), (R.v + 16, r + 8 * R.n + 8), (R.v + 24, r + 8 * R.n + 8)):
                p.wr(8, a, y, s3)
            p.wr(4, F.x + k.f_id, R.n, s3)
            return outs + [Out('ret', st, None), Out('ret', s3, None)]
        p.ex.contracts.insert(0, (r'dynamix::domain::impl::basic_register_l<dnmx_feature_info>', reg))
        outs = p.call(args=[d.d, I.x])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        newdom = lambda o: zi(p.rd(o.st, 8, I.x + k.i_dom))
        foreign = z3.And(idom != 0, idom != zi(d.d))
        rets = []
        for o in outs:
            if o.kind == 'ret':
                p.prove(o.st, z3.Not(foreign), 'mixins of another domain are refused')
                p.prove(o.st, newdom(o) == zi(d.d), 'belongs to the domain')
            else:
                p.prove(o.st, newdom(o) == idom, 'failed: the domain of the mixin is kept')
                if o.st.copy() and 'bad_alloc' not in str(o.val):
                    s1 = o.st.copy()
                    s1.assume(foreign)
                    if not F:
                        d.no_writes(Out('throw', s1, o.val), 'foreign: nothing is changed')
                    p.prove(s1, I.newid(Out('throw', s1)) == I.id, 'foreign: the mixin is unchanged')
                s1 = o.st.copy()
                s1.assume(z3.Not(foreign))
                o = Out('throw', s1, o.val)
            rets.append(o)
        if not F:
            registered(p, d, d.m, I, rets, d.dupm)
        else:
            registered2(p, d, I, F, rets)
    s.contract('domain::register_mixin', DD, 'vf_reg_m', lambda p: reg_m(p, 0))
    s.contract('domain::register_mixin (one new feature)', DD, 'vf_reg_m', lambda p: reg_m(p, 1))

    def unreg_f(p):
        d = Dom(p)
        k = p.k
        R = d.f
        x = p.ptr('info')
        id_ = z3.Select(p.ex.base_arrs[4], x + k.f_id)
        p.assume(id_ >= 0, id_ <= INVALID)
        outs = p.call(args=[d.d, x])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        p.cover([o for o in outs if o.kind == 'ret'])
        # the slot of its id: it is registered when it is there
        own = z3.And(id_ < R.n, R.el(id_) == x)
        for o in outs:
            nid = zi(p.rd(o.st, 4, x + k.f_id))
            if o.kind == 'throw':
                p.prove(o.st, z3.Not(own), 'throws only for foreign elements')
                d.no_writes(o, 'foreign: nothing is changed')
                p.prove(o.st, nid == id_, 'foreign: the element is unchanged')
                continue
            p.prove(o.st, own, 'foreign elements are refused')
            p.prove(o.st, nid == INVALID, 'the id is invalid afterwards')
            R.is_(o, R.n, lambda c: z3.If(c == id_, 0, R.el(c)), 'frees exactly its slot')
            frame_but(p, o, {8: (R.b, R.b + 8 * R.cap), 4: (x + k.f_id, x + k.f_id + 4)})
            d.rest(o, R)
    s.contract('domain::unregister_feature', DD, 'vf_unreg_f', unreg_f)


def Info2(p, tag, ido, nameo):
    I = Info.__new__(Info)
    I.p, I.x, I.ido = p, p.stack(tag), ido
    I.id = p.u(tag + '_id', 32)
    p.wr(4, I.x + ido, I.id)
    I.nb, I.ne = p.ptr(tag + '_nb', nonnull=False), p.ptr(tag + '_ne', nonnull=False)
    sv_pre(p, I.nb, I.ne)
    p.wr(8, I.x + nameo, I.nb)
    p.wr(8, I.x + nameo + 8, I.ne)
    return I


def registered2(p, d, I, F, outs):
    """a mixin with one unregistered feature: the feature is registered first and stays registered"""
    R = d.m
    f, g = z3.Ints('f g')
    for o in outs:
        fid = F.newid(o)
        if o.kind == 'throw':
            p.prove(o.st, I.newid(o) == I.id, 'failed: the mixin is unchanged')
            R.same(o)
            d.c.same(o)
            s1 = o.st.copy()
            s1.assume(fid == INVALID)
            d.f.same(Out('throw', s1), ' (the feature was not registered)')
        s1 = o.st.copy()
        s1.assume(z3.ForAll([j], z3.Implies(d.f.rng(j), d.f.el(j) != 0)))
        o1 = Out('ret', s1)
        if o.kind == 'throw':
            s1.assume(fid != INVALID)
        p.prove(s1, fid == d.f.n, 'feature: the id is the next one')
        d.f.is_(o1, d.f.n + 1, lambda c: z3.If(c == d.f.n, F.x, d.f.el(c)), 'feature: appended')
        s1 = o.st.copy()
        s1.assume(z3.And(d.f.rng(f), d.f.el(f) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), d.f.el(j) != 0))))
        if o.kind == 'throw':
            s1.assume(fid != INVALID)
        o1 = Out('ret', s1)
        p.prove(s1, fid == f, 'feature: the id is the least free one')
        d.f.is_(o1, d.f.n, lambda c: z3.If(c == f, F.x, d.f.el(c)), 'feature: fills exactly that slot')
        if o.kind == 'throw':
            continue
        s1 = o.st.copy()
        s1.assume(z3.ForAll([j], z3.Implies(R.rng(j), R.el(j) != 0)))
        o1 = Out('ret', s1)
        p.prove(s1, I.newid(o1) == R.n, 'no free slot: the id is the next one')
        R.is_(o1, R.n + 1, lambda c: z3.If(c == R.n, I.x, R.el(c)), 'no free slot: appended')
        s1 = o.st.copy()
        s1.assume(z3.And(R.rng(f), R.el(f) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), R.el(j) != 0))))
        o1 = Out('ret', s1)
        p.prove(s1, I.newid(o1) == f, 'a free slot: the id is the least free one')
        R.is_(o1, R.n, lambda c: z3.If(c == f, I.x, R.el(c)), 'a free slot: fills exactly that slot')
        d.c.same(o)


def classes(s):
    def reg_c(p):
        d = Dom(p)
        k = p.k
        R = d.c
        x = p.stack('class')
        nb, ne = p.ptr('nb', nonnull=False), p.ptr('ne', nonnull=False)
        sv_pre(p, nb, ne)
        m = p.ptr('matches', nonnull=False)
        p.wr(8, x + k.c_name, nb)
        p.wr(8, x + k.c_name + 8, ne)
        p.wr(8, x + k.c_m, m)
        slot_ptr(p, R)
        outs = p.call(args=[d.d, x])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        hit = lambda c: z3.And(R.el(c) != 0, sveq(*R.name(R.el(c)), nb, ne))
        full = z3.ForAll([j], z3.Implies(R.rng(j), R.el(j) != 0))
        f = z3.Int('f')
        for o in outs:
            if o.kind == 'throw':
                if 'bad_alloc' in str(o.val):
                    p.prove(o.st, full, 'memory is needed only when no slot is free')
                else:
                    st = o.st.copy()
                    st.assume(z3.And(nb != ne, m != 0))
                    st.assume(z3.ForAll([j], z3.Implies(R.rng(j), z3.Not(hit(j)))))
                    p.prove(st, False, 'throws only for bad names or no function')
                d.no_writes(o, 'failed: nothing is changed')
                continue
            p.prove(o.st, z3.And(nb != ne, m != 0), 'empty names and missing functions are refused')
            p.prove(o.st, z3.ForAll([j], z3.Implies(R.rng(j), z3.Not(hit(j)))), 'duplicate names are refused')
            s1 = o.st.copy()
            s1.assume(full)
            R.is_(Out('ret', s1), R.n + 1, lambda c: z3.If(c == R.n, x, R.el(c)), 'no free slot: appended')
            s1 = o.st.copy()
            s1.assume(z3.And(R.rng(f), R.el(f) == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), R.el(j) != 0))))
            # (which free slot is used is not observable)
            V = Vec(p, s1, R.v)
            g = z3.Int('g')
            s2 = s1.copy()
            p.prove(s1, V.bytes() == 8 * R.n, 'a free slot: no growth')
            s1.assume(z3.And(R.rng(g), V.at(g) == x))
            p.prove(s1, R.el(g) == 0, 'only a free slot is used')
            p.prove(s1, z3.ForAll([i], z3.Implies(z3.And(R.rng(i), i != g), V.at(i) == R.el(i))), 'the other slots are kept')
            s2.assume(z3.ForAll([g], z3.Implies(R.rng(g), V.at(g) != x)))
            p.prove(s2, False, 'it is registered')
            frame_but(p, o, R.b, R.b + 8 * R.cap)
            d.rest(o, R)
    s.contract('domain::register_type_class', DD, 'vf_reg_c', reg_c)

    def unreg_c(p):
        d = Dom(p)
        R = d.c
        x = p.ptr('class')
        outs = p.nothrow(p.call(args=[d.d, x]))
        p.cover(outs)
        f = z3.Int('f')
        for o in outs:
            s1 = o.st.copy()
            s1.assume(z3.ForAll([j], z3.Implies(R.rng(j), R.el(j) != x)))
            d.no_writes(Out('ret', s1), 'not registered: nothing is changed')
            s1 = o.st.copy()
            s1.assume(z3.And(R.rng(f), R.el(f) == x, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < R.n, j != f), R.el(j) != x))))
            R.is_(Out('ret', s1), R.n, lambda c: z3.If(c == f, 0, R.el(c)), 'frees exactly its slot')
            frame_but(p, o, R.b, R.b + 8 * R.cap)
            d.rest(o, R)
    s.contract('domain::unregister_type_class', DD, 'vf_unreg_c', unreg_c)


def slot_ptr(p, R):
    """as free_slot, the slot being remembered as a pointer (null: none)"""
    def gen(ctx):
        out = []
        for get in unknowns(ctx):
            def c(v, get=get, fwd=False):
                x = get(v)
                if isinstance(x, (tuple, bool)) or x is None or not z3.is_int(zi(x)):
                    return None
                x = zi(x)
                lo, hi = (0, v.k) if fwd else (R.n - v.k, R.n)
                none = z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), R.el(j) != 0))
                ix = z3.Int('ix')
                return z3.And(z3.Implies(x == 0, none),
                              z3.Implies(x != 0, z3.And(x >= R.b + 8 * lo, x < R.b + 8 * hi, (x - R.b) % 8 == 0, z3.Select(p.ex.base_arrs[8], x) == 0)))
            out += [c, lambda v, get=get: c(v, get, True)]
        return out
    p.ex.cands.append(gen)
