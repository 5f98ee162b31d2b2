"""The representation invariant of a type (established by domain::create_type, see C04/C06) and
specification functions over it."""
import z3
from lib import *
from svspec import *

TD = 'type.cpp'
INVALID = (1 << 32) - 1
TRUST_T = ['the type satisfies its invariant: the sparse table inverts the ids of the mixins, the feature table holds the payloads of each feature contiguously',
           'string_view comparison is libstdc++ code over memcmp (its contract is assumed)',
           'assertions are compiled out (as in a release build)']


class Ty:
    """a symbolic type of n mixins, sparse table of ns entries, feature table of nf entries"""

    def __init__(self, p, tag='t', n=None, ids=True, sparse=True):
        self.p, k = p, p.k
        self.t = p.stack(tag)
        self.n = p.u(tag + '_n', 32) if n is None else n
        self.ns, self.nf = p.u(tag + '_ns', 32), p.u(tag + '_nf', 32)
        self.mb, self.sb, self.fb = p.ptr(tag + '_mb'), p.ptr(tag + '_sb'), p.stack(tag + '_ftable')
        self.dom = p.ptr(tag + '_dom')
        p.assume(self.ns < INVALID, self.n < INVALID, self.mb + 8 * self.n < PRE_MAX, self.sb + 4 * self.ns < PRE_MAX)
        p.assume(self.mb % 8 == 0)
        w = p.wr
        w(8, self.t + k.t_mixins, self.mb)
        w(8, self.t + k.t_mixins + 8, self.mb + 8 * self.n)
        w(8, self.t + k.t_sparse, self.sb)
        w(8, self.t + k.t_sparse + 8, self.sb + 4 * self.ns)
        w(8, self.t + k.t_ftable, self.fb)
        w(4, self.t + k.t_ftlen, self.nf)
        w(8, self.t + k.t_mixins - 8, self.dom)   # `dom` precedes `mixins` (checked by vf_dom)
        j = z3.Int('j!inv')
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.mix(j) >= 4096, self.mix(j) < PRE_MAX, self.mix(j) % 8 == 0))))
        if ids:
            i, q = z3.Int('i!inv'), z3.Int('q!inv')
            p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.idof(self.mix(i)) >= 0, self.idof(self.mix(i)) < self.ns, self.sp(self.idof(self.mix(i))) == i))))
            p.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < self.ns), z3.Or(self.sp(q) == INVALID, z3.And(self.sp(q) >= 0, self.sp(q) < self.n, self.idof(self.mix(self.sp(q))) == q)))))

    # values in the pre-state
    def mix(self, i):
        return z3.Select(self.p.ex.base_arrs[8], self.mb + 8 * i)

    def idof(self, m):
        return z3.Select(self.p.ex.base_arrs[4], m + self.p.k.i_id)

    def sp(self, q):
        return z3.Select(self.p.ex.base_arrs[4], self.sb + 4 * q)

    def name(self, m):
        a = self.p.ex.base_arrs[8]
        return z3.Select(a, m + self.p.k.i_name), z3.Select(a, m + self.p.k.i_name + 8)

    def entry(self, fid, tag='e', empty=None):
        """the feature table entry of fid: N payloads from B (N == 0 iff B is null)"""
        p, k = self.p, self.p.k
        B, N, tb = p.ptr(tag + '_B', nonnull=False), p.u(tag + '_N', 31), p.u(tag + '_top', 31)
        a = self.fb + k.e_size * fid
        p.wr(8, a + k.e_begin, B)
        p.wr(8, a + k.e_end, B + k.p_size * N)
        p.wr(8, a + k.e_top, z3.If(N == 0, z3.IntVal(0), B + k.p_size * tb))
        p.assume(B + k.p_size * N < PRE_MAX, z3.Implies(B != 0, B >= 4096), B % 8 == 0, (B == 0) == (N == 0), z3.Implies(N > 0, tb < N))
        E = Entry(self, B, N, tb)
        i, q = z3.Int('i!fe'), z3.Int('q!fe')
        rng = lambda v: z3.And(v >= 0, v < N)
        p.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(E.mi(i) >= 0, E.mi(i) < self.n, E.data(i) >= 4096, E.data(i) < PRE_MAX, E.data(i) % 8 == 0))))
        # each mixin provides a feature once
        p.assume(z3.ForAll([i, q], z3.Implies(z3.And(rng(i), rng(q), i != q), E.mi(i) != E.mi(q))))
        # descending bids
        p.assume(z3.ForAll([i, q], z3.Implies(z3.And(rng(i), rng(q), i <= q), E.bid(i) >= E.bid(q))))
        p.assume(z3.ForAll([i], z3.Implies(rng(i), (E.bid(i) == E.bid(z3.IntVal(0))) == (i <= tb))))
        return E

    def names_ok(self):
        """the mixin names are well-formed views"""
        i = z3.Int('i!nm')
        b, e = self.name(self.mix(i))
        self.p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(b >= 0, b <= e, e < PRE_MAX, z3.Implies(b == 0, e == 0)))))


class Entry:
    def __init__(self, T, B, N, tb):
        self.T, self.B, self.N, self.tb = T, B, N, tb

    def at(self, i):
        return self.B + self.T.p.k.p_size * i

    def mi(self, i):
        return z3.Select(self.T.p.ex.base_arrs[4], self.at(i) + self.T.p.k.p_mi)

    def data(self, i):
        return z3.Select(self.T.p.ex.base_arrs[8], self.at(i) + self.T.p.k.p_data)

    def payload(self, i):
        return z3.Select(self.T.p.ex.base_arrs[8], self.at(i) + self.T.p.k.p_pl)

    def bid(self, i):
        return signed(z3.Select(self.T.p.ex.base_arrs[4], self.data(i) + self.T.p.k.d_bid), 32)


def frame(p, o, what='writes nothing'):
    f = z3.Int('addr!frame')
    for w in (1, 4, 8):
        p.prove(o.st, z3.Implies(z3.And(f >= 0, f < PRE_MAX), z3.Select(p.M(w, o.st), f) == z3.Select(p.ex.base_arrs[w], f)), '%s (%d)' % (what, w))


class Ob:
    """an object of type T (the mixin table is at db)"""
    def __init__(self, p, T, tag='o', obj=None):
        self.p, k = p, p.k
        self.T = T
        self.o = p.stack(tag) if obj is None else obj
        self.db = p.ptr(tag + '_db')
        self.sealed = p.u(tag + '_sealed', 1)
        p.assume(self.db % 8 == 0, self.db + k.md_size * T.n < PRE_MAX)
        p.wr(8, self.o + k.ob_type, T.t)
        p.wr(8, self.o + k.ob_data, z3.If(T.n == 0, z3.IntVal(0), self.db) if not is_c(T.n) else (self.db if T.n else 0))
        p.wr(1, self.o + k.ob_sealed, self.sealed)
        i = z3.Int('i!ob')
        m = self.mixin(i)
        p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < T.n), z3.And(m >= 4096, m < PRE_MAX, m % 8 == 0))))

    def data(self, i):
        return self.db + self.p.k.md_size * i

    def mixin(self, i):
        return z3.Select(self.p.ex.base_arrs[8], self.data(i) + self.p.k.md_mixin)


USER = z3.Function('USER', *([z3.IntSort()] * 5))


def pure_user(p, rets=None):
    """user functions (equals, compare, matches) by contract: some function of the arguments, without
    effects; a bool result is 0 or 1"""
    def h(ex, st, fp, vals, inst):
        a = [zi(v) for v in vals] + [z3.IntVal(0)] * (3 - len(vals))
        ex.prove_pre(st, zi(fp) != 0, 'no null function is called')
        r = USER(zi(fp), *a)
        ty = ex.m.resolve(inst.ty)
        ex.assumed['user function: %s' % ty] = ex.assumed.get('user function: %s' % ty, 0) + 1
        if ty.k == 'int' and ty.w == 1:
            return [Out('ret', st, r != 0)]
        st.assume(z3.And(r >= 0, r < (1 << ty.w)))
        return [Out('ret', st, r)]
    p.ex.indirect = h


ORD = z3.Function('ORD', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def abstract_order(p):
    """the canonical mixin order by its contract (proved under C02)"""
    def h(ex, st, args, inst, dem):
        a, b = args[-2:]
        ex.prove_pre(st, band(cmp('ne', a, 0), cmp('ne', b, 0)), 'canonical order: non-null mixins')
        return [Out('ret', st, ORD(zi(a), zi(b)))]
    p.ex.contracts.insert(0, (r'^(dynamix::canonical_mixin_order::operator\(\)|dnmx_mixin_canonical_order)', h))
