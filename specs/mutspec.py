"""Object mutation: the state of an object_mutation and the ghost state of the mixins and buffers
involved, contracts of the user functions and allocators over that state."""
import itertools
import z3
import engine
from lib import *
from typespec import *

MD = 'objmut.cpp'
i, j, q = z3.Ints('i j q')
TRUST_M = TRUST_T[:1] + TRUST_T[2:] + [
    'both types are types of one domain: a mixin id stands for the same mixin in both, and a mixin is internal in both or external in both (C04, C12)',
    'the object satisfies its invariant: one entry of the mixin table for each mixin, as described by the offsets of its type (established by the same operations)',
    'every mixin has a move_init, and the places of the back-pointers of the mixins of an object are distinct (C03, C04)',
    'user functions (init, copy, move, destroy) and allocators by contract: they may fail or throw as declared, and write nothing which belongs to the library',
    'memory resources and mixin allocators return new memory, disjoint from everything else in use']
NOFF = z3.Function('NOFF', z3.IntSort(), z3.IntSort())    # place of the external buffer of new mixin i
BIX = z3.Function('BIX', z3.IntSort(), z3.IntSort())      # new external buffer -> index in the target type
OIX = z3.Function('OIX', z3.IntSort(), z3.IntSort())      # old external buffer -> index in the old type
REG = z3.Function('REG', z3.IntSort(), z3.IntSort())      # id -> mixin
EXTP = z3.Function('EXTP', z3.IntSort(), z3.BoolSort())   # the mixin is external
_n = itertools.count()
TB = z3.Function('TB', z3.IntSort(), z3.IntSort())       # buffer of entry i of the new table
TMX = z3.Function('TMX', z3.IntSort(), z3.IntSort())     # place of target mixin i
BPX = z3.Function('BPX', z3.IntSort(), z3.IntSort())     # place of the pointer to the object of target mixin i
COM = z3.Function('COM', z3.IntSort(), z3.IntSort())     # 1: target mixin i is a mixin of the old object
NX = z3.Function('NX', z3.IntSort(), z3.IntSort())       # 1: target mixin i is new and external
ND = z3.Function('ND', z3.IntSort(), z3.IntSort())       # 1: target mixin i has no destructor
DRP = z3.Function('DRP', z3.IntSort(), z3.IntSort())     # 1: old mixin i is not in the target type
KP = z3.Function('KP', z3.IntSort(), z3.IntSort())       # 1: old mixin i is alive after the mutation (no destructor, or common and external)
ARR = z3.ArraySort(z3.IntSort(), z3.BoolSort())


class Mut:
    """old: 'full' (a type with mixins), 'none' (no old data; the old type, if any, has no mixins)
    same: the target type is the old type. mode: which calls are legal ('build', 'rollback', 'finalize')"""

    def __init__(self, p, old='full', same=False, mode='build', oom=True, n1pos=True, inverse=False):
        self.p, k = p, p.k
        self.k = k
        self.old_kind, self.same, self.mode, self.inverse = old, same, mode, inverse
        self.T0 = Ty(p, 'told')
        self.T1 = self.T0 if same or inverse else Ty(p, 'tnew')
        self.n0, self.n1 = self.T0.n, self.T1.n
        self.types = [self.T0] if self.T0 is self.T1 else [self.T0, self.T1]
        self.dyn = False     # the mutation is an automatic variable of the code
        self.offb = {}
        for T in self.types:
            ob = p.ptr('offs_' + str(T.n))
            p.assume(ob + 4 * T.n < PRE_MAX, ob % 4 == 0)
            p.wr(8, T.t + k.t_offsets, ob)
            p.wr(8, T.t + k.t_offsets + 8, ob + 4 * T.n)
            self.offb[T] = ob
            m = T.mix(i)
            rng = z3.And(i >= 0, i < T.n)
            p.assume(z3.ForAll([i], z3.Implies(rng, z3.And(REG(T.idof(m)) == m, (self.off(T, i) == 0) == EXTP(m)))))
            p.assume(z3.ForAll([i], z3.Implies(rng, self.fn(m, 'i_minit') != 0)))
            p.assume(z3.ForAll([i], z3.Implies(rng, z3.Or(self.off(T, i) == 0, z3.And(self.off(T, i) >= 16 * T.n + 8, self.off(T, i) < (1 << 32), self.off(T, i) % 8 == 0)))))
            p.assume(z3.ForAll([i], z3.Implies(rng, z3.And(self.fn(m, 'i_balign', 4) >= 8, self.fn(m, 'i_balign', 4) < (1 << 32), self.fn(m, 'i_balign', 4) % 8 == 0))))
        self.num0 = {T: p.u('num_' + str(T.n), 60) for T in self.types}
        self.osz = {}
        for T in self.types:
            p.wr(8, T.t + k.t_num, self.num0[T])
            s, a = p.u('osz_' + str(T.n), 32), p.u('oal_' + str(T.n), 32)
            p.wr(4, T.t + k.t_osize, s)
            p.wr(4, T.t + k.t_oalign, a)
            self.osz[T] = (s, a)
        self.obj = p.stack('obj')
        self.mut = p.stack('mutation')
        self.td = p.stack('target_data')
        self.ext = p.stack('external_buffers')
        self.res = p.ptr('resource')
        self.sealed = p.u('sealed', 1)
        if old != 'new':
            p.wr(8, self.obj + k.ob_alloc, self.res)
            p.wr(1, self.obj + k.ob_sealed, self.sealed)
        self.otype = self.T0.t
        if old == 'full':
            self.od = p.stack('old_data') if not (same and mode != 'build') else self.td
            p.assume(self.n0 > 0)
        elif inverse:
            self.od = 0
            self.otype = self.T1.t
        elif old == 'new':          # an object under construction
            self.od = self.otype = 0
            p.assume(self.n0 == 0)
        else:
            self.od = 0
            self.otype0 = p.u('has_type', 1)
            if not same:
                p.assume(self.n0 == 0)
            self.otype = z3.If(self.otype0 == 1, z3.IntVal(self.T0.t), z3.IntVal(0)) if old == 'none' else self.T0.t
        if old != 'new':
            p.wr(8, self.obj + k.ob_type, self.otype)
            p.wr(8, self.obj + k.ob_data, self.td if inverse else self.od)
        b8_ = p.ex.base_arrs[8]
        if self.od:
            rng = z3.And(i >= 0, i < self.n0)
            m, ob, om = self.T0.mix(i), self.OB(i), self.OM(i)
            p.assume(z3.ForAll([i], z3.Implies(rng, z3.If(self.off(self.T0, i) != 0, z3.And(ob == 0, om == self.od + self.off(self.T0, i)),
                                                            z3.And(ob >= 4096, ob < PRE_MAX, om == ob + self.fn(m, 'i_balign', 4), OIX(ob) == i)))))
        rng = z3.And(i >= 0, i < self.n1)
        p.assume(z3.ForAll([i], z3.Implies(rng, z3.And(NOFF(i) >= 0, NOFF(i) < (1 << 37), BIX(self.ext + NOFF(i)) == i))))
        D = lambda f, d: p.assume(z3.ForAll([i], z3.Implies(self.r1(i), f(i) == d(i)), patterns=[f(i)]))
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))
        D(COM, lambda c: one(self.common_(c)))
        D(NX, lambda c: one(z3.And(self.ext1(c), self.new(c))))
        D(ND, lambda c: one(self.fn(self.T1.mix(c), 'i_destroy') == 0))
        if self.od:
            D0 = lambda f, d: p.assume(z3.ForAll([i], z3.Implies(self.r0(i), f(i) == d(i)), patterns=[f(i)]))
            D0(DRP, lambda c: one(self.dropped_(c)))
            D0(KP, lambda c: one(self.keeps0_(c)))
        D(TB, self.tbuf_)
        D(TMX, self.TM_)
        D(BPX, self.bp_)
        if n1pos:
            p.assume(self.n1 > 0)
        p.ex.contracts.insert(0, (r'^std::pmr::memory_resource::allocate\(', self.c_alloc))
        p.ex.contracts.insert(0, (r'^std::pmr::memory_resource::deallocate\(', self.c_dealloc))
        p.ex.indirect = self.user
        p.ex.cands.append(self.gen)
        self.oom = oom
        self.lim = self.n1
        g = p.st0.ghost
        g['tbuf'] = mode != 'build'
        g['obuf'] = old == 'full'
        for nm in ('NBA', 'CL', 'OL', 'OBA', 'MV'):
            g[nm] = z3.Const(nm + '!0', ARR)
        F = z3.ForAll
        r0, r1 = z3.And(i >= 0, i < self.n0), z3.And(i >= 0, i < self.n1)
        p.assume(F([i], z3.Select(g['OL'], i) == (z3.And(r0, z3.BoolVal(bool(self.od))))))
        p.assume(F([i], z3.Select(g['OBA'], i) == z3.And(r0, z3.BoolVal(bool(self.od)), self.off(self.T0, i) == 0)))
        p.assume(F([i], z3.Not(z3.Select(g['MV'], i))))
        if mode == 'build':
            p.assume(F([i], z3.Not(z3.Select(g['NBA'], i))), F([i], z3.Not(z3.Select(g['CL'], i))))

    # ---- specification functions over the pre-state
    def fn(self, m, f, w=8):
        return z3.Select(self.p.ex.base_arrs[w], m + getattr(self.k, f))

    def off(self, T, c):
        return z3.Select(self.p.ex.base_arrs[4], self.offb[T] + 4 * c)

    def OB(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.od + self.k.md_size * c + self.k.md_buf)

    def OM(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.od + self.k.md_size * c + self.k.md_mixin)

    def common(self, c):
        return COM(c) == 1

    def common_(self, c):
        """target mixin c is in the old object too"""
        if not self.od:
            return z3.BoolVal(False)
        x = self.T1.idof(self.T1.mix(c))
        return z3.And(x < self.T0.ns, self.T0.sp(x) != INVALID)

    def dropped(self, c):
        return DRP(c) == 1

    def dropped_(self, c):
        x = self.T0.idof(self.T0.mix(c))
        return z3.Not(z3.And(x < self.T1.ns, self.T1.sp(x) != INVALID))

    def oldpos(self, c):
        return self.T0.sp(self.T1.idof(self.T1.mix(c)))

    def newpos(self, c):
        return self.T1.sp(self.T0.idof(self.T0.mix(c)))

    def ext1(self, c):
        return self.off(self.T1, c) == 0

    def new(self, c):
        return z3.Not(self.common(c))

    def nb(self, c):
        return self.ext + NOFF(c)

    def tbuf(self, c):
        return TB(c)

    def tbuf_(self, c):
        """the buffer of entry c of the new mixin table"""
        ob = z3.If(self.common(c), self.OB(self.oldpos(c)), self.nb(c)) if self.od else self.nb(c)
        return z3.If(self.ext1(c), ob, z3.IntVal(0))

    def TM(self, c):
        return TMX(c)

    def TM_(self, c):
        """the place of target mixin c"""
        al = self.fn(self.T1.mix(c), 'i_balign', 4)
        om = z3.If(self.common(c), self.OM(self.oldpos(c)), self.nb(c) + al) if self.od else self.nb(c) + al
        return z3.If(self.ext1(c), om, self.td + self.off(self.T1, c))

    def r1(self, c):
        return z3.And(c >= 0, c < self.n1)

    def r0(self, c):
        return z3.And(c >= 0, c < self.n0)

    def g(self, st, n, c):
        return z3.Select(st.ghost[n], c)

    def gset(self, st, n, c, v):
        st.ghost[n] = z3.Store(st.ghost[n], c, z3.BoolVal(v))

    # ---- allocators
    def c_alloc(self, ex, st, args, inst, dem):
        r, n, al = args
        ex.prove_pre(st, zi(r) == self.res, 'allocate: from the memory resource of the object')
        if not isinstance(st.ghost['tbuf'], bool):
            raise engine.Unsupported('object buffer allocated in a loop')
        outs = [Out('throw', st.copy(), ('std', '_ZTISt9bad_alloc'))] if self.oom else []
        if not st.ghost['tbuf']:
            s, a = self.osz[self.T1]
            ex.prove_pre(st, z3.And(zi(n) == s, zi(al) == a), 'allocate: the object buffer of the target type')
            st.ghost['tbuf'] = True
            return outs + [Out('ret', st, self.td)]
        c = zi(ex.load_raw(st, 4, self.mut + self.k.mu_au)[0])
        m = self.T1.mix(c)
        ex.prove_pre(st, z3.And(self.r1(c), self.ext1(c)), 'allocate: for an external mixin of the target type')
        ex.prove_pre(st, self.new(c), 'allocate: for a new mixin')
        ex.prove_pre(st, self.fn(m, 'i_alloc') == 0, 'allocate: for a mixin without an allocator')
        ex.prove_pre(st, z3.And(zi(n) == self.fn(m, 'i_bsize', 4), zi(al) == self.fn(m, 'i_balign', 4)), 'allocate: size and alignment of the mixin buffer')
        ex.prove_pre(st, z3.Not(self.g(st, 'NBA', c)), 'allocate: once for each mixin')
        self.gset(st, 'NBA', c, True)
        return outs + [Out('ret', st, self.nb(c))]

    def c_dealloc(self, ex, st, args, inst, dem):
        r, ptr, n, al = args
        ex.prove_pre(st, zi(r) == self.res, 'deallocate: to the memory resource of the object')
        fin = self.mode == 'finalize'
        key, T, base = ('obuf', self.T0, self.od) if fin else ('tbuf', self.T1, self.td)
        if is_c(ptr) and ptr == base or not is_c(ptr) and ex.entails(st, zi(ptr) == base):
            s, a = self.osz[T]
            ex.prove_pre(st, z3.And(zi(n) == s, zi(al) == a), 'deallocate: size and alignment of the object buffer')
            ex.prove_pre(st, zb(st.ghost[key]), 'deallocate: the object buffer once')
            st.ghost[key] = False
            return [Out('ret', st, None)]
        m = self.freed(ex, st, zi(ptr))
        ex.prove_pre(st, self.fn(m, 'i_alloc') == 0, 'deallocate: a mixin without an allocator')
        ex.prove_pre(st, z3.And(zi(n) == self.fn(m, 'i_bsize', 4), zi(al) == self.fn(m, 'i_balign', 4)), 'deallocate: size and alignment of the mixin buffer')
        return [Out('ret', st, None)]

    def freed(self, ex, st, ptr):
        if self.mode == 'finalize':
            c = OIX(ptr)
            m = self.T0.mix(c)
            ex.prove_pre(st, z3.And(self.r0(c), self.OB(c) == ptr), 'deallocate: an external buffer of the old object')
            ex.prove_pre(st, self.dropped(c), 'deallocate: of a dropped mixin')
            ex.prove_pre(st, self.g(st, 'OBA', c), 'deallocate: once')
            ex.prove_pre(st, z3.Or(self.fn(m, 'i_destroy') == 0, z3.Not(self.g(st, 'OL', c))), 'deallocate: after the mixin is destroyed')
            self.gset(st, 'OBA', c, False)
            return m
        c = BIX(ptr)
        m = self.T1.mix(c)
        ex.prove_pre(st, z3.And(self.r1(c), self.tbuf(c) == ptr, self.new(c), self.ext1(c)), 'deallocate: an external buffer of a new mixin')
        ex.prove_pre(st, self.g(st, 'NBA', c), 'deallocate: once')
        ex.prove_pre(st, z3.Or(self.fn(m, 'i_destroy') == 0, z3.Not(self.g(st, 'CL', c))), 'deallocate: after the mixin is destroyed')
        self.gset(st, 'NBA', c, False)
        return m

    # ---- indirect calls: functions of the mixins and mixin allocators
    def user(self, ex, st, fp, vals, inst):
        ty = ex.m.resolve(inst.ty)
        a = [zi(v) for v in vals]
        fp = zi(fp)
        b8_ = ex.base_arrs[8]
        ex.assumed['user function (%s, %d arguments)' % (ty, len(a))] = 1
        void = ty.k == 'void'
        if ty.k == 'ptr' and len(a) == 2:
            m = a[1]
            c = self.T1.sp(self.T1.idof(m))
            ex.prove_pre(st, z3.And(a[0] == self.fn(m, 'i_alloc'), fp == z3.Select(b8_, z3.Select(b8_, a[0]) + 16)), 'alloc_mixin_buf of the allocator of the mixin')
            ex.prove_pre(st, z3.And(self.r1(c), self.T1.mix(c) == m, self.ext1(c), self.new(c)), 'alloc_mixin_buf: for a new external mixin')
            ex.prove_pre(st, z3.Not(self.g(st, 'NBA', c)), 'alloc_mixin_buf: once')
            outs = [Out('throw', st.copy(), ('ext', 'allocator'))] if self.oom else []
            self.gset(st, 'NBA', c, True)
            return outs + [Out('ret', st, self.nb(c))]
        if void and len(a) == 3:
            if self.mode == 'finalize' and ex.valid(st, fp == self.fn(a[0], 'i_minit'), fast=True)[0] is True:
                return self.move_init(ex, st, fp, *a)
            m = a[2]
            ex.prove_pre(st, z3.And(a[0] == self.fn(m, 'i_alloc'), fp == z3.Select(b8_, z3.Select(b8_, a[0]) + 24)), 'dealloc_mixin_buf of the allocator of the mixin')
            m2 = self.freed(ex, st, a[1])
            ex.prove_pre(st, m2 == m, 'dealloc_mixin_buf: of that mixin')
            return [Out('ret', st, None)]
        if void and len(a) == 2:
            return self.destroy(ex, st, fp, *a)
        if not void and len(a) == 2:
            return self.construct(ex, st, fp, 'i_init', *a)
        return NotImplemented

    def construct(self, ex, st, fp, f, m, x, src=None):
        c = self.T1.sp(self.T1.idof(m))
        ex.prove_pre(st, z3.And(fp != 0, fp == self.fn(m, f)), f[2:] + ': of that mixin')
        ex.prove_pre(st, z3.And(self.r1(c), self.T1.mix(c) == m, self.new(c)), f[2:] + ': a new mixin of the target type')
        ex.prove_pre(st, x == self.TM(c), f[2:] + ': in its place')
        ex.prove_pre(st, z3.Not(self.g(st, 'CL', c)), f[2:] + ': once')
        ex.prove_pre(st, z3.ForAll([q], z3.Implies(z3.And(self.r1(q), self.new(q)), self.g(st, 'CL', q) == (q < c))), f[2:] + ': in target order')
        bad, thr = st.copy(), st.copy()
        err = engine.fresh('err')
        bad.assume(z3.And(err > 0, err < (1 << 32)))
        self.gset(st, 'CL', c, True)
        return [Out('ret', bad, err), Out('throw', thr, ('ext', 'user')), Out('ret', st, 0)]

    def destroy(self, ex, st, fp, m, x):
        ex.prove_pre(st, z3.And(fp != 0, fp == self.fn(m, 'i_destroy')), 'destroy: of that mixin')
        if self.mode == 'finalize':
            c = self.T0.sp(self.T0.idof(m))
            ex.prove_pre(st, z3.And(self.r0(c), self.T0.mix(c) == m), 'destroy: a mixin of the old type')
            ex.prove_pre(st, x == self.OM(c), 'destroy: in its place')
            ex.prove_pre(st, self.g(st, 'OL', c), 'destroy: once')
            ex.prove_pre(st, z3.Or(self.dropped(c), self.g(st, 'MV', c)), 'destroy: a dropped or moved-from mixin')
            self.gset(st, 'OL', c, False)
            return [Out('ret', st, None)]
        c = self.T1.sp(self.T1.idof(m))
        ex.prove_pre(st, z3.And(self.r1(c), self.T1.mix(c) == m, self.new(c)), 'destroy: a new mixin of the target type')
        ex.prove_pre(st, x == self.TM(c), 'destroy: in its place')
        ex.prove_pre(st, self.g(st, 'CL', c), 'destroy: constructed and not yet destroyed')
        ex.prove_pre(st, z3.ForAll([q], z3.Implies(z3.And(self.r1(q), q > c, self.g(st, 'CL', q)), self.fn(self.T1.mix(q), 'i_destroy') == 0)), 'destroy: in reverse order')
        self.gset(st, 'CL', c, False)
        return [Out('ret', st, None)]

    def move_init(self, ex, st, fp, m, tgt, src):
        c, o = self.T1.sp(self.T1.idof(m)), self.T0.sp(self.T0.idof(m))
        ex.prove_pre(st, z3.And(self.r1(c), self.T1.mix(c) == m, self.r0(o), self.T0.mix(o) == m), 'move_init: a common mixin')
        ex.prove_pre(st, z3.And(tgt == self.TM(c), src == self.OM(o)), 'move_init: from the old place to the new one')
        ex.prove_pre(st, self.off(self.T0, o) != 0, 'move_init: internal mixins only')
        ex.prove_pre(st, z3.And(z3.Not(self.g(st, 'CL', c)), self.g(st, 'OL', o), z3.Not(self.g(st, 'MV', o))), 'move_init: once')
        ex.prove_pre(st, fp != 0, 'move_init: not null')
        self.gset(st, 'CL', c, True)
        self.gset(st, 'MV', o, True)
        return [Out('ret', st, None)]

    # ---- loop invariant candidates
    def table(self, rd8, c, lo, hi):
        """the entries lo..hi of the table of the target are filled in"""
        e = self.td + self.k.md_size * c
        inr = z3.And(c >= lo, c < hi)
        return [z3.ForAll([c], z3.Implies(inr, rd8(e + self.k.md_buf) == self.tbuf(c))),
                z3.ForAll([c], z3.Implies(inr, rd8(e + self.k.md_mixin) == self.TM(c))),
                z3.ForAll([c], z3.Implies(z3.And(inr, z3.Or(self.new(c), z3.Not(self.ext1(c)))), rd8(self.bp(c)) == self.obj))]

    def bp(self, c):
        return BPX(c)

    def bp_(self, c):
        """where the pointer to the object is, for a mixin with new memory"""
        al = self.fn(self.T1.mix(c), 'i_balign', 4)
        return z3.If(self.ext1(c), self.nb(c) + al, self.td + self.off(self.T1, c)) - 8

    def gen(self, ctx):
        out = []
        ctrs = []
        for r, v0 in ctx.init.items():
            if isinstance(v0, (tuple, bool)) or (not is_c(v0) and not z3.is_int(v0)):
                continue
            ctrs.append((lambda v, r=r: v.phi[r], lambda v, r=r: v.init[r]))
        ctrs += [(lambda v, a=a: v.rd(4, a), lambda v, a=a: v.rd0(4, a)) for a in sorted(x[1] for x in ctx.wcells if x and x[0] == 4)]
        G = lambda v, n, c: z3.Select(v.ghost(n), c)
        G0 = lambda v, n, c: z3.Select(v.ghost0(n), c)
        F = lambda b: z3.ForAll([i], b)
        nod = lambda c: ND(c) == 1
        for get, get0 in ctrs:
            def at(f, get=get, get0=get0, ini=False):
                def cand(v):
                    c = get(v)
                    if isinstance(c, (tuple, bool)) or (not is_c(c) and not z3.is_int(c)):
                        return None
                    return f(v, zi(c), zi(get0(v))) if ini else f(v, zi(c))
                return cand
            if self.mode == 'build' and 'NBA' in ctx.ghosts:
                for n in range(3):
                    out.append(at(lambda v, c, n=n: self.table(lambda a: z3.Select(v.arr(8), a), i, 0, c)[n]))
                out.append(at(lambda v, c: F(z3.Implies(self.r1(i), G(v, 'NBA', i) == z3.And(i < c, NX(i) == 1)))))
            if self.mode == 'build' and 'CL' in ctx.ghosts:
                out.append(at(lambda v, c: F(z3.Implies(self.r1(i), G(v, 'CL', i) == z3.And(i < c, self.new(i))))))
            if self.mode == 'build':
                out.append(at(lambda v, c, c0: c0 <= c, ini=True))
                out.append(at(lambda v, c, c0: c <= z3.If(c0 < self.lim, self.lim, c0), ini=True))
                for done in sorted(x[1] for x in ctx.wcells if x and x[0] == 1):
                    out.append(at(lambda v, c, done=done: (v.rd(1, done) != 0) == (c == self.n1)))
            if self.mode == 'rollback':
                for e in (0, 1):
                    if 'NBA' in ctx.ghosts:
                        out.append(at(lambda v, c, e=e: F(z3.Implies(self.r1(i), G(v, 'NBA', i) == z3.And(G0(v, 'NBA', i), i < c + e)))))
                    if 'CL' in ctx.ghosts:
                        out.append(at(lambda v, c, e=e: F(z3.Implies(self.r1(i), G(v, 'CL', i) == z3.And(G0(v, 'CL', i), z3.Or(i < c + e, nod(i)))))))
            if self.mode == 'finalize' and 'OL' in ctx.ghosts:
                int0 = lambda c: self.off(self.T0, c) != 0
                out.append(at(lambda v, c: F(z3.Implies(self.r0(i), G(v, 'MV', i) == z3.And(i < c, int0(i), z3.Not(self.dropped(i)))))))
                out.append(at(lambda v, c: F(z3.Implies(self.r0(i), G(v, 'OL', i) == z3.Or(i >= c, self.keeps0(i))))))
                out.append(at(lambda v, c: F(z3.Implies(self.r0(i), G(v, 'OBA', i) == z3.And(z3.Not(int0(i)), z3.Or(i >= c, z3.Not(self.dropped(i))))))))
                out.append(at(lambda v, c: F(z3.Implies(self.r1(i), G(v, 'CL', i) == z3.Or(self.new(i), z3.And(z3.Not(self.ext1(i)), self.oldpos(i) < c))))))
        return out

    def keeps0(self, c):
        return KP(c) == 1

    def keeps0_(self, c):
        """after a mutation the old mixin c is still alive: it has no destructor, or is a common external one"""
        return z3.Or(self.fn(self.T0.mix(c), 'i_destroy') == 0, z3.And(z3.Not(self.dropped(c)), self.off(self.T0, c) == 0))

    # ---- a mutation in progress as the pre-state
    def progress(self, u=None, au=None, td=True):
        """mixins up to u are constructed, buffers up to au are allocated"""
        p, k = self.p, self.k
        self.u = u = p.u('updated', 32) if u is None else u
        self.au = au = self.n1 if au is None else au
        p.assume(u <= self.n1)
        w = p.wr
        w(8, self.mut, self.obj)
        w(8, self.mut + k.mu_old, self.otype if not self.inverse else 0)
        w(8, self.mut + k.mu_od, self.od if not self.inverse else 0)
        w(8, self.mut + k.mu_od + 8, self.T1.t)
        w(8, self.mut + k.mu_td, self.td if td else 0)
        w(4, self.mut + k.mu_au, au)
        w(4, self.mut + k.mu_uu, u)
        w(1, self.mut + k.mu_done, z3.If(u == self.n1, z3.IntVal(1), z3.IntVal(0)))
        w(1, self.mut + k.mu_gone, 0)
        p.st0.ghost['tbuf'] = td
        self.unc = p.u('uncaught_before', 16)
        w(4, self.mut + k.mu_unc, self.unc)
        for f in self.table(lambda a: z3.Select(p.ex.base_arrs[8], a), i, 0, au):
            p.assume(f)
        g = p.st0.ghost
        p.assume(z3.ForAll([i], z3.Select(g['NBA'], i) == z3.And(self.r1(i), i < au, NX(i) == 1)))
        p.assume(z3.ForAll([i], z3.Select(g['CL'], i) == z3.And(self.r1(i), i < u, self.new(i))))
        p.wr(8, self.T1.t + k.t_num, self.num0[self.T1] + 1)

    # ---- what is proved
    def obj_same(self, o, what='the object'):
        p, k = self.p, self.k
        p.prove(o.st, zi(p.ld(o.st, 8, self.obj + k.ob_type)) == zi(self.otype), what + ' keeps its type')
        p.prove(o.st, zi(p.ld(o.st, 8, self.obj + k.ob_data)) == zi(self.od), what + ' keeps its mixin table')
        p.prove(o.st, z3.And(zi(p.ld(o.st, 8, self.obj + k.ob_alloc)) == self.res, zi(p.ld(o.st, 1, self.obj + k.ob_sealed)) == self.sealed), what + ' keeps its allocator and sealed status')
        if self.od:
            p.prove(o.st, z3.ForAll([i], z3.Implies(self.r0(i), z3.And(z3.Select(p.M(8, o.st), self.od + k.md_size * i) == self.OB(i), z3.Select(p.M(8, o.st), self.od + k.md_size * i + 8) == self.OM(i)))), what + ' keeps its mixin addresses')
            p.prove(o.st, z3.ForAll([i], z3.Implies(self.r0(i), z3.And(self.g(o.st, 'OL', i), z3.Not(self.g(o.st, 'MV', i))))), 'no old mixin is destroyed or moved')
            p.prove(o.st, z3.And(zb(o.st.ghost['obuf']), z3.ForAll([i], z3.Implies(self.r0(i), self.g(o.st, 'OBA', i) == (self.off(self.T0, i) == 0)))), 'no old memory is returned')

    def heap_same(self, o):
        p = self.p
        f = z3.Int('addr!frame')
        for w in (1, 4, 8):
            p.prove(o.st, z3.Implies(z3.And(f >= 0, f < PRE_MAX), z3.Select(p.M(w, o.st), f) == z3.Select(p.ex.base_arrs[w], f)), 'nothing else is written (%d)' % w)

    def undone(self, o):
        p = self.p
        p.prove(o.st, z3.Not(zb(o.st.ghost['tbuf'])), 'the new object buffer is returned')
        p.prove(o.st, z3.ForAll([i], z3.Implies(self.r1(i), z3.Not(self.g(o.st, 'NBA', i)))), 'all new external buffers are returned')
        p.prove(o.st, z3.ForAll([i], z3.Implies(z3.And(self.r1(i), self.fn(self.T1.mix(i), 'i_destroy') != 0), z3.Not(self.g(o.st, 'CL', i)))), 'all new mixins are destroyed')
        p.prove(o.st, zi(p.ld(o.st, 8, self.T1.t + self.k.t_num)) == self.num0[self.T1], 'the object count of the target type is as before')

    def num_is(self, o, T, v, what):
        self.p.prove(o.st, zi(self.p.ld(o.st, 8, T.t + self.k.t_num)) == v, what)


def spec_pieces(M, st, u, au):
    """a mutation in progress: mixins up to u are constructed, buffers up to au are allocated"""
    p, k = M.p, M.k
    ld = lambda w, a: zi(p.ld(st, w, M.mut + a))
    out = [(z3.And(ld(8, 0) == M.obj, ld(8, k.mu_od + 8) == M.T1.t, ld(8, k.mu_td) == M.td), 'the mutation knows the object, the target type and its table'),
           (z3.And(ld(8, k.mu_od) == M.od, ld(8, k.mu_old) == (0 if M.inverse else zi(M.otype))), 'the mutation knows the old type and its table'),
           (z3.And(u >= 0, u <= M.n1, au >= 0, au <= M.n1), 'progress is within the target type')]
    for f, w in zip(M.table(lambda a: z3.Select(p.M(8, st), a), i, 0, au), ('buffers', 'addresses', 'pointers to the object')):
        out.append((f, 'mixin table: ' + w))
    out.append((z3.ForAll([i], z3.Implies(M.r1(i), M.g(st, 'NBA', i) == z3.And(i < au, NX(i) == 1))), 'exactly the buffers of the new external mixins are allocated'))
    out.append((z3.ForAll([i], z3.Implies(M.r1(i), M.g(st, 'CL', i) == z3.And(i < u, M.new(i)))), 'exactly the new mixins up to there are constructed'))
    out.append((zb(st.ghost['tbuf']), 'the object buffer is allocated'))
    return out


def rollback_by_contract(M):
    """object_mutation::rollback as proved by rollback() below"""
    p, k = M.p, M.k

    def h(ex, st, args, inst, dem):
        if M.dyn:
            M.mut = args[0]
        ex.prove_pre(st, zi(args[0]) == M.mut, 'rollback: of this mutation')
        ld = lambda w, a: zi(ex.load_raw(st, w, M.mut + a)[0])
        if M.same:
            ex.prove_pre(st, z3.And(ld(8, k.mu_old) == M.T1.t, ld(8, k.mu_od + 8) == M.T1.t), 'rollback: to the same type')
            p.wr(1, M.mut + k.mu_gone, 1, st)
            p.wr(1, M.mut + k.mu_done, 0, st)
            return [Out('ret', st, None)]
        td = ex.load_raw(st, 8, M.mut + k.mu_td)[0]
        u, au = ld(4, k.mu_uu), ld(4, k.mu_au)
        ex.prove_pre(st, z3.And(ld(8, k.mu_old) != M.T1.t, ld(8, k.mu_od + 8) == M.T1.t), 'rollback: not to the same type')
        if is_c(td) and td == 0:
            ex.prove_pre(st, z3.And(u == 0, au == 0, z3.Not(zb(st.ghost['tbuf']))), 'rollback: nothing is done yet')
            ex.prove_pre(st, z3.ForAll([i], z3.Implies(M.r1(i), z3.And(z3.Not(M.g(st, 'NBA', i)), z3.Not(M.g(st, 'CL', i))))), 'rollback: no mixin is there yet')
        else:
            for f, w in spec_pieces(M, st, u, au):
                ex.prove_pre(st, f, 'rollback: ' + w)
            ex.prove_pre(st, z3.Or(u == 0, au == M.n1), 'rollback: constructed only after all is allocated')
            n = zi(ex.load_raw(st, 8, M.T1.t + k.t_num)[0])
            p.wr(8, M.T1.t + k.t_num, n - 1, st)
            ex.prove_pre(st, n > 0, 'rollback: the object is counted')
        st.ghost['tbuf'] = False
        st.ghost['NBA'] = z3.K(z3.IntSort(), z3.BoolVal(False))
        new = z3.Const('CL!rolled%d' % next(_n), ARR)
        st.assume(z3.ForAll([i], z3.Implies(M.r1(i), z3.Select(new, i) == z3.And(M.g(st, 'CL', i), ND(i) == 1))))
        st.ghost['CL'] = new
        p.wr(1, M.mut + k.mu_gone, 1, st)
        p.wr(1, M.mut + k.mu_done, 0, st)
        for w, a in ((8, k.mu_td), (4, k.mu_au), (4, k.mu_uu)):
            v = engine.fresh('rolled')
            st.assume(z3.And(v >= 0, v < (1 << 8 * w)))
            p.wr(w, M.mut + a, v, st)
        return [Out('ret', st, None)]
    p.ex.contracts.insert(0, (r'^dynamix::object_mutation::rollback\(\)', h))


def ctor(s):
    def run(p, old):
        M = Mut(p, old)
        p.ex.uncaught = p.u('uncaught_now', 16)
        rollback_by_contract(M)
        outs = p.call(args=[M.mut, M.obj, M.T1.t])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.obj_same(o)
            M.heap_same(o)
            if o.kind == 'throw':
                M.undone(o)
                continue
            p.prove(o.st, M.sealed == 0, 'not for a sealed object')
            for f, w in zip(M.table(lambda a: z3.Select(p.M(8, o.st), a), i, 0, M.n1), ('buffers', 'addresses', 'pointers to the object')):
                p.prove(o.st, f, 'mixin table: ' + w)
            p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, 'NBA', i) == (NX(i) == 1))), 'exactly the buffers of the new external mixins are allocated')
            p.prove(o.st, zb(o.st.ghost['tbuf']), 'the object buffer is allocated')
            p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), z3.Not(M.g(o.st, 'CL', i)))), 'nothing is constructed yet')
            M.num_is(o, M.T1, M.num0[M.T1] + 1, 'the object is counted')
            state(p, M, o, 0, M.n1)
            p.prove(o.st, zi(p.ld(o.st, 4, M.mut + M.k.mu_unc)) == p.ex.uncaught, 'the mutation knows the exceptions in flight')
    s.contract('object_mutation: start (object with mixins)', MD, 'vf_ctor', lambda p: run(p, 'full'))
    s.contract('object_mutation: start (empty object)', MD, 'vf_ctor', lambda p: run(p, 'none'))


def state(p, M, o, u, au, done=None):
    k = M.k
    ld = lambda w, a: zi(p.ld(o.st, w, M.mut + a))
    p.prove(o.st, z3.And(ld(8, 0) == M.obj, ld(8, k.mu_od + 8) == M.T1.t, ld(8, k.mu_td) == M.td, ld(8, k.mu_od) == M.od, z3.Implies(z3.BoolVal(M.od != 0), ld(8, k.mu_old) == zi(M.otype))), 'the mutation knows the object, types and tables')
    p.prove(o.st, z3.And(ld(4, k.mu_uu) == u, ld(4, k.mu_au) == au), 'the mutation knows how far it is')
    p.prove(o.st, (ld(1, k.mu_done) != 0) == (u == M.n1 if done is None else done), 'complete exactly when all mixins are there')
    p.prove(o.st, ld(1, k.mu_gone) == 0, 'the mutation is in progress')


def rollback(s):
    def run(p, old, td):
        M = Mut(p, old, mode='rollback')
        if td:
            M.progress(au=p.u('allocated', 32))
            p.assume(M.au <= M.n1, z3.Or(M.u == 0, M.au == M.n1))
        else:
            M.progress(u=0, au=0, td=False)
            p.wr(8, M.T1.t + M.k.t_num, M.num0[M.T1])
            p.st0.ghost['tbuf'] = False
        outs = p.call(args=[M.mut])
        p.nothrow(outs)
        p.cover(outs)
        for o in outs:
            M.obj_same(o)
            M.undone(o)
            ld = lambda w, a: zi(p.ld(o.st, w, M.mut + a))
            p.prove(o.st, z3.And(ld(1, M.k.mu_gone) != 0, ld(1, M.k.mu_done) == 0), 'the mutation is over')
            M.heap_same(o)
    for old in ('full', 'none'):
        w = {'full': 'object with mixins', 'none': 'empty object'}[old]
        s.contract('object_mutation::rollback (%s)' % w, MD, 'vf_rollback', lambda p, old=old: run(p, old, True))
        s.contract('object_mutation::rollback (%s, nothing allocated)' % w, MD, 'vf_rollback', lambda p, old=old: run(p, old, False))


def constructed(p, M, o, u2, threw, done=None):
    for f, w in spec_pieces(M, o.st, u2, M.n1):
        p.prove(o.st, f, w)
    ld = lambda w, a: zi(p.ld(o.st, w, M.mut + a))
    p.prove(o.st, z3.And(ld(4, M.k.mu_uu) == u2, ld(4, M.k.mu_au) == M.n1), 'the mutation knows how far it is')
    p.prove(o.st, (ld(1, M.k.mu_done) != 0) == (u2 == M.n1), 'complete exactly when all mixins are there')
    p.prove(o.st, ld(1, M.k.mu_gone) == 0, 'the mutation is in progress')
    M.num_is(o, M.T1, M.num0[M.T1] + 1, 'the object count of the target type')


def each(s):
    def run(p, old):
        M = Mut(p, old)
        M.progress()
        upto = p.u('upto', 32)
        lim = M.lim = z3.If(upto < M.n1, upto, M.n1)
        outs = p.call(args=[M.mut, upto])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.obj_same(o)
            M.heap_same(o)
            if o.kind == 'ret':
                constructed(p, M, o, z3.If(M.u < lim, lim, M.u), False)
            else:
                u2 = zi(p.ld(o.st, 4, M.mut + M.k.mu_uu))
                p.prove(o.st, z3.And(M.u <= u2, u2 < lim), 'fails at some mixin')
                constructed(p, M, o, u2, True)
    s.contract('object_mutation: default construct (object with mixins)', MD, 'vf_each', lambda p: run(p, 'full'))
    s.contract('object_mutation: default construct (empty object)', MD, 'vf_each', lambda p: run(p, 'none'))


def finalized(p, M, o):
    """a finished mutation"""
    k = M.k
    p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + k.ob_type)) == M.T1.t, zi(p.ld(o.st, 8, M.obj + k.ob_data)) == M.td), 'the object has the target type and the new mixin table')
    p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + k.ob_alloc)) == M.res, zi(p.ld(o.st, 1, M.obj + k.ob_sealed)) == M.sealed), 'the object keeps its allocator and sealed status')
    for f, w in zip(M.table(lambda a: z3.Select(p.M(8, o.st), a), i, 0, M.n1), ('buffers', 'addresses', 'pointers to the object')):
        p.prove(o.st, f, 'mixin table: ' + w)
    p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, 'CL', i) == z3.Or(M.new(i), z3.Not(M.ext1(i))))), 'every mixin with new memory is constructed there, by its constructor or by a move')
    p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, 'NBA', i) == (NX(i) == 1))), 'no new memory is returned')
    p.prove(o.st, zb(o.st.ghost['tbuf']), 'the new object buffer is in use')
    if M.od:
        p.prove(o.st, z3.ForAll([i], z3.Implies(M.r0(i), M.g(o.st, 'OL', i) == M.keeps0(i))), 'the dropped and the moved-from mixins are destroyed, the common external ones are kept')
        p.prove(o.st, z3.ForAll([i], z3.Implies(M.r0(i), M.g(o.st, 'MV', i) == z3.And(M.off(M.T0, i) != 0, z3.Not(M.dropped(i))))), 'exactly the common internal mixins are moved')
        p.prove(o.st, z3.ForAll([i], z3.Implies(M.r0(i), M.g(o.st, 'OBA', i) == z3.And(M.off(M.T0, i) == 0, z3.Not(M.dropped(i))))), 'the external buffers of the dropped mixins are returned, the common ones kept')
        p.prove(o.st, z3.Not(zb(o.st.ghost['obuf'])), 'the old object buffer is returned')
        M.num_is(o, M.T0, M.num0[M.T0] - 1, 'the object count of the old type is one less')
    M.num_is(o, M.T1, M.num0[M.T1] + 1, 'the object count of the target type is one more')


def finalize(s):
    def run(p, old, done):
        M = Mut(p, old, mode='finalize')
        M.progress(u=M.n1 if done else None)
        if not done:
            p.assume(M.u < M.n1)
        if old == 'full':
            p.assume(M.num0[M.T0] > 0)
        outs = p.call(args=[M.mut])
        p.nothrow(outs)
        p.cover(outs)
        for o in outs:
            M.heap_same(o)
            if done:
                finalized(p, M, o)
            else:
                M.obj_same(o)
    s.contract('object_mutation::finalize (object with mixins)', MD, 'vf_finalize', lambda p: run(p, 'full', True))
    s.contract('object_mutation::finalize (empty object)', MD, 'vf_finalize', lambda p: run(p, 'none', True))
    s.contract('object_mutation::finalize (incomplete)', MD, 'vf_finalize', lambda p: run(p, 'full', False))


def fresh_arr(M, st, name, rng, val):
    """ghost array `name` becomes val(i) for i in rng"""
    new = z3.Const('%s!c%d' % (name, next(_n)), ARR)
    st.assume(z3.ForAll([i], z3.Implies(rng(i), z3.Select(new, i) == val(i))))
    st.ghost[name] = new


def each_by_contract(M):
    """object_mutation::default_construct_each_new_mixin as proved by each()"""
    p, k = M.p, M.k

    def h(ex, st, args, inst, dem):
        a, upto = args
        if M.dyn:
            M.mut = a
        ld = lambda w, f: zi(ex.load_raw(st, w, M.mut + f)[0])
        ex.prove_pre(st, zi(a) == M.mut, 'default construct: with this mutation')
        u, au = ld(4, k.mu_uu), ld(4, k.mu_au)
        for f, w in spec_pieces(M, st, u, au):
            ex.prove_pre(st, f, 'default construct: ' + w)
        ex.prove_pre(st, z3.And(au == M.n1, ld(1, k.mu_gone) == 0), 'default construct: everything is allocated')
        lim = z3.If(zi(upto) < M.n1, zi(upto), M.n1)
        bad = st.copy()
        for s_, u2 in ((st, z3.If(u < lim, lim, u)), (bad, engine.fresh('failed_at'))):
            if s_ is bad:
                s_.assume(z3.And(u2 >= u, u2 < lim))
            fresh_arr(M, s_, 'CL', M.r1, lambda c: z3.And(c < u2, M.new(c)))
            p.wr(4, M.mut + k.mu_uu, u2, s_)
            p.wr(1, M.mut + k.mu_done, z3.If(u2 == M.n1, z3.IntVal(1), z3.IntVal(0)), s_)
        return [Out('ret', st, None), Out('throw', bad, ('ext', 'user'))]
    p.ex.contracts.insert(0, (r'^dynamix::object_mutation::default_construct_each_new_mixin\(', h))


def finalize_by_contract(M):
    """object_mutation::finalize of a complete mutation as proved by finalize()"""
    p, k = M.p, M.k

    def h(ex, st, args, inst, dem):
        ld = lambda w, f: zi(ex.load_raw(st, w, M.mut + f)[0])
        if M.dyn:
            M.mut = args[0]
        ex.prove_pre(st, zi(args[0]) == M.mut, 'finalize: this mutation')
        u, au = ld(4, k.mu_uu), ld(4, k.mu_au)
        ex.prove_pre(st, z3.And(ld(1, k.mu_done) != 0, u == M.n1, au == M.n1, ld(1, k.mu_gone) == 0), 'finalize: a complete mutation')
        for f, w in spec_pieces(M, st, u, au):
            ex.prove_pre(st, f, 'finalize: ' + w)
        p.wr(8, M.obj + k.ob_type, M.T1.t, st)
        p.wr(8, M.obj + k.ob_data, M.td, st)
        fresh_arr(M, st, 'CL', M.r1, lambda c: z3.Or(M.new(c), z3.Not(M.ext1(c))))
        if M.od:
            ex.prove_pre(st, z3.And(zb(st.ghost['obuf']), z3.ForAll([i], z3.Implies(M.r0(i), z3.And(M.g(st, 'OL', i), z3.Not(M.g(st, 'MV', i)), M.g(st, 'OBA', i) == (M.off(M.T0, i) == 0))))), 'finalize: the old mixins are alive')
            fresh_arr(M, st, 'OL', M.r0, lambda c: M.keeps0(c))
            fresh_arr(M, st, 'MV', M.r0, lambda c: z3.And(M.off(M.T0, c) != 0, z3.Not(M.dropped(c))))
            fresh_arr(M, st, 'OBA', M.r0, lambda c: z3.And(M.off(M.T0, c) == 0, z3.Not(M.dropped(c))))
            st.ghost['obuf'] = False
            p.wr(8, M.T0.t + k.t_num, zi(ex.load_raw(st, 8, M.T0.t + k.t_num)[0]) - 1, st)
            for f in (k.mu_old, k.mu_od):
                p.wr(8, M.mut + f, 0, st)
        return [Out('ret', st, None)]
    p.ex.contracts.insert(0, (r'^dynamix::object_mutation::finalize\(\)', h))


def dtor(s):
    def run(p, old, how):
        M = Mut(p, old)
        M.progress()
        if old == 'full':
            p.assume(M.num0[M.T0] > 0)
        rollback_by_contract(M)
        each_by_contract(M)
        finalize_by_contract(M)
        now = p.ex.uncaught = p.u('uncaught_now', 16)
        p.assume({'unwinding': now > M.unc, 'normal': now == M.unc, 'over': z3.BoolVal(True)}[how])
        if how == 'over':
            p.wr(1, M.mut + M.k.mu_gone, 1)
        outs = p.call(args=[M.mut])
        p.cover([o for o in outs if o.kind == 'ret'])
        if how != 'normal':
            p.nothrow(outs)
        else:
            p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            if how == 'over':
                M.obj_same(o)
                for f, w in spec_pieces(M, o.st, M.u, M.n1):
                    p.prove(o.st, f, w)
            elif how == 'unwinding' or o.kind == 'throw':
                M.obj_same(o)
                M.undone(o)
            else:
                finalized(p, M, o)
    for old in ('full', 'none'):
        w = {'full': 'object with mixins', 'none': 'empty object'}[old]
        s.contract('~object_mutation (%s)' % w, MD, 'vf_dtor', lambda p, old=old: run(p, old, 'normal'))
        s.contract('~object_mutation while unwinding (%s)' % w, MD, 'vf_dtor', lambda p, old=old: run(p, old, 'unwinding'))
    s.contract('~object_mutation after rollback', MD, 'vf_dtor', lambda p: run(p, 'full', 'over'))


def ctor_by_contract(M):
    """the constructor of object_mutation as proved by ctor()"""
    p, k = M.p, M.k

    def h(ex, st, args, inst, dem):
        a, o, t = args
        if M.dyn:
            M.mut = a
        ld = lambda w, x: zi(ex.load_raw(st, w, x)[0])
        ex.prove_pre(st, z3.And(zi(a) == M.mut, zi(o) == M.obj, zi(t) == M.T1.t), 'mutation: of this object to the target type')
        ex.prove_pre(st, z3.And(ld(8, M.obj + k.ob_type) == zi(M.otype), ld(8, M.obj + k.ob_data) == zi(M.od)), 'mutation: the object is as it was')
        ex.prove_pre(st, z3.And(ld(8, M.obj + k.ob_alloc) == M.res, z3.Not(zb(st.ghost['tbuf']))), 'mutation: nothing is done yet')
        ex.prove_pre(st, z3.ForAll([i], z3.Implies(M.r1(i), z3.And(z3.Not(M.g(st, 'NBA', i)), z3.Not(M.g(st, 'CL', i))))), 'mutation: nothing is allocated yet')
        bad = st.copy()
        sealed = ld(1, M.obj + k.ob_sealed)
        st.assume(sealed == 0)
        w = lambda n, f, v: p.wr(n, M.mut + f, v, st)
        w(8, 0, M.obj)
        w(8, k.mu_old, M.otype)
        w(8, k.mu_od, M.od)
        w(8, k.mu_od + 8, M.T1.t)
        w(8, k.mu_td, M.td)
        w(4, k.mu_au, M.n1)
        w(4, k.mu_uu, 0)
        w(1, k.mu_done, 0)
        w(1, k.mu_gone, 0)
        w(4, k.mu_unc, ladd(getattr(ex, 'uncaught', 0), st.ghost.get('$unc', 0)))
        if M.started:
            raise engine.Unsupported('second mutation')
        M.started = True
        # the memory of the target is not used before: the facts are about its contents
        for f in M.table(lambda x: z3.Select(p.M(8, st), x), i, 0, M.n1):
            st.assume(f)
        fresh_arr(M, st, 'NBA', M.r1, lambda c: NX(c) == 1)
        st.ghost['tbuf'] = True
        p.wr(8, M.T1.t + k.t_num, ld(8, M.T1.t + k.t_num) + 1, st)
        return [Out('throw', bad, ('ext', 'start of the mutation')), Out('ret', st, None)]
    p.ex.contracts.insert(0, (r'^dynamix::object_mutation::object_mutation\(dynamix::object&, dynamix::type const&\)', h))


def by_contracts(M):
    M.dyn, M.started = True, False
    ctor_by_contract(M)
    each_by_contract(M)
    rollback_by_contract(M)
    finalize_by_contract(M)
