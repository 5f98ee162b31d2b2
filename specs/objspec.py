"""Whole operations on objects, over the contracts of object_mutation (mutspec)."""
from mutspec import *


PIX = z3.Function('PIX', z3.IntSort(), z3.IntSort())     # pointer to the object -> index of its mixin


def empty_type(p, M, tag='empty'):
    """domain::get_empty_type by contract: a type without mixins"""
    E = Ty(p, tag, n=0)
    p.wr(8, E.t + p.k.t_num, p.u('num_empty', 60))

    def h(ex, st, args, inst, dem):
        ex.prove_pre(st, zi(args[0]) == M.T1.dom, 'get_empty_type: of the domain of the type')
        return [Out('ret', st, E.t)]
    p.ex.contracts.insert(0, (r'^dynamix::domain::get_empty_type\(\)', h))
    return E


def live(p, has=True):
    """an object with the mixins of T1, all alive (or without mixins)"""
    M = Mut(p, 'none', mode='rollback', inverse=True, n1pos=has)
    M.dyn = True
    if has:
        M.u = M.au = M.n1
        for f in M.table(lambda a: z3.Select(p.ex.base_arrs[8], a), i, 0, M.n1):
            p.assume(f)
        g = p.st0.ghost
        p.assume(z3.ForAll([i], z3.Select(g['NBA'], i) == z3.And(M.r1(i), NX(i) == 1)))
        p.assume(z3.ForAll([i], z3.Select(g['CL'], i) == M.r1(i)))
        p.assume(M.num0[M.T1] > 0)
    else:
        p.assume(M.n1 == 0)
        p.wr(8, M.obj + p.k.ob_data, 0)
        p.st0.ghost['tbuf'] = False
    M.has = has
    rollback_by_contract(M)
    return M


def cleared(p, M, o):
    """every mixin destroyed once, all memory returned"""
    p.prove(o.st, z3.Not(zb(o.st.ghost['tbuf'])), 'the object buffer is returned')
    p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), z3.Not(M.g(o.st, 'NBA', i)))) if M.has else z3.BoolVal(True), 'all external buffers are returned')
    p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, 'CL', i) == (ND(i) == 1))) if M.has else z3.BoolVal(True), 'all mixins are destroyed')
    M.num_is(o, M.T1, M.num0[M.T1] - 1 if M.has else M.num0[M.T1], 'the object count of the type')


def same_ob(p, M, st, data=True, ty=True, alloc=True, sealed=True, what='the object'):
    k = p.k
    d0 = M.td if M.has else 0
    if ty:
        p.prove(st, zi(p.ld(st, 8, M.obj + k.ob_type)) == M.T1.t, what + ' keeps its type')
    if data:
        p.prove(st, zi(p.ld(st, 8, M.obj + k.ob_data)) == d0, what + ' keeps its mixin table')
    if alloc:
        p.prove(st, zi(p.ld(st, 8, M.obj + k.ob_alloc)) == M.res, what + ' keeps its allocator')
    if sealed:
        p.prove(st, zi(p.ld(st, 1, M.obj + k.ob_sealed)) == M.sealed, what + ' keeps its sealed status')


def alive(p, M, o, what='the object'):
    """nothing happened to the mixins"""
    same_ob(p, M, o.st, what=what)
    if M.has:
        p.prove(o.st, z3.And(zb(o.st.ghost['tbuf']), z3.ForAll([i], z3.Implies(M.r1(i), z3.And(M.g(o.st, 'CL', i), M.g(o.st, 'NBA', i) == (NX(i) == 1))))), what + ': no mixin is destroyed, no memory returned')
        for f, w in zip(M.table(lambda a: z3.Select(p.M(8, o.st), a), i, 0, M.n1), ('buffers', 'addresses', 'pointers to the object')):
            p.prove(o.st, f, what + ' keeps its mixin table: ' + w)
    M.num_is(o, M.T1, M.num0[M.T1], what + ': the object count of the type')


def destruction(s):
    def dtor(p, has):
        M = live(p, has)
        outs = p.call(args=[M.obj])
        p.nothrow(outs)
        p.cover(outs)
        for o in outs:
            cleared(p, M, o)
            M.heap_same(o)

    def clear(p, has, n=1):
        M = live(p, has)
        E = empty_type(p, M)
        args = [M.obj]
        if n == 2:
            args.append(E.t)
            M.dom_of_empty = E.dom
        outs = p.call(args=args)
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            if o.kind == 'throw':
                p.prove(o.st, M.sealed != 0, 'throws only for a sealed object')
                alive(p, M, o)
            else:
                p.prove(o.st, M.sealed == 0, 'not for a sealed object')
                cleared(p, M, o)
                same_ob(p, M, o.st, data=False, ty=False)
                p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + p.k.ob_type)) == E.t, zi(p.ld(o.st, 8, M.obj + p.k.ob_data)) == 0), 'the object is empty')
    for has in (True, False):
        w = 'object with mixins' if has else 'empty object'
        s.contract('~object (%s)' % w, MD, 'vf_obj_dtor', lambda p, has=has: dtor(p, has), limit=400)
        s.contract('object::clear (%s)' % w, MD, 'vf_obj_clear', lambda p, has=has: clear(p, has), limit=400)
        s.contract('object::reset_type() (%s)' % w, MD, 'vf_obj_reset0', lambda p, has=has: clear(p, has), limit=400)
        s.contract('object::reset_type to the empty type (%s)' % w, MD, 'vf_obj_reset', lambda p, has=has: clear(p, has, 2), limit=400)


def retype(s):
    def run(p, old, what):
        M = Mut(p, old)
        by_contracts(M)
        if old == 'full':
            p.assume(M.num0[M.T0] > 0)
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.T1.t])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            if o.kind == 'throw':
                M.obj_same(o)
                M.undone(o)
            else:
                p.prove(o.st, M.sealed == 0, 'not for a sealed object')
                finalized(p, M, o)
    for old in ('full', 'none'):
        w = 'object with mixins' if old == 'full' else 'empty object'
        s.contract('object::reset_type (%s)' % w, MD, 'vf_obj_reset', lambda p, old=old: run(p, old, 'reset'), limit=400)
        s.contract('perform_object_mutation (%s)' % w, MD, 'vf_perform', lambda p, old=old: run(p, old, 'perform'), limit=400)

    def same(p, old):
        """to the type it has: nothing happens"""
        M = Mut(p, old, same=True, n1pos=old == 'full')
        if old == 'none':
            p.assume(M.n1 == 0)
        by_contracts(M)
        outs = p.call(args=[M.obj, M.T1.t])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            M.obj_same(o)
            p.prove(o.st, (M.sealed == 0) == z3.BoolVal(o.kind == 'ret'), 'throws exactly for a sealed object')
    s.contract('object::reset_type to its own type (object with mixins)', MD, 'vf_obj_reset', lambda p: same(p, 'full'))
    s.contract('object::reset_type to its own type (empty object)', MD, 'vf_obj_reset', lambda p: same(p, 'own'))

    def create(p):
        M = Mut(p, 'new')
        by_contracts(M)
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.T1.t, M.res, M.sealed != 0])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            if o.kind == 'throw':
                M.undone(o)
            else:
                finalized(p, M, o)
    s.contract('object(type)', MD, 'vf_obj_new', create)


def special(s):
    """mutations to the same type and to a type without mixins (the code itself, no contracts)"""
    def same(p):
        M = Mut(p, 'full', same=True)
        M.td = M.od
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.T1.t])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            M.obj_same(o)
            p.prove(o.st, z3.And(z3.Not(zb(o.st.ghost['tbuf'])), z3.ForAll([i], z3.Implies(M.r1(i), z3.Not(M.g(o.st, 'NBA', i))))), 'nothing is allocated')
            p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), z3.Not(M.g(o.st, 'CL', i)))), 'nothing is constructed')
            M.num_is(o, M.T1, M.num0[M.T1], 'the object count of the type')
            p.prove(o.st, (M.sealed == 0) == z3.BoolVal(o.kind == 'ret'), 'throws exactly for a sealed object')
    s.contract('object mutation to the same type', MD, 'vf_perform', same, limit=400)

    def empty(p, old):
        M = Mut(p, old, mode='finalize', n1pos=False)
        p.assume(M.n1 == 0)
        M.p.st0.ghost['tbuf'] = False
        if old == 'full':
            p.assume(M.num0[M.T0] > 0)
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.T1.t])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            p.prove(o.st, (M.sealed == 0) == z3.BoolVal(o.kind == 'ret'), 'throws exactly for a sealed object')
            M.num_is(o, M.T1, M.num0[M.T1], 'objects without mixins are not counted')
            if o.kind == 'throw':
                M.obj_same(o)
                continue
            p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + p.k.ob_type)) == M.T1.t, zi(p.ld(o.st, 8, M.obj + p.k.ob_data)) == 0), 'the object is empty')
            if M.od:
                p.prove(o.st, z3.ForAll([i], z3.Implies(M.r0(i), M.g(o.st, 'OL', i) == (M.fn(M.T0.mix(i), 'i_destroy') == 0))), 'all old mixins are destroyed')
                p.prove(o.st, z3.ForAll([i], z3.Implies(M.r0(i), z3.And(z3.Not(M.g(o.st, 'MV', i)), z3.Not(M.g(o.st, 'OBA', i))))), 'all old memory is returned')
                p.prove(o.st, z3.Not(zb(o.st.ghost['obuf'])), 'the old object buffer is returned')
                M.num_is(o, M.T0, M.num0[M.T0] - 1, 'the object count of the old type is one less')
    s.contract('object mutation to the empty type (object with mixins)', MD, 'vf_perform', lambda p: empty(p, 'full'), limit=400)
    s.contract('object mutation to the empty type (empty object)', MD, 'vf_perform', lambda p: empty(p, 'none'), limit=400)


def moves(s):
    k_ = lambda p: p.k

    def redirected(p, M, o, to, res=None):
        """the source's mixins belong to the object at `to`"""
        p.prove(o.st, z3.And(zi(p.ld(o.st, 8, to + p.k.ob_type)) == M.T1.t, zi(p.ld(o.st, 8, to + p.k.ob_data)) == (M.td if M.has else 0)), 'the target has the type and the mixin table of the source')
        p.prove(o.st, zi(p.ld(o.st, 8, to + p.k.ob_alloc)) == (M.res if res is None else res), 'the target has the allocator of the source')
        p.prove(o.st, zi(p.ld(o.st, 1, to + p.k.ob_sealed)) == M.sealed, 'the target has the sealed status of the source')
        if M.has:
            a8 = p.M(8, o.st)
            e = M.td + p.k.md_size * i
            p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), z3.And(z3.Select(a8, e + p.k.md_buf) == TB(i), z3.Select(a8, e + p.k.md_mixin) == TMX(i)))), 'the mixins are at the same addresses')
            p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), z3.Select(a8, BPX(i)) == to)), 'the mixins refer to the target')
            f = z3.Int('addr!mixins')
            inm = z3.And(f >= M.td, f < M.ext + (1 << 39), z3.Implies(M.r1(PIX(f)), BPX(PIX(f)) != f))
            for w in (1, 4, 8):
                p.prove(o.st, z3.Implies(inm, z3.Select(p.M(w, o.st), f) == z3.Select(p.ex.base_arrs[w], f)), 'nothing else in the memory of the mixins is written (%d)' % w)
            p.prove(o.st, z3.And(zb(o.st.ghost['tbuf']), z3.ForAll([i], z3.Implies(M.r1(i), z3.And(M.g(o.st, 'CL', i), M.g(o.st, 'NBA', i) == (NX(i) == 1))))), 'no mixin of the source is destroyed, no memory returned')
        p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + p.k.ob_type)) == M.E.t, zi(p.ld(o.st, 8, M.obj + p.k.ob_data)) == 0, zi(p.ld(o.st, 1, M.obj + p.k.ob_sealed)) == 0), 'the source is empty and not sealed')
        p.prove(o.st, zi(p.ld(o.st, 8, M.obj + p.k.ob_alloc)) == M.res, 'the source keeps its allocator')
        M.num_is(o, M.T1, M.num0[M.T1], 'the object count of the type')

    def cand(p, M, to):
        if M.has:
            p.assume(z3.ForAll([i], z3.Implies(M.r1(i), z3.And(PIX(TMX(i) - 8) == i, BPX(i) == TMX(i) - 8)), patterns=[TMX(i)]))
            p.ex.write_sets.append(SpecSet(8, 'pointers to the object', lambda x: z3.And(M.r1(PIX(x)), BPX(PIX(x)) == x), [M.td, M.ext]))
        def gen(ctx):
            out = []
            F = lambda b: z3.ForAll([i], b)
            for r, v0 in ctx.init.items():
                if isinstance(v0, (tuple, bool)) or (not is_c(v0) and not z3.is_int(v0)):
                    continue
                def at(f, r=r):
                    return lambda v: None if isinstance(v.phi[r], (tuple, bool)) or (not is_c(v.phi[r]) and not z3.is_int(v.phi[r])) else f(v, zi(v.phi[r]))
                out.append(at(lambda v, c: F(z3.Implies(z3.And(i >= 0, i < c), z3.Select(v.arr(8), BPX(i)) == to))))
                e = M.td + p.k.md_size * i
                # a loop over the table itself: the place is an address
                out.append(at(lambda v, c: F(z3.Implies(z3.And(i >= 0, e < c), z3.Select(v.arr(8), BPX(i)) == to))))
            e = M.td + p.k.md_size * i
            out.append(lambda v: F(z3.Implies(M.r1(i), z3.Select(v.arr(8), e + p.k.md_buf) == TB(i))))
            out.append(lambda v: F(z3.Implies(M.r1(i), z3.Select(v.arr(8), e + p.k.md_mixin) == TMX(i))))
            return out
        p.ex.cands.append(gen)

    def ctor(p, has):
        M = live(p, has)
        M.E = empty_type(p, M)
        to = p.stack('new_object')
        cand(p, M, to)
        outs = p.call(args=[to, M.obj])
        p.nothrow(outs)
        p.cover(outs)
        for o in outs:
            redirected(p, M, o, to)
            M.heap_same(o)

    def asgn(p, has, thas, kind):
        """kind: same allocator, or other"""
        M = live(p, has)
        M.E = empty_type(p, M)
        k = p.k
        to = p.stack('target_object')
        E2 = None
        res = M.res if kind == 'same' else p.ptr('other_resource')
        sealed = p.u('target_sealed', 1)
        p.wr(8, to + k.ob_alloc, res)
        p.wr(1, to + k.ob_sealed, sealed)
        Tt = Ty(p, 'ttarget')
        p.wr(8, to + k.ob_type, Tt.t)
        tdata = p.stack('target_mixins') if thas else 0
        p.wr(8, to + k.ob_data, tdata)
        p.st0.ghost['cleared'] = False
        cand(p, M, to)

        def clear(ex, st, args, inst, dem):
            # clear_mixin_data of the target, as proved for ~object
            ex.prove_pre(st, zi(args[0]) == to, 'clear: the target only')
            ex.prove_pre(st, z3.Not(zb(st.ghost['cleared'])), 'clear: once')
            ex.prove_pre(st, z3.And(zi(ex.load_raw(st, 8, to + k.ob_type)[0]) == Tt.t, zi(ex.load_raw(st, 8, to + k.ob_data)[0]) == tdata), 'clear: the mixins of the target')
            p.wr(8, to + k.ob_data, 0, st)
            st.ghost['cleared'] = True
            return [Out('ret', st, None)]
        p.ex.contracts.insert(0, (r'^dynamix::object::clear_mixin_data\(\)', clear))
        eq = p.u('resources_equal', 1)

        def iseq(ex, st, fp, vals, inst):
            if len(vals) == 2:
                ex.prove_pre(st, z3.Or(z3.And(zi(vals[0]) == res, zi(vals[1]) == M.res), z3.And(zi(vals[1]) == res, zi(vals[0]) == M.res)), 'is_equal: of the two resources')
                return [Out('ret', st, eq != 0)]
            return M.user(ex, st, fp, vals, inst)
        p.ex.indirect = iseq
        outs = p.call(args=[to, M.obj])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            p.prove(o.st, zi(p.ld(o.st, 8, to + k.ob_alloc)) == res, 'the target keeps its allocator')
            if o.kind == 'throw':
                p.prove(o.st, z3.Or(sealed != 0, z3.BoolVal(kind != 'same')), 'throws only for a sealed target or different allocators')
                alive(p, M, o, 'the source')
                p.prove(o.st, z3.And(zi(p.ld(o.st, 8, to + k.ob_type)) == Tt.t, zi(p.ld(o.st, 8, to + k.ob_data)) == tdata, zi(p.ld(o.st, 1, to + k.ob_sealed)) == sealed, z3.Not(zb(o.st.ghost['cleared']))), 'the target is unchanged')
            else:
                p.prove(o.st, sealed == 0, 'not for a sealed target')
                if kind != 'same':
                    p.prove(o.st, z3.Or(res == M.res, eq != 0), 'not for different allocators')
                if thas:
                    p.prove(o.st, zb(o.st.ghost['cleared']), 'the mixins of the target are destroyed')
                redirected(p, M, o, to, res)
    for has in (True, False):
        w = 'object with mixins' if has else 'empty object'
        s.contract('object(object&&) (%s)' % w, MD, 'vf_obj_move', lambda p, has=has: ctor(p, has))
        for thas in (True, False):
            w2 = 'target with mixins' if thas else 'empty target'
            s.contract('object move assignment (%s, %s)' % (w, w2), MD, 'vf_obj_move_asgn', lambda p, has=has, thas=thas: asgn(p, has, thas, 'same'))
        s.contract('object move assignment, other allocator (%s)' % w, MD, 'vf_obj_move_asgn', lambda p, has=has: asgn(p, has, True, 'other'))

    def self_(p, has):
        M = live(p, has)
        outs = p.call(args=[M.obj, M.obj])
        p.nothrow(outs)
        p.cover(outs)
        for o in outs:
            alive(p, M, o)
            M.heap_same(o)
    s.contract('object move assignment to itself', MD, 'vf_obj_move_asgn', lambda p: self_(p, True))
    s.contract('object move assignment to itself (empty)', MD, 'vf_obj_move_asgn', lambda p: self_(p, False))


class Copy(Mut):
    """copying from a source object of the target type: entry i of its table is the mixin SM(i)"""
    def __init__(self, p, old, same=False, mode='build', op='copy_from'):
        super().__init__(p, old, same=same, mode=mode)
        self.op = op
        self.src = p.stack('source')
        self.sd = p.stack('source_mixins')
        k = p.k
        p.wr(8, self.src + k.ob_type, self.T1.t)
        p.wr(8, self.src + k.ob_data, self.sd)
        self.ssealed = p.u('source_sealed', 1)
        p.wr(1, self.src + k.ob_sealed, self.ssealed)
        self.sres = p.ptr('source_resource')
        p.wr(8, self.src + k.ob_alloc, self.sres)
        for n in ('ASG', 'MAS', 'MIN', 'DES'):
            p.st0.ghost[n] = z3.Const(n + '!0', ARR)
            p.assume(z3.ForAll([i], z3.Not(z3.Select(p.st0.ghost[n], i))))

    def SM(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.sd + self.k.md_size * c + self.k.md_mixin)

    def idx(self, ex, st, m, what):
        c = self.T1.sp(self.T1.idof(m))
        ex.prove_pre(st, z3.And(self.r1(c), self.T1.mix(c) == m), what + ': a mixin of the source')
        return c

    def fallible(self, st, ghost, c):
        bad, thr = st.copy(), st.copy()
        err = engine.fresh('err')
        bad.assume(z3.And(err > 0, err < (1 << 32)))
        self.gset(st, ghost, c, True)
        return [Out('ret', bad, err), Out('throw', thr, ('ext', 'user')), Out('ret', st, 0)]

    def user(self, ex, st, fp, vals, inst):
        ty = ex.m.resolve(inst.ty)
        a = [zi(v) for v in vals]
        fp = zi(fp)
        void = ty.k == 'void'
        if len(a) == 3 and not void:
            m, x, src = a
            c = self.idx(ex, st, m, 'copy')
            ex.prove_pre(st, src == self.SM(c), 'copy: from the mixin of the source')
            ex.prove_pre(st, fp != 0, 'copy: not null')
            ex.assumed['user function (copy, 3 arguments)'] = 1
            if ex.valid(st, fp == self.fn(m, 'i_cinit'), fast=True)[0] is True and self.op != 'matching':
                return self.construct(ex, st, fp, 'i_cinit', m, x)
            ex.prove_pre(st, fp == self.fn(m, 'i_casgn'), 'copy assign: of that mixin')
            ex.prove_pre(st, self.common(c), 'copy assign: a common mixin')
            ex.prove_pre(st, x == self.OM(self.oldpos(c)), 'copy assign: to the mixin of the target')
            ex.prove_pre(st, z3.Not(self.g(st, 'ASG', c)), 'copy assign: once')
            return self.fallible(st, 'ASG', c)
        if self.op == 'move' and void and len(a) == 3:
            m, x, src = a
            c = self.idx(ex, st, m, 'move')
            ex.assumed['user function (move, 3 arguments)'] = 1
            ex.prove_pre(st, z3.And(src == self.SM(c), x == self.OM(self.oldpos(c)), self.common(c), fp != 0), 'move: from the mixin of the source to that of the target')
            ex.prove_pre(st, z3.Not(z3.Or(self.g(st, 'MAS', c), self.g(st, 'MIN', c))), 'move: once')
            if ex.valid(st, fp == self.fn(m, 'i_masgn'), fast=True)[0] is True:
                ex.prove_pre(st, z3.Not(self.g(st, 'DES', c)), 'move assign: a mixin which is alive')
                self.gset(st, 'MAS', c, True)
                return [Out('ret', st, None)]
            ex.prove_pre(st, fp == self.fn(m, 'i_minit'), 'move construct: of that mixin')
            ex.prove_pre(st, z3.And(self.fn(m, 'i_masgn') == 0, self.fallback), 'move construct: only when allowed')
            ex.prove_pre(st, z3.Or(self.fn(m, 'i_destroy') == 0, self.g(st, 'DES', c)), 'move construct: after the old value is destroyed')
            self.gset(st, 'MIN', c, True)
            return [Out('ret', st, None)]
        if self.op == 'move' and void and len(a) == 2:
            m, x = a
            c = self.idx(ex, st, m, 'destroy')
            ex.prove_pre(st, z3.And(fp != 0, fp == self.fn(m, 'i_destroy'), x == self.OM(self.oldpos(c)), self.common(c)), 'destroy: the mixin of the target')
            ex.prove_pre(st, z3.And(self.fn(m, 'i_masgn') == 0, self.fallback), 'destroy: only when moving by construction')
            ex.prove_pre(st, z3.Not(self.g(st, 'DES', c)), 'destroy: once')
            self.gset(st, 'DES', c, True)
            return [Out('ret', st, None)]
        return super().user(ex, st, fp, vals, inst)

    def done(self, n, c):
        """has to have happened to source mixin c"""
        m = self.T1.mix(c)
        com = COM(c) == 1
        if n == 'ASG':
            return com
        mv = self.fn(m, 'i_masgn') != 0
        if n == 'MAS':
            return z3.And(com, mv)
        if n == 'MIN':
            return z3.And(com, z3.Not(mv))
        return z3.And(com, z3.Not(mv), self.fn(m, 'i_destroy') != 0)

    def gen(self, ctx):
        out = super().gen(ctx)
        ctrs = []
        for r, v0 in ctx.init.items():
            if not isinstance(v0, (tuple, bool)) and (is_c(v0) or z3.is_int(v0)):
                ctrs.append(lambda v, r=r: v.phi[r])
        ctrs += [lambda v, a=a: v.rd(4, a) for a in sorted(x[1] for x in ctx.wcells if x and x[0] == 4)]
        if self.op == 'copy' and 'CL' in ctx.ghosts:
            for get in ctrs:
                def had(v, get=get):
                    c = get(v)
                    if isinstance(c, (tuple, bool)) or (not is_c(c) and not z3.is_int(c)):
                        return None
                    return z3.ForAll([i], z3.Implies(z3.And(self.r1(i), i < zi(c), self.new(i)), self.fn(self.T1.mix(i), 'i_cinit') != 0))
                out.append(had)
        for n in ('ASG', 'MAS', 'MIN', 'DES'):
            if n not in ctx.ghosts:
                continue
            for get in ctrs:
                for lt in (lambda c: i < c, lambda c: self.T1.mb + 8 * i < c):
                    def cand(v, get=get, n=n, lt=lt):
                        c = get(v)
                        if isinstance(c, (tuple, bool)) or (not is_c(c) and not z3.is_int(c)):
                            return None
                        return z3.ForAll([i], z3.Implies(self.r1(i), z3.Select(v.ghost(n), i) == z3.And(lt(zi(c)), self.done(n, i))))
                    out.append(cand)
        return out

    def source_same(self, o):
        p, k = self.p, self.k
        p.prove(o.st, z3.And(zi(p.ld(o.st, 8, self.src + k.ob_type)) == self.T1.t, zi(p.ld(o.st, 8, self.src + k.ob_data)) == self.sd,
                             zi(p.ld(o.st, 8, self.src + k.ob_alloc)) == self.sres, zi(p.ld(o.st, 1, self.src + k.ob_sealed)) == self.ssealed), 'the source keeps type, mixins, allocator and sealed status')
        f = z3.Int('addr!source')
        for w in (1, 4, 8):
            p.prove(o.st, z3.Implies(z3.And(f >= self.sd, f < self.sd + (1 << 38)), z3.Select(p.M(w, o.st), f) == z3.Select(p.ex.base_arrs[w], f)), 'the mixin table of the source is not written (%d)' % w)

    def untouched(self, st, names=('ASG',)):
        return z3.And([z3.ForAll([i], z3.Implies(self.r1(i), z3.Not(self.g(st, n, i)))) for n in names])


def copies(s):
    def copy_from(p, old):
        M = Copy(p, old)
        by_contracts(M)
        if old == 'full':
            p.assume(M.num0[M.T0] > 0)
        else:
            p.assume(M.otype0 == 1)
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.src])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        need = lambda c: z3.If(COM(c) == 1, M.fn(M.T1.mix(c), 'i_casgn') != 0, M.fn(M.T1.mix(c), 'i_cinit') != 0)
        for o in outs:
            M.heap_same(o)
            M.source_same(o)
            if o.kind == 'throw':
                M.obj_same(o)
                M.undone(o)
                st = o.st.copy()
                w = z3.Int('missing')
                st.assume(z3.And(M.r1(w), z3.Not(need(w))))
                p.prove(st, M.untouched(st), 'a needed function is missing: no mixin is assigned')
                p.prove(st, z3.ForAll([i], z3.Implies(M.r1(i), z3.Not(M.g(st, 'CL', i)))), 'a needed function is missing: no mixin is constructed')
            else:
                p.prove(o.st, M.sealed == 0, 'not for a sealed object')
                finalized(p, M, o)
                p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, 'ASG', i) == (COM(i) == 1))), 'exactly the common mixins are copy-assigned')
    s.contract('object::copy_from (object with mixins)', MD, 'vf_obj_copy_from', lambda p: copy_from(p, 'full'), limit=400)
    s.contract('object::copy_from (empty object)', MD, 'vf_obj_copy_from', lambda p: copy_from(p, 'none'), limit=400)

    def copy_same(p):
        """the source has the type of the target"""
        M = Copy(p, 'full', same=True)
        M.td = M.od
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.src])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            M.source_same(o)
            M.obj_same(o)
            p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), z3.And(z3.Not(M.g(o.st, 'CL', i)), z3.Not(M.g(o.st, 'NBA', i))))), 'nothing is constructed or allocated')
            if o.kind == 'ret':
                p.prove(o.st, M.sealed == 0, 'not for a sealed object')
                p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, 'ASG', i))), 'all mixins are copy-assigned')
            else:
                st = o.st.copy()
                w = z3.Int('missing')
                st.assume(z3.And(M.r1(w), M.fn(M.T1.mix(w), 'i_casgn') == 0))
                p.prove(st, M.untouched(st), 'a needed function is missing: no mixin is assigned')
    s.contract('object::copy_from (same type)', MD, 'vf_obj_copy_from', copy_same, limit=400)

    def copy_from_empty(p, has):
        """an empty source: the target becomes empty"""
        M = live(p, has)
        E = Ty(p, 'empty', n=0)
        k = p.k
        src = p.stack('source')
        p.wr(8, src + k.ob_type, E.t)
        p.wr(8, src + k.ob_data, 0)
        outs = p.call(args=[M.obj, src])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            M.heap_same(o)
            p.prove(o.st, z3.And(zi(p.ld(o.st, 8, src + k.ob_type)) == E.t, zi(p.ld(o.st, 8, src + k.ob_data)) == 0), 'the source is unchanged')
            p.prove(o.st, (M.sealed == 0) == z3.BoolVal(o.kind == 'ret'), 'throws exactly for a sealed object')
            if o.kind == 'throw':
                alive(p, M, o)
            else:
                cleared(p, M, o)
                same_ob(p, M, o.st, data=False, ty=False)
                p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + k.ob_type)) == E.t, zi(p.ld(o.st, 8, M.obj + k.ob_data)) == 0), 'the object is empty')
    s.contract('object::copy_from an empty object (object with mixins)', MD, 'vf_obj_copy_from', lambda p: copy_from_empty(p, True))
    s.contract('object::copy_from an empty object (empty object)', MD, 'vf_obj_copy_from', lambda p: copy_from_empty(p, False))

    def copy(p):
        M = Copy(p, 'new', op='copy')
        by_contracts(M)
        p.ex.uncaught = p.u('uncaught_now', 16)
        outs = p.call(args=[M.obj, M.src, M.res])
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        M.sealed = z3.IntVal(0)
        for o in outs:
            M.heap_same(o)
            M.source_same(o)
            if o.kind == 'throw':
                M.undone(o)
            else:
                finalized(p, M, o)
                st = o.st.copy()
                w = z3.Int('missing')
                st.assume(z3.And(M.r1(w), M.fn(M.T1.mix(w), 'i_cinit') == 0))
                p.prove(st, False, 'throws when a copy constructor is missing')
    s.contract('object::copy', MD, 'vf_obj_copy', copy, limit=400)

    def copy_empty(p):
        k = p.k
        M = Mut(p, 'new', n1pos=False)
        by_contracts(M)
        src = p.stack('source')
        E = Ty(p, 'empty', n=0)
        p.wr(8, src + k.ob_type, E.t)
        p.wr(8, src + k.ob_data, 0)
        outs = p.call(args=[M.obj, src, M.res])
        p.nothrow(outs)
        p.cover(outs)
        for o in outs:
            M.heap_same(o)
            p.prove(o.st, z3.And(zi(p.ld(o.st, 8, M.obj + k.ob_type)) == E.t, zi(p.ld(o.st, 8, M.obj + k.ob_data)) == 0, zi(p.ld(o.st, 8, M.obj + k.ob_alloc)) == M.res, zi(p.ld(o.st, 1, M.obj + k.ob_sealed)) == 0), 'an empty object of the same type')
            p.prove(o.st, z3.And(zi(p.ld(o.st, 8, src + k.ob_type)) == E.t, zi(p.ld(o.st, 8, src + k.ob_data)) == 0), 'the source is unchanged')
    s.contract('object::copy of an empty object', MD, 'vf_obj_copy', copy_empty)


def matching(s):
    def run(p, op, old, same):
        M = Copy(p, old, op='matching' if op == 'copy' else 'move', same=same)
        fb = p.u('fallback', 1)
        M.fallback = fb != 0
        outs = p.call(args=[M.obj, M.src] + ([fb != 0] if op == 'move' else []))
        p.cover([o for o in outs if o.kind == 'ret'])
        if M.od:
            p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        names = ('ASG',) if op == 'copy' else ('MAS', 'MIN', 'DES')
        m = lambda c: M.T1.mix(c)
        miss = (lambda c: M.fn(m(c), 'i_casgn') == 0) if op == 'copy' else (lambda c: z3.And(M.fn(m(c), 'i_masgn') == 0, z3.Not(z3.And(M.fallback, M.fn(m(c), 'i_minit') != 0))))
        for o in outs:
            M.heap_same(o)
            M.source_same(o)
            M.obj_same(o)
            w = z3.Int('missing')
            st = o.st.copy()
            st.assume(z3.And(M.r1(w), COM(w) == 1, miss(w)))
            if o.kind == 'ret':
                p.prove(st, False, 'throws when a needed function is missing')
                for n in names:
                    p.prove(o.st, z3.ForAll([i], z3.Implies(M.r1(i), M.g(o.st, n, i) == M.done(n, i))), 'exactly the matching mixins: ' + n)
            else:
                for n in names:
                    p.prove(st, M.untouched(st, (n,)), 'a needed function is missing: nothing is done: ' + n)
                if op == 'move':
                    p.prove(o.st, M.untouched(o.st, names), 'a failing move has done nothing')
    for op, e in (('copy', 'vf_obj_copy_match'), ('move', 'vf_obj_move_match')):
        s.contract('object::%s_matching_from' % op, MD, e, lambda p, op=op: run(p, op, 'full', False), limit=400)
        s.contract('object::%s_matching_from (same type)' % op, MD, e, lambda p, op=op: run(p, op, 'full', True), limit=400)
        s.contract('object::%s_matching_from (empty object)' % op, MD, e, lambda p, op=op: run(p, op, 'own', False), limit=400)
