import z3
import engine
from domspec import *

NATIVE = dict(src=['c30.cpp'], lib='v1')
D = 'v1.cpp'
LEVEL = 'other'
NOTE = ('deductive for the dependent (one-shot and checked), deprecated, mandatory and substitute rules, over any mixin list; '
        'the mutually exclusive rule and the rule ids (add_mutation_rule, remove_mutation_rule) are bounded')
BOUNDED = ['mutually_exclusive_mixins::apply_to', 'add_mutation_rule / remove_mutation_rule (v1compat)']
TRUST = ['type_mutation::has, add, add_if_lacking and remove by contract (C15)', 'a mixin type stands for one mixin info']
I_ = z3.IntSort()
POS = z3.Function('POS', I_, I_)        # mixin -> where it is listed first
RANK = z3.Function('RANK', I_, I_)      # how many of the listed mixins before i are appended
x = z3.Int('x!m')


class List:
    """the mixins of a mutation: IN (is it there), and those appended, in order"""
    def __init__(self, p):
        self.p = p
        self.mut = p.stack('mutation')
        g = p.st0.ghost
        self.in0 = g['IN'] = z3.Const('IN0', z3.ArraySort(I_, z3.BoolSort()))
        g['AP'] = z3.Const('AP0', z3.ArraySort(I_, I_))
        g['n'] = z3.IntVal(0)
        g['gone'] = z3.K(I_, z3.IntVal(0))       # removed (occurrences, the first each time)
        C = p.ex.contracts.insert
        T = r'^dynamix::type_mutation::'
        has = lambda st, m: z3.Select(st.ghost['IN'], zi(m))
        own = lambda ex, st, a: ex.prove_pre(st, zi(a[0]) == self.mut, 'on the mutation')

        def app(st, m):
            h = st.ghost
            h['IN'] = z3.Store(h['IN'], zi(m), True)
            h['AP'] = z3.Store(h['AP'], zi(h['n']), zi(m))
            h['n'] = zi(h['n']) + 1

        def h_has(ex, st, a, inst, dem):
            own(ex, st, a)
            return [Out('ret', st, has(st, a[1]))]

        def h_add(ex, st, a, inst, dem):
            own(ex, st, a)
            o = Out('throw', st.copy(), ('std', '_ZTISt9bad_alloc'))
            app(st, a[1])
            return [o, Out('ret', st, None)]

        def h_addif(ex, st, a, inst, dem):
            own(ex, st, a)
            s2 = st.copy()
            s2.assume(has(s2, a[1]))
            st.assume(z3.Not(has(st, a[1])))
            o = Out('throw', st.copy(), ('std', '_ZTISt9bad_alloc'))
            app(st, a[1])
            return [o, Out('ret', s2, False), Out('ret', st, True)]

        def h_remove(ex, st, a, inst, dem):
            own(ex, st, a)
            h = st.ghost
            r = has(st, a[1])
            h['gone'] = z3.Store(h['gone'], zi(a[1]), z3.Select(h['gone'], zi(a[1])) + z3.If(r, 1, 0))
            # (it may occur once more)
            h['IN'] = z3.Store(h['IN'], zi(a[1]), z3.And(r, fresh_bool('again')))
            return [Out('ret', st, r)]
        C(0, (T + r'has\(dnmx_mixin_info const&\) const', h_has))
        C(0, (T + r'add\(dnmx_mixin_info const&\)', h_add))
        C(0, (T + r'add_if_lacking\(dnmx_mixin_info const&\)', h_addif))
        C(0, (T + r'remove\(dnmx_mixin_info const&\)', h_remove))

    def unchanged(self, st, what):
        h = st.ghost
        self.p.prove(st, z3.And(h['IN'] == self.in0, zi(h['n']) == 0, h['gone'] == z3.K(I_, z3.IntVal(0))), what)


def fresh_bool(n):
    return fresh(n) == 1


def dependent(p, checked):
    k = p.k
    M = List(p)
    r = p.stack('rule')
    om, oi = (k.dep_master, k.dep_infos) if checked else (k.one_master, k.one_infos)
    master = p.ptr('master')
    b, n = p.ptr('infos'), p.u('n', 40)
    p.wr(8, r + om, master)
    for o, v in ((0, b), (8, b + 8 * n), (16, b + 8 * n)):
        p.wr(8, r + oi + o, v)
    p.assume(b + 8 * n < PRE_MAX)
    a8, a1 = p.ex.base_arrs[8], p.ex.base_arrs[1]
    el = lambda c: z3.Select(a8, b + 8 * c)
    dep = lambda c: z3.Select(a1, el(c) + k.i_dep) != 0
    rng = lambda c: z3.And(c >= 0, c < n)
    in0 = lambda m: z3.Select(M.in0, m)
    new = lambda c: z3.And(z3.Not(in0(el(c))), POS(el(c)) == c)
    p.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(el(i) >= 4096, el(i) < PRE_MAX, POS(el(i)) >= 0, POS(el(i)) <= i, el(POS(el(i))) == el(i)))))
    p.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(z3.Select(a1, el(i) + k.i_dep) >= 0, z3.Select(a1, el(i) + k.i_dep) <= 1))))
    p.assume(RANK(0) == 0)
    p.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(RANK(i + 1) == RANK(i) + z3.If(new(i), 1, 0), RANK(i) >= 0)), patterns=[RANK(i), el(i)]))
    IN = lambda h, m: z3.Select(h['IN'], m)
    listed = lambda m, e: z3.And(POS(m) >= 0, POS(m) < e, POS(m) < n, el(POS(m)) == m)

    def gen(ctx):
        h = lambda w: {g: w.ghost(g) for g in ('IN', 'AP', 'n')}
        return [lambda w: z3.ForAll([x], z3.Select(w.ghost('IN'), x) == z3.Or(in0(x), listed(x, w.k))),
                lambda w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.k), z3.And(RANK(i) >= 0, RANK(i) + z3.If(new(i), 1, 0) <= RANK(w.k)))),
                lambda w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.k), RANK(i) <= RANK(w.k))),
                lambda w: zi(w.ghost('n')) == RANK(w.k),
                lambda w: w.k <= n,
                lambda w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.k, new(i)), z3.Select(w.ghost('AP'), RANK(i)) == el(i))),
                lambda w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.k), dep(i)))]
    p.ex.cands.append(gen)
    outs = p.call(args=[r, M.mut])
    p.cover([o for o in outs if o.kind == 'ret'])
    if checked:
        p.cover([o for o in outs if o.kind == 'throw' and o.st.ghost.get('$thrown', '').endswith('type_mut_error')], 'refuses')
    for o in outs:
        st, h = o.st, o.st.ghost
        refused = h.get('$thrown', '').endswith('type_mut_error')
        if o.kind == 'throw' and not refused:
            p.prove(st, z3.And(z3.BoolVal('bad_alloc' in str(o.val)), in0(master)), 'throws only when the memory runs out')
        elif refused:
            p.prove(st, z3.And(z3.BoolVal(checked), in0(master), z3.Not(z3.ForAll([i], z3.Implies(rng(i), dep(i))))), 'refuses only mixins which are not dependencies, with the master present')
        else:
            s1, s2 = st.copy(), st.copy()
            s1.assume(z3.Not(in0(master)))
            M.unchanged(s1, 'without the master nothing is changed')
            s2.assume(in0(master))
            p.prove(s2, z3.ForAll([x], IN(h, x) == z3.Or(in0(x), listed(x, n))), 'exactly the listed mixins are there besides')
            p.prove(s2, zi(h['n']) == RANK(n), 'as many appended as were lacking')
            p.prove(s2, z3.ForAll([i], z3.Implies(z3.And(rng(i), new(i)), z3.Select(h['AP'], RANK(i)) == el(i))), 'appended in the order of the list')
            p.prove(s2, h['gone'] == z3.K(I_, z3.IntVal(0)), 'none is removed')
            if checked:
                p.prove(s2, z3.ForAll([i], z3.Implies(rng(i), dep(i))), 'a mixin which is not a dependency is refused')


def single(p, kind):
    M = List(p)
    st = p.st0
    infos = [p.ptr('info_a'), p.ptr('info_b')]
    for f, v in zip(('vf_a', 'vf_b'), infos):
        a = p.nothrow(p.call(f, []))[0].val
        p.wr(8, a, v)
    a, b = infos
    outs = p.call(args=[p.stack('rule'), M.mut])
    p.cover([o for o in outs if o.kind == 'ret'])
    in0 = lambda m: z3.Select(M.in0, m)
    for o in outs:
        s, h = o.st, o.st.ghost
        IN = lambda m: z3.Select(h['IN'], m)
        gone = lambda m: z3.Select(h['gone'], m)
        others = lambda *ms: z3.ForAll([x], z3.Implies(z3.And(*[x != m for m in ms]), z3.And(IN(x) == in0(x), gone(x) == 0)))
        if o.kind == 'throw':
            p.prove(s, z3.And(z3.BoolVal('bad_alloc' in str(o.val)), z3.BoolVal(kind != 'deprecated')), 'throws only when the memory runs out')
            continue
        n, ap = zi(h['n']), h['AP']
        if kind == 'deprecated':
            p.prove(s, z3.And(n == 0, gone(a) == z3.If(in0(a), 1, 0), others(a)), 'removes exactly its mixin, if it is there')
        elif kind == 'mandatory':
            p.prove(s, z3.And(n == z3.If(in0(a), 0, 1), IN(a), gone(a) == 0, z3.Implies(n == 1, z3.Select(ap, 0) == a), others(a)), 'appends exactly its mixin, if it is lacking')
        else:
            p.prove(s, gone(a) == z3.If(in0(a), 1, 0), 'removes exactly the source, if it is there')
            p.prove(s, z3.And(n == z3.If(in0(a), 1, 0), z3.Implies(n == 1, z3.Select(ap, 0) == b)), 'appends the target exactly then')
            p.prove(s, others(a, b), 'the others are left alone')
            p.prove(s, z3.Implies(a != b, z3.And(gone(b) == 0, IN(b) == z3.Or(in0(a), in0(b)))), 'the target is not removed')


def verify(s):
    s.contract('dependent_mixins_oneshot::apply_to', D, 'vf_oneshot', lambda p: dependent(p, False), limit=300)
    s.contract('dependent_mixins_dep::apply_to', D, 'vf_dep', lambda p: dependent(p, True), limit=300)
    for kd in ('deprecated', 'mandatory', 'substitute'):
        s.contract(kd + '_mixin::apply_to', D, 'vf_' + kd, lambda p, kd=kd: single(p, kd))
