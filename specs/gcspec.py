"""Removal of types and of stored queries (domain.cpp: unregister_mixin, garbage_collect_types) and the
object counts of types. The set of types and the map of queries are by contract: a sequence of entries
(in their order), some of which have been erased; iterators are real pointers to the nodes."""
import z3
import engine
from domspec import *

GD = 'gc.cpp'
t = z3.Int('t!e')
I_ = z3.IntSort()
TQ = z3.Function('TQ', I_, I_)                    # query -> index of its type, negative: the empty type
TIX = z3.Function('TIX', I_, I_)                  # type -> its index
HAS = z3.Function('HAS', I_, z3.BoolSort())       # type -> it has the mixin
MENT = z3.Function('MENT', I_, z3.BoolSort())     # query -> its key mentions the mixin
WIT = z3.Function('WIT', I_, I_)                  # where
NODE = 32                                         # the node of a tree: header, then the value
TRUST_G = ['std::set and std::map by contract: iteration visits the entries which are not erased in their order, erase removes exactly that entry and gives the next one',
           'a stored query leads to a type of the domain: the empty one, or one of its set (C09)']


class Tree:
    """a tree of n entries of a size, nodes in a row (where they lie does not matter)"""
    def __init__(self, p, tag, size):
        self.p, self.tag, self.size = p, tag, NODE + size
        self.b, self.n = p.ptr(tag + '_nodes'), p.u(tag + '_n', 24)
        p.assume(self.b + self.size * (self.n + 1) < PRE_MAX)
        self.pos, self.prev, self.er = tag + '_pos', tag + '_prev', tag + '_erased'
        g = p.st0.ghost
        g[self.pos], g[self.prev] = self.n, self.n
        g[self.er] = z3.K(I_, False)
        self.facts = []              # facts of all entries, also stated of the entries which are visited

    def node(self, c, off=0):
        return zi(ladd(ladd(self.b, lmul(self.size, c)), off))

    def rng(self, c):
        return z3.And(c >= 0, c < self.n)

    def every(self, *fs):
        for f in fs:
            self.facts.append(f)
            self.p.assume(z3.ForAll([t], z3.Implies(self.rng(t), f(t))))

    def erased(self, st, c):
        return z3.Select(st.ghost[self.er], c)

    def at(self, st, v):
        """the entry an iterator stands at"""
        for g in (self.pos, self.prev):
            c = zi(st.ghost[g])
            if self.p.ex.valid(st, zi(v) == self.node(c), fast=True)[0] is True:
                return c
        if self.p.ex.dry:
            return zi(st.ghost[self.pos])
        raise Unsupported('an iterator of ' + self.tag)

    def next(self, st, c):
        """the first entry behind c which has not been erased"""
        r = fresh('next_' + self.tag)
        e = lambda x: self.erased(st, x)
        st.assume(z3.And(r > c, r <= self.n))
        st.assume(z3.Implies(r < self.n, z3.Not(e(r))))
        st.assume(z3.Or(r == c + 1, e(c + 1)))
        st.assume(z3.ForAll([t], z3.Implies(z3.And(t > c, t < r), e(t))))
        st.ghost[self.prev], st.ghost[self.pos] = st.ghost[self.pos], r
        return r

    def contracts(self, cont, it):
        """cont: the container, it: its iterators (regular expressions of the demangled names)"""
        p = self.p
        C = p.ex.contracts.insert
        W8 = lambda a, v, st: p.wr(8, a, v, st)

        def begin(ex, st, a, inst, dem):
            return [Out('ret', st, self.node(self.next(st, z3.IntVal(-1))))]

        def erase(ex, st, a, inst, dem):
            c = self.at(st, a[1])
            ex.prove_pre(st, z3.And(self.rng(c), z3.Not(self.erased(st, c))), 'erases an entry of %s once' % self.tag)
            st.ghost[self.er] = z3.Store(st.ghost[self.er], c, True)
            return [Out('ret', st, self.node(self.next(st, c)))]

        def inc(ex, st, a, inst, dem):
            v = p.ld(st, 8, a[0])
            c = self.at(st, v)
            ex.prove_pre(st, z3.And(self.rng(c), z3.Not(self.erased(st, c))), 'steps from an entry of %s' % self.tag)
            W8(a[0], self.node(self.next(st, c)), st)
            return [Out('ret', st, v if '(int)' in dem else a[0])]

        def deref(ex, st, a, inst, dem):
            c = self.at(st, p.ld(st, 8, a[0]))
            ex.prove_pre(st, z3.And(self.rng(c), z3.Not(self.erased(st, c))), 'reads an entry of %s' % self.tag)
            for f in self.facts:
                st.assume(f(c))
            return [Out('ret', st, self.node(c, NODE))]

        def clear(ex, st, a, inst, dem):
            st.ghost[self.er] = z3.K(I_, True)
            return [Out('ret', st, None)]
        C(0, (cont + r'>::c?begin\(\)', begin))
        C(0, (cont + r'>::c?end\(\)', lambda ex, st, a, inst, dem: [Out('ret', st, self.node(self.n))]))
        C(0, (cont + r'>::erase\[?.*\(std::_Rb_tree_(const_)?iterator<', erase))
        C(0, (cont + r'>::clear\(\)', clear))
        C(0, (it + r'>::operator\+\+\(', inc))
        C(0, (it + r'>::operator(\*|->)\(\) const', deref))

    def cands(self, conds):
        """conds: conditions of an entry (over a view) under which the loops erase it"""
        p = self.p

        def gen(ctx):
            pos = lambda w: zi(w.ghost(self.pos))
            er = lambda w, c: z3.Select(w.ghost(self.er), c)
            er0 = lambda w, c: z3.Select(w.ghost0(self.er), c)
            A = lambda f: z3.ForAll([t], f)
            out = [lambda w: z3.And(pos(w) >= 0, pos(w) <= self.n),
                   lambda w: z3.Implies(pos(w) < self.n, z3.Not(er(w, pos(w)))),
                   lambda w: A(z3.Implies(z3.And(t >= pos(w), t < self.n), er(w, t) == er0(w, t))),
                   lambda w: A(z3.Implies(z3.And(t >= pos(w), t < self.n), z3.Not(er(w, t))))]
            for get in unknowns(ctx):
                def c(v, get=get):
                    x = get(v)
                    if isinstance(x, (tuple, bool)) or x is None or not z3.is_int(zi(x)):
                        return None
                    return zi(x) == self.node(pos(v))
                out.append(c)
            for cd in conds:
                out.append(lambda w, cd=cd: A(z3.Implies(z3.And(t >= 0, t < pos(w)), er(w, t) == z3.Or(er0(w, t), cd(w, t)))))
                out.append(lambda w, cd=cd: A(z3.Implies(z3.And(t >= 0, t < self.n), er(w, t) == cd(w, t))))
            return out
        p.ex.cands.append(gen)


class Types:
    def __init__(self, p, what):
        self.p, k = p, p.k
        d = self.d = Dom(p)
        self.empty = d.im + k.im_empty
        self.S, self.Q = Tree(p, 'types', 8), Tree(p, 'queries', k.v_size + 8)
        S, Q = self.S, self.Q
        tp = self.type
        p.assume(z3.ForAll([t], z3.Implies(S.rng(t), z3.And(tp(t) >= 4096, tp(t) < PRE_MAX, TIX(tp(t)) == t, tp(t) != self.empty))))
        M = p.ex.base_arrs[8]
        # (the empty type is named by the negative index)
        val = z3.Select(M, Q.node(t, NODE + k.v_size))
        p.assume(z3.ForAll([t], z3.Implies(Q.rng(t), z3.And(TQ(t) < S.n, z3.If(TQ(t) >= 0, val == tp(TQ(t)), val == self.empty)))))
        S.contracts(r'^std::set<std::unique_ptr<dynamix::type const.*', r'^std::_Rb_tree_(const_)?iterator<std::unique_ptr<dynamix::type const.*')
        Q.contracts(r'^std::map<std::vector<dnmx_mixin_info const\*.*', r'^std::_Rb_tree_(const_)?iterator<std::pair<std::vector<dnmx_mixin_info const\*.*')
        pos = lambda w, T: zi(w.ghost(T.pos))
        if what == 'gc':
            S.cands([lambda w, c: self.unused(c)])
            Q.cands([lambda w, c: z3.And(TQ(c) >= 0, TQ(c) == pos(w, S)),
                     lambda w, c: z3.And(TQ(c) >= 0, TQ(c) < pos(w, S), self.unused(TQ(c)))])
        else:
            S.cands([lambda w, c: HAS(tp(c))])
            Q.cands([lambda w, c: z3.Or(MENT(c), z3.And(TQ(c) >= 0, HAS(tp(TQ(c)))))])

    def type(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.S.node(c, NODE))

    def unused(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.type(c) + self.p.k.t_num) == 0

    def erased_are(self, o, ct, cq, what, whatq):
        p, S, Q = self.p, self.S, self.Q
        p.prove(o.st, z3.ForAll([t], z3.Implies(S.rng(t), S.erased(o.st, t) == ct(t))), what)
        p.prove(o.st, z3.ForAll([t], z3.Implies(Q.rng(t), Q.erased(o.st, t) == cq(t))), whatq)
        p.prove(o.st, z3.ForAll([t], z3.Implies(z3.And(Q.rng(t), z3.Not(Q.erased(o.st, t))), z3.Or(TQ(t) < 0, z3.Not(S.erased(o.st, TQ(t)))))), 'the remaining queries lead to types which remain')


def collect(p):
    T = Types(p, 'gc')
    b8 = p.ex.base_arrs[8]
    p.assume(z3.ForAll([t], z3.And(z3.Select(b8, T.type(t) + p.k.t_num) >= 0, z3.Select(b8, T.type(t) + p.k.t_num) < (1 << 63))))
    outs = p.nothrow(p.call(args=[T.d.d]))
    p.cover(outs)
    for o in outs:
        T.erased_are(o, lambda c: T.unused(c), lambda c: z3.And(TQ(c) >= 0, T.unused(TQ(c))),
                     'exactly the types without objects are removed', 'exactly the queries which lead to them are removed')
        T.d.no_writes(o)


def unregister(p):
    T = Types(p, 'unreg')
    d, k, Q = T.d, p.k, T.Q
    R = d.m
    x = p.ptr('info')
    M = p.ex.base_arrs[8]
    id_ = z3.Select(p.ex.base_arrs[4], x + k.i_id)
    p.assume(id_ >= 0, id_ <= INVALID)
    kb = lambda c: z3.Select(M, Q.node(c, NODE + k.v_begin))
    ke = lambda c: z3.Select(M, Q.node(c, NODE + k.v_begin + 8))
    KN = z3.Function('KN', I_, I_)
    el = lambda c, i: z3.Select(M, kb(c) + 8 * i)
    Q.every(lambda c: z3.And(kb(c) >= 4096, KN(c) >= 0, KN(c) < (1 << 40), ke(c) == kb(c) + 8 * KN(c), ke(c) < PRE_MAX),
            lambda c: z3.Implies(MENT(c), z3.And(WIT(c) >= 0, WIT(c) < KN(c), el(c, WIT(c)) == x)),
            lambda c: z3.ForAll([i], z3.Implies(z3.And(z3.Not(MENT(c)), i >= 0, i < KN(c)), el(c, i) != x)))
    p.assume(z3.Not(HAS(T.empty)))
    p.ex.cands.append(lambda ctx: [lambda w: w.k <= KN(zi(w.ghost(Q.pos)))])

    def has(ex, st, a, inst, dem):
        ex.prove_pre(st, zi(a[1]) == id_, 'asks for the mixin by its id')
        return [Out('ret', st, HAS(zi(a[0])))]
    p.ex.contracts.insert(0, (r'^dynamix::type::has\(dnmx_mixin_id\) const', has))
    outs = p.call(args=[d.d, x])
    p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
    p.cover([o for o in outs if o.kind == 'ret'])
    own = z3.And(id_ < R.n, z3.Select(M, R.b + 8 * id_) == x)
    for o in outs:
        nid = zi(p.rd(o.st, 4, x + k.i_id))
        if o.kind == 'throw':
            p.prove(o.st, z3.And(z3.Not(own), z3.BoolVal(o.st.ghost.get('$thrown', '').endswith('unreg_foreign'))), 'throws only for foreign mixins')
            d.no_writes(o, 'foreign: nothing is changed')
            T.erased_are(o, lambda c: z3.BoolVal(False), lambda c: z3.BoolVal(False), 'foreign: no type is removed', 'foreign: no query is removed')
            p.prove(o.st, nid == id_, 'foreign: the mixin is unchanged')
            continue
        p.prove(o.st, own, 'foreign mixins are refused')
        T.erased_are(o, lambda c: HAS(T.type(c)), lambda c: z3.Or(MENT(c), z3.And(TQ(c) >= 0, HAS(T.type(TQ(c))))),
                     'exactly the types with the mixin are removed', 'exactly the queries which mention it, or lead to such a type, are removed')
        p.prove(o.st, nid == INVALID, 'the id is invalid afterwards')
        p.prove(o.st, zi(p.rd(o.st, 8, x + k.i_dom)) == 0, 'the mixin has no domain afterwards')
        R.is_(o, R.n, lambda c: z3.If(c == id_, 0, R.el(c)), 'frees exactly its slot')
        frame_but(p, o, {8: (R.b, R.b + 8 * R.cap, x + k.i_dom, x + k.i_dom + 8), 4: (x + k.i_id, x + k.i_id + 4)})
        d.rest(o, R)


def counts(p, take):
    k = p.k
    ty, al, res = p.stack('type'), p.stack('allocator'), p.ptr('resource')
    p.wr(8, al, res)
    n, size, align = p.u('objects', 63), p.u('size', 32), p.u('align', 32)
    p.assume(n < (1 << 62), z3.BoolVal(take) if take else n > 0)
    p.wr(8, ty + k.t_num, n)
    p.wr(4, ty + k.t_osize, size)
    p.wr(4, ty + k.t_oalign, align)
    buf = p.ptr('buffer')
    p.st0.ghost['$done'] = 0

    def alloc(ex, st, a, inst, dem):
        ex.prove_pre(st, z3.And(zi(a[0]) == res, zi(a[1]) == size, zi(a[2]) == align), 'memory as the type needs it')
        st.ghost['$done'] += 1
        return [Out('throw', st.copy(), ('std', '_ZTISt9bad_alloc')), Out('ret', st, buf)]

    def free(ex, st, a, inst, dem):
        ex.prove_pre(st, z3.And(zi(a[0]) == res, zi(a[1]) == buf, zi(a[2]) == size, zi(a[3]) == align), 'gives the memory back as it was taken')
        st.ghost['$done'] += 1
        return [Out('ret', st, None)]
    p.ex.contracts.insert(0, (r'^std::pmr::memory_resource::allocate\(', alloc))
    p.ex.contracts.insert(0, (r'^std::pmr::memory_resource::deallocate\(', free))
    outs = p.call(args=[ty, al] if take else [ty, al, buf])
    p.cover([o for o in outs if o.kind == 'ret'])
    for o in outs:
        now = zi(p.rd(o.st, 8, ty + k.t_num))
        p.prove(o.st, z3.BoolVal(o.st.ghost['$done'] == 1), 'one allocation')
        if o.kind == 'throw':
            p.prove(o.st, z3.And(z3.BoolVal(take), now == n), 'not counted without memory')
        else:
            p.prove(o.st, now == (n + 1 if take else n - 1), 'the count of objects of the type')
            if take:
                p.prove(o.st, zi(o.val) == buf, 'the memory')


def removal(s):
    s.contract('type::allocate_object_buffer', 'count.cpp', 'vf_take', lambda p: counts(p, True))
    s.contract('type::deallocate_object_buffer', 'count.cpp', 'vf_give', lambda p: counts(p, False))
    s.contract('domain::garbage_collect_types', GD, 'vf_collect', collect, limit=300)
    s.contract('domain::unregister_mixin', GD, 'vf_unregister', unregister, limit=300)
