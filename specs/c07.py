import z3
from lib import *
from typespec import *

NATIVE = dict(src=['c07.cpp'], lib='lib')
TRUST = TRUST_T


def verify(s):
    i, q = z3.Ints('i q')

    def setup(p):
        T = Ty(p)
        f, m = p.ptr('feature'), p.ptr('info')
        fid = z3.Select(p.ex.base_arrs[4], f + p.k.f_id)
        x = T.idof(m)
        p.assume(x >= 0, x < (1 << 32), fid >= 0, fid < (1 << 32))
        E = T.entry(fid)
        N = z3.If(fid < T.nf, E.N, z3.IntVal(0))
        # payload k is that of the mixin with the id of m
        own = lambda k: z3.And(k >= 0, k < N, x < T.ns, E.mi(k) == T.sp(x))
        p.own1 = lambda k: z3.And(k >= 0, k < N, T.idof(T.mix(E.mi(k))) == x)
        return T, f, m, E, N, own

    def lemma(p):
        T, f, m, E, N, own = setup(p)
        p.prove(p.st0, z3.ForAll([q], own(q) == p.own1(q)), 'the payload of the mixin is the one whose index maps to its id')
    s.contract('lemma: payload of a mixin', TD, None, lemma)

    def impl(p):
        T, f, m, E, N, own = setup(p)
        outs = p.nothrow(p.call(args=[T.t, f, m]))
        p.cover(outs)
        p.cover([o for o in outs], 'returns')
        for o in outs:
            r = zi(o.val)
            p.prove(o.st, z3.ForAll([q], z3.Implies(z3.And(own(q), q + 1 < N), r == E.at(q + 1))), 'the payload right after that of the mixin')
            p.prove(o.st, z3.ForAll([q], z3.Implies(z3.And(own(q), q + 1 == N), r == 0)), 'null after the last payload')
            p.prove(o.st, z3.Implies(z3.ForAll([q], z3.Not(own(q))), r == 0), 'null when the mixin does not provide the feature in this type')
            frame(p, o)
    s.contract('type::find_next_implementer', TD, 'vf_next_impl', impl)

    def bset(p):
        T, f, m, E, N, own = setup(p)
        b, e = p.stack('b'), p.stack('e')
        outs = p.nothrow(p.call(args=[T.t, f, m, b, e]))
        p.cover(outs)
        for o in outs:
            rb, re_ = zi(p.rd(o.st, 8, b)), zi(p.rd(o.st, 8, e))
            sz = re_ - rb
            psz = p.k.p_size
            p.prove(o.st, z3.Or(rb == re_, z3.And((rb - E.B) % psz == 0, (re_ - E.B) % psz == 0, rb >= E.B, rb < re_, re_ <= E.at(N))), 'a range of payloads')
            # (witnesses of the obligation above)
            u, v, c = z3.Ints('u v c')
            st = o.st.copy()
            st.assume(z3.Implies(rb != re_, z3.And(rb == E.at(u), re_ == E.at(v))))
            p.prove(st, z3.ForAll([q], z3.Implies(z3.And(own(q), rb != re_), z3.And(u > q, E.bid(u) < E.bid(q), E.bid(u) == E.bid(v - 1)))), 'a set of one lower bid')
            p.prove(st, z3.ForAll([q, c], z3.Implies(z3.And(own(q), rb != re_, c > q, c < u), E.bid(c) == E.bid(q))), 'the next one: nothing is skipped')
            p.prove(st, z3.ForAll([q], z3.Implies(z3.And(own(q), rb != re_, v < N), E.bid(v) < E.bid(u))), 'all of that bid')
            p.prove(st, z3.ForAll([q, c], z3.Implies(z3.And(own(q), rb == re_, c >= q, c < N), E.bid(c) == E.bid(q))), 'nothing only when the mixin bids in the last set')
            p.prove(st, z3.Implies(z3.ForAll([q], z3.Not(own(q))), rb == re_), 'nothing when the mixin does not provide the feature in this type')
            frame(p, o)
    s.contract('type::find_next_bidder_set', TD, 'vf_next_set', bset)
