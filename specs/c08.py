import z3
import engine
import c07
from lib import *
from typespec import *

NATIVE = dict(src=['c08.cpp'], lib='lib')
TRUST = TRUST_T + ['implementations of messages by contract: any result, or an exception; they write nothing which belongs to the library']
TRUST = TRUST + ['the deductive part instantiates the callers for messages of an object (const or not), an int and a reference; results int, int& and void. Argument types which are moved or copied by class are checked by the bounded run']
MSD = 'msg.cpp'
i, q = z3.Ints('i q')


class Call:
    """a message call on an object; calls of implementations are ghost state: cnt of them so far"""

    def __init__(self, p, const=False, msg='n', next_=None):
        self.p, k = p, p.k
        self.T = T = Ty(p)
        self.O = Ob(p, T)
        self.f = p.ptr('feature')
        g = p.ex.glob_addr('_ZN5msg_%s4infoE' % msg)
        p.wr(8, g, self.f)
        self.fid = z3.Select(p.ex.base_arrs[4], self.f + k.f_id)
        p.assume(self.fid >= 0, self.fid < (1 << 32))
        self.default = z3.Select(p.ex.base_arrs[8], self.f + k.f_def)
        p.assume(self.default >= 0, self.default < (1 << 64))
        self.E = T.entry(self.fid)
        self.N = z3.If(self.fid < T.nf, self.E.N, z3.IntVal(0))
        self.a, self.r = p.u('a', 32), p.ptr('r')
        gh = p.st0.ghost
        for n in ('cnt', 'fed', 'stop', 'num', 'res'):
            gh[n] = z3.IntVal(0)
        gh['dflt'] = z3.IntVal(0)
        p.ex.indirect = self.user
        p.ex.cands.append(lambda ctx: [lambda v: v.ghost('cnt') == v.k] if 'cnt' in ctx.ghosts else [])
        p.ex.cands.append(lambda ctx: [lambda v: z3.And(v.ghost('fed') == v.k, v.ghost('stop') == 0)] if 'fed' in ctx.ghosts else [])
        p.ex.contracts.insert(0, (r'^combinator::set_num_results\(', self.set_num))
        p.ex.contracts.insert(0, (r'^combinator::add_result\(', self.add))
        p.ex.contracts.insert(0, (r'^_dynamix_get_mixin_info\(own_mixin const\*\)', lambda ex, st, args, inst, dem: [Out('ret', st, self.info)]))
        self.comb = False
        self.last = None      # index of the first payload to be called
        self.next_ = next_
        if next_:
            self.info = p.ptr('mixin_info')
            x = T.idof(self.info)
            p.assume(x >= 0, x < T.ns, T.sp(x) != INVALID)
            self.pos = T.sp(x)
            self.m = self.O.mixin(self.pos)
            p.assume(z3.Select(p.ex.base_arrs[8], self.m - 8) == self.O.o)
            self.nxt = None     # range of the next payloads
            p.ex.contracts.insert(0, (r'^dynamix::type::find_next_implementer\(dnmx_feature_info const&, dnmx_mixin_info const&\) const', lambda *a: self.find(False, *a)))
            p.ex.contracts.insert(0, (r'^dynamix::type::find_next_bidder_set\(dnmx_feature_info const&, dnmx_mixin_info const&\) const', lambda *a: self.find(True, *a)))

    def find(self, rng, ex, st, args, inst, dem):
        """the contracts proved under C07"""
        if len(args) != 3 or self.next_ is not (rng and 'set' or 'impl'):
            return NotImplemented
        ex.prove_pre(st, z3.And(zi(args[0]) == self.T.t, zi(args[1]) == self.f, zi(args[2]) == self.info), 'next query: the type of the object, the message and the mixin')
        b, e = [self.E.at(x) for x in self.nxt] if self.nxt else (z3.IntVal(0), z3.IntVal(0))
        return [Out('ret', st, (b, e) if rng else b)]

    def user(self, ex, st, fp, vals, inst):
        ty = ex.m.resolve(inst.ty)
        E, G = self.E, st.ghost
        fp, a = zi(fp), [zi(v) for v in vals]
        if len(a) != 3:
            raise engine.Unsupported('indirect call with %d arguments' % len(a))
        ex.assumed['message implementation'] = 1
        ex.prove_pre(st, z3.And(a[1] == self.a, a[2] == self.r), 'the arguments of the call are passed on')
        if self.comb:
            ex.prove_pre(st, z3.And(G['fed'] == G['cnt'], G['stop'] == 0), 'the combinator has got all results so far and wants more')
        if self.last is None:
            ex.prove_pre(st, z3.And(self.N == 0, fp == self.default, fp != 0, a[0] == self.O.o), 'the default implementation, with the object')
            ex.prove_pre(st, G['dflt'] == 0, 'the default implementation once')
            G['dflt'] = G['dflt'] + 1
        else:
            n = self.last - G['cnt']
            ex.prove_pre(st, z3.And(n >= self.first, n < self.N), 'calls one of the mixins to be called')
            ex.prove_pre(st, fp == E.payload(n), 'calls the implementation which is next in the order')
            ex.prove_pre(st, a[0] == self.O.mixin(E.mi(n)), 'with the mixin of this implementation')
        thr = st.copy()
        G['cnt'] = G['cnt'] + 1
        if ty.k == 'void':
            return [Out('throw', thr, ('ext', 'user')), Out('ret', st, None)]
        v = engine.fresh('res')
        st.assume(z3.And(v >= (4096 if ty.k == 'ptr' else 0), v < (PRE_MAX if ty.k == 'ptr' else 1 << ty.w)))
        G['res'] = v
        return [Out('throw', thr, ('ext', 'user')), Out('ret', st, v)]

    def set_num(self, ex, st, args, inst, dem):
        want = z3.IntVal(1) if self.last is None else self.last - self.first + 1
        ex.prove_pre(st, z3.And(zi(args[1]) == want, st.ghost['num'] == 0, st.ghost['cnt'] == 0), 'the number of results is announced once, first')
        st.ghost['num'] = want
        return [Out('throw', st.copy(), ('ext', 'combinator')), Out('ret', st, None)]

    def add(self, ex, st, args, inst, dem):
        G = st.ghost
        ex.prove_pre(st, z3.And(G['fed'] + 1 == G['cnt'], G['num'] > 0, G['stop'] == 0), 'each result is fed once')
        ex.prove_pre(st, zi(args[1]) == G['res'], 'the result of the last call is fed')
        thr = st.copy()
        b = engine.fresh('more')
        st.assume(z3.And(b >= 0, b <= 1))
        G['fed'] = G['fed'] + 1
        G['stop'] = 1 - b
        return [Out('throw', thr, ('ext', 'combinator')), Out('ret', st, b != 0)]

    def implemented(self, first, last):
        self.first, self.last = first, last

    def check(self, outs, ret=True):
        p = self.p
        p.cover([o for o in outs if o.kind == 'ret'])
        for o in outs:
            frame(p, o)
            G = o.st.ghost
            if o.kind == 'throw':
                p.prove(o.st, z3.BoolVal(o.val in (('ext', 'user'), ('ext', 'combinator'))), 'only exceptions of implementations')
                continue
            total = z3.IntVal(1) if self.last is None else self.last - self.first + 1
            p.prove(o.st, z3.And(z3.Or(G['cnt'] == total, G['stop'] == 1) if self.comb else G['cnt'] == total), 'all of them are called')
            if self.last is None:
                p.prove(o.st, G['dflt'] == 1, 'the default implementation is called')
            if self.comb:
                p.prove(o.st, z3.And(G['fed'] == G['cnt'], G['num'] == total), 'the combinator got each result')
            elif ret:
                p.prove(o.st, zi(o.val) == G['res'], 'the result of the last call is returned')

    def refuses(self, outs):
        p = self.p
        p.cover([o for o in outs if o.kind == 'throw'])
        for o in outs:
            frame(p, o)
            if o.kind == 'ret':
                p.prove(o.st, False, 'throws')
            else:
                p.prove(o.st, z3.And(o.st.ghost['cnt'] == 0, o.st.ghost['fed'] == 0), 'nothing is called')


def verify(s):
    c07.verify(s)
    kinds = dict(n=('', False), c=('const ', True), v=('void ', False), r=('reference ', False))

    def call(p, entry, kind, how, case):
        C = Call(p, msg=kind)
        args = [C.O.o, C.a, C.r]
        if how == 'comb':
            C.comb = True
            args = [p.stack('combinator')] + args
        if case == 'impl':
            p.assume(C.N > 0)
            C.implemented(z3.IntVal(0), z3.IntVal(0) if how == 'uni' else C.E.tb)
        elif case == 'default':
            p.assume(C.N == 0, C.default != 0)
        else:
            p.assume(C.N == 0, C.default == 0)
        outs = p.call(args=args)
        if case == 'none':
            C.refuses(outs)
        else:
            C.check(outs, ret=kind != 'v')
    for how, what in (('uni', 'unicast call'), ('multi', 'multicast call'), ('comb', 'combinator call')):
        for kind in 'ncvr' if how != 'comb' else 'nc':
            e = 'vf_%s%s' % (how, '' if kind == 'n' else '_' + kind)
            for case, w in (('impl', 'implemented'), ('default', 'default implementation'), ('none', 'not implemented')):
                s.contract('%s%s (%s)' % (kinds[kind][0], what, w), MSD, e, lambda p, e=e, kind=kind, how=how, case=case: call(p, e, kind, how, case))

    def nxt(p, kind, how, case):
        C = Call(p, msg=kind, next_='impl' if how == 'next' else 'set')
        E, N = C.E, C.N
        own = lambda k: z3.And(k >= 0, k < N, E.mi(k) == C.pos)
        k, u, v = z3.Ints('own_payload next_payload next_end')
        rng = lambda c, a, b: z3.And(c >= a, c < b)
        if case == 'foreign':
            p.assume(z3.ForAll([q], z3.Not(own(q))))
        else:
            p.assume(own(k))
            if how == 'next':
                p.assume(k + 1 < N if case == 'impl' else k + 1 == N)
                C.implemented(k + 1, k + 1)
                C.nxt = (k + 1, k + 2) if case == 'impl' else None
            elif case == 'none':
                p.assume(z3.ForAll([q], z3.Implies(rng(q, k, N), E.bid(q) == E.bid(k))))
            else:
                p.assume(u > k, u < N, z3.ForAll([q], z3.Implies(rng(q, k, u), E.bid(q) == E.bid(k))), E.bid(u) < E.bid(k))
                p.assume(v > u, v <= N, z3.ForAll([q], z3.Implies(rng(q, u, v), E.bid(q) == E.bid(u))), z3.Implies(v < N, E.bid(v) < E.bid(u)))
                C.implemented(u, v - 1 if how == 'set' else u)
                C.nxt = (u, v)
        return C

    def nxcall(p, kind, how, case):
        C = nxt(p, kind, how, case)
        outs = p.call(args=[C.m, C.a, C.r])
        if case == 'impl':
            C.check(outs)
        else:
            C.refuses(outs)

    def has(p, kind, how, case):
        C = nxt(p, kind, how, case)
        outs = p.nothrow(p.call(args=[C.m]))
        p.cover(outs)
        for o in outs:
            p.prove(o.st, b8(o.val) == z3.BoolVal(case == 'impl'), 'true exactly when there is one')
            p.prove(o.st, o.st.ghost['cnt'] == 0, 'nothing is called')
            frame(p, o)
    for how, what, hw in (('next', 'next implementer', 'vf_has_next'), ('set', 'next bidder set', 'vf_has_set'), ('top', 'next bidder', None)):
        for kind in 'nc':
            sfx = '' if kind == 'n' else '_c'
            for case, w in (('impl', 'there is one'), ('none', 'there is none'), ('foreign', 'the mixin does not implement it')):
                s.contract('%scall of the %s (%s)' % (kinds[kind][0], what, w), MSD, 'vf_%s%s' % (how, sfx), lambda p, kind=kind, how=how, case=case: nxcall(p, kind, how, case))
                if hw:
                    s.contract('%shas %s (%s)' % (kinds[kind][0], what, w), MSD, hw + sfx, lambda p, kind=kind, how=how, case=case: has(p, kind, how, case))
