"""Mutation rules and type requests of a domain (domain.cpp) over abstract lists of mixins: a vector
holds a list (an integer names it, equal lists have equal names), the containers are by contract."""
import z3
import engine
from domspec import *
from svspec import *

RD = 'rules.cpp'
I_ = z3.IntSort()
NODEP = z3.Function('NODEP', I_, I_)         # the list without its dependencies
RES = z3.Function('RES', I_, I_)             # the list after rules
QV = z3.Function('QV', I_, I_)               # the type stored for a query, or null
TYPE = z3.Function('TYPE', I_, I_)           # the type with exactly this list, or null
SIZE = z3.Function('SIZE', I_, I_)           # how long the list is
EMPTY = z3.Int('EMPTY')
VEC = r'^(void |bool )?std::vector<dnmx_mixin_info const\*, .*>::'
BAD = ('std', '_ZTISt9bad_alloc')
TRUST_R = ['std::vector, std::map, std::set and itlib::flat_map by contract (a list; finite maps ordered by their comparator); copies and insertions may run out of memory',
           'a rule may do anything to the list of the mutation, and may throw or fail']


def lists(p, span=None):
    """the contracts of vectors of mixins: ghost L gives the list of each vector"""
    C = p.ex.contracts.insert
    L = lambda st, a: z3.Select(st.ghost['L'], zi(a))

    def put(st, a, v):
        st.ghost['L'] = z3.Store(st.ghost['L'], zi(a), v)

    def oom(st):
        s = st.copy()
        return Out('throw', s, BAD)

    def moved(st, src):
        v = fresh('moved_from')
        put(st, src, v)

    def ctor(ex, st, a, inst, dem):
        if '&&' in dem:
            v = L(st, a[1])
            moved(st, a[1])
            put(st, a[0], v)
            return [Out('ret', st, None)]
        if re.search(r'::vector\(std::vector', dem):
            o = oom(st)
            put(st, a[0], L(st, a[1]))
            return [o, Out('ret', st, None)]
        if re.search(r'::vector\((std::pmr::polymorphic_allocator<[^()]*> const&)?\)', dem):
            put(st, a[0], EMPTY)
            return [Out('ret', st, None)]
        if re.search(r'::vector<', dem) and len(a) >= 3:
            v = whole(ex, st, a[1], a[2])
            o = oom(st)
            put(st, a[0], v)
            return [o, Out('ret', st, None)]
        raise Unsupported('constructor of a list: ' + dem[-100:])

    def asgn(ex, st, a, inst, dem):
        if re.search(r'operator=\(std::vector<.*&&\)', dem):
            v = L(st, a[1])
            moved(st, a[1])
            put(st, a[0], v)
            return [Out('ret', st, a[0])]
        if re.search(r'operator=\(std::vector<.* const&\)', dem):
            o = oom(st)
            put(st, a[0], L(st, a[1]))
            return [o, Out('ret', st, a[0])]
        raise Unsupported('assignment of a list')

    # the elements of a list have addresses (a region per list value), but only whole ranges are understood
    regs = {}

    def elems(ex, v):
        v = zi(v)
        if v.get_id() not in regs:
            r = ex.new_region('elements')
            ex.opaque = ex.opaque | {ex.klass(r)[1]}
            regs[v.get_id()] = (r, v)
        return regs[v.get_id()][0]

    def bound(ex, st, v, end):
        st.assume(z3.And(SIZE(v) >= 0, SIZE(v) < (1 << 40), (SIZE(v) == 0) == (v == EMPTY)))
        b = elems(ex, v)
        return engine.ladd(b, engine.lmul(SIZE(v), 8)) if end else b

    def whole(ex, st, b, e):
        """the list of the range [b, e)"""
        for r, v in regs.values():
            if is_c(b) and b == r and ex.valid(st, zi(e) == zi(engine.ladd(r, engine.lmul(SIZE(v), 8))), fast=True)[0] is True:
                return v
        if span is None:
            raise Unsupported('a part of a list')
        ptr, n, ls = span
        ex.prove_pre(st, z3.And(zi(b) == ptr, zi(e) == ptr + 8 * n), 'the list is the one of the request')
        return ls

    def assign(ex, st, a, inst, dem):
        v = whole(ex, st, a[1], a[2])
        o = oom(st)
        put(st, a[0], v)
        return [o, Out('ret', st, None)]

    def swap(ex, st, a, inst, dem):
        x, y = L(st, a[0]), L(st, a[1])
        put(st, a[0], y)
        put(st, a[1], x)
        return [Out('ret', st, None)]

    def eq(ex, st, a, inst, dem):
        r = L(st, a[0]) == L(st, a[1])
        return [Out('ret', st, z3.Not(r) if 'operator!=' in dem else r)]

    def erase_if(ex, st, a, inst, dem):
        m = re.search(r'(dynamix::domain::impl::.*\{lambda\(dnmx_mixin_info const\*\)#\d+\})', dem)
        fs = [n for n in p.m.funcs if m and p.m.dem[n].startswith(m.group(1) + '::operator()')]
        x = z3.Int('any_mixin')
        s = st.copy()
        s.assume(z3.And(x >= 4096, x < PRE_MAX))
        ex.mark_pre(x)
        lam = fs[0] if fs else None
        if lam is None:
            mm = re.findall(r'\{lambda\(dnmx_mixin_info const\*\)#\d+\}', dem)
            fs = [n for n in p.m.funcs if mm and 'apply_mutation_rules_l' in p.m.dem[n] and p.m.dem[n].endswith(mm[-1] + '::operator()(dnmx_mixin_info const*) const')]
            lam = fs[0] if fs else None
        if lam is None:
            raise Unsupported('the condition of an erasure')
        for o in ex.run(lam, [ex.new_region('closure'), x], s):
            if o.kind != 'ret':
                ex.prove(o.st, False, 'the condition of an erasure throws')
            else:
                ex.prove(o.st, b8(o.val) == (zi(p.rd(o.st, 1, x + p.k.i_dep)) != 0), 'exactly the dependencies are erased')
        put(st, a[0], NODEP(L(st, a[0])))
        return [Out('ret', st, fresh('erased'))]
    C(0, (VEC + r'vector[<(]', ctor))
    C(0, (VEC + r'~vector\(', lambda ex, st, a, inst, dem: [Out('ret', st, None)]))
    C(0, (r'^std::vector<dnmx_mixin_info const\*, .*::operator=\(', asgn))
    C(0, (VEC + r'assign', assign))
    C(0, (VEC + r'swap\(', swap))
    C(0, (VEC + r'empty\(\) const', lambda ex, st, a, inst, dem: [Out('ret', st, L(st, a[0]) == EMPTY)]))
    C(0, (VEC + r'(begin|cbegin|data)\(\)', lambda ex, st, a, inst, dem: [Out('ret', st, bound(ex, st, L(st, a[0]), False))]))
    C(0, (VEC + r'(end|cend)\(\)', lambda ex, st, a, inst, dem: [Out('ret', st, bound(ex, st, L(st, a[0]), True))]))
    C(0, (VEC + r'size\(\) const', lambda ex, st, a, inst, dem: (bound(ex, st, L(st, a[0]), True), [Out('ret', st, SIZE(L(st, a[0])))])[1]))
    C(0, (VEC + r'(front|back|operator\[\]|push_back|insert|erase|clear|resize|emplace_back|pop_back|rbegin|rend)\b', lambda ex, st, a, inst, dem: (_ for _ in ()).throw(Unsupported('elements of an abstract list'))))
    C(0, (r'^bool std::operator[!=]=<dnmx_mixin_info const\*', eq))
    C(0, (r'itlib::erase_all_if<std::vector<dnmx_mixin_info const\*', erase_if))
    p.st0.ghost['L'] = z3.Const('L0', z3.ArraySort(I_, I_))
    p.putlist = put
    return L


class Req:
    def __init__(self, p, span=None):
        self.p, k = p, p.k
        locks(p)
        self.L = lists(p, span)
        self.d, self.im, self.mut = p.ptr('domain'), p.stack('impl'), p.stack('mutation')
        p.wr(8, self.im + k.im_dom, self.d)
        p.wr(8, self.im + k.im_alloc, p.ptr('resource'))
        self.mdom = p.ptr('mutation_dom')
        p.wr(8, self.mut, self.mdom)
        self.l0 = z3.Int('l0')
        p.putlist(p.st0, self.mut + k.tm_mixins, self.l0)
        self.mv = self.mut + k.tm_mixins

    def list_is(self, st, a, v, what):
        self.p.prove(st, self.L(st, a) == v, what)


def rules_state(p, R):
    """n rules in a row of (rule, count) pairs"""
    k = p.k
    R.map = p.stack('rules')
    R.n, R.rb = p.u('nrules', 24), p.ptr('rb')
    p.assume(R.rb + k.rule_cell * R.n < PRE_MAX)
    # the container of the stand-in: the vector of pairs
    for o, v in ((0, p.ptr('rules_res')), (8, R.rb), (16, R.rb + k.rule_cell * R.n), (24, R.rb + k.rule_cell * R.n)):
        p.wr(8, R.map + 8 + o, v)
    b8_ = p.ex.base_arrs[8]
    R.rule = lambda c: z3.Select(b8_, R.rb + k.rule_cell * c)
    p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < R.n), z3.And(R.rule(i) >= 4096, R.rule(i) < PRE_MAX))))
    R.fn = lambda c: z3.Select(b8_, R.rule(c) + k.ri_apply)
    R.ud = lambda c: z3.Select(b8_, R.rule(c) + k.ri_data)


def application(p):
    R = Req(p)
    rules_state(p, R)
    g = p.st0.ghost
    out = p.stack('original')
    g['c'] = R.n                 # rules applied in this pass
    g['np'] = z3.IntVal(0)       # passes begun
    g['before'] = z3.Int('no_pass')
    g['err'] = z3.IntVal(0)      # a rule has failed
    L = R.L

    def apply(ex, st, fp, vals, inst):
        h = st.ghost
        c, np = zi(h['c']), zi(h['np'])
        outs = []
        for begin in (True, False):
            s = st.copy()
            s.assume(c == R.n if begin else c < R.n)
            if not ex.feasible(s):
                continue
            h = s.ghost
            cur = L(s, R.mv)
            if begin:
                ex.prove_pre(s, z3.Implies(np == 0, cur == NODEP(R.l0)), 'the rules see the request without its dependencies')
                ex.prove_pre(s, z3.And(z3.Implies(np == 1, cur != R.l0), z3.Implies(np > 1, cur != zi(h['before']))), 'another pass only when the last one changed something')
                h['before'] = cur
                h['np'] = np + 1
                h['c'] = z3.IntVal(0)
                cc = z3.IntVal(0)
            else:
                cc = c
            ex.prove_pre(s, z3.And(cc < R.n, zi(fp) == R.fn(cc), zi(vals[1]) == R.ud(cc)), 'the rules are applied in their order, each with its data')
            ex.prove_pre(s, zi(vals[0]) == R.mut, 'to the mutation')
            h['c'] = cc + 1
            p.putlist(s, R.mv, fresh('list'))
            s2, s3 = s.copy(), s.copy()
            s2.ghost['$thrown_by_rule'] = True
            outs.append(Out('throw', s2, ('any', None)))
            e = fresh('err')
            s3.assume(z3.And(e > 0, e < (1 << 32)))
            s3.ghost['err'] = z3.IntVal(1)
            outs.append(Out('ret', s3, e))
            outs.append(Out('ret', s, 0))
        return outs
    p.ex.indirect = apply

    vecs = set()

    def gen(ctx):
        cs = []

        def stores(a):
            while z3.is_store(a):
                vecs.add(z3.simplify(a.arg(1)))
                a = a.arg(0)
        for s_ in (ctx.entry,):
            stores(s_.ghost['L'])
        for v in sorted(vecs, key=str):
            cs.append(lambda w, v=v: z3.Select(w.ghost('L'), v) == z3.Select(w.ghost0('L'), v))
            cs.append(lambda w, v=v: z3.Or(zi(w.ghost('np')) == 0, z3.Select(w.ghost('L'), v) == R.l0))
            cs.append(lambda w, v=v: z3.Or(zi(w.ghost('np')) > 0, z3.Select(w.ghost('L'), v) == R.l0))
            cs.append(lambda w, v=v: z3.Or(zi(w.ghost('np')) == 0, z3.Select(w.ghost('L'), v) == z3.Select(w.ghost('L'), R.mv)))
            cs.append(lambda w, v=v: z3.Implies(w.k == 0, z3.Select(w.ghost('L'), v) == R.l0))
            cs.append(lambda w, v=v: z3.Implies(w.k > 0, z3.Select(w.ghost('L'), v) == R.l0))
            cs.append(lambda w, v=v: z3.Implies(w.k > 0, z3.Select(w.ghost('L'), v) == z3.Select(w.ghost('L'), R.mv)))
        cur = lambda w: z3.Select(w.ghost('L'), R.mv)
        cs += [lambda w: zi(w.ghost('c')) == R.n,
               lambda w: z3.And(zi(w.ghost('c')) >= 0, zi(w.ghost('c')) <= R.n),
               lambda w: z3.If(w.k == 0, zi(w.ghost('c')) == zi(w.ghost0('c')), zi(w.ghost('c')) == w.k),
               lambda w: zi(w.ghost('np')) == z3.If(w.k == 0, zi(w.ghost0('np')), zi(w.ghost0('np')) + 1),
               lambda w: zi(w.ghost('np')) == zi(w.ghost0('np')) + w.k,
               lambda w: zi(w.ghost('np')) == z3.If(R.n == 0, 0, zi(w.ghost0('np')) + w.k),
               lambda w: z3.Implies(w.k > 0, zi(w.ghost('before')) == z3.Select(w.ghost0('L'), R.mv)),
               lambda w: z3.Implies(w.k == 0, zi(w.ghost('before')) == zi(w.ghost0('before'))),
               lambda w: z3.Implies(w.k == 0, cur(w) == z3.Select(w.ghost0('L'), R.mv)),
               lambda w: z3.Implies(w.k == 0, cur(w) == NODEP(R.l0)),
               lambda w: z3.Implies(w.k > 0, cur(w) != zi(w.ghost('before'))),
               lambda w: z3.Implies(zi(w.ghost('np')) > 1, cur(w) != zi(w.ghost('before'))),
               lambda w: z3.Implies(zi(w.ghost('np')) == 1, cur(w) != R.l0),
               lambda w: z3.Implies(zi(w.ghost('np')) == 1, z3.And(cur(w) != R.l0)),
               lambda w: zi(w.ghost('err')) == 0,
               lambda w: z3.Implies(R.n == 0, cur(w) == NODEP(R.l0)),
               lambda w: z3.Implies(w.k == 1, cur(w) != R.l0),
               lambda w: z3.Implies(z3.And(R.n > 0, w.k > 1), cur(w) != zi(w.ghost('before'))),
               lambda w: z3.Implies(z3.And(R.n == 0, w.k > 0), cur(w) != R.l0)]
        return cs
    p.ex.cands.append(gen)
    outs = p.call(args=[R.im, R.mut, R.map, out])
    rets = [o for o in outs if o.kind == 'ret']
    p.cover(rets)
    p.cover([o for o in outs if o.kind == 'throw' and o.st.ghost.get('$thrown', '').endswith('cyclic_rule_deps')], 'cyclic')
    p.cover([o for o in outs if o.kind == 'throw' and z3.is_int_value(zi(o.st.ghost['err'])) and zi(o.st.ghost['err']).as_long()], 'a rule fails')
    for o in outs:
        st, h = o.st, o.st.ghost
        c, np, cur = zi(h['c']), zi(h['np']), R.L(o.st, R.mv)
        p.prove(st, zi(p.rd(st, 8, R.mut)) == R.mdom, 'the domain of the mutation')
        if o.kind == 'ret':
            p.prove(st, zi(h['err']) == 0, 'not when a rule fails')
            p.prove(st, z3.And(c == R.n, z3.Implies(R.n > 0, np > 0)), 'every rule is applied in the last pass')
            p.prove(st, z3.Implies(R.n > 0, z3.If(np == 1, cur == R.l0, cur == zi(h['before']))), 'the last pass changes nothing')
            p.prove(st, z3.Implies(R.n == 0, cur == NODEP(R.l0)), 'no rules: the request without dependencies')
            R.list_is(st, out, R.l0, 'the request is given back')
        elif z3.simplify(zi(h['err'])).eq(z3.IntVal(1)):
            p.prove(st, z3.BoolVal(h.get('$thrown', '').endswith('mutation_rule_user_error')), 'the failure of a rule is reported')
        elif h.get('$thrown_by_rule') or o.val == BAD:
            pass
        else:
            p.prove(st, z3.BoolVal(h.get('$thrown', '').endswith('cyclic_rule_deps')), 'no other exception')
            p.prove(st, z3.And(R.n > 0, c == R.n, np > 1, cur != zi(h['before'])), 'cyclic only when the last of several passes changed something')


def counts(p, add):
    R = Req(p)
    k = p.k
    info = p.ptr('rule')
    rc = p.u('count', 32)
    p.assume(rc < (1 << 32) - 1)
    g = p.st0.ghost
    g['$erased'] = g['$cleared'] = g['$made'] = False
    cell = p.stack('entry')
    fn = z3.Select(p.ex.base_arrs[8], info + k.ri_apply)
    p.assume(fn >= 0, fn < PRE_MAX)
    C = p.ex.contracts.insert
    FM = r'itlib::flat_map<dnmx_mutation_rule_info const\*, .*>::'
    end = p.ptr('rules_end')
    ITER = r'^(__gnu_cxx::__normal_iterator<.*> )?'

    def key(st, a):
        v = zi(p.ld(st, 8, a))
        p.ex.prove_pre(st, v == info, 'the entry of this rule')

    def fill(st):
        if not st.ghost['$made']:
            p.wr(8, cell, info, st)
            p.wr(4, cell + 8, rc, st)
            st.ghost['$made'] = True

    def sub(ex, st, a, inst, dem):
        key(st, a[1])
        s2 = st.copy()
        s2.assume(rc == 0)
        fill(st)
        return [Out('throw', s2, BAD), Out('ret', st, cell + 8)]

    def find(ex, st, a, inst, dem):
        key(st, a[1])
        s2 = st.copy()
        s2.assume(rc == 0)
        st.assume(rc > 0)
        fill(st)
        return [Out('ret', s2, end), Out('ret', st, cell)]

    def erase(ex, st, a, inst, dem):
        ex.prove_pre(st, z3.And(zi(a[1]) == cell), 'erases this rule')
        st.ghost['$erased'] = True
        return [Out('ret', st, end)]

    def clear(ex, st, a, inst, dem):
        st.ghost['$cleared'] = True
        return [Out('ret', st, None)]
    C(0, (FM + r'operator\[\]\(', sub))
    C(0, (FM + r'(const_)?iterator .*|' + FM + r'find<', find))
    C(0, (FM + r'erase\(', erase))
    C(0, (FM + r'end\(\)', lambda ex, st, a, inst, dem: [Out('ret', st, end)]))
    C(0, (r'std::map<std::vector<dnmx_mixin_info const\*.*>::clear\(\)', clear))
    outs = p.call(args=[R.im, info])
    p.cover([o for o in outs if o.kind == 'ret'])
    for o in outs:
        st, h = o.st, o.st.ghost
        now = zi(p.ld(st, 4, cell + 8)) if h['$made'] else rc
        if add and o.kind == 'throw':
            p.prove(st, z3.Or(fn == 0, z3.And(rc == 0, z3.BoolVal(o.val == BAD))), 'throws only for a rule without a function, or when the memory runs out')
            p.prove(st, z3.And(z3.BoolVal(not h['$erased']), now == rc), 'the count is unchanged when it throws')
        elif add:
            p.prove(st, fn != 0, 'a rule without a function is refused')
            p.prove(st, z3.And(now == rc + 1, z3.BoolVal(not h['$erased'])), 'the count of the rule is one more')
            p.prove(st, z3.Or(rc > 0, z3.BoolVal(h['$cleared'])), 'a new rule drops the stored queries')
        else:
            p.prove(st, z3.BoolVal(o.kind == 'ret'), 'does not throw')
            p.prove(st, z3.BoolVal(h['$erased']) == (rc == 1), 'the rule is dropped exactly with its last count')
            p.prove(st, z3.Implies(rc != 1, now == z3.If(rc == 0, 0, rc - 1)), 'the count of the rule is one less')
            p.prove(st, z3.Or(rc != 1, z3.BoolVal(h['$cleared'])), 'a dropped rule drops the stored queries')


def rule_order(p):
    k = p.k
    a, b = p.ptr('a'), p.ptr('b')

    def fields(st, x):
        return signed(p.rd(st, 4, x + k.ri_prio), 32), p.rd(st, 8, x + k.ri_name), p.rd(st, 8, x + k.ri_name + 8)
    for x in (a, b):
        sv_pre(p, *fields(p.st0, x)[1:])
    outs = p.nothrow(p.call(args=[a, b]))
    p.cover(outs)
    for o in outs:
        (pa, ab, ae), (pb, bb, be) = fields(o.st, a), fields(o.st, b)
        lt, eq = lex(p, o.st, ab, ae, bb, be)
        p.prove(o.st, b8(o.val) == z3.Or(pa < pb, z3.And(pa == pb, z3.Or(lt, z3.And(eq, a < b)))), 'by priority, name and address')


def rules(s):
    s.contract('domain::impl::rule_compare', RD, 'vf_rule_less', rule_order)
    s.contract('domain::impl::add_mutation_rule', RD, 'vf_rule_add', lambda p: counts(p, True))
    s.contract('domain::impl::remove_mutation_rule', RD, 'vf_rule_remove', lambda p: counts(p, False))
    s.contract('domain::impl::apply_mutation_rules_l', RD, 'vf_rule_apply', application, limit=400)


def span_order(p):
    """mixin_span_less: shorter lists first, then the first difference decides"""
    a, b = p.ptr('a'), p.ptr('b')
    n, m = p.u('n', 40), p.u('m', 40)
    p.assume(a + 8 * n < PRE_MAX, b + 8 * m < PRE_MAX)
    M = p.ex.base_arrs[8]
    x, y = (lambda c: z3.Select(M, a + 8 * c)), (lambda c: z3.Select(M, b + 8 * c))
    p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(x(i) >= 0, x(i) < PRE_MAX))))
    p.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(y(i) >= 0, y(i) < PRE_MAX))))
    f = z3.Int('first_difference')
    outs = p.nothrow(p.call(args=[a, n, b, m]))
    p.cover(outs)
    for o in outs:
        st = o.st.copy()
        st.assume(z3.And(f >= 0, f <= n, z3.Or(f == n, x(f) != y(f))))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < f), x(i) == y(i))))
        p.prove(st, z3.Implies(n != m, b8(o.val) == (n < m)), 'shorter lists come first')
        p.prove(st, z3.Implies(z3.And(n == m, f == n), z3.Not(b8(o.val))), 'equal lists: neither comes first')
        p.prove(st, z3.Implies(z3.And(n == m, f < n), b8(o.val) == (x(f) < y(f))), 'the first difference decides')


def span_lemmas(p):
    """lists of equal length: f(a, b) is the index of their first difference (or the length)"""
    st = p.st0
    n = p.u('n', 40)
    A = [z3.Function('list%s' % c, I_, I_) for c in 'abc']
    F = {}
    for u in range(3):
        for v in range(u + 1, 3):
            f = F[u, v] = F[v, u] = z3.Int('f%d%d' % (u, v))
            st.assume(z3.And(f >= 0, f <= n, z3.Or(f == n, A[u](f) != A[v](f))))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < f), A[u](i) == A[v](i))))
    lt = lambda u, v: z3.And(F[u, v] < n, A[u](F[u, v]) < A[v](F[u, v]))
    p.prove(st, z3.Not(z3.And(lt(0, 1), lt(1, 0))), 'asymmetric')
    p.prove(st, z3.Or(lt(0, 1), lt(1, 0), F[0, 1] == n), 'total: lists which are not ordered are equal')
    p.prove(st, z3.Implies(z3.And(lt(0, 1), lt(1, 2)), lt(0, 2)), 'transitive')


def request(p, span):
    k = p.k
    if span:
        ptr, n, ls = p.ptr('mixins'), p.u('n_mixins', 40), z3.Int('l0')
        R = Req(p, (ptr, n, ls))
        p.assume(ptr + 8 * n < PRE_MAX)
        own = True
    else:
        R = Req(p)
    L, l0 = R.L, R.l0
    C = p.ex.contracts.insert
    g = p.st0.ghost
    g['$stored'] = None
    g['$applied'] = g['$created'] = False
    empty_t = R.im + k.im_empty
    qnode, tnode, cell = p.stack('query_entry'), p.stack('type_entry'), p.stack('new_entry')
    qend, tend = p.ptr('queries_end'), p.ptr('types_end')
    made = p.ptr('created_type')
    for fn in (QV, TYPE):
        p.assume(z3.ForAll([i], z3.And(fn(i) >= 0, fn(i) < PRE_MAX)))
    MAP, SET = r'std::map<std::vector<dnmx_mixin_info const\*.*', r'std::set<std::unique_ptr<dynamix::type const.*'

    def key(st, a):
        """the list of a key: a vector, or the span of the request"""
        if span:
            d, e = p.ld(st, 8, a), p.ld(st, 8, ladd(a, 8))
            if p.ex.valid(st, z3.And(zi(d) == ptr, z3.Or(zi(e) == n, zi(e) == ptr + 8 * n)), fast=True)[0] is True:
                return ls
        return L(st, a)

    def qfind(ex, st, a, inst, dem):
        ls = key(st, a[1])
        s2 = st.copy()
        s2.assume(QV(ls) == 0)
        st.assume(QV(ls) != 0)
        p.wr(8, qnode + 32, QV(ls), st)
        return [Out('ret', s2, qend), Out('ret', st, qnode)]

    def tfind(ex, st, a, inst, dem):
        ls = key(st, a[1])
        ex.prove_pre(st, ls != EMPTY, 'the empty type is not in the set')
        s2 = st.copy()
        s2.assume(TYPE(ls) == 0)
        st.assume(TYPE(ls) != 0)
        p.wr(8, tnode, TYPE(ls), st)
        return [Out('ret', s2, tend), Out('ret', st, tnode)]

    def at(ex, st, a, inst, dem):
        return [Out('ret', st, p.ld(st, 8, a[0]))]

    def put(ex, st, a, inst, dem):
        o = Out('throw', st.copy(), BAD)
        st.ghost['$stored'] = key(st, a[1])
        return [o, Out('ret', st, cell)]

    def apply(ex, st, a, inst, dem):
        out, mut = a[0], a[2]
        cur = L(st, ladd(mut, k.tm_mixins))
        ex.prove_pre(st, z3.And(cur == l0, QV(l0) == 0), 'the rules are applied to the request')
        st.ghost['$applied'] = True
        s2 = st.copy()
        p.putlist(s2, ladd(mut, k.tm_mixins), fresh('list'))
        p.putlist(st, ladd(mut, k.tm_mixins), RES(l0))
        p.putlist(st, out, l0)
        return [Out('throw', s2, ('std', 'from the rules')), Out('ret', st, None)]

    def create(ex, st, a, inst, dem):
        ex.prove_pre(st, z3.And(L(st, ladd(a[1], k.tm_mixins)) == RES(l0), L(st, a[2]) == l0), 'the new type is made of the list after rules and stored for the request')
        ex.prove_pre(st, z3.And(RES(l0) != EMPTY, TYPE(RES(l0)) == 0), 'only when there is no such type')
        st.ghost['$created'] = True
        return [Out('throw', st.copy(), ('std', 'from create_type')), Out('ret', st, made)]

    def mctor(ex, st, a, inst, dem):
        p.wr(8, a[0], a[1], st)
        p.putlist(st, ladd(a[0], k.tm_mixins), EMPTY)
        return [Out('ret', st, None)]
    C(0, (MAP + r'>::find|_M_find_tr.*' + MAP, qfind))
    C(0, (MAP + r'>::end\(\)', lambda ex, st, a, inst, dem: [Out('ret', st, qend)]))
    C(0, (MAP + r'>::operator\[\]\(', put))
    C(0, (SET + r'>::find|_M_find_tr.*' + SET, tfind))
    C(0, (SET + r'>::end\(\)', lambda ex, st, a, inst, dem: [Out('ret', st, tend)]))
    C(0, (r'^std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)\(\) const', at))
    C(0, (r'^dynamix::domain::impl::apply_mutation_rules_l', apply))
    C(0, (r'^dynamix::domain::impl::create_type', create))
    C(0, (r'^dynamix::type_mutation::type_mutation\(', mctor))
    args = [R.im, ptr, n] if span else [R.im, R.mut]
    outs = p.call(args=args)
    p.cover([o for o in outs if o.kind == 'ret' and o.st.ghost['$stored'] is not None], 'found a type')
    p.cover([o for o in outs if o.kind == 'ret' and o.st.ghost['$created']], 'made a type')
    p.cover([o for o in outs if o.kind == 'ret' and not o.st.ghost['$applied']], 'found a query')
    rl = RES(l0)
    for o in outs:
        st, h = o.st, o.st.ghost
        foreign = h.get('$thrown', '').endswith('foreign_mutation')
        if foreign:
            p.prove(st, z3.BoolVal(not span) if span else R.mdom != R.d, 'only a mutation of another domain is foreign')
            p.prove(st, z3.BoolVal(not h['$applied'] and not h['$created'] and h['$stored'] is None), 'nothing is done for it')
            R.list_is(st, R.mv, l0, 'its list is unchanged')
            continue
        if not span:
            p.prove(st, R.mdom == R.d, 'a foreign mutation is refused')
        if o.kind == 'throw':
            p.prove(st, z3.BoolVal(h['$stored'] is None), 'nothing is stored for a request which fails')
            continue
        v = zi(o.val)
        p.prove(st, v == z3.If(QV(l0) != 0, QV(l0), z3.If(rl == EMPTY, empty_t, z3.If(TYPE(rl) != 0, TYPE(rl), made))), 'the stored answer, or the type of the list after rules')
        if h['$stored'] is not None:
            p.prove(st, z3.And(h['$stored'] == l0, zi(p.ld(st, 8, cell)) == v), 'the answer is stored for the request')
            p.prove(st, QV(l0) == 0, 'a stored query is not changed')


def requests(s, order=True):
    if order:
        s.contract('mixin_span_less', RD, 'vf_span_less', span_order)
        s.contract('mixin_span_less: a strict total order', RD, None, span_lemmas)
    s.contract('domain::impl::get_type(mutation)', RD, 'vf_get', lambda p: request(p, False), limit=300)
    s.contract('domain::impl::get_type(span)', RD, 'vf_get_span', lambda p: request(p, True), limit=300)
