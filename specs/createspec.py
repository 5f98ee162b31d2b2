"""domain::create_type: validity of the mixin list, layout of objects, storage of the type and the
invariant of types, which the other contracts assume (typespec.Ty, mutspec.Mut)."""
import z3
import engine
from domspec import *

CD = 'create.cpp'
i, j, q = z3.Ints('i j q')
DIV = z3.Function('DIV', z3.IntSort(), z3.IntSort(), z3.BoolSort())      # DIV(v, m): v is a multiple of m
PS = z3.Function('PS', z3.IntSort(), z3.IntSort())                       # bound of the space of the mixins before i
MAXAL = z3.Function('MAXAL', z3.IntSort(), z3.IntSort())                 # max of 8 and the alignments of the internal mixins before i
IDX = z3.Function('IDX', z3.IntSort(), z3.IntSort())                      # id -> index
REGM = z3.Function('REGM', z3.IntSort(), z3.IntSort())                   # id -> mixin
MAXID = 1 << 24
TRUST_C = ['sizes of types and objects fit 32 bits, ids are below 2^24, alignments are zero or powers of two (below 2^16)',
           'a registered mixin has an id of its own (C12)',
           'std::set and std::map by contract: emplace publishes the new element or drops it for the present one, or throws; operator[] gives the place of the key or throws',
           'the feature table is built inside of the space computed for it, or the request is refused (ftable_build_helper by contract; see C06)',
           'memory resources return new memory']


class Create:
    def __init__(self, p, valid=False):
        self.p, k = p, p.k
        self.k = k
        locks(p)
        self.d, self.im = p.ptr('domain'), p.stack('impl')
        self.res = p.ptr('resource')
        b8 = p.ex.base_arrs[8]
        # (the implementation of the domain: the one at hand)
        self.dres = z3.Select(b8, z3.Select(b8, self.d + k.d_impl) + k.im_alloc)
        p.wr(8, self.im + k.im_dom, self.d)
        p.wr(8, self.im + k.im_alloc, self.res)
        self.mut, self.query, self.newt = p.stack('mutation'), p.stack('query'), p.stack('new_type')
        self.cell, self.node = p.stack('cell'), p.stack('node')
        n = self.n = p.u('n', 20)
        self.mb = mb = p.ptr('mb')
        p.assume(n >= 1, mb + 8 * n < PRE_MAX)
        p.wr(8, self.mut, self.d)
        v = self.mut + k.tm_mixins
        for o, x in ((0, self.res), (8, mb), (16, mb + 8 * n), (24, mb + 8 * n)):
            p.wr(8, v + o, x)
        self.FS, self.NF = p.u('ftable_bytes', 28), p.u('ftable_len', 24)
        p.assume(self.FS % 8 == 0)
        m = self.mix(i)
        r = self.rng(i)
        F = z3.ForAll
        p.assume(F([i], z3.Implies(r, z3.And(m >= 4096, m < PRE_MAX, m % 8 == 0))))
        al, sz = self.al(i), self.size(i)
        p.assume(F([i], z3.Implies(r, z3.And(al >= 0, al < (1 << 16), z3.Or(al == 0, al == 1, al == 2, al == 4, z3.And(al >= 8, al % 8 == 0)), sz >= 0, sz < (1 << 31),
                                             self.id(i) >= 0, self.id(i) <= INVALID, z3.Implies(self.own(i), z3.And(self.id(i) < MAXID, REGM(self.id(i)) == m)),
                                             self.f(i, 'i_ext', 1) >= 0, self.f(i, 'i_ext', 1) <= 1))))
        p.assume(PS(0) == 0, MAXAL(0) == 8)
        p.assume(F([i], z3.Implies(r, z3.And(PS(i + 1) == PS(i) + z3.If(self.ext(i), 0, sz + 16 + 2 * al), PS(i) >= 0, PS(i + 1) < (1 << 31),
                                             MAXAL(i + 1) == z3.If(z3.And(z3.Not(self.ext(i)), al > MAXAL(i)), al, MAXAL(i)), MAXAL(i) >= 8)), patterns=[PS(i), MAXAL(i), m]))
        # the end of the sparse table
        self.NS, self.w = p.u('NS', 33), z3.Int('w!max')
        p.assume(self.rng(self.w), self.NS == self.id(self.w) + 1, F([i], z3.Implies(r, self.id(i) < self.NS)))
        self.sb = self.newt + k.t_size + self.FS + 12 * n
        p.ex.write_sets.append(SpecSet(4, 'sparse table', lambda x: z3.And(x >= self.sb, x < self.sb + 4 * self.NS, x % 4 == self.sb % 4), [self.newt]))
        g = p.st0.ghost
        g['$alloc'] = None
        g['$freed'] = False
        g['$ins'] = None
        g['$key'] = None
        C = p.ex.contracts.insert
        C(0, (r'^std::pmr::memory_resource::allocate\(', self.c_alloc))
        C(0, (r'^std::pmr::memory_resource::deallocate\(', self.c_dealloc))
        H = r'^dynamix::domain::impl::ftable_build_helper::'
        C(0, (H + r'ftable_build_helper\(', self.c_helper))
        C(0, (H + r'calc_ftable_byte_size\(', lambda ex, st, a, inst, dem: [Out('ret', st, self.FS)]))
        C(0, (H + r'build_ftable\(', self.c_build))
        C(0, (r'^dynamix::util::next_multiple\(', self.c_next))
        C(0, (r'std::set<std::unique_ptr<dynamix::type const.*>::(emplace|insert)', self.c_emplace))
        C(0, (r'std::map<std::vector<dnmx_mixin_info const\*.*>::operator\[\]\(', self.c_cell))
        p.ex.cands.append(self.gen)

    # values in the pre-state
    def rng(self, c):
        return z3.And(c >= 0, c < self.n)

    def mix(self, c):
        return z3.Select(self.p.ex.base_arrs[8], self.mb + 8 * c)

    def f(self, c, name, w=8):
        return z3.Select(self.p.ex.base_arrs[w], self.mix(c) + getattr(self.k, name))

    def id(self, c):
        return self.f(c, 'i_id', 4)

    def al(self, c):
        return self.f(c, 'i_align', 4)

    def size(self, c):
        return self.f(c, 'i_size_', 4)

    def ext(self, c):
        return z3.Or(self.f(c, 'i_minit') == 0, self.f(c, 'i_alloc') != 0, self.f(c, 'i_ext', 1) != 0)

    def own(self, c):
        return z3.And(self.id(c) != INVALID, self.f(c, 'i_dom') == self.d)

    # contracts
    def c_alloc(self, ex, st, a, inst, dem):
        ex.prove_pre(st, z3.And(zi(a[0]) == self.res, zi(a[2]) == self.k.t_align), 'storage of a type: resource of the domain, alignment of a type')
        if st.ghost['$alloc'] is not None:
            raise Unsupported('more than one allocation')
        # lemma: different mixins have different ids
        lem = z3.ForAll([i, j], z3.Implies(z3.And(self.rng(i), self.rng(j), i < j), self.id(i) != self.id(j)))
        if ex.valid(st, lem)[0] is True:
            # ... in other words: the id determines the index (facts about pairs are not needed any more)
            st.assume(z3.ForAll([i], z3.Implies(self.rng(i), IDX(self.id(i)) == i)))
            st.pc = [f for f in st.pc if not (z3.is_quantifier(f) and f.num_vars() > 1)]
        st2 = st.copy()
        st.ghost['$alloc'] = (a[1],)
        return [Out('ret', st, self.newt), Out('throw', st2, ('std', '_ZTISt9bad_alloc'))]

    def c_dealloc(self, ex, st, a, inst, dem):
        ex.prove_pre(st, z3.BoolVal(st.ghost['$alloc'] is not None and not st.ghost['$freed']), 'frees what was allocated, once')
        if st.ghost['$alloc'] is None:
            return []
        ex.prove_pre(st, z3.And(z3.Or(zi(a[0]) == self.res, zi(a[0]) == self.dres), zi(a[1]) == self.newt, zi(a[2]) == zi(st.ghost['$alloc'][0]), zi(a[3]) == self.k.t_align), 'frees the storage with its size and alignment')
        st.ghost['$freed'] = True
        return [Out('ret', st, None)]

    def c_helper(self, ex, st, a, inst, dem):
        for o, x in ((0, a[1]), (8, self.res), (16, 0), (24, 0), (32, 0)):
            self.p.wr(8, ladd(a[0], o), x, st)
        st2 = st.copy()
        return [Out('ret', st, None), Out('throw', st2, ('std', '_ZTISt9bad_alloc'))]

    def c_build(self, ex, st, a, inst, dem):
        k = self.k
        sz = zi(st.ghost['$alloc'][0]) if st.ghost['$alloc'] else z3.IntVal(0)
        ex.prove_pre(st, z3.And(zi(a[1]) >= self.newt + k.t_size, zi(a[1]) % 8 == self.newt % 8, zi(a[1]) + self.FS <= self.newt + sz), 'the feature table lies in the storage of the type')
        st.ghost['$ft'] = (a[1],)
        for w in (1, 4, 8):
            ex.havoc(st, [engine.Interval(w, a[1], ladd(a[1], self.FS))])
        st2 = st.copy()
        return [Out('ret', st, (a[1], ladd(a[1], lmul(self.NF, k.e_size)))), Out('throw', st2, ('std', 'feature_clash'))]

    def c_next(self, ex, st, a, inst, dem):
        s, m = zi(a[0]), zi(a[1])
        ex.prove_pre(st, z3.And(m > 0, s + m < (1 << 32)), 'next_multiple: no overflow')
        r = engine.fresh('next')
        st.assume(z3.And(r >= s, r < s + m, DIV(r, m), DIV(r + m, m), z3.Implies(m % 8 == 0, r % 8 == 0)))
        return [Out('ret', st, r)]

    def c_emplace(self, ex, st, a, inst, dem):
        p = self.p
        ex.prove_pre(st, zi(p.rd(st, 8, a[1])) == self.newt, 'publishes the new type')
        if st.ghost['$ins'] is not None or st.ghost['$freed']:
            raise Unsupported('publication')
        oom = st.copy()
        s2 = st.copy()
        p.wr(8, a[1], 0, st)
        p.wr(8, self.node + 32, self.newt, st)
        st.ghost['$ins'] = True
        other = p.ptr('present_type', st=s2)
        p.wr(8, a[1], 0, s2)
        p.wr(8, self.node + 32, other, s2)
        s2.ghost['$ins'] = False
        s2.ghost['$freed'] = True       # with the node which was made for it
        s2.ghost['$other'] = (other,)
        size = p.rd(s2, 4, self.newt + self.k.t_bufsize)
        ex.prove_pre(s2, zi(size) == zi(s2.ghost['$alloc'][0]), 'the type knows the size of its storage')
        return [Out('ret', st, (self.node, 1)), Out('ret', s2, (self.node, 0)), Out('throw', oom, ('std', '_ZTISt9bad_alloc'))]

    def c_cell(self, ex, st, a, inst, dem):
        st.ghost['$key'] = (a[1],)
        oom = st.copy()
        return [Out('ret', st, self.cell), Out('throw', oom, ('std', '_ZTISt9bad_alloc'))]

    # invariants
    def gen(self, ctx):
        out = []
        F = z3.ForAll
        intl = lambda c: z3.Not(self.ext(c))
        r = lambda v, c: z3.And(c >= 0, c < v.k, c < self.n)
        ob = self.newt + self.k.t_size + self.FS + 8 * self.n
        off = lambda v, c: z3.Select(v.arr(4), ob + 4 * c)
        sp = lambda v, c: z3.Select(v.arr(4), self.sb + 4 * c)

        def num(get, fn):
            def h(v):
                x = get(v)
                if isinstance(x, (tuple, bool)) or x is None or not z3.is_int(zi(x)):
                    return None
                return fn(v, zi(x))
            return h
        for get in unknowns(ctx):
            # a pointer to the greatest id so far
            for d in (0, 1):
                kk = lambda v, d=d: v.k + d
                pos = lambda v, x, c: x == self.mb + 8 * c
                out.append(num(get, lambda v, x, kk=kk: z3.And((x - self.mb) % 8 == 0, x >= self.mb, x < self.mb + 8 * self.n,
                    F([j], z3.Implies(z3.And(j >= 0, j < kk(v), j < self.n), self.id(j) <= z3.Select(self.p.ex.base_arrs[4], z3.Select(self.p.ex.base_arrs[8], x) + self.k.i_id))))))
                out.append(num(get, lambda v, x, d=d: z3.And(x <= MAXID, F([j], z3.Implies(z3.And(j >= 0, j < v.k, j < self.n), self.id(j) <= x - d)))))
                out.append(num(get, lambda v, x, d=d: x <= self.NS - 1 + d))
            ido = lambda x: z3.Select(self.p.ex.base_arrs[4], z3.Select(self.p.ex.base_arrs[8], x) + self.k.i_id)
            out.append(num(get, lambda v, x: z3.And(ido(x) < self.NS, ido(x) < MAXID)))
            # the end of the layout so far
            out.append(num(get, lambda v, x: z3.And(x >= 16 * self.n, x <= 16 * self.n + PS(v.k))))
            out.append(num(get, lambda v, x: F([j], z3.Implies(z3.And(r(v, j), intl(j)), off(v, j) + self.size(j) <= x))))
            out.append(num(get, lambda v, x: x == MAXAL(v.k)))
        if list(unknowns(ctx)):
            out.append(lambda v: F([j], z3.Implies(r(v, j), (off(v, j) == 0) == self.ext(j))))
            out.append(lambda v: F([j], z3.Implies(z3.And(r(v, j), intl(j)), z3.And(off(v, j) >= 16 * self.n + 8, off(v, j) % 8 == 0, z3.Implies(self.al(j) >= 8, DIV(off(v, j), self.al(j)))))))
            out.append(lambda v: F([j, q], z3.Implies(z3.And(r(v, j), r(v, q), j < q, intl(j), intl(q)), off(v, q) >= off(v, j) + self.size(j) + 8)))
        else:
            out.append(lambda v: F([j, q], z3.Implies(z3.And(r(v, j), q > j, q < self.n), self.mix(j) != self.mix(q))))
            out.append(lambda v: F([j, q], z3.Implies(z3.And(j >= 0, j < q, q < v.k, q < self.n), self.mix(j) != self.mix(q))))
            # the sparse table
            out.append(lambda v: F([q], z3.Implies(z3.And(q >= 0, q < self.NS), z3.Or(sp(v, q) == INVALID, z3.And(sp(v, q) >= 0, sp(v, q) < v.k, sp(v, q) < self.n, self.id(sp(v, q)) == q)))))
            out.append(lambda v: F([j], z3.Implies(r(v, j), sp(v, self.id(j)) == j)))
            out.append(lambda v: F([q], z3.Implies(z3.And(q >= 0, q < v.k, q < self.NS), sp(v, q) == INVALID)))
        return out

    # postconditions
    def published(self, st):
        """the invariant of the type"""
        p, k, n = self.p, self.k, self.n
        t = self.newt
        F = z3.ForAll
        P = lambda f, name: p.prove(st, f, name)
        rd = lambda w, o: zi(p.rd(st, w, t + o))
        size = zi(st.ghost['$alloc'][0])
        P(rd(4, k.t_bufsize) == size, 'the type knows the size of its storage')
        P(zi(p.ld(st, 8, t + k.t_mixins - 8)) == self.d, 'the type belongs to the domain')
        fb, mb, ob, sb = rd(8, k.t_ftable), rd(8, k.t_mixins), rd(8, k.t_offsets), rd(8, k.t_sparse)
        P(z3.And(fb == zi(st.ghost['$ft'][0]), rd(4, k.t_ftlen) == self.NF), 'the feature table is the one built')
        P(rd(8, k.t_mixins + 8) == mb + 8 * n, 'as many mixins as requested')
        P(rd(8, k.t_offsets + 8) == ob + 4 * n, 'an offset for each mixin')
        se = rd(8, k.t_sparse + 8)
        P(z3.And(se >= sb + 4 * self.NS, (se - sb) % 4 == 0, se - sb <= 4 * MAXID), 'the sparse table covers the ids')
        parts = [(t, z3.IntVal(t) + k.t_size, 'type'), (fb, fb + self.FS, 'feature table'), (mb, mb + 8 * n, 'mixins'), (ob, ob + 4 * n, 'offsets'), (sb, se, 'sparse table')]
        for a, b, nm in parts:
            P(z3.And(zi(a) >= t, zi(b) <= t + size), 'the %s lies in the storage of the type' % nm)
        for x in range(5):
            for y in range(x):
                P(z3.Or(zi(parts[x][1]) <= zi(parts[y][0]), zi(parts[y][1]) <= zi(parts[x][0])), 'the %s and the %s are disjoint' % (parts[x][2], parts[y][2]))
        P(z3.And((mb - t) % 8 == 0, (fb - t) % 8 == 0, (ob - t) % 4 == 0, (sb - t) % 4 == 0), 'the parts of the type are aligned')
        A8, A4 = p.M(8, st), p.M(4, st)
        off = lambda c: z3.Select(A4, ob + 4 * c)
        sp = lambda c: z3.Select(A4, sb + 4 * c)
        r = self.rng
        intl = lambda c: z3.Not(self.ext(c))
        P(F([i], z3.Implies(r(i), z3.Select(A8, mb + 8 * i) == self.mix(i))), 'the mixins are the requested ones, in order')
        P(F([i], z3.Implies(r(i), (off(i) == 0) == self.ext(i))), 'exactly the external mixins have offset zero')
        P(F([i], z3.Implies(z3.And(r(i), intl(i)), off(i) >= 16 * n + 8)), 'internal mixins lie behind the table, with room for a pointer')
        P(F([i], z3.Implies(z3.And(r(i), intl(i)), off(i) % 8 == 0)), 'the pointers in front of the mixins are aligned')
        P(F([i], z3.Implies(z3.And(r(i), intl(i), self.al(i) >= 8), DIV(off(i), self.al(i)))), 'offsets are multiples of the alignment')
        P(F([i, j], z3.Implies(z3.And(r(i), r(j), i < j, intl(i), intl(j)), off(j) >= off(i) + self.size(i) + 8)), 'mixins do not overlap, with room for a pointer between them')
        P(F([i], z3.Implies(z3.And(r(i), intl(i)), off(i) + self.size(i) <= rd(4, k.t_osize))), 'mixins end within the object buffer')
        P(rd(4, k.t_osize) >= 16 * n, 'the object buffer holds the table')
        P(rd(4, k.t_oalign) == MAXAL(n), 'the alignment is the maximum of the alignments of the internal mixins')
        P(F([i], z3.Implies(r(i), sb + 4 * self.id(i) < se)), 'the sparse table covers each mixin')
        P(F([i], z3.Implies(r(i), sp(self.id(i)) == i)), 'the sparse table gives the index of each mixin')
        P(F([q], z3.Implies(z3.And(q >= 0, sb + 4 * q < se), z3.Or(sp(q) == INVALID, z3.And(sp(q) >= 0, sp(q) < n, self.id(sp(q)) == q)))), 'the sparse table gives nothing else')


def run(p):
    c = Create(p)
    outs = p.call(args=[c.im, c.mut, c.query])
    return c, outs


def layout(s):
    def ct(p):
        c, outs = run(p)
        p.cover([o for o in outs if o.kind == 'ret' and o.st.ghost['$ins']], 'a type is published')
        for o in outs:
            if o.st.ghost['$ins']:
                c.published(o.st)
    s.contract('domain::create_type: layout and storage', CD, 'vf_create', ct, limit=400)


def storage(s):
    def ct(p):
        c, outs = run(p)
        p.cover([o for o in outs if o.kind == 'ret' and o.st.ghost['$ins'] is False], 'a present type is returned')
        p.cover([o for o in outs if o.kind == 'throw'], 'can throw')
        for o in outs:
            g = o.st.ghost
            if o.kind == 'ret':
                want = c.newt if g['$ins'] else g['$other'][0] if g['$ins'] is False else -1
                p.prove(o.st, zi(o.val) == zi(want), 'gives the published type')
                p.prove(o.st, z3.BoolVal(g['$key'] is not None) if g['$key'] is None else z3.And(zi(g['$key'][0]) == c.query, zi(p.rd(o.st, 8, c.cell)) == zi(want)), 'the request leads to that type from now on')
            held = g['$alloc'] is not None and not g['$freed']
            p.prove(o.st, z3.BoolVal(held == bool(g['$ins'])), 'exactly published types keep their storage')
    s.contract('domain::create_type: ownership of the storage', CD, 'vf_create', ct, limit=400)


def validity(s):
    def ct(p):
        c, outs = run(p)
        bad = ('type_mut_error', 'foreign_mixin')
        p.cover([o for o in outs if o.kind == 'ret'])
        p.cover([o for o in outs if o.kind == 'throw' and 'foreign_mixin' in str(o.val)], 'foreign mixins are possible')
        allown = z3.ForAll([i], z3.Implies(c.rng(i), c.own(i)))
        uniq = z3.ForAll([i, j], z3.Implies(z3.And(c.rng(i), c.rng(j), i < j), c.mix(i) != c.mix(j)))
        for o in outs:
            if o.kind == 'throw' and any(b in str(o.val) for b in bad):
                st = o.st.copy()
                st.assume(allown)
                st.assume(uniq)
                p.prove(st, False, 'only invalid lists are refused')
                p.prove(o.st, z3.BoolVal(o.st.ghost['$alloc'] is None and o.st.ghost['$ins'] is None and o.st.ghost['$key'] is None), 'refused: nothing is changed')
                continue
            if o.kind == 'throw':
                p.prove(o.st, z3.BoolVal(any(x in str(o.val) for x in ('bad_alloc', 'feature_clash'))), 'nothing else is thrown')
                if o.st.ghost['$ins'] is None and o.st.ghost['$key'] is None:
                    continue
            p.prove(o.st, z3.ForAll([i], z3.Implies(c.rng(i), c.id(i) != INVALID)), 'every mixin is registered')
            p.prove(o.st, z3.ForAll([i], z3.Implies(c.rng(i), c.f(i, 'i_dom') == c.d)), 'every mixin is of the domain')
            p.prove(o.st, uniq, 'no mixin is listed twice')
    s.contract('domain::create_type: validity of the request', CD, 'vf_create', ct, limit=400)
