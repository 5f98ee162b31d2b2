import z3
from lib import *

NATIVE = dict(src=['c24.cpp'], lib='lib')
D = 'build.cpp'


def verify(s):
    def perks(e, hb, b, hp, pr, nargs):
        def f(p):
            o_ = p.stack('out')
            args = [p.u('a%d' % i, 32) for i in range(nargs)]
            if 'neg' in e and e != 'neg_src':
                p.assume(*[a != (1 << 31) for a in args])
            neg = lambda x: z3.If(x == 0, 0, (1 << 32) - x)
            outs = p.nothrow(p.call(args=[o_] + args))
            p.cover(outs)
            for o in outs:
                g = lambda x: zi(p.rd(o.st, 4, o_ + x))
                p.prove(o.st, g(p.k.po_hb) == int(hb), 'has a bid exactly when given')
                p.prove(o.st, g(p.k.po_hp) == int(hp), 'has a priority exactly when given')
                if hb:
                    p.prove(o.st, g(p.k.po_b) == b(neg, *args), 'the bid')
                if hp:
                    p.prove(o.st, g(p.k.po_p) == pr(neg, *args), 'the priority')
        return f
    P = [('bid', 1, lambda n, a: a, 0, None, 1), ('prio', 0, None, 1, lambda n, a: a, 1), ('both', 1, lambda n, a, b: a, 1, lambda n, a, b: b, 2),
         ('neg_bid', 1, lambda n, a: n(a), 0, None, 1), ('neg_prio', 0, None, 1, lambda n, a: n(a), 1), ('neg_both', 1, lambda n, a, b: n(a), 1, lambda n, a, b: n(b), 2),
         ('neg_none', 0, None, 0, None, 0), ('none', 0, None, 0, None, 0), ('negneg', 1, lambda n, a, b: a, 1, lambda n, a, b: b, 2), ('neg_src', 1, lambda n, a, b: a, 1, lambda n, a, b: b, 2)]
    for e, hb, b, hp, pr, na in P:
        s.contract('builder_perks: ' + e, D, 'vf_' + e, perks(e, hb, b, hp, pr, na))

    def lit(e, hb, hp):
        def f(p):
            o_ = p.stack('out')
            a = p.u('a', 31)
            outs = p.nothrow(p.call(args=[o_, a]))
            p.cover(outs)
            for o in outs:
                g = lambda x: zi(p.rd(o.st, 4, o_ + x))
                p.prove(o.st, z3.And(g(p.k.po_hb) == hb, g(p.k.po_hp) == hp), 'sets exactly the named attribute')
                p.prove(o.st, g(p.k.po_b if hb else p.k.po_p) == a, 'to the stated value')
        return f
    s.contract('operator ""_bid', D, 'vf_lbid', lit('lbid', 1, 0))
    s.contract('operator ""_prio', D, 'vf_lprio', lit('lprio', 0, 1))

    # ---- domain settings
    def settings(want):
        def f(p):
            o_ = p.stack('out')
            a, b, c = z3.Bools('a b c')
            outs = p.nothrow(p.call(args=[o_, a, b, c]))
            p.cover(outs)
            for o in outs:
                for i, (n, w) in enumerate(zip(('canonicalize_types', 'allow_duplicate_feature_names', 'allow_duplicate_mixin_names'), want(a, b, c))):
                    p.prove(o.st, (zi(p.rd(o.st, 1, o_ + i)) != 0) == w, n)
        return f
    F, T = z3.BoolVal(False), z3.BoolVal(True)
    for e, w in (('def', lambda a, b, c: (F, F, F)), ('c', lambda a, b, c: (a, F, F)), ('f', lambda a, b, c: (F, a, F)), ('m', lambda a, b, c: (F, F, a)),
                 ('c1', lambda a, b, c: (T, F, F)), ('f1', lambda a, b, c: (F, T, F)), ('m1', lambda a, b, c: (F, F, T)),
                 ('cfm', lambda a, b, c: (a, b, c)), ('mfc', lambda a, b, c: (a, b, c)), ('last', lambda a, b, c: (a, b, c))):
        s.contract('domain_settings_builder: ' + e, D, 'vf_set_' + e, settings(w))

    # ---- life-cycle functions of a class
    from engine import FN_BASE
    FUN = ('init', 'copy_init', 'move_init', 'copy_asgn', 'move_asgn', 'destroy')
    TRIV = dict(pod=63, over=63, tiny=63)

    def filled(T):
        def f(p):
            k = p.k
            m = p.stack('info')
            old = {}
            for fld in ('id', 'dom', 'size', 'alignment', 'obj_buf_size', 'obj_buf_alignment_and_mixin_offset') + FUN + ('equals', 'compare', 'allocator', 'mixin_class', 'type_info_class', 'user_data',
                                                                                                                  'features', 'num_features', 'order_priority', 'force_external', 'dependency'):
                w = 4 if fld in ('num_features', 'order_priority') else 1 if fld in ('force_external', 'dependency') else k.szw // 8 if 'size' in fld or 'align' in fld else 4 if fld == 'id' else 8
                if fld in FUN:
                    p.ex.store_raw(p.st0, 8, m + getattr(k, 'o_' + fld), 0)
                else:
                    old[fld] = (w, p.rd0(w, m + getattr(k, 'o_' + fld)))
            outs = p.nothrow(p.call(args=[m]))
            p.cover(outs)
            tr = getattr(k, 'traits_' + T) if T != 'void' else 31
            for o in outs:
                g = lambda x, w=8: zi(p.rd(o.st, w, m + getattr(k, 'o_' + x)))
                for i, x in enumerate(FUN):
                    p.prove(o.st, (g(x) != 0) == bool(tr >> i & 1), '%s is provided exactly when the class supports it' % x)
                if T != 'void':
                    w = k.szw // 8
                    p.prove(o.st, z3.And(g('size', w) == getattr(k, 'size_' + T), g('alignment', w) == getattr(k, 'align_' + T)), 'size and alignment of the class')
                    mx = max(8, getattr(k, 'align_' + T))
                    p.prove(o.st, z3.And(g('obj_buf_alignment_and_mixin_offset', w) == mx, g('obj_buf_size', w) == mx + getattr(k, 'size_' + T)), 'buffer')
                for fld, (w, v) in old.items():
                    if 'size' in fld or 'align' in fld or (T == 'void' and fld in ('equals', 'compare')):
                        continue
                    p.prove(o.st, g(fld, w) == zi(v), 'does not set ' + fld)
        return f
    CLS = ('pod', 'over', 'tiny', 'full', 'moveonly', 'copyonly', 'throwmove', 'nodef', 'nothing', 'dtor', 'constm', 'asgnonly')
    for T in CLS + ('void',):
        s.contract('common_init_mixin_info<%s>' % T, D, 'vf_fill_' + T, filled(T))

    # what the provided functions do: the special function of the class, once, on the right objects
    SPECIAL = dict(full=dict(init=10, cinit=11, minit=12, casgn=13, masgn=14, destroy=15), moveonly=dict(init=10, minit=12, masgn=14, destroy=15),
                   copyonly=dict(init=10, cinit=11, minit=11, casgn=13, masgn=13), throwmove=dict(init=10, cinit=11, casgn=13, destroy=15),
                   nodef=dict(cinit=11, minit=12), dtor=dict(destroy=15), asgnonly=dict(casgn=13, masgn=13))

    def special(T, e, tag):
        def f(p):
            record_events(p)
            a, b = p.ptr('p'), p.ptr('q')
            outs = p.nothrow(p.call(args=[a] if e in ('init', 'destroy') else [a, b]))
            p.cover(outs)
            for o in outs:
                es = events(o)
                p.prove(o.st, zb(len(es) == 1), 'calls one special function once')
                if len(es) == 1:
                    p.prove(o.st, z3.And(zi(es[0][0]) == tag, zi(es[0][1]) == a, *([zi(es[0][2]) == b] if e not in ('init', 'destroy') else [])), 'the right one, on the given objects')
                if e in ('init', 'cinit', 'casgn'):
                    p.prove(o.st, zi(o.val) == 0, 'reports success')
        return f
    for T, fs in SPECIAL.items():
        for e, tag in fs.items():
            s.contract('%s: %s' % (T, e), D, 'vf_%s_%s' % (e, T), special(T, e, tag))

    # trivial classes: the common functions, on exactly that many bytes (their own contract is C23)
    def common(T, e):
        def f(p):
            k = p.k
            a, b = p.ptr('p'), p.ptr('q')
            got = []

            def h(kind):
                def g(ex, st, args, inst, dem):
                    w = k.szw // 8
                    st.ghost['$c'] = tuple(st.ghost.get('$c', ())) + ((kind, ex.load_raw(st, w, ladd(args[0], k.o_size))[0]) + tuple(args[1:]),)
                    return [Out('ret', st, 0)]
                return g
            p.ex.contracts += [(r'^dnmx_mixin_common_init_func$', h('init')), (r'^dnmx_mixin_common_copy_func$', h('copy')), (r'^dnmx_mixin_common_move_func$', h('move'))]
            outs = p.nothrow(p.call(args=[a] if e == 'init' else [a, b]))
            p.cover(outs)
            want = dict(init='init', cinit='copy', casgn='copy', minit='move', masgn='move')[e]
            for o in outs:
                es = o.st.ghost.get('$c', ())
                sz = getattr(k, 'size_' + T)
                if not es:
                    # done by other means: the effect on the bytes decides
                    for i in range(sz):
                        x = zi(p.rd(o.st, 1, a + i))
                        p.prove(o.st, x == (0 if e == 'init' else zi(p.rd0(1, b + i))), 'byte %d' % i)
                    continue
                p.prove(o.st, zb(len(es) == 1 and es[0][0] == want), 'one common %s' % want)
                p.prove(o.st, z3.And(zi(es[0][1]) == sz, zi(es[0][2]) == a, *([zi(es[0][3]) == b] if e != 'init' else [])), 'of the size of the class, on the given objects')
        return f
    for T, es in (('pod', ('init', 'cinit', 'minit', 'casgn', 'masgn')), ('over', ('init', 'cinit', 'minit', 'casgn', 'masgn')), ('tiny', ('init', 'cinit', 'minit', 'casgn', 'masgn')),
                  ('constm', ('cinit', 'minit')), ('dtor', ())):
        for e in es:
            s.contract('%s: %s' % (T, e), D, 'vf_%s_%s' % (e, T), common(T, e))

    # ---- builder calls
    OFF = dict(id=4, dom=8, size=0, alignment=0, obj_buf_size=0, obj_buf_alignment_and_mixin_offset=0, init=8, copy_init=8, move_init=8, copy_asgn=8, move_asgn=8, destroy=8,
               equals=8, compare=8, allocator=8, mixin_class=8, type_info_class=8, user_data=8, features=8, num_features=4, order_priority=4, force_external=1, dependency=1)

    def setup(p):
        """mixin info data with arbitrary contents; contracts of the std containers"""
        k = p.k
        d = p.stack('data')
        old = {}
        for f, w in OFF.items():
            w = w or k.szw // 8
            v = p.u('old_' + f, 8 * w)
            p.wr(w, d + k.d_info + getattr(k, 'o_' + f), v)
            old[f] = (w, v)
        for i in (0, 8):
            v = p.ptr('name%d' % i)
            p.wr(8, d + k.d_info + k.o_name + i, v)
            old['name%d' % i] = (8, v)
        n = p.u('n', 28)
        buf = p.ptr('buf')
        p.wr(8, d + k.d_fp + 8, buf)
        p.wr(8, d + k.d_fp + 16, ladd(buf, lmul(n, k.ffm_size)))

        def emplace_any(ex, st, args, inst, dem):
            r = ex.new_region('payload')
            for i in (0, 8):
                p.wr(8, r + i, p.ld(st, 8, ladd(args[1], i)), st)
                p.wr(8, ladd(args[1], i), 0, st)
            st.ghost['$pl'] = tuple(st.ghost.get('$pl', ())) + (r,)
            return [Out('ret', st, r)]

        def push_rule(ex, st, args, inst, dem):
            st.ghost['$r'] = tuple(st.ghost.get('$r', ())) + (p.ld(st, 8, args[1]),)
            return [Out('ret', st, None)]

        def push_ffm(ex, st, args, inst, dem):
            r = ex.new_region('features')
            cur = zi(lsub(p.ld(st, 8, ladd(args[0], 16)), p.ld(st, 8, ladd(args[0], 8))))
            at = ladd(r, cur)
            for o, w in ((k.ffm_info, 8), (k.ffm_payload, 8), (k.ffm_bid, 4), (k.ffm_prio, 4)):
                v = p.ld(st, w, ladd(args[1], o))
                st.ghost['$f%d' % o] = tuple(st.ghost.get('$f%d' % o, ())) + (v,)
            p.wr(8, ladd(args[0], 8), r, st)
            p.wr(8, ladd(args[0], 16), ladd(at, k.ffm_size), st)
            p.wr(8, ladd(args[0], 24), ladd(at, k.ffm_size), st)
            st.ghost['$fa'] = tuple(st.ghost.get('$fa', ())) + ((args[0], r, at),)
            return [Out('ret', st, at)]
        info = p.ptr('feat_info')
        p.ex.contracts += [
            (r'std::deque<std::shared_ptr<void>.*>::(emplace_back|push_back)\b', emplace_any),
            (r'std::deque<dnmx_mutation_rule_info const\*.*>::(emplace_back|push_back)\b', push_rule),
            (r'std::vector<dnmx_feature_for_mixin.*>::(emplace_back|push_back)\b', push_ffm),
            (r'^feat::get_info_safe', lambda ex, st, args, inst, dem: [Out('ret', st, info)]),
            (r'std::pmr::get_default_resource', lambda ex, st, args, inst, dem: [Out('ret', st, 4096)]),
        ]
        p.ex.init_globals(p.st0, r'make_payload_for')
        return d, old, n, info

    def frame(p, o, d, old, but):
        k = p.k
        for f, (w, v) in old.items():
            if f in but:
                continue
            off = k.o_name + int(f[4:]) if f.startswith('name') else getattr(k, 'o_' + f)
            p.prove(o.st, zi(p.rd(o.st, w, d + k.d_info + off)) == zi(v), 'leaves %s' % f)

    def setter(field, w, args, val):
        def f(p):
            d, old, n, _ = setup(p)
            a = args(p)
            outs = p.nothrow(p.call(args=[d] + a))
            p.cover(outs)
            for o in outs:
                got = p.rd(o.st, w, d + p.k.d_info + getattr(p.k, 'o_' + field))
                p.prove(o.st, zi(got) == zi(val(*a)), 'sets ' + field)
                frame(p, o, d, old, (field,))
        return f
    s.contract('builder: user_data', D, 'vf_b_user_data', setter('user_data', 8, lambda p: [p.u('v', 64)], lambda v: v))
    s.contract('builder: dependency(b)', D, 'vf_b_dependency', setter('dependency', 1, lambda p: [z3.Bool('v')], lambda v: z3.If(v, 1, 0)))
    s.contract('builder: dependency()', D, 'vf_b_dependency1', setter('dependency', 1, lambda p: [], lambda: 1))

    def name(p):
        d, old, _, _ = setup(p)
        a, n = p.ptr('p'), p.u('len', 40)
        outs = p.nothrow(p.call(args=[d, a, n]))
        p.cover(outs)
        for o in outs:
            g = lambda i: zi(p.rd(o.st, 8, d + p.k.d_info + p.k.o_name + i))
            p.prove(o.st, z3.And(g(0) == a, g(8) == a + n), 'the view is the given one')
            frame(p, o, d, old, ('name0', 'name8'))
    s.contract('builder: name', D, 'vf_b_name', name)

    def rule(p):
        d, old, _, _ = setup(p)
        r = p.ptr('rule')
        outs = p.nothrow(p.call(args=[d, r]))
        p.cover(outs)
        for o in outs:
            rs = o.st.ghost.get('$r', ())
            p.prove(o.st, zb(len(rs) == 1) if len(rs) != 1 else zi(rs[0]) == r, 'records exactly the given rule')
            p.prove(o.st, zi(p.rd(o.st, 1, d + p.k.d_info + p.k.o_dependency)) == 1, 'makes the mixin a dependency')
            frame(p, o, d, old, ('dependency',))
    s.contract('builder: adds_mutation_rule', D, 'vf_b_rule', rule)

    def feature(kind, nperks):
        def f(p):
            k = p.k
            d, old, n, finfo = setup(p)
            ps = []
            pk = []
            for i in range(nperks):
                q = p.stack('perks')
                hb, b, hp, pr = z3.Int('hb%d' % i), p.u('b%d' % i), z3.Int('hp%d' % i), p.u('p%d' % i)
                p.assume(z3.Or(hb == 0, hb == 1), z3.Or(hp == 0, hp == 1))
                for o_, v in ((k.po_hb, hb), (k.po_b, b), (k.po_hp, hp), (k.po_prio if hasattr(k, 'po_prio') else k.po_p, pr)):
                    p.wr(4, q + o_, v)
                pk.append(q)
                ps.append((hb, b, hp, pr))
            if kind == 'payload':
                fi = p.ptr('f')
                q = p.stack('any')
                pay = p.ptr('payload')
                cb = p.ptr('cb', nonnull=False)
                p.wr(8, q, pay)
                p.wr(8, q + 8, cb)
                a = [d, fi, q]
            elif kind == 'by':
                fi, pay = p.ptr('f'), p.ptr('payload')
                a = [d, fi, pay]
            elif kind == 'f':
                fi, pay = finfo, None
                a = [d]
            else:
                fi, pay = finfo, p.ptr('payload')
                a = [d, pay]
            outs = p.nothrow(p.call(args=a + pk))
            p.cover(outs)
            g = lambda st, w, f_: zi(p.rd(st, w, d + k.d_info + getattr(k, 'o_' + f_)))
            for o in outs:
                fa = o.st.ghost.get('$fa', ())
                ok = len(fa) == 1 and len(o.st.ghost.get('$pl', ())) == 1
                p.prove(o.st, zb(ok), 'records one feature and stores one payload')
                if not ok:
                    continue
                v = lambda off: zi(o.st.ghost['$f%d' % off][0])
                want_b, want_p = z3.IntVal(0), z3.IntVal(0)
                for hb, b, hp, pr in reversed(ps):
                    want_b = z3.If(hb == 1, b, want_b)
                    want_p = z3.If(hp == 1, pr, want_p)
                p.prove(o.st, z3.And(zi(fa[0][0]) == d + k.d_fp, v(k.ffm_info) == fi), 'in the list of the mixin, with the given feature')
                p.prove(o.st, v(k.ffm_bid) == want_b, 'the first bid given, else zero')
                p.prove(o.st, v(k.ffm_prio) == want_p, 'the first priority given, else zero')
                if pay is None:
                    pay_ = zi(p.nothrow(p.call('vf_feat_payload'))[0].val)
                else:
                    pay_ = pay
                p.prove(o.st, v(k.ffm_payload) == pay_, 'the payload')
                pl = o.st.ghost['$pl'][0]
                p.prove(o.st, zi(p.rd(o.st, 8, pl)) == pay_, 'the stored payload is the given one')
                if kind == 'payload':
                    p.prove(o.st, zi(p.rd(o.st, 8, pl + 8)) == cb, 'the stored payload keeps it alive')
                p.prove(o.st, z3.And(g(o.st, 8, 'features') == zi(fa[0][1]), g(o.st, 4, 'num_features') == n + 1), 'the info refers to the list')
                frame(p, o, d, old, ('features', 'num_features'))
        return f
    for e, kind, np_ in (('impl_payload', 'payload', 2), ('impl_by', 'by', 2), ('impl_by1', 'by', 1), ('impl_by0', 'by', 0), ('impl_f', 'f', 2), ('impl_f_by', 'f_by', 2)):
        s.contract('builder: ' + e, D, 'vf_b_' + e, feature(kind, np_))
