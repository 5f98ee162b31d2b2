import z3
from lib import *

D = 'tuple.cpp'
NATIVE = dict(src=['c26.cpp'], lib='lib')
TRUST = ['make_from_tuple and the operations are templates: proved for the listed tuple shapes and value categories, for all values and addresses']


def verify(s):
    def chk(args, expect, title, own=()):
        """args: names; expect(env) -> list of (tag, self, a, b, x); None: not compared;
        a string: a fresh place, the same at each mention"""
        def f(p):
            record_events(p)
            g = p.ptr('the_info')
            p.ex.contracts.append((r'^_dynamix_get_mixin_info', lambda ex, st, a, i, d: [Out('ret', st, g)]))
            env = {}
            vals = []
            for a in args:
                v = p.u(a, 32) if a == 'x' else p.ptr(a)
                env[a] = v
                vals.append(v)
            outs = p.nothrow(p.call(args=vals))
            p.cover(outs)
            for o in outs:
                evs = events(o)
                want = expect(env, p, o)
                ok = len(evs) == len(want) and all(is_c(e[0]) and e[0] == w[0] for e, w in zip(evs, want))
                p.prove(o.st, bool(ok), 'exactly the expected constructor calls: %s' % [w[0] for w in want])
                if not ok:
                    continue
                place = {}
                for e, w in zip(evs, want):
                    for k in range(1, 5):
                        if w[k] is None:
                            continue
                        t = w[k]
                        if isinstance(t, str):
                            if t not in place:
                                place[t] = e[k]
                                for q in vals:
                                    if not q is env.get('x'):
                                        p.prove(o.st, zi(e[k]) != q, 'temporary is not an argument')
                                continue
                            t = place[t]
                        p.prove(o.st, zi(e[k]) == zi(t), '%d: argument %d of the call' % (w[0], k))
        return f

    def c(entry, title, args, expect):
        s.contract('make_from_tuple: ' + title, D, 'vf_' + entry, chk(args, expect, title))
    E = lambda tag, a=None, b=None, x=None: (lambda env, p, o: [(tag, env['p'], a and env[a], b and env[b], x and env[x])])
    c('empty', 'empty tuple', ['p'], E(10))
    c('int', 'value', ['p', 'x'], E(11, x='x'))
    c('intl', 'value in an lvalue tuple', ['p', 'x'], E(11, x='x'))
    c('ref', 'reference', ['p', 'm'], E(20, 'm'))
    c('refl', 'reference in an lvalue tuple', ['p', 'm'], E(20, 'm'))
    c('cref', 'const reference', ['p', 'm'], E(21, 'm'))
    c('rref', 'rvalue reference', ['p', 'm'], E(22, 'm'))
    c('rrefl', 'rvalue reference in an lvalue tuple', ['p', 'm'], E(20, 'm'))
    c('val', 'element of an rvalue tuple', ['p', 'm'], E(22, 'm'))
    c('vall', 'element of an lvalue tuple', ['p', 'm'], E(20, 'm'))
    c('valc', 'element of a const tuple', ['p', 'm'], E(21, 'm'))
    c('valcr', 'element of a const rvalue tuple', ['p', 'm'], E(23, 'm'))
    c('three', 'three, rvalue', ['p', 'x', 'a', 'b'], E(30, 'a', 'b', 'x'))
    c('three_l', 'three, lvalues', ['p', 'x', 'a', 'b'], E(32, 'a', 'b', 'x'))
    c('ptrs', 'order of the elements', ['p', 'a', 'b', 'x'], E(31, 'a', 'b', 'x'))

    def pair(env, p, o):
        return [(31, env['p'], env['a'], env['b'], 7)]
    c('pair', 'order of the elements, constant', ['p', 'a', 'b'], pair)

    def three_v(p):
        record_events(p)
        pp, t = p.ptr('p'), p.ptr('t')
        at = p.call('vf_three_v_at', [t])[0].val
        outs = p.nothrow(p.call(args=[pp, t]))
        p.cover(outs)
        for o in outs:
            ev = events(o)
            ok = len(ev) == 1 and ev[0][0] == 30
            p.prove(o.st, bool(ok), 'exactly one constructor call')
            if ok:
                p.prove(o.st, z3.And(zi(ev[0][1]) == pp, zi(ev[0][2]) == zi(at)), 'in the given memory, from the element of the tuple')
    s.contract('make_from_tuple: mixed tuple', D, 'vf_three_v', three_v)

    for n, F in (('add', 'add'), ('con', 'construct')):
        def c2(entry, title, args, expect, n=n, F=F):
            s.contract('%s<Mixin>(args...): %s' % (F, title), D, 'vf_%s_%s' % (n, entry), chk(args, expect, title))
        c2('lv', 'lvalue', ['p', 'a'], E(20, 'a'))
        c2('clv', 'const lvalue', ['p', 'a'], E(21, 'a'))
        c2('rv', 'rvalue', ['p', 'a'], lambda e, p, o: [(3, 'tmp', e['a'], None, None), (22, e['p'], 'tmp', None, None), (4, 'tmp', None, None, None)])
        c2('three', 'three, one rvalue', ['p', 'x', 'a', 'b'], lambda e, p, o: [(3, 'tmp', e['a'], None, None), (30, e['p'], 'tmp', e['b'], e['x']), (4, 'tmp', None, None, None)])
        c2('three_l', 'three lvalues', ['p', 'x', 'a', 'b'], E(32, 'a', 'b', 'x'))
        c2('ptrs', 'order', ['p', 'a', 'b', 'x'], E(31, 'a', 'b', 'x'))

        def info(p):
            g = p.ptr('the_info')
            p.ex.contracts.append((r'^_dynamix_get_mixin_info', lambda ex, st, a, i, d: [Out('ret', st, g)]))
            outs = p.nothrow(p.call(args=[p.u('x', 32)]))
            p.cover(outs)
            for o in outs:
                if p.entry.endswith('over'):
                    p.prove(o.st, b8(o.val), 'overrides the default construction')
                else:
                    p.prove(o.st, zi(o.val) == g, 'refers to the info of the mixin')
        s.contract('%s<Mixin>(args...): affected mixin' % F, D, 'vf_%s_info' % n, info)
        s.contract('%s<Mixin>(args...): overrides construction' % F, D, 'vf_%s_over' % n, info)
