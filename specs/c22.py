"""Every C function next to the C++ operation it stands for: both are run from the same state, the
C++ classes are behind one nondeterministic contract (each call returns anything or throws anything it
may), and every pair of runs which agree about what the calls do must agree about the calls made, the
memory written and the result; where the C++ operation throws, the C function gives its error value."""
import re
import z3
from lib import *

NATIVE = dict(src=['c22.cpp'], lib='lib')
D = 'capi.cpp'
TRUST = ['each function of the C++ API called by a C function: any result, any std::exception unless it is noexcept; the same call at the same point of the same history has the same outcome',
         'object::clear throws exactly for sealed objects (C16)',
         'exceptions not derived from std::exception are not considered']
BOUNDED = ['dnmx_mutate and dnmx_mutate_to: operations and overrides by name and by mixin']

# name, arguments, how the outcome of the C++ operation shows
#   h: handle, p: pointer, n: pointer or null, s: name, t: settings, 4/8: integer
#   void: no result, may not report; same: the result, may not report; err: 0 or the error; ptr0: result or null; done: true or false; bool: result or false
F = '''
create_domain st8n same
destroy_domain h void
set_domain_user_data h8 void
set_domain_context hn void
register_feature hp err
unregister_feature hp void
register_mixin hp err
unregister_mixin hp void
get_feature_info_by_id h4 same
get_feature_info_by_name hs same
get_mixin_info_by_id h4 same
get_mixin_info_by_name hs same
register_type_class hp err
unregister_type_class hp void
get_type_class_by_name hs same
add_mutation_rule hp err
remove_mutation_rule hp void
get_type_from_infos hn4 ptr0
get_type hp ptr0
get_empty_type h same
get_num_types h same
garbage_collect_types h void
create_object_empty h ptr0
create_object_default h ptr0
create_object_copy h ptr0
create_object_usurp h ptr0
destroy_object h void
object_copy_from hh err
object_get_domain h same
object_get_type h same
object_num_mixins h same
object_has hp same
object_has_by_name hs same
object_get hp same
object_get_by_name hs same
object_get_at h4 same
object_get_mut hp same
object_get_mut_by_name hs same
object_get_mut_at h4 same
object_clear h done
object_reset_type hn err
object_is_empty h same
object_seal h void
object_is_sealed h same
object_equals hh same
object_compare hh int
type_num_objects h same
type_num_mixins h same
type_has hp same
type_has_by_name hs same
type_index_of hp same
type_index_of_name hs same
type_implements_strong hp same
type_implements_strong_by_name hs same
type_implements hp same
type_is_of hp same
type_is_of_name hs bool
type_is_default_constructible h same
type_is_copy_constructible h same
type_is_copy_assignable h same
type_is_equality_comparable h same
type_is_comparable h same
create_type_mutation_empty h ptr0
create_type_mutation_from_type h ptr0
destroy_unused_type_mutation h void
type_mutation_get_domain h same
type_mutation_has hp same
type_mutation_has_by_name hs same
type_mutation_implements_strong hp same
type_mutation_implements_strong_by_name hs same
type_mutation_implements hp same
type_mutation_add hp done
type_mutation_add_if_lacking hp bool
type_mutation_remove hp same
type_mutation_remove_by_name hs same
type_mutation_to_back hp done
type_mutation_to_back_by_name hs ptr0
type_mutation_dedup h void
type_mutation_get_mixins hp same
type_mutation_set_mixins hn4 done
destroy_mixin_allocator h void
'''
STD = ('std', '_ZTISt13runtime_error')
ORACLE = re.compile(r'^(void |[\w:<>& *]* )?(dynamix::type_mutation::(add\(|~|to_back|remove|dedup|safe_)|std::vector<.*>::(push_back|emplace_back|assign|~vector|insert|erase|reserve|resize|clear|operator=))')
PLAIN = r'^(?!__|llvm\.|std::terminate|std::__throw|mem|bcmp|strlen|abort|std::uncaught|std::(bad_alloc|exception)::)'


class World:
    """the C++ API behind one contract"""
    def __init__(self, p, oom=False):
        self.p, self.oom = p, oom
        m = p.m
        back = {v: k for k, v in m.dem.items()}
        back.update((m.dem[k], k) for k in m.funcs)

        def nounwind(name):
            d = m.decls.get(name)
            if d is None:
                f = m.funcs.get(name)
                d = (f[0] if isinstance(f, tuple) else '') if f else ''
            return any(a in m.nounwind for a in re.findall(r'#\d+', d)) or 'nounwind' in d

        def canon(st, a):
            """addresses made by this run are named by their order"""
            if isinstance(a, tuple):
                return a
            a = z3.simplify(zi(a)) if not isinstance(a, (int, type(None))) else a
            if isinstance(a, int) and not isinstance(a, bool) and a >= REG_BASE and a < REG_BASE * 4:
                r = (a - REG_BASE) // engine.REG_SIZE
                t = dict(st.ghost.get('$names', ()))
                if r not in t:
                    t[r] = len(t)
                    st.ghost['$names'] = tuple(t.items())
                return ('region', t[r], (a - REG_BASE) % engine.REG_SIZE)
            return a

        def key(x):
            return x if isinstance(x, tuple) else str(x)

        def result(st, nm, ty):
            k = getattr(ty, 'k', 'void')
            if k == 'void':
                return None
            if k == 'ptr':
                v = z3.Int(nm)
                st.assume(z3.And(v >= 0, v < PRE_MAX))
                return v
            if k == 'int':
                if ty.w == 1:
                    return z3.Bool(nm)
                v = z3.Int(nm)
                st.assume(z3.And(v >= 0, v < (1 << ty.w)))
                return v
            raise Unsupported('result of a call: ' + str(k))

        def call(ex, st, what, args, inst, quiet, pure):
            args = tuple(canon(st, a) for a in args if a is not None)
            n = len(st.ghost.get('$calls', ()))
            nm = '%s@%d' % (what, n)
            if pure:
                nm += '(%s)' % ','.join(str(key(a)) for a in args)
            else:
                st.ghost['$calls'] = tuple(st.ghost.get('$calls', ())) + ((what, args),)
            outs = []
            if not quiet:
                s2 = st.copy()
                t = z3.Bool('throws ' + nm)
                s2.assume(t)
                st.assume(z3.Not(t))
                outs.append(Out('throw', s2, STD))
            outs.append(Out('ret', st, result(st, 'result ' + nm, inst.ty)))
            return outs

        def h(ex, st, args, inst, dem):
            name = back.get(dem, dem)
            if dem.startswith('operator delete'):
                r = canon(st, args[0])
                st.ghost['$freed'] = tuple(st.ghost.get('$freed', ())) + (r,)
                return [Out('ret', st, None)]
            if re.match(r'operator new(\[\])?\(unsigned long\)', dem):
                if self.oom:
                    return [Out('throw', st, ('std', '_ZTISt9bad_alloc'))]
                a = p.ex.new_region('new')
                st.ghost['$regs'] = tuple(st.ghost.get('$regs', ())) + ((a - REG_BASE) // engine.REG_SIZE,)
                st.ghost['$made'] = tuple(st.ghost.get('$made', ())) + (canon(st, a),)
                return [Out('ret', st, a)]
            if name in m.funcs and not ORACLE.match(dem):
                return NotImplemented
            if dem == 'dynamix::object::clear()':
                sealed = zi(p.ld(st, 1, ladd(args[0], p.k.ob_sealed))) != 0
                s2 = st.copy()
                s2.assume(sealed)
                st.assume(z3.Not(sealed))
                st.ghost['$calls'] = tuple(st.ghost.get('$calls', ())) + ((dem, tuple(canon(st, a) for a in args)),)
                return [Out('throw', s2, STD), Out('ret', st, None)]
            return call(ex, st, dem, args, inst, nounwind(name), dem.endswith(') const') and nounwind(name))
        p.ex.contracts.insert(0, (PLAIN, h))
        p.ex.indirect = lambda ex, st, fp, vals, inst: call(ex, st, 'the function', (fp,) + tuple(vals), inst, True, False)
        self.canon = canon


def inputs(p, sig):
    a = []
    for i, c in enumerate(sig):
        n = 'a%d' % i
        if c in 'hp':
            a.append(p.ptr(n))
        elif c == 'n':
            v = p.u(n, 48)
            p.assume(v < PRE_MAX)
            p.ex.mark_pre(v)
            a.append(v)
        elif c == 's':
            a += [p.ptr(n + '_name', nonnull=False), p.u(n + '_len', 62)]
        elif c == 't':
            a.append(p.u(n, 24))
        else:
            a.append(p.u(n, 8 * int(c)))
    return a


def same_value(w, sa, a, sb, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    a, b = w.canon(sa, a), w.canon(sb, b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return z3.BoolVal(a == b)
    if isinstance(a, bool) or z3.is_bool(a) or isinstance(b, bool) or z3.is_bool(b):
        return b8(a) == b8(b)
    return zi(a) == zi(b)


def parity(p, name, sig, rel):
    w = World(p)
    args = inputs(p, sig)
    for a in (p.k.ob_sealed,) if name.startswith('object_') or name.startswith('create_object') else ():
        p.assume(z3.Select(p.M(1), args[0] + a) <= 1, z3.Select(p.M(1), args[0] + a) >= 0)
    cs = p.call('dnmx_' + name, args)
    xs = p.call('x_' + name, args)
    p.cover([o for o in cs if o.kind == 'ret'])
    for c in cs:
        for x in xs:
            st = c.st.copy()
            for f in x.st.pc:
                st.assume(f)
            if not p.ex.feasible(st):
                continue
            cc, xc = c.st.ghost.get('$calls', ()), x.st.ghost.get('$calls', ())
            ok = len(cc) == len(xc) and all(n == m and len(u) == len(v) for (n, u), (m, v) in zip(cc, xc))
            p.prove(st, z3.BoolVal(ok), 'the operations performed')
            if ok:
                for (n, u), (m, v) in zip(cc, xc):
                    p.prove(st, z3.And([same_value(w, c.st, a, x.st, b) for a, b in zip(u, v)] + [z3.BoolVal(True)]), 'the arguments of ' + re.sub(r'\(.*', '', n))
            p.prove(st, z3.BoolVal(c.st.ghost.get('$freed', ()) == x.st.ghost.get('$freed', ()) and c.st.ghost.get('$made', ()) == x.st.ghost.get('$made', ())), 'memory is allocated and freed alike')
            a = z3.Int('adr')
            for wd in sorted(set(c.st.mem) & set(x.st.mem)):
                mc, mx = p.M(wd, c.st), p.M(wd, x.st)
                if not mc.eq(mx):
                    p.prove(st, z3.ForAll([a], z3.Implies(z3.And(a >= 4096, a < PRE_MAX), z3.Select(mc, a) == z3.Select(mx, a))), 'the memory written')
            if x.kind == 'throw':
                if rel in ('void', 'same'):
                    p.prove(st, z3.BoolVal(c.kind == 'throw'), 'the exception is passed on')
                elif c.kind == 'throw':
                    p.prove(st, False, 'no exception escapes')
                elif rel == 'int':
                    p.prove(st, zi(first(p, c.st, c.val, 'v_error')) != 0, 'reports the error')
                elif rel == 'err':
                    p.prove(st, zi(c.val) != 0, 'reports the error')
                elif rel == 'ptr0':
                    p.prove(st, same_value(w, c.st, c.val, x.st, 0), 'null for an error')
                else:
                    p.prove(st, z3.Not(b8(c.val)), 'false for an error')
            elif c.kind == 'throw':
                p.prove(st, False, 'no exception of its own')
            elif rel == 'void':
                pass
            elif rel == 'err':
                p.prove(st, zi(c.val) == 0, 'reports success')
            elif rel == 'done':
                p.prove(st, b8(c.val), 'reports success')
            elif rel == 'int':
                p.prove(st, zi(first(p, c.st, c.val, 'v_error')) == 0, 'reports success')
                p.prove(st, zi(first(p, c.st, c.val, 'v_result')) == zi(x.val), 'the result')
            else:
                p.prove(st, same_value(w, c.st, c.val, x.st, x.val), 'the result')


def first(p, st, v, entry):
    o = p.call(entry, [v], st)
    return o[0].val


def out_of_memory(p, name, sig):
    """the allocation of the new object fails: reported, nothing else happened"""
    World(p, oom=True)
    outs = p.nothrow(p.call('dnmx_' + name, inputs(p, sig)), 'no exception escapes')
    p.cover(outs)
    for o in outs:
        p.prove(o.st, zi(o.val) == 0, 'null when the memory runs out')


def allocator(p):
    """a mixin allocator of C functions calls exactly these"""
    World(p)
    fa, fd, info, buf = p.ptr('alloc'), p.ptr('dealloc'), p.ptr('info'), p.ptr('buf')
    a = p.nothrow(p.call('v_make_alloc', [fa, fd]))
    p.cover(a)
    for o in a:
        n = len(o.st.ghost.get('$calls', ()))
        outs = p.call('v_alloc', [o.val, info], o.st)
        p.cover([q for q in outs if q.kind == 'ret'])
        for q in outs:
            c = q.st.ghost.get('$calls', ())[n:]
            ok = len(c) == 1 and c[0][0] == 'the function'
            p.prove(q.st, z3.BoolVal(ok), 'allocates by one call')
            if ok:
                p.prove(q.st, z3.And(zi(c[0][1][0]) == fa, zi(c[0][1][1]) == info), 'the allocation function, for this mixin')
            r = z3.Int('result the function@%d' % n)
            if q.kind == 'ret':
                p.prove(q.st, z3.And(zi(q.val) == r, r != 0), 'the buffer')
            else:
                p.prove(q.st, r == 0, 'throws only when there is no buffer')
                p.prove(q.st, z3.BoolVal(q.val[0] == 'std'), 'a standard exception')
        outs = p.nothrow(p.call('v_dealloc', [o.val, buf, info], o.st))
        p.cover(outs)
        for q in outs:
            c = q.st.ghost.get('$calls', ())[n:]
            ok = len(c) == 1 and c[0][0] == 'the function' and len(c[0][1]) == 3
            p.prove(q.st, z3.BoolVal(ok), 'deallocates by one call')
            if ok:
                p.prove(q.st, z3.And(zi(c[0][1][0]) == fd, zi(c[0][1][1]) == buf, zi(c[0][1][2]) == info), 'the deallocation function, for this buffer and mixin')


def verify(s):
    for ln in F.strip().split('\n'):
        name, sig, rel = ln.split()
        s.contract('dnmx_' + name, D, 'dnmx_' + name, lambda p, a=(name, sig, rel): parity(p, *a))
        if rel == 'ptr0' and name.startswith('create_'):
            s.contract('dnmx_%s (out of memory)' % name, D, 'dnmx_' + name, lambda p, a=(name, sig): out_of_memory(p, *a))
    s.contract('dnmx_create_mixin_allocator', D, 'v_make_alloc', allocator)
LEVEL = 'other'
NOTE = 'dnmx_mutate and dnmx_mutate_to (loops over operations and overrides) are bounded, all other C functions are proved'
