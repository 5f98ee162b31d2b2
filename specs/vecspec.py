"""Contracts of the std::vector members which allocate (libstdc++ layout), for vectors of pointers.
Everything else of std::vector is executed from libstdc++'s own code."""
import z3
from lib import *
import engine
from engine import Unsupported

TRUST_V = ['std::vector<T*>::_M_realloc_insert, assign, range insert/construct (the growing paths): new contents as specified by the standard, or an exception and no change',
           'std::remove_if (vector of pointers): stable filter']
VEC = r'std::vector<[^<>]*\*( const)?, [^:]*::[^(]*>::'


def voff(dem):
    return 8 if re.search(r'std::vector<[^<>]*, (std::pmr::polymorphic_allocator|dynamix::compat)', dem) else 0


def vec_contracts(p, oom=True):
    ex0 = p.ex

    def alloc(ex, st, n, outs):
        """fresh storage of n bytes (or an exception)"""
        if oom:
            s2 = st.copy()
            outs.append(Out('throw', s2, ('std', '_ZTISt9bad_alloc')))
        return new_storage(ex, st)

    def grow(ex, st, args, inst, dem):
        v, pos, val = (tuple(args) + (None,))[:3]
        off = voff(dem)
        ld = lambda a: ex.load(st, engine.IntTy(64), a)
        b, e = ld(ladd(v, off)), ld(ladd(v, off + 8))
        x = ld(val) if val is not None else 0
        outs = []
        r = alloc(ex, st, None, outs)
        k1, k2 = lsub(pos, b), lsub(e, pos)
        if not (is_c(k1) and k1 == 0):
            ex.memcpy(st, r, b, k1)
        if not (is_c(k2) and k2 == 0):
            ex.memcpy(st, ladd(ladd(r, k1), 8), pos, k2)
        w = lambda a, y: ex.store(st, engine.IntTy(64), a, y)
        w(ladd(r, k1), x)
        w(ladd(v, off), r)
        w(ladd(v, off + 8), ladd(r, ladd(lsub(e, b), 8)))
        w(ladd(v, off + 16), ladd(r, ladd(lsub(e, b), 8)))
        outs.append(Out('ret', st, None))
        return outs

    def assign(ex, st, args, inst, dem):
        v, f, l = args[:3]
        off = voff(dem)
        outs = []
        r = alloc(ex, st, None, outs)
        n = lsub(l, f)
        ex.memcpy(st, r, f, n)
        w = lambda a, y: ex.store(st, engine.IntTy(64), a, y)
        w(ladd(v, off), r)
        w(ladd(v, off + 8), ladd(r, n))
        w(ladd(v, off + 16), ladd(r, n))
        outs.append(Out('ret', st, None))
        return outs
    ex0.contracts += [(VEC + r'_M_realloc_insert<', grow), (VEC + r'(assign<|_M_assign_aux<)', assign),
                      (r'^std::pmr::memory_resource::deallocate\(', lambda ex, st, args, inst, dem: [Out('ret', st, None)])]


def new_storage(ex, st):
    r = ex.new_region('vector')
    st.ghost['$regs'] = tuple(st.ghost.get('$regs', ())) + ((r - REG_BASE) // engine.REG_SIZE,)
    return r


class Vec:
    """the vector at address v in a state"""
    def __init__(self, p, st, v, off=8):
        self.p, self.st = p, st
        self.b, self.e = p.ld(st, 8, v + off), p.ld(st, 8, v + off + 8)
        self.arr = p.M(8, st)

    def bytes(self):
        return zi(lsub(self.e, self.b))

    def at(self, i):
        return z3.Select(self.arr, zi(self.b) + 8 * i)


def vec_pre(p, v, tag='v', off=8):
    """a vector of n pointers in the pre-state"""
    b, n, cap = p.ptr(tag + '_b', nonnull=False), p.u(tag + '_n', 32), p.u(tag + '_cap', 32)
    p.assume(cap >= n, b + 8 * cap < PRE_MAX, z3.Implies(b == 0, cap == 0), z3.Or(b == 0, b >= 4096))
    if off:
        p.wr(8, v, p.ptr(tag + '_res'))
    p.wr(8, v + off, b)
    p.wr(8, v + off + 8, b + 8 * n)
    p.wr(8, v + off + 16, b + 8 * cap)
    j = z3.Int('j!v')
    el = lambda i: z3.Select(p.ex.base_arrs[8], b + 8 * i)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(el(j) >= 4096, el(j) < PRE_MAX))))
    return b, n, el
