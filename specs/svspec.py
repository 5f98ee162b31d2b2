"""Spec functions on byte strings (shared by several properties)."""
import z3
from lib import *
import engine
from engine import fd_term


def sv_pre(p, b, e, st=None):
    """a well-formed view: begin <= end, null begin only if empty"""
    st = st or p.st0
    p.ex.mark_pre(b, e)
    st.assume(z3.And(b >= 0, b <= e, e < PRE_MAX))
    st.assume(z3.Implies(b == 0, e == 0))


def lex(p, st, a, b, c, d):
    """three-way lexicographic order of [a,b) and [c,d) as unsigned bytes: (lt, eq)"""
    n1, n2 = ladd(b, a, -1), ladd(d, c, -1)
    mn = z3.If(zi(n1) < zi(n2), zi(n1), zi(n2))
    f, arr = fd_term(p.ex, st, a, c, mn)
    A, B = z3.Select(arr, zi(a) + f), z3.Select(arr, zi(c) + f)
    lt = z3.If(f < mn, A < B, zi(n1) < zi(n2))
    eq = z3.And(f == mn, zi(n1) == zi(n2))
    return lt, eq


def eqbytes(p, st, a, b, c, d):
    """same length and the same bytes (quantified form)"""
    arr = p.M(1, st)
    i = z3.Int('i!eb')
    return z3.And(zi(b) - zi(a) == zi(d) - zi(c),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(b) - zi(a)), z3.Select(arr, zi(a) + i) == z3.Select(arr, zi(c) + i))))


BEQ = z3.Function('BEQ', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
BLT = z3.Function('BLT', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())


def beq(a, b, n):
    """the n bytes at a and at b are the same (an abstract predicate on unchanging memory)"""
    a, b, n = zi(a), zi(b), zi(n)
    return z3.Or(n == 0, BEQ(z3.If(a <= b, a, b), z3.If(a <= b, b, a), n))


def abstract_bytes(p):
    """memcmp by contract: zero exactly when the bytes are the same (beq).  The strings are in the
    pre-state and never written to: checked at each call"""
    def h(ex, st, args, inst, dem):
        a, b, n = args
        if any(not is_c(x) and ex.klass(x) and ex.klass(x)[0] == 'r' or is_c(x) and x >= PRE_MAX for x in (a, b)):
            return NotImplemented
        node = st.mem[1]
        while not isinstance(node, engine.Base):
            ds = [] if not isinstance(node, engine.HavocN) else node.descs
            if isinstance(node, engine.StoreN) and ex.private(node.addr) is None or isinstance(node, (engine.CopyN, engine.FillN)) and ex.private(node.dst) is None or \
                    any(not isinstance(d, engine.RegionD) and not (isinstance(d, engine.Cell) and ex.private(d.addr) is not None) for d in ds):
                raise Unsupported('string memory is written')
            node = node.prev
        ex.prove_pre(st, bor(cmp('eq', n, 0), band(cmp('ne', a, 0), cmp('ne', b, 0))), 'memcmp: null argument')
        return [Out('ret', st, z3.If(beq(a, b, n), z3.IntVal(0), z3.If(BLT(zi(a), zi(b), zi(n)), z3.IntVal((1 << 32) - 1), z3.IntVal(1))))]
    p.ex.contracts.insert(0, (r'^(memcmp|bcmp)$', h))


def sveq(b1, e1, b2, e2):
    n = zi(e1) - zi(b1)
    return z3.And(n == zi(e2) - zi(b2), beq(b1, b2, n))
