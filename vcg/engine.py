"""Verification-condition generator: symbolic execution of LLVM IR against contracts.

* machine integers are mathematical integers in [0, 2^w) with exact wrap-around;
* memory is one map per access width (no cell is accessed with two widths: strict
  aliasing is assumed, except through memcpy/memset, which act on all widths);
* stack objects and fresh allocations live at addresses disjoint from every address of
  the pre-state (accesses stay inside of the object they were derived from: assumed
  unless a contract asks for footprint obligations);
* loops are cut: the cells/arrays written by the body are havocked, invariants are
  inferred (affine values over the iteration counter, the continuation condition of
  all earlier iterations) or proposed by the contract and kept only when inductive
  (Houdini).  No bound on the number of iterations.
* calls are inlined unless the callee (by demangled name) is under contract.
"""
import itertools
import re
import subprocess
import tempfile
import time
import os
import z3
from ir import Unsupported, get_func, IntTy, Ty, PTR, Toks, tokenize, parse_type, parse_value

PRE_MAX = 1 << 47
REG_BASE = 1 << 50
REG_SIZE = 1 << 40
FN_BASE = (1 << 49)
GL_BASE = (1 << 49) + (1 << 48)

_fid = itertools.count()
SYM_ID = {}     # z3 const ast id -> creation id


class ProofError(Exception):
    """contract violated / unsupported in a way which is about the code"""


def fresh(name, sort='int'):
    if isinstance(sort, z3.SortRef):
        if sort == z3.IntSort() or sort == z3.BoolSort():
            sort = 'int' if sort == z3.IntSort() else 'bool'
        else:
            c = z3.Const('%s!%d' % (name, next(_fid)), sort)
            _keep.append(c)
            return c
    i = next(_fid)
    n = f'{name}!{i}'
    if sort == 'int':
        c = z3.Int(n)
    elif sort == 'bool':
        c = z3.Bool(n)
    elif sort == 'arr':
        c = z3.Array(n, z3.IntSort(), z3.IntSort())
    elif sort == 'f64':
        c = z3.Const(n, F64)
    else:
        c = z3.Const(n, sort)
    return c


F64 = z3.DeclareSort('F64')
FFUN = {}


def ffun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in FFUN:
        FFUN[k] = z3.Function(name, *sorts)
    return FFUN[k]


def f2i(v):
    """bits of a floating-point value (a bijection)"""
    if z3.is_app(v) and v.decl().name() == 'i2f':
        return v.children()[0]
    return ffun('f2i', F64, z3.IntSort())(v)


def i2f(v):
    if z3.is_app(v) and v.decl().name() == 'f2i':
        return v.children()[0]
    return ffun('i2f', z3.IntSort(), F64)(v)


def is_c(x):
    return isinstance(x, (int, bool)) and not isinstance(x, z3.AstRef)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- linear forms
_lin = {}
_keep = []


def lin(e):
    """({atom_id: (coef, atom)}, const)"""
    if isinstance(e, int):
        return {}, e
    k = e.get_id()
    r = _lin.get(k)
    if r is not None:
        return r
    d = e.decl().kind() if z3.is_app(e) else None
    if z3.is_int_value(e):
        r = ({}, e.as_long())
    elif d == z3.Z3_OP_ADD:
        t, c = {}, 0
        for ch in e.children():
            t2, c2 = lin(ch)
            c += c2
            for i, (co, a) in t2.items():
                co2 = t.get(i, (0, a))[0] + co
                if co2:
                    t[i] = (co2, a)
                else:
                    t.pop(i, None)
        r = (t, c)
    elif d == z3.Z3_OP_SUB:
        ch = e.children()
        t, c = lin(ch[0])
        t = dict(t)
        for x in ch[1:]:
            t2, c2 = lin(x)
            c -= c2
            for i, (co, a) in t2.items():
                co2 = t.get(i, (0, a))[0] - co
                if co2:
                    t[i] = (co2, a)
                else:
                    t.pop(i, None)
        r = (t, c)
    elif d == z3.Z3_OP_UMINUS:
        t, c = lin(e.children()[0])
        r = ({i: (-co, a) for i, (co, a) in t.items()}, -c)
    elif d == z3.Z3_OP_MUL:
        ch = e.children()
        ls = [lin(x) for x in ch]
        k2 = 1
        rest = []
        for x, l in zip(ch, ls):
            if not l[0]:
                k2 *= l[1]
            else:
                rest.append(l)
        if len(rest) == 0:
            r = ({}, k2)
        elif len(rest) == 1:
            t, c = rest[0]
            r = ({i: (co * k2, a) for i, (co, a) in t.items()} if k2 else {}, c * k2)
        else:
            r = ({e.get_id(): (1, e)}, 0)
    else:
        r = ({e.get_id(): (1, e)}, 0)
    _keep.append(e)
    _lin[k] = r
    return r


def unlin(t, c):
    if not t:
        return c
    parts = []
    for i, (co, a) in t.items():
        parts.append(a if co == 1 else z3.IntVal(co) * a)
    if c:
        parts.append(z3.IntVal(c))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


def ladd(a, b, sb=1):
    t, c = lin(a)
    t2, c2 = lin(b)
    if not t2:
        if not t:
            return c + sb * c2
    t = dict(t)
    for i, (co, x) in t2.items():
        n = t.get(i, (0, x))[0] + sb * co
        if n:
            t[i] = (n, x)
        else:
            t.pop(i, None)
    return unlin(t, c + sb * c2)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, b):
    ta, ca = lin(a)
    tb, cb = lin(b)
    if not ta:
        ta, ca, tb, cb = tb, cb, ta, ca
    if not tb:
        if cb == 0:
            return 0
        return unlin({i: (co * cb, x) for i, (co, x) in ta.items()}, ca * cb)
    return zi(a) * zi(b)


def forall(j, q, pats=None):
    if pats:
        try:
            return z3.ForAll([j], q, patterns=pats)
        except z3.Z3Exception:      # not every term may be a pattern
            pass
    return z3.ForAll([j], q)


def mkbool(e):
    """z3 bool -> python bool where decided syntactically"""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def cmp(op, a, b):
    d = lsub(a, b)
    if isinstance(d, int):
        return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[op]
    # compare d's non-constant part against the constant
    t, c = lin(d)
    pos = unlin({i: x for i, x in t.items() if x[0] > 0}, max(c, 0))
    neg = unlin({i: (-x[0], x[1]) for i, x in t.items() if x[0] < 0}, max(-c, 0))
    pos, neg = zi(pos), zi(neg)
    return {'eq': pos == neg, 'ne': pos != neg, 'lt': pos < neg, 'le': pos <= neg, 'gt': pos > neg, 'ge': pos >= neg}[op]


def band(*xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(ys)


def bor(*xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(ys)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.children()[0]
    return z3.Not(x)


def bimp(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return bnot(a)
    return z3.Implies(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_c(a) and is_c(b) and a == b and type(a) == type(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    return z3.If(c, zi(a), zi(b))


def has_quant(e, cache={}):
    if isinstance(e, bool):
        return False
    k0 = e.get_id()
    r = cache.get(k0)
    if r is not None:
        return r[0]
    # post order over the subterms not seen yet
    stack = [(k0, e, False)]
    while stack:
        k, x, done = stack.pop()
        if not done and k in cache:
            continue
        if z3.is_quantifier(x):
            cache[k] = (True, x)
            continue
        r = _nodes.get(k) or node_info(x, k)
        if done or not r[1]:
            cache[k] = (any(cache[c][0] for c, _ in r[1]), x)
        else:
            stack.append((k, x, True))
            stack.extend((c, y, False) for c, y in r[1] if c not in cache)
    return cache[k0][0]


_symc = {}


def syms(e):
    """set of names of uninterpreted constants in e"""
    if is_c(e):
        return frozenset()
    k = e.get_id()
    r = _symc.get(k)
    if r is not None:
        return r[0]
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_app(x):
            stack.extend(x.children())
    out = frozenset(out)
    _symc[k] = (out, e)
    return out


def sym_id(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else -1


def fresh_bits(st, w):
    v = fresh('bytes')
    st.assume(z3.And(v >= 0, v < (1 << (8 * w))))
    return v


COMP = {}     # value -> the parts it was put together from: (bit position, bits, part)


def comp(v):
    r = COMP.get(v.get_id()) if not is_c(v) and z3.is_int(v) else None
    return r[1] if r else None


def compose(parts):
    v = 0
    for p, n, x in parts:
        v = ladd(v, lmul(x, 1 << p))
    if not is_c(v):
        COMP[v.get_id()] = (v, tuple(parts))
    return v


def part(v, lo, n):
    """bits [lo, lo+n) of a put together value when its parts give them, else None"""
    ps = comp(v)
    if ps is None:
        return None
    got = []
    for p, m, x in ps:
        if p + m <= lo or p >= lo + n:
            continue
        if p >= lo and p + m <= lo + n:
            got.append((p - lo, m, x))
        elif is_c(x):
            a, b = max(p, lo), min(p + m, lo + n)
            got.append((a - lo, b - a, (x >> (a - p)) % (1 << (b - a))))
        else:
            if x.get_id() == v.get_id():
                return None
            y = part(x, max(lo - p, 0), min(p + m, lo + n) - max(p, lo))
            if y is None:
                return None
            got.append((max(p - lo, 0), min(p + m, lo + n) - max(p, lo), y))
    if len(got) == 1 and got[0][0] == 0:
        return got[0][2]
    return compose(got)


def bits_of(v, lo, n, w, st):
    """bits [lo, lo+n) of the unsigned w-bit value v"""
    if is_c(v):
        return (v >> lo) % (1 << n)
    if lo == 0 and n == w:
        return v
    q = part(v, lo, n)
    if q is not None:
        return q
    # a sum of parts, as composed by load_pun: drop the parts below and above
    t, c = lin(v)
    if lo == 0 and all(x[0] % (1 << n) == 0 for x in t.values()):
        return c % (1 << n)
    r = fresh('bits')
    hi = fresh('bits')
    low = fresh('bits')
    st.assume(z3.And(r >= 0, r < (1 << n), low >= 0, low < (1 << lo), hi >= 0, hi < (1 << (w - lo - n)),
                     zi(v) == low + r * (1 << lo) + hi * (1 << (lo + n))))
    return r


# ---------------------------------------------------------------- memory
class Base:
    __slots__ = ('arr', 'w')

    def __init__(self, arr, w):
        self.arr, self.w = arr, w


class StoreN:
    __slots__ = ('prev', 'addr', 'val', 'z', 'w')

    def __init__(self, prev, addr, val):
        self.prev, self.addr, self.val, self.w = prev, addr, val, prev.w
        self.z = None


class HavocN:
    """all cells described by descs have unknown values (given by arr)"""
    __slots__ = ('prev', 'arr', 'descs', 'w', 'z')

    def __init__(self, prev, arr, descs):
        self.prev, self.arr, self.descs, self.w = prev, arr, descs, prev.w
        self.z = None


class CopyN:
    """cells [dst, dst+n) take the values of [src, src+n) in node srcnode"""
    __slots__ = ('prev', 'dst', 'src', 'n', 'srcnode', 'w', 'z')

    def __init__(self, prev, dst, src, n, srcnode):
        self.prev, self.dst, self.src, self.n, self.srcnode, self.w = prev, dst, src, n, srcnode, prev.w
        self.z = None


class FillN:
    __slots__ = ('prev', 'dst', 'n', 'val', 'w', 'z')

    def __init__(self, prev, dst, n, val):
        self.prev, self.dst, self.n, self.val, self.w = prev, dst, n, val, prev.w
        self.z = None


class Cell:
    def __init__(self, w, addr):
        self.w, self.addr = w, addr

    def isin(self, x):
        return cmp('eq', x, self.addr)

    def key(self):
        return ('cell', self.w, str(self.addr))

    def terms(self):
        return [self.addr]


class Interval:
    """addresses in [lo, hi)"""
    def __init__(self, w, lo, hi):
        self.w, self.lo, self.hi = w, lo, hi

    def isin(self, x):
        return band(cmp('ge', x, self.lo), cmp('lt', x, self.hi))

    def key(self):
        return ('int', self.w, str(self.lo), str(self.hi))

    def terms(self):
        return [self.lo, self.hi]


class RegionD:
    def __init__(self, w, rid):
        self.w, self.rid = w, rid
        self.lo = REG_BASE + rid * REG_SIZE

    def isin(self, x):
        return band(cmp('ge', x, self.lo), cmp('lt', x, self.lo + REG_SIZE))

    def key(self):
        return ('reg', self.w, self.rid)

    def terms(self):
        return []


class SpecSet:
    """a set of addresses given by the contract (pred: address -> formula)"""
    def __init__(self, w, name, pred, bases):
        self.w, self.name, self.pred = w, name, pred
        self.lo = None
        self.rids = [(b - REG_BASE) // REG_SIZE for b in bases]    # all in these stack regions

    def isin(self, x):
        return z3.And(self.pred(zi(x)), z3.Or([z3.And(zi(x) >= REG_BASE + r * REG_SIZE, zi(x) < REG_BASE + (r + 1) * REG_SIZE) for r in self.rids]))

    def key(self):
        return ('spec', self.w, self.name)

    def terms(self):
        return []


class HeapAll:
    """every address of the pre-state heap"""
    def __init__(self, w):
        self.w = w

    def isin(self, x):
        return cmp('lt', x, REG_BASE)

    def key(self):
        return ('heap', self.w)

    def terms(self):
        return []


WIDTHS = (1, 2, 4, 8)


class State:
    __slots__ = ('pc', 'mem', 'ghost', 'wlog', 'exc', 'trace', 'cfacts', 'slots')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.ghost = {}
        self.wlog = []
        self.exc = []
        self.trace = []
        self.cfacts = set()
        self.slots = {}     # 8-byte slots of private objects: the stores which make up their bytes

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.wlog = list(self.wlog)
        s.exc = list(self.exc)
        s.trace = list(self.trace)
        s.cfacts = set(self.cfacts)
        s.slots = dict(self.slots)
        return s

    def assume(self, f):
        if f is True:
            return
        if f is False:
            self.pc.append(z3.BoolVal(False))
            return
        i = f.get_id()
        if i in self.cfacts:
            return
        self.cfacts.add(i)
        self.pc.append(f)


class Out:
    __slots__ = ('kind', 'st', 'val', 'env', 'frm', 'to')

    def __init__(self, kind, st, val=None, env=None, frm=None, to=None):
        self.kind, self.st, self.val, self.env, self.frm, self.to = kind, st, val, env, frm, to


def intro(g, hyps=()):
    """split a goal: [(hypotheses, atomic goal)]"""
    hyps = list(hyps)
    if z3.is_and(g):
        out = []
        for c in g.children():
            out.extend(intro(c, hyps))
        return out
    if z3.is_implies(g):
        a, b = g.children()
        return intro(b, hyps + conj(a))
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const(g.var_name(i) + '!s%d' % next(_fid), g.var_sort(i)) for i in range(g.num_vars())]
        return intro(z3.substitute_vars(g.body(), *reversed(vs)), hyps)
    if z3.is_not(g):
        c = g.children()[0]
        if z3.is_or(c):
            return intro(z3.And([z3.Not(x) for x in c.children()]), hyps)
        if z3.is_not(c):
            return intro(c.children()[0], hyps)
        if z3.is_implies(c):
            a, b = c.children()
            return intro(a, hyps) + intro(z3.Not(b), hyps)
    if z3.is_eq(g) and z3.is_bool(g.children()[0]) and has_quant(g):
        a, b = g.children()
        return intro(z3.Implies(a, b), hyps) + intro(z3.Implies(b, a), hyps)
    if z3.is_or(g) and has_quant(g):
        ch = g.children()
        q = [c for c in ch if has_quant(c)]
        rest = [c for c in ch if not has_quant(c)]
        if len(q) == 1:
            return intro(q[0], hyps + [z3.Not(c) for c in rest])
    return [(hyps, g)]


def conj(a):
    if z3.is_and(a):
        return [y for x in a.children() for y in conj(x)]
    if z3.is_not(a):
        c = a.children()[0]
        if z3.is_or(c):
            return [y for x in c.children() for y in conj(z3.Not(x))]
        if z3.is_not(c):
            return conj(c.children()[0])
        if z3.is_implies(c):
            p, q = c.children()
            return conj(p) + conj(z3.Not(q))
        if z3.is_quantifier(c) and c.is_forall():
            vs = [z3.Const(c.var_name(i) + '!k%d' % next(_fid), c.var_sort(i)) for i in range(c.num_vars())]
            return conj(z3.Not(z3.substitute_vars(c.body(), *reversed(vs))))
    if z3.is_quantifier(a) and a.is_exists():
        vs = [z3.Const(a.var_name(i) + '!k%d' % next(_fid), a.var_sort(i)) for i in range(a.num_vars())]
        return conj(z3.substitute_vars(a.body(), *reversed(vs)))
    return [a]


_nodes = {}


def node_info(x, i):
    """(the term can be matched, children) of a term, computed once"""
    term, ch = False, ()
    if z3.is_app(x):
        n = x.num_args()
        if n:
            k = x.decl().kind()
            term = k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and n <= 2)
            ch = tuple((c.get_id(), c) for c in x.children())
    r = _nodes[i] = (term, ch, x)
    return r


def selects(e, out, seen, bound=False):
    st = [(e.get_id(), e)]
    get = _nodes.get
    while st:
        i, x = st.pop()
        if i in seen:
            continue
        seen.add(i)
        r = get(i) or node_info(x, i)
        if r[0]:
            out.append(r[2])
        st.extend(r[1])


def _has_var(e, cache={}):
    k = e.get_id()
    r = cache.get(k)
    if r is not None:
        return r[0]
    if z3.is_var(e):
        v = True
    elif z3.is_quantifier(e):
        v = True
    else:
        v = any(_has_var(c) for c in e.children())
    cache[k] = (v, e)
    return v


def qpatterns(q, cache={}):
    """[(kind, base, stride)] address patterns of the bound variable in a one variable quantifier"""
    k = q.get_id()
    if k in cache:
        return cache[k][0]
    body = q.body()
    sel = []
    if q.num_patterns():
        for n in range(q.num_patterns()):
            sel += q.pattern(n).children()
    else:
        selects(body, sel, set())
    pats = []
    for x in sel:
        fn = x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else 'select'
        idx = x.children()[1] if fn == 'select' else None
        if idx is not None and z3.is_bool(x):
            fn = 'select?'     # ghost arrays of truth values
        cands = [idx] if idx is not None else list(x.children())
        for pos, ix in enumerate(cands):
            if not z3.is_int(ix) or not _has_var(ix):
                continue
            t, c = lin(ix)
            vs = [(co, a) for co, a in t.values() if _has_var(a)]
            if len(vs) != 1 or not z3.is_var(vs[0][1]):
                continue
            base = ({i: v for i, v in t.items() if not _has_var(v[1])}, c)
            pats.append((fn, pos, base, vs[0][0], arr_width(x.children()[0]) if idx is not None else None, z3.get_var_index(vs[0][1])))
    seen = set()
    out = []
    for p in pats:
        key = (p[0], p[1], tuple(sorted((i, v[0]) for i, v in p[2][0].items())), p[2][1], p[3], p[4], p[5])
        if key not in seen:
            seen.add(key)
            out.append(p)
    cache[k] = (out, q)
    return out


def partial_vars(q, cache={}):
    """variables of a two variable quantifier to instantiate first: the other one has no pattern of
    its own, only below terms of this one"""
    k = q.get_id()
    if k not in cache:
        have = {p[5] for p in qpatterns(q)}
        cache[k] = ({v for v in (0, 1) if (1 - v) not in have}, q)
    return cache[k][0]


_tinfo = {}


def arr_width(a, cache={}):
    """width of the memory an array term stands for (None: unknown)"""
    k = a.get_id()
    if k in cache:
        return cache[k][0]
    x = a
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
        x = x.children()[0]
    r = None
    if z3.is_const(x) and not z3.is_var(x):
        m = re.match(r'[ML](\d+)(!|$)', x.decl().name())
        if m:
            r = int(m.group(1))
    cache[k] = (r, a)
    return r


def term_info(t):
    k = t.get_id()
    r = _tinfo.get(k)
    if r is None:
        if t.decl().kind() == z3.Z3_OP_SELECT:
            a, ix = t.children()[:2]
            r = ('select?' if z3.is_bool(t) else 'select', [lin(ix) if z3.is_int(ix) else None], arr_width(a), t)
        else:
            r = (t.decl().name(), [lin(ix) if z3.is_int(ix) else None for ix in t.children()], None, t)
        _tinfo[k] = r
    return r


_inst = {}


def instances(qf, quant, goal, rounds=3, limit=400):
    """instances of the one-variable quantified facts for the select terms of the query, matching
    indices modulo linear arithmetic"""
    qs = []
    pending = list(quant)
    while pending:
        x = pending.pop()
        if z3.is_quantifier(x) and x.is_forall():
            if x.num_vars() <= 2 and all(x.var_sort(i) == z3.IntSort() for i in range(x.num_vars())):
                qs.append((x, None))
        elif z3.is_and(x):
            pending.extend(x.children())
        elif z3.is_implies(x) and z3.is_quantifier(x.children()[1]) and not has_quant(x.children()[0]):
            y = x.children()[1]
            if y.is_forall() and y.num_vars() <= 2 and all(y.var_sort(i) == z3.IntSort() for i in range(y.num_vars())):
                qs.append((y, x.children()[0]))
    if not qs:
        return []
    out = []
    done = set()
    terms = []
    byfn, nby = {}, 0
    seen = set()
    for f in [goal] + list(reversed(qf)):
        if not isinstance(f, bool):
            selects(f, terms, seen)
    vals2 = {}
    start = 0
    fresh_q = False
    known_q = {}
    for _ in range(rounds):
        start0 = start
        new = terms[start:]
        start = len(terms)
        if not new and not fresh_q:
            break
        more = []
        fresh_q = False
        pos0 = {fn: len(v) for fn, v in byfn.items()}
        for t in terms[nby:]:
            r = term_info(t)
            byfn.setdefault(r[0], []).append(r)
        nby = len(terms)
        for q, guard in list(qs):
            qid = q.get_id()
            if qid not in known_q:
                known_q[qid] = q
                first = True
            else:
                first = False
            two = q.num_vars() == 2
            if two and q not in vals2:
                vals2[q] = ({}, {}, set())
            for fn, pos, (bt, bc), co, wd, vi in qpatterns(q):
                new = byfn.get(fn, ())
                for t in (new if first else new[pos0.get(fn, 0):]):
                    tn, ixs, tw, _ = t
                    if pos >= len(ixs) or ixs[pos] is None or (wd and tw and wd != tw):
                        continue
                    it, ic = ixs[pos]
                    c = ic - bc
                    if c % co:
                        continue
                    tt = dict(it)
                    for i, (cf, x) in bt.items():
                        n = tt.get(i, (0, x))[0] - cf
                        if n:
                            tt[i] = (n, x)
                        else:
                            tt.pop(i, None)
                    if any(v[0] % co for v in tt.values()):
                        continue
                    key = (qid, c // co, tuple(sorted((i, v[0] // co) for i, v in tt.items()))) + ((vi,) if two else ())
                    if key in done:
                        continue
                    done.add(key)
                    val = unlin({i: (v[0] // co, v[1]) for i, v in tt.items()}, c // co)
                    _keep.append(val)
                    if two:
                        if len(vals2[q][vi]) < 14:
                            vals2[q][vi][key[1:3]] = val
                            # the fact for this value of one variable: a fact about the other
                            if vi in partial_vars(q):
                                nm = z3.Int('q!p')
                                b = z3.substitute_vars(q.body(), *((zi(val), nm) if vi == 0 else (nm, zi(val))))
                                if not has_quant(b):
                                    qs.append((z3.ForAll([nm], b), guard))
                                    fresh_q = True
                        continue
                    ik = (qid, key[1:], guard.get_id() if guard is not None else None)
                    e = _inst.get(ik)
                    if e is None:
                        e = z3.substitute_vars(q.body(), zi(val))
                        if guard is not None:
                            e = z3.Implies(guard, e)
                        e = _inst[ik] = (None if has_quant(e) else e, q, guard, [x for _, x in tt.values()])
                    e = e[0]
                    if e is None:
                        continue
                    more.append(e)
                    if len(out) + len(more) > limit:
                        return out + more
            if two:
                v0, v1, dn = vals2[q]
                for k0, a in v0.items():
                    for k1, b in v1.items():
                        if (k0, k1) in dn:
                            continue
                        dn.add((k0, k1))
                        e = z3.substitute_vars(q.body(), zi(a), zi(b))
                        if guard is not None:
                            e = z3.Implies(guard, e)
                        if not has_quant(e):
                            more.append(e)
        for e in more:
            selects(e, terms, seen)
        out.extend(more)
        if len(out) > limit:
            break
    return out


class LoopCtx:
    """what a contract's candidate generator sees of a loop"""
    def __init__(self, ex, fn, header, depth):
        self.ex, self.fn, self.header, self.depth = ex, fn, header, depth


TIME_SCALE = 1      # > 1 in a second attempt at a contract which failed (a loaded machine)


class Engine:
    def __init__(self, module, contracts=(), timeout=6000, log=None):
        self.m = module
        self.contracts = list(contracts)   # [(regex, handler)]
        self.by_name = {}
        self.cands = []                    # candidate generators
        self.timeout = timeout
        self.regions = itertools.count()
        self.fnaddr = {}
        self.addrfn = {}
        self.gladdr = {}
        self.obls = []        # (name, status, detail, time)
        self.dry = 0
        self.inlined = {}     # demangled name -> times
        self.assumed = {}     # contract used -> times
        self.loops = {}       # (fn, header) -> info
        self.qtime = 0.0
        self.nq = 0
        self.pre_atoms = set()
        self.base = {}
        self.base_arrs = {}
        self._vcache = {}
        self.backend = {}
        self.depth = 0
        self.max_depth = 60
        self.steps = 0
        self.max_steps = 400000
        self.region_sz = {}
        self.deadline = None
        self.indirect = None
        self.ginit = {}
        self.footprint = None
        self.unroll_max = 64
        self.cand_timeout = 1500
        self.inst_limit = 400
        self.write_sets = []
        self.float_arrs = {}
        for w in WIDTHS:
            a = z3.Array(f'M{w}', z3.IntSort(), z3.IntSort())
            self.base_arrs[w] = a

    # ------------------------------------------------------------ solver
    def solve(self, facts, goal, timeout=None, qf=False):
        """True if facts => goal, False if refuted (sat), None unknown"""
        if goal is True:
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        self.check_time()
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', int((timeout or self.timeout) * TIME_SCALE))
        fs = [f for f in facts if not has_quant(f)] if qf else facts
        s.add(*fs)
        s.add(z3.Not(goal))
        r = s.check()
        self.qtime += time.time() - t0
        self.nq += 1
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the verification')

    def feasible(self, st, extra=True):
        if extra is False:
            return False
        key = None
        facts = [f for f in st.pc if not has_quant(f)]
        g = bnot(extra) if extra is not True else z3.BoolVal(False)
        r = self.solve(facts, g, timeout=1500)
        return r is not True

    def entails(self, st, f, timeout=1500):
        if isinstance(f, bool):
            return f
        k = (tuple(x.get_id() for x in st.pc), f.get_id())
        if k in self._vcache:
            return self._vcache[k]
        facts = [x for x in st.pc if not has_quant(x)]
        r = self.solve(facts, f, timeout=timeout) is True
        self._vcache[k] = r
        _keep.append(f)
        return r

    def valid(self, st, f, timeout=None, fast=False):
        """full strength: QF first, then with instances of the quantified facts, then full z3, then cvc5"""
        if isinstance(f, bool):
            if f:
                return True, 'syntactic'
            f = z3.BoolVal(False)
        subs = intro(f)
        how = 'z3'
        for hyps, g in subs:
            ok, be = self.valid1(st.pc + hyps, g, timeout or self.timeout, fast)
            if ok is not True:
                return ok, be
            if be == 'cvc5':
                how = be
        return True, how

    def valid1(self, facts, f, timeout, fast=False):
        facts = [y for x in facts for y in (conj(x) if z3.is_and(x) and has_quant(x) else [x])]
        qf = [x for x in facts if not has_quant(x)]
        quant = [x for x in facts if has_quant(x)]
        r = self.solve(qf, f, timeout=min(3000, timeout))
        if r is True:
            return True, 'z3'
        if not quant and not has_quant(f):
            if r is False:
                return False, 'z3:sat'
        if quant:
            # first from the terms of the goal only
            inst = instances([], quant, f, limit=self.inst_limit)
            if inst and len(qf) > 12:
                r = self.solve(qf + inst, f, timeout=min(1500, timeout))
                if r is True:
                    return True, 'z3'
            inst = instances(qf, quant, f, limit=self.inst_limit)
            if inst:
                r = self.solve(qf + inst, f, timeout=min(4000, timeout))
                if r is True:
                    return True, 'z3'
            facts = facts + inst
        if fast:
            return None, 'unknown'
        for seed, to in ((0, timeout), (7, timeout * 2)):
            t0 = time.time()
            s = z3.Solver()
            s.set('timeout', int(to * TIME_SCALE))
            s.set('random_seed', seed)
            if seed:
                s.set('smt.mbqi', False)
            s.add(*facts)
            s.add(z3.Not(f))
            r = s.check()
            self.qtime += time.time() - t0
            self.nq += 1
            if r == z3.unsat:
                return True, 'z3'
            if r == z3.sat:
                return False, 'z3:sat'
            if self.dry:
                return None, 'unknown'
        r = self.cvc5(facts, f)
        if r:
            return True, 'cvc5'
        return None, 'unknown'

    def cvc5(self, facts, goal, timeout=15):
        s = z3.Solver()
        s.add(*facts)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 10)
            ok = p.stdout.strip().startswith('unsat')
        except Exception:
            ok = False
        os.unlink(f.name)
        self.qtime += time.time() - t0
        return ok

    def prove(self, st, f, name):
        if self.dry:
            return True
        t0 = time.time()
        bad = sum(1 for o in self.obls if not o[1])
        if bad and TIME_SCALE > 1:
            raise Unsupported('second attempt failed')
        # the contract is broken anyway: further obligations get less time
        ok, be = self.valid(st, f, fast=bad >= 2)
        self.backend[be] = self.backend.get(be, 0) + (1 if ok else 0)
        self.obls.append((name, bool(ok), be, round(time.time() - t0, 3)))
        if not ok and os.environ.get('VCG_DEBUG'):
            print('FAILED', name, be)
            for x in st.pc:
                print('   ', str(x).replace('\n', ' ')[:300])
            print('  |-', str(f)[:2000])
            print('  trace', st.trace[-12:])
        return bool(ok)

    # ------------------------------------------------------------ memory ops
    def init_mem(self, st):
        for w in WIDTHS:
            st.mem[w] = Base(self.base_arrs[w], w)

    def new_region(self, tag=''):
        rid = next(self.regions)
        self.region_sz[rid] = tag
        return REG_BASE + rid * REG_SIZE + 4096

    def klass(self, addr):
        t, c = lin(addr)
        if c >= REG_BASE:
            return ('r', (c - REG_BASE) // REG_SIZE)
        if c >= FN_BASE:
            return ('g', 0)
        if all(a.get_id() in self.pre_atoms for (co, a) in t.values() if co == 1 and not self.is_index(a)):
            if t:
                return ('pre', 0)
        return None

    def is_index(self, a):
        return a.get_id() in self.index_atoms if hasattr(self, 'index_atoms') else False

    def mark_pre(self, *es):
        for e in es:
            if not is_c(e):
                for i, (co, a) in lin(e)[0].items():
                    self.pre_atoms.add(a.get_id())
                    _keep.append(a)

    def noalias(self, a, b, w):
        d = lsub(a, b)
        if isinstance(d, int):
            return abs(d) >= w
        ka, kb = self.klass(a), self.klass(b)
        if ka and kb and ka != kb:
            return True
        return False

    def zarr(self, node, st):
        """z3 array for a memory node (quantified axioms are added to st)"""
        if isinstance(node, Base):
            return node.arr
        if node.z is not None:
            arr, ax = node.z
            for a in ax:
                st.assume(a)
            return arr
        if isinstance(node, StoreN):
            p = self.zarr(node.prev, st)
            arr = z3.Store(p, zi(node.addr), zi(node.val))
            node.z = (arr, [])
            # axioms of prev are re-added through prev
            node.z = (arr, self.axioms_of(node.prev))
            return arr
        p = self.zarr(node.prev, st)
        x = z3.Int('x!q')
        if isinstance(node, HavocN):
            inn = bor(*[d.isin(x) for d in node.descs])
            ax = z3.ForAll([x], z3.Implies(z3.Not(zb(inn)), z3.Select(node.arr, x) == z3.Select(p, x)), patterns=[z3.Select(node.arr, x)])
            node.z = (node.arr, self.axioms_of(node.prev) + [ax])
        elif isinstance(node, CopyN):
            arr = fresh('Mcpy', 'arr')
            s = self.zarr(node.srcnode, st)
            inn = z3.And(x >= zi(node.dst), x < zi(ladd(node.dst, node.n)))
            ax = z3.ForAll([x], z3.Select(arr, x) == z3.If(inn, z3.Select(s, x - zi(node.dst) + zi(node.src)), z3.Select(p, x)), patterns=[z3.Select(arr, x)])
            node.z = (arr, self.axioms_of(node.prev) + self.axioms_of(node.srcnode) + [ax])
        elif isinstance(node, FillN):
            arr = fresh('Mfil', 'arr')
            inn = z3.And(x >= zi(node.dst), x < zi(ladd(node.dst, node.n)))
            ax = z3.ForAll([x], z3.Select(arr, x) == z3.If(inn, zi(node.val), z3.Select(p, x)), patterns=[z3.Select(arr, x)])
            node.z = (arr, self.axioms_of(node.prev) + [ax])
        arr, ax = node.z
        for a in ax:
            st.assume(a)
        return arr

    def axioms_of(self, node):
        if isinstance(node, Base):
            return []
        return node.z[1] if node.z else []

    def note_store(self, st, w, addr):
        a = self.private(addr)
        if a is None:
            return
        for k in {a & ~7, (a + w - 1) & ~7}:
            old = st.slots.get(k, ())
            if old and old[-1] == (w, a):
                continue
            st.slots[k] = tuple(x for x in old if x is not None and not (a <= x[1] and x[1] + x[0] <= a + w)) + ((w, a),) if None not in old else (None, (w, a))

    def private(self, addr):
        """constant address in a stack / fresh object, else None"""
        if isinstance(addr, int):
            return addr if addr >= REG_BASE else None
        t, c = lin(addr)
        return c if not t and c >= REG_BASE else None

    def load_pun(self, st, w, a):
        """the bytes [a, a+w) of a private object were last written by stores of other widths"""
        ent = []
        for k in sorted({a & ~7, (a + w - 1) & ~7}):
            for x in st.slots.get(k, ()):
                if x not in ent:
                    ent.append(x)
        last = None
        for x in ent:
            if x is None or (x[1] < a + w and a < x[1] + x[0]):
                last = x
        if last is None:
            return fresh_bits(st, w) if None in ent else None
        if last == (w, a):
            return None
        own = {}
        amb = False
        for x in ent:
            if x is None:
                amb = True
                continue
            for b in range(x[0]):
                own[x[1] + b] = x
        parts = []
        b = a
        while b < a + w:
            x = own.get(b)
            if x is None:
                # never written (or only by memcpy/memset): read as a byte
                p = fresh_bits(st, 1) if amb else self.load_raw(st, 1, b, st.mem[1])[0]
                n = 1
            else:
                n = 0
                while b + n < a + w and own.get(b + n) == x:
                    n += 1
                p = self.load_raw(st, x[0], x[1], st.mem[x[0]])[0]
                if not is_c(p) and p.sort() == F64:
                    p = f2i(p)
                if not is_c(p) and z3.is_bool(p):
                    p = z3.If(p, z3.IntVal(1), z3.IntVal(0))
                o = b - x[1]
                p = bits_of(p, 8 * o, 8 * n, 8 * x[0], st)
            parts.append((8 * (b - a), 8 * n, p))
            b += n
        return parts[0][2] if len(parts) == 1 else compose(parts)

    opaque = frozenset()      # regions which stand for values of an abstract type: only their addresses may be used

    def check_opaque(self, addr):
        k = self.klass(addr)
        if k and k[0] == 'r' and k[1] in self.opaque:
            raise Unsupported('elements of an abstract value')

    def load_raw(self, st, w, addr, node=None, budget=60):
        if self.opaque:
            self.check_opaque(addr)
        if node is None and st.slots:
            a = self.private(addr)
            if a is not None and ((a & ~7) in st.slots or ((a + w - 1) & ~7) in st.slots):
                v = self.load_pun(st, w, a)
                if v is not None:
                    return v, 'val'
        node = node or st.mem[w]
        n = node
        while True:
            if isinstance(n, Base):
                e = z3.Select(n.arr, zi(addr))
                st.assume(z3.And(e >= 0, e < (1 << (8 * w))))
                return e, 'base'
            if isinstance(n, StoreN):
                d = lsub(addr, n.addr)
                if isinstance(d, int):
                    if d == 0:
                        return n.val, 'val'
                    n = n.prev
                    continue
                if self.noalias(addr, n.addr, w):
                    n = n.prev
                    continue
                if self.entails(st, cmp('ne', addr, n.addr)):
                    n = n.prev
                    continue
                if self.entails(st, cmp('eq', addr, n.addr)):
                    return n.val, 'val'
                rest, _ = self.load_raw(st, w, addr, n.prev)
                return ite(cmp('eq', addr, n.addr), n.val, rest), 'mix'
            if isinstance(n, HavocN):
                inn = bor(*[self.isin(d, addr) for d in n.descs])
                if inn is False or (inn is not True and self.entails(st, bnot(inn))):
                    n = n.prev
                    continue
                e = z3.Select(n.arr, zi(addr))
                st.assume(z3.And(e >= 0, e < (1 << (8 * w))))
                if inn is not True:
                    rest, _ = self.load_raw(st, w, addr, n.prev)
                    st.assume(bimp(bnot(inn), e == zi(rest)))
                return e, 'havoc'
            if isinstance(n, (CopyN, FillN)):
                off = lsub(addr, n.dst)
                inn = band(cmp('ge', off, 0), cmp('lt', off, n.n))
                if not isinstance(inn, bool):
                    ka, kb = self.klass(addr), self.klass(n.dst)
                    if ka and kb and ka != kb:
                        inn = False
                if inn is False or (inn is not True and self.entails(st, bnot(inn))):
                    n = n.prev
                    continue
                if isinstance(n, CopyN):
                    v, k = self.load_raw(st, w, ladd(n.src, off), n.srcnode)
                else:
                    v = n.val
                if inn is True or self.entails(st, inn):
                    return v, 'mix'
                rest, _ = self.load_raw(st, w, addr, n.prev)
                return ite(inn, v, rest), 'mix'
            raise Unsupported('memory node')

    def isin(self, d, addr):
        if isinstance(d, Cell):
            if self.noalias(addr, d.addr, d.w):
                return False
            return d.isin(addr)
        k = self.klass(addr)
        if isinstance(d, HeapAll):
            if k:
                return k[0] == 'pre'
            return d.isin(addr)
        if isinstance(d, RegionD):
            if k:
                return k == ('r', d.rid)
            return d.isin(addr)
        if d.lo is None:
            if k and (k[0] != 'r' or k[1] not in d.rids):
                return False
            return d.isin(addr)
        kl = self.klass(d.lo)
        if k and kl and k != kl:
            return False
        return d.isin(addr)

    def load(self, st, ty, addr, meta=None, m=None):
        ty = self.m.resolve(ty)
        if ty.k in ('struct', 'arr'):
            if ty.k == 'arr':
                es = self.m.size(ty.el)
                return tuple(self.load(st, ty.el, ladd(addr, i * es)) for i in range(ty.n))
            offs, _ = self.m.offsets(ty)
            return tuple(self.load(st, e, ladd(addr, o)) for o, e in zip(offs, ty.els))
        if ty.k == 'float':
            w = ty.w // 8
            if w not in WIDTHS:
                w = 8
            v, how = self.load_raw(st, w, addr)
            if not is_c(v) and v.sort() == F64:
                return v
            return i2f(zi(v))
        w = self.m.size(ty)
        if w not in WIDTHS:
            raise Unsupported(f'load of width {w}')
        cg = self.const_global_load(w, addr)
        if cg is not None:
            return cg
        if self.footprint and not self.dry:
            self.footprint(self, st, addr, w, 'read')
        v, how = self.load_raw(st, w, addr)
        if not is_c(v) and not z3.is_int(v):
            if v.sort() == F64:
                v = f2i(v)
        if ty.k == 'ptr' and how == 'base' and self.klass(addr) == ('pre', 0):
            self.mark_pre(v)
            st.assume(v < PRE_MAX)
        if ty.k == 'int' and ty.w == 1:
            return v != 0 if not is_c(v) else v != 0
        if meta and 'range' in meta:
            r = self.m.meta.get(meta['range'])
            g = re.search(r'i\d+ (-?\d+), i\d+ (-?\d+)', r or '')
            if g and not is_c(v) and int(g.group(1)) >= 0 and int(g.group(2)) > 0:
                st.assume(z3.And(v >= int(g.group(1)), v < int(g.group(2))))
        return v

    def store(self, st, ty, addr, val):
        ty = self.m.resolve(ty)
        if ty.k in ('struct', 'arr'):
            if val is None:
                return
            if ty.k == 'arr':
                es = self.m.size(ty.el)
                for i in range(ty.n):
                    self.store(st, ty.el, ladd(addr, i * es), val[i])
                return
            offs, _ = self.m.offsets(ty)
            for o, e, v in zip(offs, ty.els, val):
                self.store(st, e, ladd(addr, o), v)
            return
        if val is None:      # undef
            val = fresh('undef')
            st.assume(z3.And(val >= 0, val < (1 << (8 * self.m.size(ty)))))
        if ty.k == 'float':
            w = ty.w // 8
            if is_c(val):
                raise Unsupported('float const')
            if z3.is_int(val):
                pass
            else:
                val = f2i(val)
            w = w if w in WIDTHS else 8
        else:
            w = self.m.size(ty)
            if w not in WIDTHS:
                raise Unsupported(f'store of width {w}')
        if isinstance(val, bool):
            val = int(val)
        elif not is_c(val) and z3.is_bool(val):
            val = z3.If(val, z3.IntVal(1), z3.IntVal(0))
        if self.footprint and not self.dry:
            self.footprint(self, st, addr, w, 'write')
        self.store_raw(st, w, addr, val)

    def store_raw(self, st, w, addr, val):
        if self.opaque:
            self.check_opaque(addr)
        st.mem[w] = StoreN(st.mem[w], addr, val)
        st.wlog.append(Cell(w, addr))
        self.note_store(st, w, addr)

    def havoc(self, st, descs):
        byw = {}
        for d in descs:
            byw.setdefault(d.w, []).append(d)
            st.wlog.append(d)
        cells = [(d.w, self.private(d.addr)) for d in descs if isinstance(d, Cell)]
        cells = [x for x in cells if x[1] is not None]
        for w, a in cells:
            if any((w2, a2) != (w, a) and a < a2 + w2 and a2 < a + w for w2, a2 in cells):
                st.slots[a & ~7] = (None,)      # written with several widths in an unknown order
            else:
                self.note_store(st, w, a)
        for w, ds in byw.items():
            st.mem[w] = HavocN(st.mem[w], fresh(f'H{w}', 'arr'), ds)

    def memcpy(self, st, dst, src, n):
        if self.opaque:
            self.check_opaque(dst)
            self.check_opaque(src)
        if isinstance(n, int) and n == 0:
            return
        fl = self.copy_fields(st, dst, src, n)
        if fl is not None:
            vals = [(w, off, self.const_global_load(w, ladd(src, off)) if g else self.load_raw(st, w, ladd(src, off))[0]) for w, off, g in fl]
            for w, off, v in vals:
                self.note_store(st, w, ladd(dst, off))
                self.store_raw(st, w, ladd(dst, off), v)
            return
        old = dict(st.mem)
        self.copy_slots(st, dst, src, n)
        for w in WIDTHS:
            if isinstance(n, int) and n < w:
                continue
            st.mem[w] = CopyN(st.mem[w], dst, src, n, old[w])
            st.wlog.append(Interval(w, dst, ladd(dst, n)))

    def copy_fields(self, st, dst, src, n):
        """a small copy from a constant or from private memory, whose last stores are known, is a copy of
        these fields: [(width, offset, from a constant)]"""
        if not isinstance(n, int) or n > 64 or not is_c(src):
            return None
        if GL_BASE <= src < REG_BASE:
            for g, a in self.gladdr.items():
                if a <= src < a + (1 << 20):
                    if not re.search(r'\bconstant ', self.m.globals.get(g, '')):
                        return None
                    fl = [(w, o - (src - a), True) for o, w, v in self.global_init(g) or ()]
                    if any(not isinstance(v, int) for o, w, v in self.global_init(g) or ()):
                        return None
                    fl = [x for x in fl if 0 <= x[1] < n]
                    if not fl or any(x[1] + x[0] > n for x in fl) or sum(x[0] for x in fl) != n:
                        return None
                    return fl
            return None
        a = self.private(src)
        if a is None:
            return None
        fl = []
        for k in range(a & ~7, a + n, 8):
            for x in st.slots.get(k, ()):
                if x is None:
                    return None
                if a <= x[1] < a + n:
                    if x[1] + x[0] > a + n:
                        return None
                    if (x[0], x[1] - a, False) not in fl:
                        fl.append((x[0], x[1] - a, False))
        fl.sort(key=lambda x: x[1])
        if not fl or sum(x[0] for x in fl) != n or any(p[1] + p[0] != q[1] for p, q in zip(fl, fl[1:])):
            return None
        return fl

    def copy_slots(self, st, dst, src, n):
        """memcpy/memset: which stores make up the bytes of the target"""
        d = self.private(dst)
        if d is None:
            return
        if not isinstance(n, int) or d & 7:
            for k in list(st.slots):
                if k >> 32 == d >> 32 if not isinstance(n, int) else (k < d + n and d < k + 8):
                    st.slots[k] = (None,)
            return
        a = self.private(src) if src is not None else None
        new = {}
        for k in range(d, d + n, 8):
            m = min(8, d + n - k)
            old = tuple(x for x in st.slots.get(k, ()) if x is None or (x[1] - k >= m)) if m < 8 else ()
            got = ()
            if a is not None and not a & 7:
                got = tuple(None if x is None else (x[0], x[1] - a + d) for x in st.slots.get(k - d + a, ()) if x is None or x[1] - (k - d + a) < m)
            new[k] = old + got
        for k, v in new.items():
            if v:
                st.slots[k] = v
            else:
                st.slots.pop(k, None)

    def memset(self, st, dst, val, n):
        self.copy_slots(st, dst, None, n)
        for w in WIDTHS:
            if isinstance(n, int) and n < w:
                continue
            if is_c(val):
                v = int.from_bytes(bytes([val]) * w, 'little')
            else:
                v = lmul(val, int.from_bytes(b'\x01' * w, 'little'))
            st.mem[w] = FillN(st.mem[w], dst, n, v)
            st.wlog.append(Interval(w, dst, ladd(dst, n)))

    # ------------------------------------------------------------ globals & functions
    def func_addr(self, name):
        if name not in self.fnaddr:
            a = FN_BASE + (len(self.fnaddr) + 1) * 64
            self.fnaddr[name] = a
            self.addrfn[a] = name
        return self.fnaddr[name]

    def glob_addr(self, name):
        if name in self.m.funcs or name in self.m.decls:
            return self.func_addr(name)
        if name not in self.gladdr:
            g = self.m.globals.get(name, '')
            mm = re.search(r'\balias\b.* ptr @("[^"]*"|[-A-Za-z$._0-9]+)$', g)
            if mm:
                return self.glob_addr(mm.group(1).strip('"'))
            self.gladdr[name] = GL_BASE + (len(self.gladdr) + 1) * (1 << 20)
        return self.gladdr[name]

    def const_global_load(self, w, addr):
        """strings in constant globals"""
        t, c = lin(addr)
        if t or c < GL_BASE or c >= REG_BASE:
            return None
        for n, a in self.gladdr.items():
            if a <= c < a + (1 << 20):
                g = self.m.globals.get(n, '')
                off = c - a
                if not re.search(r'\bconstant ', g):
                    return None
                mm = re.search(r'constant \[(\d+) x i8\] (c"((?:[^"\\]|\\.)*)"|zeroinitializer)', g)
                if mm and w == 1:
                    if mm.group(2) == 'zeroinitializer':
                        return 0
                    b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda x: bytes([int(x.group(1), 16)]), mm.group(3).encode())
                    return b[off] if off < len(b) else 0
                for o, ww, v in self.global_init(n) or ():
                    if o == off and ww == w:
                        return v
        return None

    def global_init(self, n):
        """[(offset, width, value)] of the initializer of a global, None if it is not understood"""
        if n not in self.ginit:
            r = None
            mm = re.search(r'\b(?:constant|global) (.*)$', self.m.globals.get(n, ''))
            if mm and not re.search(r'\bexternal\b', self.m.globals[n][:mm.start()]):
                try:
                    t = Toks(tokenize(re.sub(r', (align|comdat|section|!).*$', '', mm.group(1))))
                    ty = parse_type(t)
                    v = self.val({}, ty, parse_value(t, ty))
                    r = []

                    def flat(ty, v, base):
                        ty = self.m.resolve(ty)
                        if ty.k == 'struct':
                            for o, e, x in zip(self.m.offsets(ty)[0], ty.els, v):
                                flat(e, x, base + o)
                        elif ty.k == 'arr':
                            for i, x in enumerate(v):
                                flat(ty.el, x, base + i * self.m.size(ty.el))
                        else:
                            r.append((base, self.m.size(ty), int(v) if isinstance(v, bool) else v))
                    flat(ty, v, 0)
                except (Unsupported, Exception):
                    r = None
            self.ginit[n] = r
        return self.ginit[n]

    def init_globals(self, st, rx):
        """assume that the (mutable) globals matching rx still hold their initial values"""
        for n, g in self.m.globals.items():
            if re.search(rx, self.m.dem.get(n, n)) and not re.search(r'\bconstant ', g):
                for o, w, v in self.global_init(n) or ():
                    self.store_raw(st, w, self.glob_addr(n) + o, v)

    # ------------------------------------------------------------ operands
    def val(self, env, ty, o):
        k = o[0]
        if k == 'reg':
            return env[o[1]]
        ty = self.m.resolve(ty) if ty is not None else None
        if k == 'const':
            v = o[1]
            if ty is not None and ty.k == 'int':
                if ty.w == 1:
                    return bool(v & 1)
                return v % (1 << ty.w)
            return v
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.undef(ty)
        if k == 'glob':
            return self.glob_addr(o[1])
        if k == 'fconst':
            return ffun('fc_' + o[1], F64)()
        if k == 'gepexpr':
            base = self.val(env, PTR, o[2][0][1])
            return self.gep(env, o[1], base, o[2][1:], None)
        if k == 'castexpr':
            v = self.val(env, o[2], o[3])
            return v
        if k == 'agg':
            return tuple(self.val(env, t, x) for t, x in o[1])
        raise Unsupported('operand ' + k)

    def zero(self, ty):
        if ty.k == 'int':
            return False if ty.w == 1 else 0
        if ty.k == 'ptr':
            return 0
        if ty.k == 'struct':
            return tuple(self.zero(self.m.resolve(e)) for e in ty.els)
        if ty.k == 'arr':
            return tuple(self.zero(self.m.resolve(ty.el)) for _ in range(ty.n))
        if ty.k == 'float':
            return ffun('fc_0.000000e+00', F64)()
        raise Unsupported('zero of ' + ty.k)

    def undef(self, ty):
        if ty.k == 'int' and ty.w == 1:
            return fresh('undef', 'bool')
        if ty.k in ('int', 'ptr'):
            return fresh('undef')
        if ty.k == 'struct':
            return tuple(self.undef(self.m.resolve(e)) for e in ty.els)
        if ty.k == 'arr':
            return tuple(self.undef(self.m.resolve(ty.el)) for _ in range(ty.n))
        if ty.k == 'float':
            return fresh('undef', 'f64')
        return None

    def gep(self, env, bt, base, idx, st):
        a = base
        ty = bt
        first = True
        for ity, io in idx:
            i = self.val(env, ity, io)
            w = ity.w
            if not is_c(i):
                pass
            # indices are signed
            if is_c(i) and i >= 1 << (w - 1):
                i -= 1 << w
            if first:
                a = ladd(a, lmul(self.sgn_idx(i, w, st), self.m.size(ty)))
                first = False
                continue
            ty = self.m.resolve(ty)
            if ty.k == 'struct':
                offs, _ = self.m.offsets(ty)
                a = ladd(a, offs[i])
                ty = ty.els[i]
            elif ty.k in ('arr', 'vec'):
                ty = ty.el
                a = ladd(a, lmul(self.sgn_idx(i, w, st), self.m.size(ty)))
            else:
                raise Unsupported('gep')
        return a

    def sgn_idx(self, i, w, st):
        if is_c(i):
            return i
        lim = 1 << (w - 1)
        if st is None or self.entails(st, cmp('lt', i, lim)):
            return i
        if self.entails(st, cmp('ge', i, lim)):
            return lsub(i, 1 << w)
        return ite(cmp('lt', i, lim), i, lsub(i, 1 << w))

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, e, w):
        """e mod 2^w for e in (-2^w, 2^(w+1))"""
        M = 1 << w
        if is_c(e):
            return e % M
        if self.entails(st, band(cmp('ge', e, 0), cmp('lt', e, M))):
            return e
        if self.entails(st, cmp('lt', e, 0)):
            return ladd(e, M)
        if self.entails(st, cmp('ge', e, M)):
            return lsub(e, M)
        return z3.If(zb(cmp('lt', e, 0)), zi(ladd(e, M)), z3.If(zb(cmp('ge', e, M)), zi(lsub(e, M)), zi(e)))

    def signed(self, st, x, w):
        M = 1 << w
        h = M >> 1
        if is_c(x):
            return x - M if x >= h else x
        if self.entails(st, cmp('lt', x, h)):
            return x
        return ite(cmp('lt', x, h), x, lsub(x, M))

    def binop(self, st, op, w, a, b, flags):
        M = 1 << w
        if w == 1:
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return z3.Xor(zb(a), zb(b))
            raise Unsupported('i1 ' + op)
        if op == 'add':
            if is_c(b) and b >= M >> 1 and not is_c(a):
                return self.wrap(st, lsub(a, M - b), w)
            return self.wrap(st, ladd(a, b), w)
        if op == 'sub':
            return self.wrap(st, lsub(a, b), w)
        if op == 'mul':
            e = lmul(a, b)
            if is_c(e):
                return e % M
            if is_c(b) and b >= M >> 1:
                e2 = lmul(a, b - M)
                # small negative multiplier
                if self.entails(st, cmp('gt', e2, -M)):
                    return self.wrap(st, e2, w)
            if self.entails(st, cmp('lt', e, M)):
                return e
            return zi(e) % M
        if op == 'udiv':
            if is_c(a) and is_c(b) and b:
                return a // b
            if is_c(b):
                q = self.exact_div(a, b)
                if q is not None:
                    return q
            return zi(a) / zi(b)
        if op == 'urem':
            if is_c(a) and is_c(b) and b:
                return a % b
            return zi(a) % zi(b)
        if op == 'sdiv':
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            if is_c(sa) and is_c(sb) and sb:
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) % M
            if is_c(sb) and sb > 0:
                q = self.exact_div(sa, sb)
                if q is not None:
                    return self.wrap(st, q, w)
                if 'exact' in flags:
                    q = fresh('q')
                    st.assume(q * sb == zi(sa))
                    return self.wrap(st, q, w)
                if self.entails(st, cmp('ge', sa, 0)):
                    return zi(sa) / sb
                return self.wrap(st, z3.If(zi(sa) >= 0, zi(sa) / sb, -((-zi(sa)) / sb)), w)
            if self.entails(st, band(cmp('ge', sa, 0), cmp('gt', sb, 0))):
                return zi(sa) / zi(sb)
            if self.entails(st, cmp('gt', sb, 0)):
                return self.wrap(st, z3.If(zi(sa) >= 0, zi(sa) / zi(sb), -((-zi(sa)) / zi(sb))), w)
            raise Unsupported('sdiv')
        if op == 'srem':
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            if self.entails(st, band(cmp('ge', sa, 0), cmp('gt', sb, 0))):
                return (sa % sb) if is_c(sa) and is_c(sb) else zi(sa) % zi(sb)
            raise Unsupported('srem')
        if op == 'shl':
            if is_c(b):
                ps = comp(a)
                if ps and b < w and all(q[0] + q[1] + b <= w for q in ps):
                    return compose([(q[0] + b, q[1], q[2]) for q in ps])
                return self.binop(st, 'mul', w, a, 1 << b, set())
            raise Unsupported('shl')
        if op == 'lshr':
            if is_c(b):
                q = part(a, b, w - b) if not is_c(a) and b < w else None
                if q is not None:
                    return q
                return self.binop(st, 'udiv', w, a, 1 << b, set())
            raise Unsupported('lshr')
        if op == 'ashr':
            if is_c(b):
                sa = self.signed(st, a, w)
                if is_c(sa):
                    return (sa >> b) % M
                q = self.exact_div(sa, 1 << b)
                if q is None:
                    q = zi(sa) / (1 << b)
                return self.wrap(st, q, w)
            raise Unsupported('ashr')
        if op in ('or', 'add') and (comp(a) or is_c(a)) and (comp(b) or is_c(b)) and not (is_c(a) and is_c(b)):
            pa = comp(a) or [(0, a.bit_length(), a)]
            pb = comp(b) or [(0, b.bit_length(), b)]
            if is_c(a) or is_c(b):
                k, ps = (a, pb) if is_c(a) else (b, pa)
                low = (k & -k).bit_length() - 1
                kp = [(low, k.bit_length() - low, k >> low)] if k else []
                if all(q[0] >= k.bit_length() or q[0] + q[1] <= low for q in ps):
                    return compose(sorted(list(ps) + kp, key=lambda q: q[0]))
            elif all(x[0] + x[1] <= y[0] or y[0] + y[1] <= x[0] for x in pa for y in pb):
                return compose(sorted(list(pa) + list(pb), key=lambda q: q[0]))
        if op in ('and', 'or', 'xor'):
            if is_c(a) and is_c(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if is_c(a):
                a, b = b, a
            if is_c(b):
                if op == 'and':
                    if b == 0:
                        return 0
                    if b == M - 1:
                        return a
                    if b & (b + 1) == 0:       # low mask
                        q = part(a, 0, b.bit_length())
                        if q is not None:
                            return q
                        if self.entails(st, cmp('le', a, b)):
                            return a
                        return zi(a) % (b + 1)
                    nb = (~b) & (M - 1)
                    if nb & (nb + 1) == 0:     # high mask
                        return zi(a) - zi(a) % (nb + 1)
                    if b & (b - 1) == 0:       # single bit
                        return ((zi(a) / b) % 2) * b
                if op == 'or' and b == 0:
                    return a
                if op == 'xor':
                    if b == 0:
                        return a
                    if b == M - 1:
                        return lsub(M - 1, a)
                if op == 'or' and self.entails(st, bor(cmp('eq', a, 0), cmp('eq', a, 1))) and b == 1:
                    return 1
            # 0/1 valued
            if self.entails(st, band(bor(cmp('eq', a, 0), cmp('eq', a, 1)), bor(cmp('eq', b, 0), cmp('eq', b, 1)))):
                x, y = cmp('eq', a, 1), cmp('eq', b, 1)
                r = {'and': band(x, y), 'or': bor(x, y), 'xor': z3.Xor(zb(x), zb(y))}[op]
                return ite(r, 1, 0)
            # general: bit-vectors
            f = ffun('bv' + op + str(w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(zi(a), zi(b))
            bv = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
            r = z3.BV2Int(bv(z3.Int2BV(zi(a), w), z3.Int2BV(zi(b), w)))
            return r
        raise Unsupported('binop ' + op)

    def exact_div(self, a, c):
        t, k = lin(a)
        if k % c == 0 and all(co % c == 0 for co, _ in t.values()):
            return unlin({i: (co // c, x) for i, (co, x) in t.items()}, k // c)
        return None

    def icmp(self, st, pred, ty, a, b):
        ty = self.m.resolve(ty)
        if ty.k == 'int' and ty.w == 1:
            if pred == 'eq':
                return bnot(self.binop(st, 'xor', 1, a, b, set()))
            if pred == 'ne':
                return self.binop(st, 'xor', 1, a, b, set())
            if pred == 'ult':
                return band(bnot(a), b)
            if pred == 'ugt':
                return band(a, bnot(b))
            raise Unsupported('icmp i1')
        if pred in ('eq', 'ne'):
            return cmp(pred, a, b)
        w = 64 if ty.k == 'ptr' else ty.w
        if pred[0] == 's':
            a, b = self.signed(st, a, w), self.signed(st, b, w)
        return cmp(pred[1:], a, b)

    # ------------------------------------------------------------ calls
    def find_contract(self, name, dem):
        k = self.by_name.get(name)
        if k is not None:
            return k or None
        for rx, h in self.contracts + BUILTINS:
            if re.search(rx, dem):
                self.by_name[name] = (rx, h)
                return rx, h
        self.by_name[name] = False
        return None

    def call(self, st, name, args, inst):
        """-> [Out('ret'|'throw')]"""
        dem = self.m.dem.get(name, name)
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, inst)
        c = self.find_contract(name, dem)
        if c:
            rx, h = c
            r = h(self, st, args, inst, dem)
            if r is not NotImplemented:
                self.assumed[rx] = self.assumed.get(rx, 0) + 1
                return r
        if name not in self.m.funcs:
            raise Unsupported('call to external function without contract: ' + dem)
        return self.run(name, args, st)

    def intrinsic(self, st, name, args, inst):
        R = lambda v=None: [Out('ret', st, v)]
        if re.match(r'llvm\.(lifetime|dbg|assume|invariant|donothing|stackrestore|experimental\.noalias)', name):
            return R()
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return R()
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
            return R()
        if name.startswith('llvm.expect'):
            return R(args[0])
        if name.startswith('llvm.eh.typeid.for'):
            return R(self.tid(args[0]))
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            a, b = args
            w = int(m.group(2))
            x, y = (a, b) if m.group(1)[0] == 'u' else (self.signed(st, a, w), self.signed(st, b, w))
            c = cmp('ge' if 'max' in m.group(1) else 'le', x, y)
            return R(ite(c, a, b))
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.prove(st, False, 'unreachable: trap')
            return []
        m = re.match(r'llvm\.abs\.i(\d+)', name)
        if m:
            s = self.signed(st, args[0], int(m.group(1)))
            return R(ite(cmp('ge', s, 0), s, lsub(0, s)))
        m = re.match(r'llvm\.ctlz\.i(\d+)', name)
        if m and is_c(args[0]):
            return R(int(m.group(1)) - args[0].bit_length())
        raise Unsupported('intrinsic ' + name)

    def tid(self, v):
        return 100 + (v - GL_BASE) // (1 << 20) if is_c(v) and v else 0

    # ------------------------------------------------------------ functions
    def run(self, name, args, st):
        fn = get_func(self.m, name)
        self.depth += 1
        if self.depth > self.max_depth:
            raise Unsupported('call depth at ' + fn.dem)
        self.inlined[fn.dem] = self.inlined.get(fn.dem, 0) + 1
        env = {}
        for (ty, nm, attrs), v in zip(fn.params, args):
            if 'byval' in attrs:
                sz = self.m.size(attrs['byval'])
                p = self.new_region('byval')
                wl = len(st.wlog)
                self.memcpy(st, p, v, sz)
                v = p
            env[nm] = v
        outs = self.region(fn, fn.entry, None, env, st, None, None)
        self.depth -= 1
        return outs

    def region(self, fn, start, prev, env, st, body, header, first=True):
        """execute from block `start`; body/header: inside of a loop body"""
        work = [(start, prev, env, st, first)]
        outs = []
        while work:
            b, prev, env, st, skip = work.pop()
            if body is not None and not skip:
                if b == header:
                    outs.append(Out('back', st, env=env, frm=prev))
                    continue
                if b not in body:
                    outs.append(Out('exit', st, env=env, frm=prev, to=b))
                    continue
            if b in fn.loops and not (skip and body is not None and b == header):
                if not self.concrete_header(fn, b, prev, env, st):
                    for o in self.loop(fn, b, prev, env, st):
                        if o.kind == 'exit':
                            work.append((o.to, o.frm, o.env, o.st, False))
                        else:
                            outs.append(o)
                    continue
            res = self.block(fn, b, prev, env, st, phis_done=(skip and body is not None and b == header))
            for o in res:
                if o.kind == 'jump':
                    work.append((o.to, o.frm, o.env, o.st, False))
                else:
                    outs.append(o)
        return outs

    def concrete_header(self, fn, b, prev, env, st):
        """is the exit decision of the header concrete (so the loop can simply be run)?"""
        blk = fn.blocks[b]
        last = blk.insts[-1]
        if last.op != 'br' or last.a[0] is None:
            return False
        key = (fn.name, b)
        cnt = st.ghost.get(('unroll', key, self.depth), 0)
        if cnt > self.unroll_max:
            raise Unsupported('concrete loop runs too long in ' + fn.dem)
        if any(i.op in ('call', 'invoke') and not (i.a[0][0] == 'glob') for i in blk.insts):
            return False
        self.dry += 1
        sob, sas, sin = len(self.obls), dict(self.assumed), dict(self.inlined)
        try:
            s2 = st.copy()
            res = self.block(fn, b, prev, dict(env), s2, peek=True)
            # loop continues or exits on a concrete condition, without forking
            ok = len(res) == 1 and res[0].kind == 'jump' and res[0].val is True
        except Unsupported:
            ok = False
        finally:
            self.dry -= 1
            self.assumed, self.inlined = sas, sin
        if ok:
            # the value must really be concrete (and not merely decided by the path condition)
            st.ghost[('unroll', key, self.depth)] = cnt + 1
        return ok

    def block(self, fn, b, prev, env, st, phis_done=False, peek=False):
        blk = fn.blocks[b]
        env = dict(env)
        n = 0
        st.trace.append((fn.dem[:40], b))
        if len(st.trace) > 64:
            st.trace = st.trace[-32:]
        # phis
        new = {}
        for i in blk.insts:
            if i.op != 'phi':
                break
            n += 1
            if phis_done:
                continue
            for v, frm in i.a[0]:
                if frm == prev:
                    new[i.res] = self.val(env, i.ty, v)
                    break
            else:
                raise Unsupported('phi')
        env.update(new)
        work = [(n, env, st)]
        outs = []
        while work:
            n, env, st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('too many steps')
                if self.deadline and self.steps % 50 == 0 and time.time() > self.deadline:
                    raise Unsupported('time limit of the verification')
                i = blk.insts[n]
                op = i.op
                if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    outs.extend(self.term(fn, b, i, env, st, peek))
                    break
                if op in ('call', 'invoke'):
                    rs = self.do_call(fn, b, i, env, st)
                    conts = []
                    for o in rs:
                        if o.kind == 'ret':
                            e2 = env if len(rs) == 1 else dict(env)
                            if i.res is not None:
                                e2[i.res] = o.val
                            if op == 'invoke':
                                outs.append(Out('jump', o.st, env=e2, frm=b, to=i.a[2]))
                            else:
                                conts.append((n + 1, e2, o.st))
                        elif o.kind == 'throw':
                            if op == 'invoke':
                                r = self.landing(fn, b, i.a[3], dict(env), o)
                                if r is None:
                                    outs.append(o)
                                else:
                                    outs.append(r)
                            else:
                                outs.append(o)
                        else:
                            outs.append(o)
                    if not conts:
                        break
                    work.extend(conts[1:])
                    n, env, st = conts[0]
                    continue
                if op == 'select' and i.ty.k == 'ptr':
                    # null or a pointer: two cases (addresses stay free of conditionals)
                    c, x, y = i.a
                    c, x, y = mkbool(self.val(env, IntTy(1), c)), self.val(env, i.ty, x), self.val(env, i.ty, y)
                    if not is_c(c) and not z3.is_true(c) and not z3.is_false(c) and sum(1 for v in (x, y) if is_c(v) and v == 0) == 1:
                        conts = []
                        for cond, v in ((c, x), (z3.Not(c), y)):
                            s2 = st.copy()
                            s2.assume(cond)
                            if self.feasible(s2):
                                e2 = dict(env)
                                e2[i.res] = v
                                conts.append((n + 1, e2, s2))
                        if not conts:
                            break
                        work.extend(conts[1:])
                        n, env, st = conts[0]
                        continue
                self.inst(fn, i, env, st)
                n += 1
        return outs

    def landing(self, fn, frm, lb, env, o):
        """Out('jump') to the landing pad or None if the frame is skipped"""
        insts = fn.blocks[lb].insts
        lp = [x for x in insts if x.op == 'landingpad'][0]
        cleanup, clauses = lp.a
        sel = None
        for kind, cv in clauses:
            if kind == 'filter':
                raise Unsupported('exception filter')
            if cv[0] == 'zero':
                sel = 1
                break
            tv = self.val(env, PTR, cv)
            nm = cv[1] if cv[0] == 'glob' else None
            if self.exc_matches(o.val, nm):
                sel = self.tid(tv)
                break
        if sel is None and not cleanup:
            return None
        o.st.ghost['$lp'] = (o.val, sel or 0)
        o.st.ghost['$unc'] = o.st.ghost.get('$unc', 0) + 1
        return Out('jump', o.st, env=env, frm=frm, to=lb)

    def exc_matches(self, exc, tiname):
        if tiname is None:
            return False
        if tiname == '_ZTISt9exception':
            return exc[0] == 'std'
        return exc[1] == tiname

    def do_call(self, fn, b, i, env, st):
        callee, args = i.a[0], i.a[1]
        vals = []
        for ty, o, attrs in args:
            if ty.k == 'metadata':
                vals.append(None)
            else:
                vals.append(self.val(env, ty, o))
        if callee[0] == 'glob':
            name = callee[1]
            if name not in self.m.funcs and name in self.m.globals:
                mm = re.search(r'\balias\b.*@("[^"]*"|[-A-Za-z$._0-9]+)$', self.m.globals[name])
                if mm:
                    name = mm.group(1).strip('"')
            return self.call(st, name, vals, i)
        fp = self.val(env, PTR, callee)
        return self.icall(st, fp, vals, i)

    def icall(self, st, fp, vals, i):
        if is_c(fp) and fp in self.addrfn:
            return self.call(st, self.addrfn[fp], vals, i)
        if not is_c(fp):
            # one of a few concrete functions?
            cs = [c for c in collect_ite_consts(fp)]
            if cs and all(c in self.addrfn for c in cs):
                outs = []
                for c in cs:
                    s2 = st.copy()
                    s2.assume(fp == c)
                    if self.feasible(s2):
                        outs.extend(self.call(s2, self.addrfn[c], vals, i))
                return outs
        if self.indirect:
            r = self.indirect(self, st, fp, vals, i)
            if r is not NotImplemented:
                return r
        raise Unsupported('indirect call')

    def term(self, fn, b, i, env, st, peek=False):
        op = i.op
        if op == 'ret':
            v = None if i.a[0] is None else self.val(env, i.ty, i.a[0])
            return [Out('ret', st, v)]
        if op == 'unreachable':
            self.prove(st, False, f'unreachable reached in {fn.dem[:80]}')
            return []
        if op == 'resume':
            st.ghost['$unc'] = st.ghost.get('$unc', 0) - 1
            exc = st.ghost.get('$lp', (('any', None), 0))[0]
            v = self.val(env, None, i.a[0]) if i.a[0][0] == 'reg' else None
            if isinstance(v, tuple) and isinstance(v[0], int) and ('$exc', v[0]) in st.ghost:
                exc = st.ghost[('$exc', v[0])]
            return [Out('throw', st, exc)]
        if op == 'br':
            c, t, f = i.a
            if c is None:
                return [Out('jump', st, env=env, frm=b, to=t)]
            cv = self.val(env, IntTy(1), c)
            cv = mkbool(cv)
            if isinstance(cv, bool):
                return [Out('jump', st, val=True, env=env, frm=b, to=t if cv else f)]
            if peek:
                return []
            outs = []
            for cond, to in ((cv, t), (bnot(cv), f)):
                if self.feasible(st, cond):
                    s2 = st.copy()
                    s2.assume(cond)
                    outs.append(Out('jump', s2, env=self.refine(env, s2), frm=b, to=to))
            return outs
        if op == 'switch':
            v = self.val(env, i.ty, i.a[0])
            w = self.m.resolve(i.ty).w
            if is_c(v):
                v = int(v)
                for cv, to in i.a[2]:
                    if cv % (1 << w) == v:
                        return [Out('jump', st, val=True, env=env, frm=b, to=to)]
                return [Out('jump', st, val=True, env=env, frm=b, to=i.a[1])]
            outs = []
            rest = st.copy()
            tos = {}
            for cv, to in i.a[2]:
                tos.setdefault(to, []).append(cmp('eq', v, cv % (1 << w)))
                rest.assume(cmp('ne', v, cv % (1 << w)))
            for to, cs in tos.items():
                s2 = st.copy()
                s2.assume(bor(*cs))
                if self.feasible(s2):
                    outs.append(Out('jump', s2, env=dict(env), frm=b, to=to))
            if self.feasible(rest):
                outs.append(Out('jump', rest, env=dict(env), frm=b, to=i.a[1]))
            return outs
        raise Unsupported(op)

    def refine(self, env, st):
        """resolve wrap-around if-then-elses decided by the new path condition"""
        out = dict(env)
        pend = out.get('$pend')
        if pend:
            keep = []
            for r in pend:
                v = out.get(r)
                if v is None or is_c(v) or not z3.is_expr(v):
                    continue
                v2 = self.simp_ite(v, st)
                out[r] = v2
                if not is_c(v2) and z3.is_app(v2) and v2.decl().kind() == z3.Z3_OP_ITE:
                    keep.append(r)
            out['$pend'] = keep
        return out

    def simp_ite(self, v, st):
        while not is_c(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int(v):
            c, a, b = v.children()
            if self.entails(st, c):
                v = a
            elif self.entails(st, z3.Not(c)):
                v = b
            else:
                return v
            t, k = lin(v)
            v = unlin(t, k)
        return v

    def inst(self, fn, i, env, st):
        op = i.op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            ty = self.m.resolve(i.ty)
            if ty.k != 'int':
                raise Unsupported('vector op')
            a, b = self.val(env, ty, i.a[0]), self.val(env, ty, i.a[1])
            v = self.binop(st, op, ty.w, a, b, i.a[2])
            env[i.res] = v
            if not is_c(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int(v):
                env['$pend'] = list(env.get('$pend', ())) + [i.res]
        elif op == 'icmp':
            pred, ty, a, b = i.a
            env[i.res] = self.icmp(st, pred, ty, self.val(env, ty, a), self.val(env, ty, b))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.val(env, i.ty, i.a[0]), self.val(env, i.ty, i.a[1])
            env[i.res] = ffun(op, F64, F64, F64)(a, b)
        elif op == 'fneg':
            env[i.res] = ffun(op, F64, F64)(self.val(env, i.ty, i.a[0]))
        elif op == 'fcmp':
            pred, ty, a, b = i.a
            env[i.res] = ffun('fcmp_' + pred, F64, F64, z3.BoolSort())(self.val(env, ty, a), self.val(env, ty, b))
        elif op in ('zext', 'sext', 'trunc'):
            fty, a = i.a
            v = self.val(env, fty, a)
            fw, tw = self.m.resolve(fty).w, self.m.resolve(i.ty).w
            if fw == 1:
                if op == 'zext':
                    v = ite(v, 1, 0)
                else:
                    v = ite(v, (1 << tw) - 1, 0)
            elif op == 'zext':
                pass
            elif op == 'sext':
                s = self.signed(st, v, fw)
                if is_c(s):
                    v = s % (1 << tw)
                elif self.entails(st, cmp('lt', v, 1 << (fw - 1))):
                    pass
                else:
                    v = ite(cmp('lt', v, 1 << (fw - 1)), v, ladd(v, (1 << tw) - (1 << fw)))
            else:
                if tw == 1:
                    if is_c(v):
                        v = bool(v & 1)
                    else:
                        c = ite_bool(v)
                        if c is not None:
                            v = c
                        elif self.entails(st, cmp('le', v, 1)):
                            v = v == 1
                        else:
                            v = v % 2 == 1
                else:
                    q = part(v, 0, tw)
                    if is_c(v):
                        v = v % (1 << tw)
                    elif q is not None:
                        v = q
                    elif not self.entails(st, cmp('lt', v, 1 << tw)):
                        v = zi(v) % (1 << tw)
            if op == 'zext' and not is_c(v) and z3.is_int(v) and comp(v) is None:
                COMP[v.get_id()] = (v, ((0, fw, v),))
            env[i.res] = v
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            fty, a = i.a
            v = self.val(env, fty, a)
            ft, tt = self.m.resolve(fty), self.m.resolve(i.ty)
            if ft.k == 'float' and tt.k == 'int':
                v = f2i(v)
            elif ft.k == 'int' and tt.k == 'float':
                v = i2f(zi(v))
            env[i.res] = v
        elif op in ('sitofp', 'uitofp'):
            fty, a = i.a
            v = self.val(env, fty, a)
            env[i.res] = ffun(op + str(self.m.resolve(fty).w), z3.IntSort(), F64)(zi(v))
        elif op in ('fptosi', 'fptoui'):
            fty, a = i.a
            env[i.res] = ffun(op + str(i.ty.w), F64, z3.IntSort())(self.val(env, fty, a))
        elif op in ('fpext', 'fptrunc'):
            env[i.res] = ffun(op, F64, F64)(self.val(env, i.a[0], i.a[1]))
        elif op == 'select':
            c, a, b = i.a
            env[i.res] = ite(mkbool(self.val(env, IntTy(1), c)), self.val(env, i.ty, a), self.val(env, i.ty, b))
        elif op == 'freeze':
            env[i.res] = self.val(env, i.ty, i.a[0])
        elif op == 'alloca':
            env[i.res] = self.new_region('alloca')
        elif op == 'load':
            env[i.res] = self.load(st, i.ty, self.val(env, PTR, i.a[0]), i.meta)
        elif op == 'store':
            v = self.val(env, i.ty, i.a[0])
            self.store(st, i.ty, self.val(env, PTR, i.a[1]), v)
        elif op == 'getelementptr':
            bt, ops = i.a
            base = self.val(env, PTR, ops[0][1])
            env[i.res] = self.gep(env, bt, base, ops[1:], st)
        elif op == 'extractvalue':
            ty, a, idx = i.a
            v = self.val(env, ty, a)
            for k in idx:
                v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            a, e, idx = i.a
            v = self.val(env, i.ty, a)
            env[i.res] = insert_tuple(v, idx, None, self, env, i)
        elif op == 'landingpad':
            exc, sel = st.ghost.get('$lp')
            tok = 7000000 + next(_fid)
            st.ghost[('$exc', tok)] = exc
            env[i.res] = (tok, sel)
        elif op == 'atomicrmw':
            k, p, v = i.a
            pv = self.val(env, PTR, p)
            vv = self.val(env, i.ty, v)
            old = self.load(st, i.ty, pv)
            w = self.m.resolve(i.ty).w
            if k in ('add', 'sub'):
                self.store(st, i.ty, pv, self.binop(st, k, w, old, vv, set()))
            elif k == 'xchg':
                self.store(st, i.ty, pv, vv)
            else:
                raise Unsupported('atomicrmw ' + k)
            env[i.res] = old
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------ loops
    def loop(self, fn, h, prev, env, st):
        body = fn.loops[h]
        blk = fn.blocks[h]
        phis = [i for i in blk.insts if i.op == 'phi']
        init = {}
        for i in phis:
            for v, frm in i.a[0]:
                if frm == prev:
                    init[i.res] = self.val(env, i.ty, v)
        nsym0 = next(_fid)
        steps = {i.res: None for i in phis}      # None: unknown; int: affine; False: not affine
        cells = {}                               # key -> [Cell, init value, step]
        descs = {}                               # key -> desc (non-cell write set)
        gdirty = set()
        kap = fresh('k')
        self.mark_index(kap)
        ent = st.copy()

        def guess(v, iv, s):
            """first (dry) exploration: the new value points where the initial one does; the summary
            found this way is checked by the final run"""
            if self.dry and not is_c(v) and z3.is_int(v) and not is_c(iv) and z3.is_int(iv) and self.klass(iv) == ('pre', 0):
                self.mark_pre(v)
                s.assume(v < PRE_MAX)

        def mk(invs=(), contall=None, kv=None):
            k = kv if kv is not None else kap
            s = ent.copy()
            s.wlog = []
            s.assume(k >= 0)
            e = dict(env)
            phi = {}
            for i in phis:
                iv = init[i.res]
                sp = steps[i.res]
                if sp is not None and sp is not False and not isinstance(iv, tuple):
                    if sp == 0:
                        phi[i.res] = iv
                    else:
                        phi[i.res] = ladd(iv, lmul(k, sp))
                        ty = self.m.resolve(i.ty)
                        # (a machine value; the equality with the affine form is checked below)
                        s.assume(band(cmp('ge', phi[i.res], 0), cmp('lt', phi[i.res], 1 << (64 if ty.k == 'ptr' else ty.w))))
                else:
                    ty = self.m.resolve(i.ty)
                    phi[i.res] = self.fresh_of(ty, s, 'phi')
                    if sp is None:
                        guess(phi[i.res], iv, s)
                        kl = self.klass(iv) if self.dry and ty.k == 'ptr' and not isinstance(iv, tuple) and not is_c(iv) and z3.is_int(iv) else None
                        if kl and kl[0] == 'r':     # (likewise)
                            phi[i.res] = ladd(REG_BASE + kl[1] * REG_SIZE, phi[i.res])
                            s.assume(cmp('lt', phi[i.res], REG_BASE + (kl[1] + 1) * REG_SIZE))
            e.update(phi)
            ds = list(descs.values())
            byw = {}
            for d in ds:
                byw.setdefault(d.w, []).append(d)
            for w, dd in byw.items():
                s.mem[w] = HavocN(s.mem[w], fresh(f'L{w}', 'arr'), dd)
            cv = {}
            for key, (c, iv, sp) in cells.items():
                if sp is not None and sp is not False:
                    v = ladd(iv, lmul(k, sp)) if sp else iv
                    if sp:
                        s.assume(band(cmp('ge', v, 0), cmp('lt', v, 1 << (8 * c.w))))
                else:
                    v = fresh('cell')
                    s.assume(z3.And(v >= 0, v < (1 << (8 * c.w))))
                    if sp is None:
                        guess(v, iv, s)
                s.mem[c.w] = StoreN(s.mem[c.w], c.addr, v)
                cv[key] = v
            for g in sorted(gdirty):
                s.ghost[g] = fresh('g', s.ghost[g].sort()) if not is_c(s.ghost[g]) else fresh('g', 'bool' if isinstance(s.ghost[g], bool) else 'int')
            for f in invs:
                s.assume(f)
            return s, e, phi, cv

        def run(s, e, phi=None):
            # pointers into the pre-state which the invariants keep there
            for i in phis if phi else ():
                v, iv = phi[i.res], init[i.res]
                if steps[i.res] is False and not isinstance(v, tuple) and not is_c(v) and z3.is_int(v) and not isinstance(iv, tuple) and not is_c(iv) \
                        and self.m.resolve(i.ty).k == 'ptr' and self.klass(iv) == ('pre', 0) and self.klass(v) is None \
                        and self.valid(s, v < PRE_MAX, fast=True)[0] is True:
                    self.mark_pre(v)
            return self.region(fn, h, prev, e, s, body, h, first=True)

        self.dry += 1
        pruned = False
        try:
            for rnd in range(14):
                s, e, phi, cv = mk()
                npc = len(s.pc)
                outs = run(s, e)
                changed = False
                backs = [o for o in outs if o.kind == 'back']
                # phis
                for i in phis:
                    ty = self.m.resolve(i.ty)
                    if steps[i.res] is False:
                        continue
                    ds_ = set()
                    for o in backs:
                        bv = self.back_val(i, o, h)
                        if is_c(phi[i.res]) and isinstance(phi[i.res], bool) or (not is_c(bv) and z3.is_bool(bv)) or isinstance(bv, (tuple, bool)) or (not is_c(bv) and not z3.is_int(bv)):
                            same = (bv is phi[i.res]) or (is_c(bv) and is_c(phi[i.res]) and bv == phi[i.res]) or \
                                (not is_c(bv) and not is_c(phi[i.res]) and not isinstance(bv, tuple) and not isinstance(phi[i.res], tuple) and bv.eq(phi[i.res]))
                            ds_.add(0 if same else None)
                            continue
                        if not is_c(bv):
                            bv = self.simp_ite(bv, o.st)
                        d = lsub(bv, phi[i.res])
                        if not isinstance(d, int):
                            # decided by the path condition?
                            # (up to wrap-around: that there is none is checked with the final summary)
                            m_ = 1 << (64 if ty.k == 'ptr' else ty.w)
                            for c in (1, -1, 0):
                                if self.entails(o.st, bor(cmp('eq', d, c), cmp('eq', d, c - m_), cmp('eq', d, c + m_))):
                                    d = c
                                    break
                        ds_.add(d if isinstance(d, int) else None)
                    if len(ds_) == 1 and None not in ds_:
                        d = ds_.pop()
                        if steps[i.res] is None:
                            steps[i.res] = d
                            changed = True
                        elif steps[i.res] != d:
                            steps[i.res] = False
                            changed = True
                    elif backs:
                        steps[i.res] = False
                        changed = True
                # write set
                for o in outs:
                    if o.kind not in ('back',):
                        continue
                    for d in o.st.wlog:
                        changed |= self.add_write(d, descs, cells, ent, kap, nsym0, o.st, s, first=rnd == 0 and changed)
                for key in list(cells):
                    c, iv, sp = cells[key]
                    if key not in cv:
                        continue
                    if sp is False:
                        continue
                    ds_ = set()
                    for o in backs:
                        bv, _ = self.load_raw(o.st, c.w, c.addr)
                        if not is_c(bv):
                            bv = self.simp_ite(bv, o.st)
                        if isinstance(bv, bool) or (not is_c(bv) and not z3.is_int(bv)):
                            ds_.add(None)
                            continue
                        d = lsub(bv, cv[key])
                        if not isinstance(d, int):
                            m_ = 1 << (8 * c.w)
                            for cc in (1, -1, 0):
                                if self.entails(o.st, bor(cmp('eq', d, cc), cmp('eq', d, cc - m_), cmp('eq', d, cc + m_)) if cc else cmp('eq', d, 0)):
                                    d = cc
                                    break
                        ds_.add(d if isinstance(d, int) else None)
                    if len(ds_) == 1 and None not in ds_:
                        d = ds_.pop()
                        if sp is None:
                            cells[key][2] = d
                            changed = True
                        elif sp != d:
                            cells[key][2] = False
                            changed = True
                    elif backs:
                        cells[key][2] = False
                        changed = True
                # ghosts
                for o in backs:
                    for g, v in o.st.ghost.items():
                        if isinstance(g, str) and not g.startswith('$'):
                            v0 = s.ghost.get(g)
                            same = (v is v0) or (is_c(v) and is_c(v0) and v == v0) or (not is_c(v) and not is_c(v0) and v0 is not None and v.eq(v0))
                            if not same and g not in gdirty:
                                if v0 is None:
                                    raise Unsupported('ghost created in a loop')
                                gdirty.add(g)
                                changed = True
                if not changed:
                    # cells which only the first explorations wrote (with a loop variable at its
                    # initial value) are dropped, once
                    dead = [] if pruned else [key for key, (c, iv, sp) in cells.items() if not any(isinstance(d, Cell) and d.w == c.w and lsub(d.addr, c.addr) == 0
                                                                                                    for o in backs for d in o.st.wlog)]
                    pruned = True
                    if not dead:
                        break
                    for key in dead:
                        del cells[key]
                    descs.clear()
            else:
                raise Unsupported('loop summary does not stabilize in ' + fn.dem)

            # candidates
            ctx = LoopCtx(self, fn, h, self.depth)
            ctx.k = kap
            ctx.entry = ent
            ctx.steps, ctx.init = steps, init
            ctx.cells = [(c.w, c.addr) for c, iv, sp in cells.values() if sp is None or sp is False]
            ctx.wcells = {(c.w, c.addr) if is_c(c.addr) else None for c, iv, sp in cells.values()}
            ctx.ghosts = frozenset(gdirty)
            cands = []
            for gen in self.cands:
                c = gen(ctx)
                if c:
                    cands.extend(c)

            def inst_c(cand, s_, phis_, k_):
                v = View(self, s_, phis_, k_, ent, phis, init, steps, env)
                return cand(v)

            alive = []
            dup0, sk = {}, None
            for ci, c in enumerate(cands):
                s0 = ent.copy()
                f = inst_c(c, s0, init, z3.IntVal(0))
                if f is None:
                    continue
                if f.get_id() in dup0:      # same formula now and for a symbolic iteration: a duplicate
                    if sk is None:
                        sk, ek, pk, _ = mk()
                    fk = inst_c(c, sk, pk, kap)
                    if any(inst_c(d, sk, pk, kap).eq(fk) for d in dup0[f.get_id()]):
                        continue
                if self.valid(s0, f, timeout=self.cand_timeout, fast=True)[0]:
                    alive.append(c)
                    dup0.setdefault(f.get_id(), []).append(c)
                    _keep.append(f)
            # continuation condition of the earlier iterations: facts of the back paths, first
            # without any assumption about them, then once more assuming them (induction)
            contf = None

            def cont_of(invs_):
                s, e, phi, cv = mk()
                for c in invs_:
                    f = inst_c(c, s, phi, kap)
                    if f is not None:
                        s.assume(f)
                self.assume_cont(s, contf, kap)
                npc = len(s.pc)
                outs = run(s, e, phi)
                return s, e, phi, outs, self.cont_formula([o for o in outs if o.kind == 'back'], npc, kap, nsym0)
            contf = cont_of(())[4]
            if contf is not None:
                c2 = cont_of(())[4]
                if c2 is not None and not c2.eq(contf):
                    contf = z3.And(contf, c2)
            # Houdini
            while alive:
                s, e, phi, outs, c2 = cont_of(alive)
                backs = [o for o in outs if o.kind == 'back']
                keep = []
                for c in alive:
                    ok = True
                    for o in backs:
                        bphi = {i.res: self.back_val(i, o, h) for i in phis}
                        s2 = o.st.copy()
                        f = inst_c(c, s2, bphi, kap + 1)
                        if f is None:
                            continue
                        if self.valid(s2, f, timeout=self.cand_timeout, fast=True)[0] is not True:
                            ok = False
                            break
                    if ok:
                        keep.append(c)
                stable = len(keep) == len(alive)
                alive = keep
                if stable:
                    if alive and c2 is not None and (contf is None or not c2.eq(contf)):
                        contf = c2 if contf is None else z3.And(contf, c2)
                    break
        finally:
            self.dry -= 1
        # final run (records obligations)
        s, e, phi, cv = mk()
        for c in alive:
            f = inst_c(c, s, phi, kap)
            if f is not None:
                s.assume(f)
        self.assume_cont(s, contf, kap)
        outs = run(s, e, phi)
        # verify the affine summaries with full strength and the write set
        for o in outs:
            if o.kind != 'back':
                continue
            if o.st.ghost.get('$ev', ()) != ent.ghost.get('$ev', ()):
                raise Unsupported('recorded events in a loop')
            for gk in set(o.st.ghost) | set(ent.ghost):
                if isinstance(gk, str) and gk.startswith('$') and gk != '$ev':
                    gx, gy = o.st.ghost.get(gk), ent.ghost.get(gk)
                    if gx is not gy and not (gx.eq(gy) if isinstance(gx, z3.ExprRef) and isinstance(gy, z3.ExprRef) else not isinstance(gx, z3.ExprRef) and not isinstance(gy, z3.ExprRef) and gx == gy):
                        raise Unsupported('ghost %s changes in a loop' % gk)
            for i in phis:
                sp = steps[i.res]
                if sp is None or sp is False:
                    continue
                bv = self.back_val(i, o, h)
                if isinstance(bv, (bool, tuple)) or (not is_c(bv) and not z3.is_int(bv)):
                    continue
                g = cmp('eq', bv, ladd(init[i.res], lmul(kap + 1, sp)))
                if g is not True:
                    if self.valid(o.st, g)[0] is not True:
                        raise Unsupported('affine summary')
            for key, (c, iv, sp) in cells.items():
                if sp is None or sp is False:
                    continue
                bv, _ = self.load_raw(o.st, c.w, c.addr)
                g = cmp('eq', bv, ladd(iv, lmul(kap + 1, sp)))
                if g is not True and self.valid(o.st, g)[0] is not True:
                    raise Unsupported('affine cell summary')
            ents = ent.copy()
            for d in o.st.wlog:
                if self.add_write(d, dict(descs), {k: list(v) for k, v in cells.items()}, ents, kap, nsym0, o.st, s):
                    raise Unsupported('write set of loop grows')
        if not self.dry:
            # (every dropped `back` path has been checked: partial correctness)
            key = (fn.dem[:100], h)
            self.loops[key] = {'phis': {str(k): v for k, v in steps.items()}, 'cells': len(cells),
                               'writes': [d.key()[0] for d in descs.values()], 'invariants': len(alive),
                               'cont': contf is not None}
            self.obls.append((f'loop {fn.dem[:60]}: summary inductive ({len(alive)} invariants)', True, 'z3', 0))
        res = []
        for o in outs:
            if o.kind == 'back':
                continue
            o.st.wlog = list(ent.wlog) + [d for d in descs.values()] + [c for (c, _, _) in cells.values()] + o.st.wlog
            res.append(o)
        return res

    def mark_index(self, k):
        if not hasattr(self, 'index_atoms'):
            self.index_atoms = set()
        self.index_atoms.add(k.get_id())
        self.pre_atoms.add(k.get_id())
        _keep.append(k)

    def back_val(self, i, o, h):
        for v, frm in i.a[0]:
            if frm == o.frm:
                return self.val(o.env, i.ty, v)
        raise Unsupported('phi back')

    def fresh_of(self, ty, s, nm):
        if ty.k == 'int' and ty.w == 1:
            return fresh(nm, 'bool')
        if ty.k in ('int', 'ptr'):
            v = fresh(nm)
            w = 64 if ty.k == 'ptr' else ty.w
            s.assume(z3.And(v >= 0, v < (1 << w)))
            return v
        if ty.k == 'float':
            return fresh(nm, 'f64')
        if ty.k == 'struct':
            return tuple(self.fresh_of(self.m.resolve(e), s, nm) for e in ty.els)
        raise Unsupported('phi type')

    def add_write(self, d, descs, cells, ent, kap, nsym0, st, s_iter, first=False):
        """returns True if the write set grew"""
        kn = kap.decl().name()

        def okterm(t, allow_k=False):
            for n in syms(t):
                if n == kn:
                    if not allow_k:
                        return False
                elif sym_id(n) > nsym0:
                    return False
            return True
        if isinstance(d, Cell):
            a = d.addr
            # covered?
            for k, (c, iv, sp) in cells.items():
                if c.w == d.w:
                    df = lsub(a, c.addr)
                    if isinstance(df, int):
                        if df == 0:
                            return False
            # stack slots allocated inside of the loop body are dead at the next iteration
            kl = self.klass(a)
            if kl and kl[0] == 'r' and kl[1] not in self.regions_before(ent):
                return False
            for k, x in descs.items():
                if x.w == d.w:
                    if isinstance(x, SpecSet):
                        if self.valid(st, x.isin(a), fast=True)[0] is True:
                            return False
                        continue
                    if isinstance(x, Interval) and kl and self.klass(x.lo) and self.klass(x.lo) != kl:
                        continue
                    if isinstance(x, (HeapAll, RegionD)) and kl:
                        if self.isin(x, a) is True:
                            return False
                        continue
                    if self.entails(st, x.isin(a)):
                        return False
            if okterm(a):
                v, _ = self.load_raw(ent, d.w, a)
                if not is_c(v) and not z3.is_int(v):
                    raise Unsupported('cell value')
                cells[('c', d.w, str(a))] = [Cell(d.w, a), v, None]
                return True
            if okterm(a, True):
                t, c = lin(a)
                kco = t.get(kap.get_id())
                t2 = {i: x for i, x in t.items() if i != kap.get_id()}
                if kco and all(kn not in syms(x[1]) for x in t2.values()):
                    a0 = unlin(t2, c)
                    co = kco[0]
                    if co > 0:
                        iv = Interval(d.w, a0, ladd(a0, lmul(kap, co)))
                        # in the iteration itself the write goes to [a0 + co*k, ...): use closed form for <= k
                        x = AffineSet(d.w, a0, co, kap)
                    else:
                        x = AffineSet(d.w, a0, co, kap)
                    key = x.key()
                    if key in descs:
                        return False
                    descs[key] = x
                    return True
            if first and kl and kl[0] == 'r':       # the loop variables are not known yet
                return True
            for x in self.write_sets:
                if x.w == d.w and x.key() not in descs and (kl is None or kl[0] == 'r' and kl[1] in x.rids) and self.valid(st, x.isin(a), fast=True)[0] is True:
                    descs[x.key()] = x
                    return True
            if kl is None:
                if self.entails(st, cmp('lt', a, REG_BASE)):
                    kl = ('pre', 0)
                else:
                    raise Unsupported('unclassified write in a loop: ' + str(a)[:200])
            x = RegionD(d.w, kl[1]) if kl[0] == 'r' else HeapAll(d.w)
            if x.key() in descs:
                return False
            descs[x.key()] = x
            return True
        # nested havocs
        if isinstance(d, AffineSet) or isinstance(d, Interval):
            lo = d.a0 if isinstance(d, AffineSet) else d.lo
            if d.key() in descs:
                return False
            kl = self.klass(lo)
            if kl and kl[0] == 'r' and kl[1] not in self.regions_before(ent):
                return False
            for x in descs.values():
                if x.w == d.w and kl and isinstance(x, (HeapAll, RegionD)) and self.isin(x, lo) is True:
                    return False
            if all(okterm(t) for t in d.terms()) and isinstance(d, Interval):
                descs[d.key()] = d
                return True
            if kl is None:
                if self.entails(st, cmp('lt', lo, REG_BASE)):
                    kl = ('pre', 0)
                else:
                    raise Unsupported('unclassified write range in a loop')
            x = RegionD(d.w, kl[1]) if kl[0] == 'r' else HeapAll(d.w)
            if x.key() in descs:
                return False
            descs[x.key()] = x
            return True
        if isinstance(d, SpecSet):
            if d.key() in descs:
                return False
            descs[d.key()] = d
            return True
        if isinstance(d, (HeapAll, RegionD)):
            if isinstance(d, RegionD) and d.rid not in self.regions_before(ent):
                return False
            if d.key() in descs:
                return False
            descs[d.key()] = d
            return True
        raise Unsupported('write descriptor')

    def regions_before(self, ent):
        """regions which exist in state ent: those written so far (or reserved by a contract)"""
        rs = ent.ghost.get('$regs_cache')
        out = set(ent.ghost.get('$regs', ()))
        for d in ent.wlog:
            for t in ([d.addr] if isinstance(d, Cell) else [d.a0] if isinstance(d, AffineSet) else [d.lo] if isinstance(d, (Interval,)) else []):
                k = self.klass(t)
                if k and k[0] == 'r':
                    out.add(k[1])
            if isinstance(d, RegionD):
                out.add(d.rid)
        return out | self.live_regions

    live_regions = frozenset()

    def cont_formula(self, backs, npc, kap, nsym0):
        """(Or over back paths of the facts which are functions of k)"""
        if not backs:
            return None
        kn = kap.decl().name()
        ors = []
        for o in backs:
            fs = [f for f in o.st.pc[npc:]]
            fs = eliminate(fs, nsym0, kn)
            good = [f for f in fs if all(n == kn or sym_id(n) <= nsym0 for n in syms(f))]
            ors.append(good)
        # facts common to all are factored out by z3 itself
        if all(len(g) == 0 for g in ors):
            return None
        return z3.Or([z3.And(g) if g else z3.BoolVal(True) for g in ors]) if len(ors) > 1 else z3.And(ors[0])

    def assume_cont(self, s, contf, kap):
        if contf is None:
            return
        j = z3.Int('j!c')
        body = z3.substitute(contf, (kap, j))
        pats = patterns_for(body, j)
        q = z3.Implies(z3.And(j >= 0, j < kap), body)
        s.assume(forall(j, q, pats))
        s.assume(z3.Implies(kap >= 1, z3.substitute(contf, (kap, kap - 1))))
        # a bound missed by every earlier iteration is still ahead: k != e for all earlier k
        for e in self.missed(contf, kap):
            s.assume(z3.Or(e < 0, kap <= e))

    def missed(self, contf, kap):
        kid = kap.get_id()

        def of(f):
            out = {}
            for c in conj(f):
                if not (z3.is_not(c) and z3.is_eq(c.children()[0]) or z3.is_distinct(c)):
                    continue
                a, b = (c.children()[0] if z3.is_not(c) else c).children()
                if not z3.is_int(a):
                    continue
                t, c0 = lin(lsub(a, b)) if not is_c(lsub(a, b)) else ({}, 0)
                co = t.get(kid, (0, None))[0]
                rest = {i: v for i, v in t.items() if i != kid}
                if not co or any(v[0] % co for v in rest.values()) or c0 % co:
                    continue
                if any(kap.decl().name() in syms(v[1]) for v in rest.values()):
                    continue
                e = zi(unlin({i: (-v[0] // co, v[1]) for i, v in rest.items()}, -c0 // co))
                out[str(e)] = e
            return out
        res = {}
        for f in conj(contf):
            if z3.is_or(f):
                parts = [of(x) for x in f.children()]
                common = set(parts[0])
                for q in parts[1:]:
                    common &= set(q)
                res.update({k: parts[0][k] for k in common})
            else:
                res.update(of(f))
        return list(res.values())


class AffineSet:
    """addresses {a0 + co*j | 0 <= j <= k} with a known stride"""
    def __init__(self, w, a0, co, k):
        self.w, self.a0, self.co, self.k = w, a0, co, k
        self.lo = a0

    def isin(self, x):
        d = lsub(x, self.a0)
        co = self.co
        if co < 0:
            d, co = lsub(0, d), -co
        t, c = lin(d)
        # (the set of the iterations so far: strictly less than k; an iteration's own
        #  write is applied on top, so k itself is not in)
        if all(v[0] % co == 0 for v in t.values()) and c % co:
            return False
        return band(cmp('ge', d, 0), cmp('lt', d, lmul(self.k, co)))

    def key(self):
        return ('aff', self.w, str(self.a0), self.co)

    def terms(self):
        return [self.a0, self.k]


class View:
    """a loop state as seen by invariant candidates"""
    def __init__(self, ex, st, phi, k, entry, phis, init, steps, env):
        self.ex, self.st, self.phi, self.k, self.entry = ex, st, phi, k, entry
        self.phis, self.init, self.steps, self.env = phis, init, steps, env

    def nonaffine(self, kind=None):
        out = []
        for i in self.phis:
            sp = self.steps[i.res]
            if sp is False or sp is None:
                out.append((i.res, i.ty, self.phi[i.res], self.init[i.res]))
        return out

    def ghost(self, n):
        return self.st.ghost[n]

    def ghost0(self, n):
        return self.entry.ghost[n]

    def rd(self, w, a):
        return self.ex.load_raw(self.st, w, a)[0]

    def rd0(self, w, a):
        return self.ex.load_raw(self.entry, w, a)[0]

    def arr(self, w):
        return self.ex.zarr(self.st.mem[w], self.st)

    def arr0(self, w):
        return self.ex.zarr(self.entry.mem[w], self.st)


def patterns_for(body, j):
    """select terms containing j (as triggers)"""
    pats = []
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if (k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0)) and contains(x, j):
                # simplest: a select whose index is linear in j and whose array does not contain j
                inner = [c for c in x.children() if contains(c, j)]
                if not any(has_sel(c) for c in x.children()):
                    pats.append(x)
                    continue
            stack.extend(x.children())
    return pats[:4]


def has_sel(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_ITE):
                return True
            st.extend(x.children())
    return False


def contains(e, j):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.eq(j):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def eliminate(fs, nsym0, kn):
    """eliminate iteration-local symbols defined by an equality"""
    fs = list(fs)
    for _ in range(20):
        done = True
        for idx, f in enumerate(fs):
            if z3.is_quantifier(f) or not z3.is_eq(f):
                continue
            a, b = f.children()
            if not z3.is_int(a):
                continue
            t, c = lin(lsub(a, b)) if not is_c(lsub(a, b)) else ({}, 0)
            for i, (co, x) in t.items():
                if all(v[0] % co == 0 for v in t.values()) and c % co == 0 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n != kn and sym_id(n) > nsym0:
                        rest = {q: v for q, v in t.items() if q != i}
                        if any(n in syms(v[1]) for v in rest.values()):
                            continue
                        sol = unlin({q: (-v[0] // co, v[1]) for q, v in rest.items()}, -c // co)
                        fs = [z3.substitute(g, (x, zi(sol))) for k, g in enumerate(fs) if k != idx]
                        done = False
                        break
            if not done:
                break
        if done:
            break
    out = []
    for f in fs:
        f2 = f
        out.extend(f2.children() if z3.is_and(f2) else [f2])
    return out


def ite_bool(v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() == 1 and b.as_long() == 0:
                return c
            if a.as_long() == 0 and b.as_long() == 1:
                return z3.Not(c)
    return None


def collect_ite_consts(e):
    out = []
    st = [e]
    while st:
        x = st.pop()
        if z3.is_int_value(x):
            out.append(x.as_long())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            st.extend(x.children()[1:])
        else:
            return []
    return out


def insert_tuple(v, idx, _, ex, env, i):
    a, e, idx = i.a
    # type of the element is not kept: operands of insertvalue are registers or small constants
    ev = env[e[1]] if e[0] == 'reg' else (0 if e[0] in ('zero',) else e[1] if e[0] == 'const' else ex.glob_addr(e[1]) if e[0] == 'glob' else None)

    def ins(t, idx):
        t = list(t)
        if len(idx) == 1:
            t[idx[0]] = ev
        else:
            t[idx[0]] = ins(t[idx[0]], idx[1:])
        return tuple(t)
    return ins(v, idx)


# ---------------------------------------------------------------- contracts on the environment
FD = z3.Function('firstdiff', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort())


def fd_term(ex, st, p, q, n):
    """index of the first difference of p[0,n) and q[0,n), n if none"""
    arr = ex.zarr(st.mem[1], st)
    d = FD(zi(p), zi(q), zi(n), arr)
    i = z3.Int('i!fd')
    st.assume(z3.And(d >= 0, d <= zi(n)))
    st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < d), z3.Select(arr, zi(p) + i) == z3.Select(arr, zi(q) + i)),
                     [z3.Select(arr, zi(p) + i), z3.Select(arr, zi(q) + i)]))
    st.assume(z3.Implies(d < zi(n), z3.Select(arr, zi(p) + d) != z3.Select(arr, zi(q) + d)))
    for a in (z3.Select(arr, zi(p) + d), z3.Select(arr, zi(q) + d)):
        st.assume(z3.And(a >= 0, a < 256))
    return d, arr


def c_memcmp(ex, st, args, inst, dem):
    p, q, n = args
    ex.prove_pre(st, bor(cmp('eq', n, 0), band(cmp('ne', p, 0), cmp('ne', q, 0))), 'memcmp: null argument')
    d, arr = fd_term(ex, st, p, q, n)
    r = fresh('memcmp')
    a, b = z3.Select(arr, zi(p) + d), z3.Select(arr, zi(q) + d)
    s = z3.If(r < (1 << 31), r, r - (1 << 32))
    st.assume(z3.And(r >= 0, r < (1 << 32)))
    st.assume(z3.If(d == zi(n), r == 0, z3.If(a < b, s < 0, s > 0)))
    if ex.footprint_bytes and not ex.dry:
        ex.footprint_bytes(ex, st, p, n)
        ex.footprint_bytes(ex, st, q, n)
    return [Out('ret', st, r)]


def c_memchr(ex, st, args, inst, dem):
    p, ch, n = args
    ex.prove_pre(st, bor(cmp('eq', n, 0), cmp('ne', p, 0)), 'memchr: null argument')
    arr = ex.zarr(st.mem[1], st)
    k = fresh('idx')
    c8 = zi(ch) % 256 if not is_c(ch) else z3.IntVal(ch % 256)
    i = z3.Int('i!mc')
    st.assume(z3.And(k >= 0, k <= zi(n)))
    st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < k), z3.Select(arr, zi(p) + i) != c8), [z3.Select(arr, zi(p) + i)]))
    st.assume(z3.Implies(k < zi(n), z3.Select(arr, zi(p) + k) == c8))
    if ex.footprint_bytes and not ex.dry:
        ex.footprint_bytes(ex, st, p, n)
    return [Out('ret', st, z3.If(k < zi(n), zi(ladd(p, k)), z3.IntVal(0)))]


def c_strlen(ex, st, args, inst, dem):
    p = args[0]
    if is_c(p) and p >= GL_BASE and p < REG_BASE:
        n = 0
        while True:
            v = ex.const_global_load(1, p + n)
            if v is None:
                break
            if v == 0:
                return [Out('ret', st, n)]
            n += 1
    ex.prove_pre(st, cmp('ne', p, 0), 'strlen: null argument')
    arr = ex.zarr(st.mem[1], st)
    f = ffun('strlen_', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort())
    n = f(zi(p), arr)
    i = z3.Int('i!sl')
    st.assume(z3.And(n >= 0, n < PRE_MAX))
    st.assume(forall(i, z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, zi(p) + i) != 0), [z3.Select(arr, zi(p) + i)]))
    st.assume(z3.Select(arr, zi(p) + n) == 0)
    return [Out('ret', st, n)]


def c_memcpy(ex, st, args, inst, dem):
    ex.memcpy(st, args[0], args[1], args[2])
    return [Out('ret', st, args[0])]


def c_memset(ex, st, args, inst, dem):
    ex.memset(st, args[0], args[1], args[2])
    return [Out('ret', st, args[0])]


def c_terminate(ex, st, args, inst, dem):
    ex.prove(st, False, 'unreachable: std::terminate (exception out of a noexcept function)')
    return []


def c_assert(ex, st, args, inst, dem):
    ex.prove(st, False, 'unreachable: assertion')
    return []


def c_new(ex, st, args, inst, dem):
    outs = []
    s1 = st
    p = ex.new_region('new')
    s1.ghost['$regs'] = tuple(s1.ghost.get('$regs', ())) + ((p - REG_BASE) // REG_SIZE,)
    if not getattr(ex, 'no_oom', True):
        s2 = st.copy()
        outs.append(Out('throw', s2, ('std', '_ZTISt9bad_alloc')))
    outs.append(Out('ret', s1, p))
    return outs


def c_noop(ex, st, args, inst, dem):
    return [Out('ret', st, None)]


def c_begin_catch(ex, st, args, inst, dem):
    st.ghost['$unc'] = st.ghost.get('$unc', 0) - 1
    st.exc = st.exc + [st.ghost.get(('$exc', args[0]), ('any', None)) if isinstance(args[0], int) else ('any', None)]
    return [Out('ret', st, ex.new_region('exc'))]


def c_end_catch(ex, st, args, inst, dem):
    st.exc = st.exc[:-1]
    return [Out('ret', st, None)]


def c_rethrow(ex, st, args, inst, dem):
    return [Out('throw', st, st.exc[-1] if st.exc else ('any', None))]


def c_alloc_exc(ex, st, args, inst, dem):
    return [Out('ret', st, ex.new_region('exc'))]


STD_EXC = re.compile(r'_ZTI(St9bad_alloc|St13runtime_error|St11logic_error|St12out_of_range|St12length_error|St16invalid_argument|St9exception|N7dynamix)')


def c_throw(ex, st, args, inst, dem):
    ti = None
    for n, a in ex.gladdr.items():
        if a == args[1]:
            ti = n
    return [Out('throw', st, ('std' if ti and STD_EXC.match(ti) else 'any', ti))]


def c_throw_exception(ex, st, args, inst, dem):
    st.ghost['$thrown'] = re.sub(r'\(.*', '', dem)
    return [Out('throw', st, ('std', dem))]


def c_uncaught(ex, st, args, inst, dem):
    v = ladd(getattr(ex, 'uncaught', 0), st.ghost.get('$unc', 0))
    return [Out('ret', st, v)]


def c_guard(ex, st, args, inst, dem):
    v = fresh('guard')
    st.assume(z3.Or(v == 0, v == 1))
    return [Out('ret', st, v)]


def c_atexit(ex, st, args, inst, dem):
    return [Out('ret', st, 0)]


def c_length_error(ex, st, args, inst, dem):
    return [Out('throw', st, ('std', '_ZTISt12length_error'))]


def prove_pre(self, st, f, name):
    return self.prove(st, f, 'pre ' + name)


Engine.prove_pre = prove_pre
Engine.footprint_bytes = None

BUILTINS = [
    (r'^memcmp$', c_memcmp), (r'^bcmp$', c_memcmp), (r'^memchr$', c_memchr), (r'^strlen$', c_strlen),
    (r'^memcpy$|^memmove$', c_memcpy), (r'^memset$', c_memset),
    (r'^__clang_call_terminate$|^std::terminate\(\)$|^abort$', c_terminate),
    (r'^__assert_fail$', c_assert),
    (r'^operator new(\[\])?\(unsigned long(, std::align_val_t)?\)$', c_new),
    (r'^operator delete', c_noop),
    (r'^__cxa_begin_catch$', c_begin_catch), (r'^__cxa_end_catch$', c_end_catch), (r'^__cxa_rethrow$', c_rethrow),
    (r'^__cxa_allocate_exception$', c_alloc_exc), (r'^__cxa_throw$', c_throw), (r'^__cxa_free_exception$', c_noop),
    (r'dynamix::throw_exception::', c_throw_exception),
    (r'^std::uncaught_exceptions\(\)$', c_uncaught),
    (r'^std::__throw_', c_length_error),
    (r'^__cxa_guard_acquire$', c_guard), (r'^__cxa_guard_release$|^__cxa_guard_abort$', c_noop), (r'^__cxa_atexit$', c_atexit),
]
