import z3
from lib import *
import engine

D = 'pmr.cpp'
FL = ('-D_LIBCPP_VERSION=15000',)
NATIVE = dict(src=['c27.cpp'], lib=None, flags=['-D_LIBCPP_VERSION=15000'])
TRUST = ['contract of aligned_alloc (C11): for a power of two alignment and a size which is a multiple of it, null or a block of that size and alignment; contract of free: frees a block of malloc/aligned_alloc',
         'the constant initialized vtable pointer of the default resource object is not overwritten',
         'the allocator is a template: proved for std::byte, 3-byte, 8-byte, 16-byte and over-aligned (32) element types',
         'alignments are powers of two (precondition of the resource interface)']
W64 = 1 << 64


def libc(p):
    """contracts of the C library; what was asked for is recorded in $a / $f"""
    ex = p.ex

    def aligned(ex, st, args, inst, dem):
        al, n = args
        ex.prove_pre(st, zb(is_c(al) and al > 0 and al & (al - 1) == 0) if is_c(al) else z3.Or(*[al == (1 << i) for i in range(64)]), 'of aligned_alloc: alignment is a power of two')
        ex.prove_pre(st, zi(n) % zi(al) == 0, 'of aligned_alloc: size is a multiple of the alignment')
        s2 = st.copy()
        r = fresh('block')
        st.assume(z3.And(r >= 4096, r < (1 << 62), r % zi(al) == 0))
        st.ghost['$a'] = tuple(st.ghost.get('$a', ())) + ((n, al, r),)
        s2.ghost['$a'] = tuple(s2.ghost.get('$a', ())) + ((n, al, 0),)
        return [Out('ret', st, r), Out('ret', s2, 0)]

    def free(ex, st, args, inst, dem):
        st.ghost['$f'] = tuple(st.ghost.get('$f', ())) + (args[0],)
        return [Out('ret', st, None)]
    ex.contracts += [(r'^aligned_alloc$', aligned), (r'^(free|cfree)$', free)]
    ex.init_globals(p.st0, r'default_resource.*3res$|get_default_resource')


def resource(p):
    """the recording resource"""
    def alloc(ex, st, args, inst, dem):
        r = fresh('block')
        s2 = st.copy()
        st.ghost['$a'] = tuple(st.ghost.get('$a', ())) + ((args[0], args[1], args[2], r),)
        s2.ghost['$a'] = tuple(s2.ghost.get('$a', ())) + ((args[0], args[1], args[2], None),)
        return [Out('ret', st, r), Out('throw', s2, ('std', 'resource'))]

    def dealloc(ex, st, args, inst, dem):
        st.ghost['$f'] = tuple(st.ghost.get('$f', ())) + (tuple(args),)
        return [Out('ret', st, None)]
    p.ex.contracts += [(r'^ext_allocate$', alloc), (r'^ext_deallocate$', dealloc)]
    r = p.stack('resource')
    o = p.nothrow(p.call('vf_res', [r]), 'resource constructor')
    p.st0 = o[0].st
    return r


def verify(s):
    def default_alloc(p, lo):
        libc(p)
        for i in range(lo, 64, 8):
            al = 1 << i
            n = p.u('n%d' % i, 64)
            outs = p.call(args=[n, al])
            if i in (0, 4, 12, 47):
                p.cover([o for o in outs if o.kind == 'ret'], 'alignment %d: can succeed' % al)
            for o in outs:
                a = o.st.ghost.get('$a', ())
                if o.kind == 'throw':
                    p.prove(o.st, zb('bad_alloc' in str(o.val)), 'alignment %d: throws bad_alloc' % al)
                    ok = n + al - 1 >= W64
                    for q in a:
                        if is_c(q[2]) and q[2] == 0:
                            ok = z3.BoolVal(True)
                    p.prove(o.st, ok, 'alignment %d: throws only when there is no memory or no such size' % al)
                    for q in a:
                        p.prove(o.st, zi(q[2]) == 0, 'alignment %d: nothing leaks' % al)
                    continue
                r = zi(o.val)
                p.prove(o.st, z3.Or(*[z3.And(zi(q[2]) != 0, r == zi(q[2]), zi(q[0]) >= n, zi(q[1]) % al == 0) for q in a]) if a else z3.BoolVal(False),
                        'alignment %d: the block is fresh, large enough and aligned' % al)
                p.prove(o.st, zb(len(a) == 1 and not o.st.ghost.get('$f')), 'alignment %d: one block' % al)
    for lo in range(8):
        s.contract('get_default_resource()->allocate (alignments 2^%d, 2^%d, ...)' % (lo, lo + 8), D, 'vf_default_allocate', lambda p, lo=lo: default_alloc(p, lo), flags=FL)

    def default_alloc1(p):
        libc(p)
        n = p.u('n', 64)
        outs = p.call(args=[n])
        p.cover([o for o in outs if o.kind == 'ret'])
        for o in outs:
            a = o.st.ghost.get('$a', ())
            if o.kind == 'ret':
                p.prove(o.st, z3.Or(*[z3.And(zi(q[2]) != 0, zi(o.val) == zi(q[2]), zi(q[0]) >= n, zi(q[1]) % 16 == 0) for q in a]) if a else z3.BoolVal(False), 'aligned for every fundamental type by default')
            else:
                p.prove(o.st, z3.Or(n + 15 >= W64, *[zi(q[2]) == 0 for q in a]), 'throws only when there is no memory or no such size')
    s.contract('memory_resource::allocate (default alignment)', D, 'vf_default_allocate1', default_alloc1, flags=FL)

    def default_dealloc(p):
        libc(p)
        b, n, al = p.ptr('block'), p.u('n', 64), p.u('al', 64)
        outs = p.nothrow(p.call(args=[b, n, al]))
        p.cover(outs)
        for o in outs:
            f = o.st.ghost.get('$f', ())
            p.prove(o.st, zb(len(f) == 1) if len(f) != 1 else zi(f[0]) == b, 'frees exactly the given block')
            p.prove(o.st, zb(not o.st.ghost.get('$a')), 'allocates nothing')
    s.contract('get_default_resource()->deallocate', D, 'vf_default_deallocate', default_dealloc, flags=FL)

    def default_eq(p):
        libc(p)
        r = p.ptr('r')
        outs = p.nothrow(p.call(args=[r]))
        p.cover(outs)
        d = p.nothrow(p.call('vf_default_res'))[0].val
        for o in outs:
            p.prove(o.st, z3.Not(b8(o.val)), 'a different resource is not equal')
        for o in p.nothrow(p.call('vf_default_same')):
            p.prove(o.st, b8(o.val), 'the default resource is one object and equal to itself')
    s.contract('get_default_resource, is_equal', D, 'vf_default_equal', default_eq, flags=FL)

    for t in ('byte', 'c3', 'a32', 'l', 'ptr'):
        def allocate(p, t=t):
            r = resource(p)
            sz, al = getattr(p.k, 'size_' + t), getattr(p.k, 'align_' + t)
            c = p.u('count', 64)
            outs = p.call(args=[r, c])
            p.cover([o for o in outs if o.kind == 'ret'])
            for o in outs:
                a = o.st.ghost.get('$a', ())
                if o.kind == 'throw':
                    p.prove(o.st, c * sz >= W64 if not a else zb(len(a) == 1 and a[0][3] is None), 'throws only when the resource does or the size is not representable')
                    continue
                p.prove(o.st, zb(len(a) == 1 and not o.st.ghost.get('$f')), 'one request')
                if len(a) == 1:
                    q = a[0]
                    p.prove(o.st, z3.And(zi(q[0]) == r, zi(q[1]) == c * sz, zi(q[2]) == al, zi(q[3]) == zi(o.val)), 'requests n times the element size with its alignment from its resource')
        s.contract('allocator<%s>::allocate' % t, D, 'vf_allocate_' + t, allocate, flags=FL)

        def deallocate(p, t=t):
            r = resource(p)
            sz, al = getattr(p.k, 'size_' + t), getattr(p.k, 'align_' + t)
            c, b = p.u('count', 64), p.ptr('block')
            p.assume(c * sz < W64)
            outs = p.nothrow(p.call(args=[r, b, c]))
            p.cover(outs)
            for o in outs:
                f = o.st.ghost.get('$f', ())
                p.prove(o.st, zb(len(f) == 1 and not o.st.ghost.get('$a')), 'one call')
                if len(f) == 1:
                    q = f[0]
                    p.prove(o.st, z3.And(zi(q[0]) == r, zi(q[1]) == b, zi(q[2]) == c * sz, zi(q[3]) == al), 'returns the block to its resource with the same size and alignment')
        s.contract('allocator<%s>::deallocate' % t, D, 'vf_deallocate_' + t, deallocate, flags=FL)

        def byts(p, t=t):
            r = resource(p)
            c, al, b = p.u('count', 64), p.u('al', 64), p.ptr('block')
            for e, args, wal in (('bytes', [r, c, al], al), ('bytes1', [r, c], z3.IntVal(16))):
                outs = p.call('vf_%s_%s' % (e, t), args)
                p.cover([o for o in outs if o.kind == 'ret'])
                for o in outs:
                    a = o.st.ghost.get('$a', ())
                    p.prove(o.st, zb(len(a) == 1), e + ': one request')
                    if o.kind == 'ret' and len(a) == 1:
                        q = a[0]
                        p.prove(o.st, z3.And(zi(q[0]) == r, zi(q[1]) == c, zi(q[2]) == wal, zi(q[3]) == zi(o.val)), e + ': requests that size and alignment')
            for e, args, wal in (('dbytes', [r, b, c, al], al), ('dbytes1', [r, b, c], z3.IntVal(16))):
                outs = p.nothrow(p.call('vf_%s_%s' % (e, t), args))
                p.cover(outs)
                for o in outs:
                    f = o.st.ghost.get('$f', ())
                    p.prove(o.st, zb(len(f) == 1), e + ': one call')
                    if len(f) == 1:
                        q = f[0]
                        p.prove(o.st, z3.And(zi(q[0]) == r, zi(q[1]) == b, zi(q[2]) == c, zi(q[3]) == wal), e + ': returns that block, size and alignment')
        s.contract('allocator<%s>::(de)allocate_bytes' % t, D, 'vf_bytes_' + t, byts, flags=FL)

        def keeps(p, t=t):
            libc(p)
            r, q = p.ptr('r'), p.ptr('q')
            d = p.nothrow(p.call('vf_default_res'))[0].val
            for e, want in (('resource', r), ('copy', r), ('move', r), ('rebind', r), ('rebindto', r), ('soccc', zi(d)), ('def', zi(d))):
                outs = p.nothrow(p.call('vf_%s_%s' % (e, t), [] if e == 'def' else [r]), e + ': does not throw')
                p.cover(outs)
                for o in outs:
                    p.prove(o.st, zi(o.val) == want, e + ': the right resource')
            for e, neg in (('eq', 0), ('ne', 1), ('eqx', 0), ('nex', 1)):
                outs = p.nothrow(p.call('vf_%s_%s' % (e, t), [r, q]), e + ': does not throw')
                p.cover(outs)
                for o in outs:
                    p.prove(o.st, b8(o.val) == ((r != q) if neg else (r == q)), e + ': exactly when the resource is shared')
        s.contract('allocator<%s>: copies, rebinds, equality' % t, D, 'vf_resource_' + t, keeps, flags=FL)
