"""Parser for the subset of textual LLVM 18 IR which clang emits for dynamix.

The IR is produced from /repo's working tree on every run; nothing here is specific
to dynamix.  Anything outside of the subset raises Unsupported (never a silent skip).
"""
import re
import subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'name', 'packed')

    def __init__(self, k, w=0, n=0, el=None, els=None, name=None, packed=False):
        self.k, self.w, self.n, self.el, self.els, self.name, self.packed = k, w, n, el, els, name, packed

    def __repr__(self):
        return {'int': f'i{self.w}', 'ptr': 'ptr', 'void': 'void', 'arr': f'[{self.n} x {self.el}]',
                'struct': '{' + ','.join(map(str, self.els or [])) + '}', 'named': f'%{self.name}',
                'float': self.name}.get(self.k, self.k)


PTR = Ty('ptr')
VOID = Ty('void')
_ints = {}


def IntTy(w):
    if w not in _ints:
        _ints[w] = Ty('int', w=w)
    return _ints[w]


TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<lid>%"(?:[^"\\]|\\.)*"|%[-A-Za-z$._0-9]+)
  | (?P<gid>@"(?:[^"\\]|\\.)*"|@[-A-Za-z$._0-9]+)
  | (?P<meta>!(?:[-A-Za-z$._0-9]*|"[^"]*"))
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+e[+-]?\d+|-?\d+\.\d+|-?\d+)
  | (?P<hex>0x[0-9A-Fa-f]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[A-Za-z_][A-Za-z0-9_.]*)
  | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('cannot tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k in ('lid', 'gid'):
            v = v[0] + v[1:].strip('"')
        out.append((k, v))
        i = m.end()
    return out


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported(f'expected {v} got {self.peek()} in {" ".join(x[1] for x in self.t)[:200]}')


def parse_type(t):
    k, v = t.next()
    if k == 'word':
        if re.fullmatch(r'i\d+', v):
            ty = IntTy(int(v[1:]))
        elif v == 'ptr':
            ty = PTR
        elif v == 'void':
            ty = VOID
        elif v in ('double', 'float', 'x86_fp80', 'half'):
            ty = Ty('float', w={'double': 64, 'float': 32, 'x86_fp80': 128, 'half': 16}[v], name=v)
        elif v in ('metadata', 'label', 'token', 'opaque'):
            ty = Ty(v)
        else:
            raise Unsupported('type ' + v)
    elif k == 'lid':
        ty = Ty('named', name=v[1:])
    elif k == 'p' and v == '[':
        n = int(t.next()[1])
        t.expect('x')
        el = parse_type(t)
        t.expect(']')
        ty = Ty('arr', n=n, el=el)
    elif k == 'p' and v == '{':
        els = []
        if not t.accept('}'):
            while True:
                els.append(parse_type(t))
                if t.accept('}'):
                    break
                t.expect(',')
        ty = Ty('struct', els=els)
    elif k == 'p' and v == '<':
        if t.peek()[1] == '{':
            t.next()
            els = []
            if not t.accept('}'):
                while True:
                    els.append(parse_type(t))
                    if t.accept('}'):
                        break
                    t.expect(',')
            t.expect('>')
            ty = Ty('struct', els=els, packed=True)
        else:
            n = int(t.next()[1])
            t.expect('x')
            el = parse_type(t)
            t.expect('>')
            ty = Ty('vec', n=n, el=el)
    else:
        raise Unsupported(f'type token {v}')
    # function type: ret (args)
    if t.peek()[1] == '(' and t.peek()[0] == 'p':
        save = t.i
        try:
            t.next()
            args = []
            if not t.accept(')'):
                while True:
                    if t.accept('...'):
                        t.expect(')')
                        break
                    args.append(parse_type(t))
                    if t.accept(')'):
                        break
                    t.expect(',')
            return Ty('func', el=ty, els=args)
        except Unsupported:
            t.i = save
    return ty


# ---------------------------------------------------------------- operands
# an operand is ('reg', name) | ('const', python int/None) | ('glob', name) | ('agg', [..]) | ('undef',) | ('expr', op, ...)
def parse_value(t, ty):
    k, v = t.next()
    if k == 'lid':
        return ('reg', v[1:])
    if k == 'gid':
        return ('glob', v[1:])
    if k == 'num':
        if ty.k == 'float':
            return ('fconst', v)
        return ('const', int(v))
    if k == 'hex':
        return ('fconst', v)
    if k == 'str':
        return ('cstr', v)
    if k == 'word':
        if v in ('true', 'false'):
            return ('const', int(v == 'true'))
        if v in ('null', 'zeroinitializer'):
            return ('zero',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'getelementptr':
            while t.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                t.next()
            t.expect('(')
            bt = parse_type(t)
            t.expect(',')
            ops = []
            while True:
                while t.peek()[1] == 'inrange':
                    t.next()
                oty = parse_type(t)
                ops.append((oty, parse_value(t, oty)))
                if t.accept(')'):
                    break
                t.expect(',')
            return ('gepexpr', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            t.expect('(')
            fty = parse_type(t)
            o = parse_value(t, fty)
            t.expect('to')
            tty = parse_type(t)
            t.expect(')')
            return ('castexpr', v, fty, o, tty)
        if v in ('add', 'sub', 'mul', 'icmp', 'and', 'or', 'xor', 'shl', 'lshr', 'select'):
            raise Unsupported('constant expression ' + v)
    if k == 'p' and v in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[v]
        if v == '<' and t.peek()[1] == '{':
            t.next()
            els = []
            while not t.accept('}'):
                ety = parse_type(t)
                els.append((ety, parse_value(t, ety)))
                t.accept(',')
            t.expect('>')
            return ('agg', els)
        els = []
        while not t.accept(close):
            ety = parse_type(t)
            els.append((ety, parse_value(t, ety)))
            t.accept(',')
        return ('agg', els)
    raise Unsupported(f'value {v}')


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'allocalign', 'writable',
               'dead_on_unwind', 'nosync', 'noreturn'}


def skip_attrs(t):
    attrs = {}
    while True:
        k, v = t.peek()
        if k == 'word' and v in PARAM_ATTRS:
            t.next()
        elif k == 'word' and v == 'align':
            t.next()
            if t.accept('('):
                t.next()
                t.expect(')')
            else:
                t.next()
        elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'range'):
            t.next()
            t.expect('(')
            d = 1
            while d:
                x = t.next()[1]
                d += (x == '(') - (x == ')')
        elif k == 'word' and v in ('byval', 'sret', 'elementtype', 'byref', 'preallocated', 'inalloca'):
            t.next()
            t.expect('(')
            attrs[v] = parse_type(t)
            t.expect(')')
        else:
            return attrs


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'meta')

    def __init__(self, op, res, ty, a, text, meta=None):
        self.op, self.res, self.ty, self.a, self.text, self.meta = op, res, ty, a, text, meta or {}


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []


class Func:
    def __init__(self, name):
        self.name = name
        self.dem = name
        self.ret = VOID
        self.params = []   # (ty, name, attrs)
        self.blocks = {}
        self.order = []
        self.entry = None
        self.loops = None
        self.line = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (ty, init operand, is_const)
        self.funcs = {}
        self.decls = {}
        self.meta = {}
        self.dem = {}
        self.nounwind = set()

    # ---- layout (x86-64)
    def resolve(self, ty):
        while ty.k == 'named':
            if ty.name not in self.types:
                raise Unsupported('opaque type ' + ty.name)
            ty = self.types[ty.name]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            w = max(8, 1 << (ty.w - 1).bit_length()) // 8
            return min(w, 16)
        if ty.k in ('ptr',):
            return 8
        if ty.k == 'float':
            return ty.w // 8
        if ty.k in ('arr', 'vec'):
            return self.align(ty.el)
        if ty.k == 'struct':
            return 1 if ty.packed else max([self.align(e) for e in ty.els] or [1])
        raise Unsupported('align of ' + ty.k)

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            w = max(8, 1 << (ty.w - 1).bit_length()) // 8
            return w
        if ty.k == 'ptr':
            return 8
        if ty.k == 'float':
            return ty.w // 8
        if ty.k in ('arr', 'vec'):
            return ty.n * self.size(ty.el)
        if ty.k == 'struct':
            return self.offsets(ty)[1]
        raise Unsupported('size of ' + ty.k)

    def offsets(self, ty):
        offs = []
        o = 0
        al = 1
        for e in ty.els:
            a = 1 if ty.packed else self.align(e)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        o = (o + al - 1) // al * al
        return offs, o

    def leaves(self, ty, base=0):
        """(offset, scalar type) of each scalar in ty"""
        ty = self.resolve(ty)
        if ty.k in ('int', 'ptr', 'float'):
            return [(base, ty)]
        if ty.k in ('arr', 'vec'):
            s = self.size(ty.el)
            return [x for i in range(ty.n) for x in self.leaves(ty.el, base + i * s)]
        if ty.k == 'struct':
            offs, _ = self.offsets(ty)
            return [x for o, e in zip(offs, ty.els) for x in self.leaves(e, base + o)]
        raise Unsupported('leaves of ' + ty.k)


CALL_PRE = {'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


def strip_meta(s):
    """split off trailing ', !tbaa !5' annotations; returns text, dict"""
    meta = {}
    while True:
        m = re.search(r',\s*!([A-Za-z_.]+)\s+(![0-9]+|!\{[^}]*\})\s*$', s)
        if not m:
            return s, meta
        meta[m.group(1)] = m.group(2)
        s = s[:m.start()]


def parse_inst(line):
    text = line
    line, meta = strip_meta(line)
    t = Toks(tokenize(line))
    res = None
    if t.peek()[0] == 'lid' and t.peek(1)[1] == '=':
        res = t.next()[1][1:]
        t.next()
    k, op = t.next()
    while op in CALL_PRE and op not in ('call',):
        k, op = t.next()

    def tv():
        ty = parse_type(t)
        skip_attrs(t)
        return ty, parse_value(t, ty)

    def I(ty, *a):
        return Inst(op, res, ty, a, text, meta)

    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        flags = set()
        while t.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            flags.add(t.next()[1])
        ty = parse_type(t)
        a = parse_value(t, ty)
        t.expect(',')
        b = parse_value(t, ty)
        return I(ty, a, b, flags)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while t.peek()[1] in CALL_PRE:
            t.next()
        ty = parse_type(t)
        a = parse_value(t, ty)
        t.expect(',')
        b = parse_value(t, ty)
        return I(ty, a, b)
    if op == 'fneg':
        ty, a = tv()
        return I(ty, a)
    if op in ('icmp', 'fcmp'):
        while t.peek()[1] in CALL_PRE:
            t.next()
        pred = t.next()[1]
        ty = parse_type(t)
        a = parse_value(t, ty)
        t.expect(',')
        b = parse_value(t, ty)
        return I(IntTy(1), pred, ty, a, b)
    if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
        while t.peek()[1] in ('nneg', 'nuw', 'nsw'):
            t.next()
        fty = parse_type(t)
        a = parse_value(t, fty)
        t.expect('to')
        tty = parse_type(t)
        return I(tty, fty, a)
    if op == 'select':
        while t.peek()[1] in CALL_PRE:
            t.next()
        cty, c = tv()
        t.expect(',')
        ty, a = tv()
        t.expect(',')
        ty2, b = tv()
        return I(ty, c, a, b)
    if op == 'freeze':
        ty, a = tv()
        return I(ty, a)
    if op == 'alloca':
        ty = parse_type(t)
        n = ('const', 1)
        if t.accept(','):
            if t.peek()[1] != 'align':
                nty, n = tv()
        return I(PTR, ty, n)
    if op == 'load':
        at = t.accept('atomic')
        t.accept('volatile')
        ty = parse_type(t)
        t.expect(',')
        pty, p = tv()
        return I(ty, p)
    if op == 'store':
        t.accept('atomic')
        t.accept('volatile')
        ty, v = tv()
        t.expect(',')
        pty, p = tv()
        return I(ty, v, p)
    if op == 'getelementptr':
        while t.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            t.next()
        bt = parse_type(t)
        ops = []
        while t.accept(','):
            ops.append(tv())
        return I(PTR, bt, ops)
    if op == 'phi':
        while t.peek()[1] in CALL_PRE:
            t.next()
        ty = parse_type(t)
        inc = []
        while True:
            t.expect('[')
            v = parse_value(t, ty)
            t.expect(',')
            b = t.next()[1][1:]
            t.expect(']')
            inc.append((v, b))
            if not t.accept(','):
                break
        return I(ty, inc)
    if op == 'br':
        if t.accept('label'):
            return I(VOID, None, t.next()[1][1:], None)
        cty, c = tv()
        t.expect(',')
        t.expect('label')
        a = t.next()[1][1:]
        t.expect(',')
        t.expect('label')
        b = t.next()[1][1:]
        return I(VOID, c, a, b)
    if op == 'switch':
        ty, v = tv()
        t.expect(',')
        t.expect('label')
        d = t.next()[1][1:]
        t.expect('[')
        cases = []
        while not t.accept(']'):
            cty, cv = tv()
            t.expect(',')
            t.expect('label')
            cases.append((cv[1], t.next()[1][1:]))
        return I(ty, v, d, cases)
    if op in ('call', 'invoke'):
        while t.peek()[1] in CALL_PRE:
            t.next()
        skip_attrs(t)
        ty = parse_type(t)
        if ty.k == 'func':
            ty = ty.el
        k, v = t.peek()
        if k == 'word' and v == 'asm':
            raise Unsupported('inline asm')
        callee = parse_value(t, PTR)
        t.expect('(')
        args = []
        while not t.accept(')'):
            aty = parse_type(t)
            attrs = skip_attrs(t)
            if aty.k == 'metadata':
                # skip metadata operand
                d = 0
                while not (d == 0 and t.peek()[1] in (',', ')')):
                    x = t.next()[1]
                    d += (x in '({[') - (x in ')}]') if len(x) == 1 else 0
                args.append((aty, ('undef',), attrs))
            else:
                args.append((aty, parse_value(t, aty), attrs))
            t.accept(',')
        nounwind = False
        normal = unwind = None
        rest = [x for x in t.t[t.i:]]
        if op == 'invoke':
            while t.peek()[1] != 'to':
                t.next()
            t.next()
            t.expect('label')
            normal = t.next()[1][1:]
            t.expect('unwind')
            t.expect('label')
            unwind = t.next()[1][1:]
        return I(ty, callee, args, normal, unwind)
    if op == 'ret':
        ty = parse_type(t)
        if ty.k == 'void':
            return I(ty, None)
        return I(ty, parse_value(t, ty))
    if op == 'unreachable':
        return I(VOID)
    if op == 'landingpad':
        ty = parse_type(t)
        cleanup = False
        clauses = []
        while t.peek()[0] != 'eof':
            if t.accept('cleanup'):
                cleanup = True
            elif t.accept('catch'):
                cty = parse_type(t)
                clauses.append(('catch', parse_value(t, cty)))
            elif t.accept('filter'):
                cty = parse_type(t)
                clauses.append(('filter', parse_value(t, cty)))
            else:
                raise Unsupported('landingpad')
        return I(ty, cleanup, clauses)
    if op == 'resume':
        return I(VOID, tv()[1])
    if op == 'extractvalue':
        ty, a = tv()
        idx = []
        while t.accept(','):
            idx.append(int(t.next()[1]))
        return I(None, ty, a, idx)
    if op == 'insertvalue':
        ty, a = tv()
        t.expect(',')
        ety, e = tv()
        idx = []
        while t.accept(','):
            idx.append(int(t.next()[1]))
        return I(ty, a, e, idx)
    if op == 'atomicrmw':
        t.accept('volatile')
        k = t.next()[1]
        pty, p = tv()
        t.expect(',')
        ty, v = tv()
        return I(ty, k, p, v)
    if op == 'fence':
        return I(VOID)
    if op == 'cmpxchg':
        raise Unsupported('cmpxchg')
    raise Unsupported('instruction ' + op)


def demangle(names):
    if not names:
        return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


def parse_module(text):
    m = Module()
    cur = None
    blk = None
    raw = []
    lines = text.split('\n')
    i = 0
    fbodies = []
    while i < len(lines):
        ln = lines[i]
        s = re.sub(r'\s*;[^"]*$', '', ln) if ';' in ln and not ln.startswith('@') else ln
        if s.startswith('%') and ' = type ' in s:
            t = Toks(tokenize(s))
            name = t.next()[1][1:]
            t.next()
            t.next()
            if t.peek()[1] != 'opaque':
                m.types[name] = parse_type(t)
        elif s.startswith('@'):
            raw.append(s)
        elif s.startswith('define '):
            hdr = s
            body = []
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            fbodies.append((hdr, body))
        elif s.startswith('declare '):
            g = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', s)
            m.decls[g.group(1).strip('"')] = s
        elif s.startswith('attributes #'):
            a, b = s[11:].split(' = ', 1)
            if re.search(r'\bnounwind\b', b):
                m.nounwind.add(a.strip())
        elif s.startswith('!') and ' = ' in s:
            a, b = s.split(' = ', 1)
            m.meta[a.strip()] = b
        i += 1
    m.raw_globals = raw
    for hdr, body in fbodies:
        g = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', hdr)
        name = g.group(1).strip('"')
        m.funcs[name] = (hdr, body)
    names = list(m.funcs) + list(m.decls)
    m.dem = demangle(names)
    for s in raw:
        g = re.match(r'@("[^"]*"|[-A-Za-z$._0-9]+) = (.*)$', s)
        m.globals[g.group(1).strip('"')] = g.group(2)
    return m


def get_func(m, name):
    f = m.funcs[name]
    if isinstance(f, Func):
        return f
    hdr, body = f
    fn = Func(name)
    fn.dem = m.dem.get(name, name)
    g = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', hdr)
    pre = hdr[:g.start()]
    # return type: last type in the prefix
    t = Toks(tokenize(pre))
    t.next()
    while True:
        k, v = t.peek()
        if k == 'word' and not re.fullmatch(r'i\d+|ptr|void|double|float|x86_fp80', v):
            if v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'range'):
                skip_attrs(t)
            else:
                t.next()
                if t.peek()[1] == '(':
                    while t.next()[1] != ')':
                        pass
        else:
            break
    fn.ret = parse_type(t)
    # params
    rest = hdr[g.end():]
    d = 1
    j = 0
    inq = False
    while d:
        c = rest[j]
        if c == '"':
            inq = not inq
        if not inq:
            d += (c == '(') - (c == ')')
        j += 1
    t = Toks(tokenize(rest[:j - 1]))
    n = 0
    while t.peek()[0] != 'eof':
        if t.accept('...'):
            break
        ty = parse_type(t)
        attrs = skip_attrs(t)
        if t.peek()[0] == 'lid':
            nm = t.next()[1][1:]
        else:
            nm = str(n)
        fn.params.append((ty, nm, attrs))
        n += 1
        t.accept(',')
    cur = None
    k = 0
    while k < len(body):
        ln = body[k]
        k += 1
        st = ln.strip()
        if not st or st.startswith(';'):
            continue
        mm = re.match(r'^("(?:[^"]*)"|[-A-Za-z$._0-9]+):', ln)
        if mm:
            cur = Block(mm.group(1).strip('"'))
            fn.blocks[cur.name] = cur
            fn.order.append(cur.name)
            continue
        if cur is None:
            cur = Block(str(len(fn.params)))
            fn.blocks[cur.name] = cur
            fn.order.append(cur.name)
        # join continued instructions (switch, landingpad, invoke)
        if st.startswith('switch') and '[' in st and not st.rstrip().endswith(']'):
            while not body[k - 1].strip().startswith(']'):
                st += ' ' + body[k].strip()
                k += 1
        while k < len(body) and (re.match(r'^\s+(to label|catch |cleanup|filter )', body[k]) or body[k].strip() in ('cleanup',)):
            st += ' ' + body[k].strip()
            k += 1
        cur.insts.append(parse_inst(st))
    fn.entry = fn.order[0]
    for b in fn.blocks.values():
        last = b.insts[-1]
        if last.op == 'br':
            b.succ = [x for x in (last.a[1], last.a[2]) if x]
        elif last.op == 'switch':
            b.succ = [last.a[1]] + [c[1] for c in last.a[2]]
        elif last.op == 'invoke':
            b.succ = [last.a[2], last.a[3]]
    find_loops(fn)
    m.funcs[name] = fn
    return fn


def find_loops(fn):
    """natural loops: header -> set of blocks"""
    order = []
    seen = set()
    stack = [(fn.entry, iter(fn.blocks[fn.entry].succ))]
    seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.blocks[s].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in fn.blocks[b].succ:
            preds[s].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == fn.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succ:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Unsupported('irreducible loop in ' + fn.dem)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn.loops = loops
