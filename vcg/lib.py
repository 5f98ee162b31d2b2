"""Proof sessions: compile a driver over /repo's current sources, run functions symbolically
under a precondition and prove postconditions; bookkeeping for the evidence."""
import json
import os
import pickle
import re
import select
import subprocess
import sys
import time
import tempfile
import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import (SpecSet, Engine, State, Unsupported, PRE_MAX, REG_BASE, fresh, zi, zb, band, bor, bnot, bimp, ite, is_c, Out,
                    ladd, lsub, lmul, cmp)
from ir import parse_module

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
CLANGC = '/usr/bin/clang-18'
OPT = '/usr/bin/opt' if os.path.exists('/usr/bin/opt') else '/usr/bin/opt-18'
PASSES = 'function(sroa,early-cse,simplifycfg,sroa,instsimplify,simplifycfg)'

SERIAL = bool(os.environ.get('VCG_DEBUG') or os.environ.get('VCG_SERIAL'))
WORKERS = int(os.environ.get('VCG_WORKERS', '6'))

_mods = {}
_dir = None


def workdir():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vcg-')
        import atexit
        import shutil
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


class BuildError(Exception):
    pass


def compile_ir(driver, flags=()):
    """driver: file name under /verif/drivers -> parsed module"""
    key = (driver, tuple(flags))
    if key in _mods:
        if isinstance(_mods[key], BuildError):
            raise _mods[key]
        return _mods[key]
    src = os.path.join(HERE, 'drivers', driver)
    isc = driver.endswith('.c')
    out = os.path.join(workdir(), re.sub(r'\W', '_', driver + ''.join(flags)) + '.ll')
    cmd = [CLANGC, '-std=c11'] if isc else [CLANG, '-std=c++17', '-fno-access-control']
    cmd += ['-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-w', '-I' + os.path.join(REPO, 'code'),
            '-I' + os.path.join(REPO, 'v1compat/code'), '-I' + os.path.join(HERE, 'standins'), '-I' + os.path.join(HERE, 'drivers'),
            '-DVF_REPO="%s"' % REPO, '-S', '-emit-llvm', *flags, src, '-o', '-']
    p = subprocess.run(cmd, capture_output=True)
    # an entry point (one line, starting with VF) whose instantiation no longer compiles is left
    # out (its contract is then undecided): the other contracts still decide
    for i in range(4):
        if not p.returncode:
            break
        text = open(src).read().split('\n')
        bad = {int(x) for x in re.findall(r'%s:(\d+)' % re.escape(os.path.basename(src)), p.stderr.decode(errors='replace'))}
        bad = {b for b in bad if 0 < b <= len(text) and re.match(r'(VF|C26OPS)\b', text[b - 1])}
        if not bad:
            break
        for b in bad:
            text[b - 1] = ''
        src = os.path.join(workdir(), '%d' % i, os.path.basename(driver))
        os.makedirs(os.path.dirname(src), exist_ok=True)
        open(src, 'w').write('\n'.join(text))
        cmd[-3] = src
        p = subprocess.run(cmd, capture_output=True)
    if p.returncode:
        _mods[key] = BuildError('driver %s does not compile against the current tree:\n%s' % (driver, p.stderr.decode()[-3000:]))
        raise _mods[key]
    q = subprocess.run([OPT, '-S', '-passes=' + PASSES, '-o', out], input=p.stdout, capture_output=True)
    if q.returncode:
        raise BuildError('opt failed: ' + q.stderr.decode()[-2000:])
    m = parse_module(open(out).read())
    _mods[key] = m
    return m


class Consts:
    """numeric constants published by a driver: VF_CONST(name, expr)"""
    def __init__(self, m):
        for n, g in m.globals.items():
            mm = re.match(r'k_(\w+)$', n)
            if mm:
                v = re.search(r'constant i64 (-?\d+)', g)
                if v:
                    setattr(self, mm.group(1), int(v.group(1)))


class Session:
    """all obligations of one property"""
    def __init__(self, prop, tier='quick', budget=400):
        self.prop = prop
        self.tier = tier
        self.obls = []          # dict(function, name, ok, backend, time)
        self.undecided = []     # (function, reason)
        self.functions = []     # entry functions under contract
        self.inlined = {}
        self.assumed = {}
        self.loops = {}
        self.covers = 0
        self.t0 = time.time()
        self.budget = budget
        self.notes = []
        self.qtime = 0.0
        self.nq = 0
        self.running = []
        self.slots = []
        self.jobs = {}

    def retry(self, scale=3):
        """a second attempt, with longer time limits for the solver, at the contracts which failed"""
        names = []
        for o in self.obls:
            if not o['ok'] and o['function'] not in names and o['function'] in self.jobs:
                names.append(o['function'])
        names.sort(key=lambda n: sum(1 for o in self.obls if o['function'] == n and not o['ok']))
        self.slots = []
        engine.TIME_SCALE = scale
        bad = lambda: any(x and (x[1]['err'] or any(not o[1] for o in x[1]['obls'])) for x in self.slots)
        try:
            for n in names:
                self.start(self.jobs[n])
                if SERIAL or bad():
                    break
            while self.running and not bad():
                self.reap()
            for x in self.running:      # one of them fails again: the verdict stands
                try:
                    os.kill(x[0], 9)
                except OSError:
                    pass
            while self.running:
                self.reap()
        finally:
            engine.TIME_SCALE = 1
        for x in self.slots:
            if x and not x[1]['err'] and all(o[1] for o in x[1]['obls']):
                self.obls = [o for o in self.obls if o['function'] != x[0]]
                self.functions = [f for f in self.functions if f != x[0]]
                self.undecided = [u for u in self.undecided if u[0] != x[0]]
                self.merge(*x)
        self.slots = []

    def failed(self):
        return [o for o in self.obls if not o['ok']]

    def left(self):
        return self.budget - (time.time() - self.t0)

    def contract(self, title, driver, entry, fn, timeout=6000, flags=(), limit=None):
        """run fn(Proof) as the contract of the real function `title` (driver entry `entry`);
        each contract is proved in a process of its own (join() collects)"""
        try:
            compile_ir(driver, flags)
        except BuildError as e:
            self.undecided.append((title, str(e)))
            return
        job = (title, driver, entry, fn, timeout, flags, limit)
        self.jobs[title] = job
        self.start(job)

    def start(self, job):
        title = job[0]
        if SERIAL:
            self.merge(title, self.run_contract(*job))
            return
        while len(self.running) >= WORKERS:
            self.reap()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = self.run_contract(*job)
            except BaseException as e:
                res = dict(obls=[], err='tool limit: %s: %s' % (type(e).__name__, e), inlined={}, assumed={}, loops={}, covers=0, qtime=0, nq=0)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
            sys.stdout.flush()
            os._exit(0)
        os.close(w)
        self.running.append((pid, r, title, len(self.slots)))
        self.slots.append(None)

    def reap(self):
        rs = [x[1] for x in self.running]
        ready, _, _ = select.select(rs, [], [], 1)
        if self.left() < -60:
            for x in self.running:
                try:
                    os.kill(x[0], 9)
                except OSError:
                    pass
        for x in [y for y in self.running if y[1] in ready]:
            pid, r, title, slot = x
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            self.running.remove(x)
            try:
                self.slots[slot] = (title, pickle.loads(data))
            except Exception:
                self.slots[slot] = (title, dict(obls=[], err='tool limit: the prover process died', inlined={}, assumed={}, loops={}, covers=0, qtime=0, nq=0))

    def join(self):
        while self.running:
            self.reap()
        for x in self.slots:
            if x:
                self.merge(*x)
        self.slots = []

    def run_contract(self, title, driver, entry, fn, timeout, flags, limit):
        t = time.time()
        p = Proof(self, title, driver, entry, timeout, flags)
        p.ex.deadline = time.time() + min((limit or 150) * engine.TIME_SCALE, max(5, self.left()))
        err = None
        try:
            if p.m is None:
                raise Unsupported('no module')
            if entry is not None and entry not in p.m.funcs:
                raise Unsupported('driver entry %s is missing' % entry)
            fn(p)
        except Unsupported as e:
            err = 'unsupported: ' + str(e)
        except (RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            if os.environ.get('VCG_DEBUG'):
                raise
            err = 'tool limit: %s: %s' % (type(e).__name__, e)
        if os.environ.get('VCG_VERBOSE'):
            print('%-60s %6.1fs obls %d failed %s %s' % (title[:60], time.time() - t, len(p.ex.obls), [(o[0], o[2]) for o in p.ex.obls if not o[1]], err or ''), flush=True)
        return dict(obls=[(n, bool(ok), be, tm) for n, ok, be, tm in p.ex.obls], err=err, inlined=dict(p.ex.inlined), assumed=dict(p.ex.assumed),
                    loops={'%s @%s' % k: json.loads(json.dumps(v, default=str)) for k, v in p.ex.loops.items()}, covers=p.covers, qtime=p.ex.qtime, nq=p.ex.nq)

    def merge(self, title, r):
        for n, ok, be, tm in r['obls']:
            self.obls.append({'function': title, 'name': n, 'ok': ok, 'backend': be, 'time': tm})
        if r['err']:
            self.undecided.append((title, r['err']))
        else:
            self.functions.append(title)
        for k, v in r['inlined'].items():
            if not k.startswith('vf_'):
                self.inlined[k] = self.inlined.get(k, 0) + v
        for k, v in r['assumed'].items():
            self.assumed[k] = self.assumed.get(k, 0) + v
        self.loops.update(r['loops'])
        self.covers += r['covers']
        self.qtime += r['qtime']
        self.nq += r['nq']


class Proof:
    def __init__(self, session, title, driver, entry, timeout, flags):
        self.s = session
        self.title = title
        self.entry = entry
        self.m = compile_ir(driver, flags)
        self.k = Consts(self.m)
        self.ex = Engine(self.m, timeout=timeout)
        self.covers = 0
        self.st0 = State()
        self.ex.init_mem(self.st0)

    # -------- symbolic inputs
    def ptr(self, name, nonnull=True, st=None):
        v = z3.Int(name)
        (st or self.st0).assume(z3.And(v >= (4096 if nonnull else 0), v < PRE_MAX))
        self.ex.mark_pre(v)
        return v

    def u(self, name, w=32, st=None):
        v = z3.Int(name)
        (st or self.st0).assume(z3.And(v >= 0, v < (1 << w)))
        return v

    def assume(self, *fs):
        for f in fs:
            self.st0.assume(f)

    def M(self, w, st=None):
        """memory of width w as a z3 array"""
        st = st or self.st0
        return self.ex.zarr(st.mem[w], st)

    def rd(self, st, w, a):
        return self.ex.load_raw(st, w, a)[0]

    def rd0(self, w, a):
        return self.ex.load_raw(self.st0, w, a)[0]

    def wr(self, w, a, v, st=None):
        """write a word of w bytes (set-up of the pre-state, effect of a contract)"""
        self.ex.store(st or self.st0, engine.IntTy(8 * w), a, v)

    def ld(self, st, w, a):
        """read a word of w bytes (also of memory which was written with other widths)"""
        return self.ex.load(st, engine.IntTy(8 * w), a)

    def stack(self, tag='obj'):
        """an object of the harness itself (outside of the symbolic heap)"""
        p = self.ex.new_region(tag)
        self.ex.live_regions = frozenset(self.ex.live_regions) | {(p - REG_BASE) // engine.REG_SIZE}
        return p

    # -------- running
    def call(self, entry=None, args=(), st=None):
        s = (st or self.st0).copy()
        return self.ex.run(entry or self.entry, list(args), s)

    def cover(self, outs, what='postcondition reachable'):
        """vacuity guard: some outcome must be satisfiable"""
        self.covers += 1
        ok = False
        for o in outs:
            s = z3.Solver()
            s.set('timeout', 700)
            s.add(*[f for f in o.st.pc])
            r = s.check()
            if r != z3.unsat and self.ex.valid(o.st, z3.BoolVal(False), fast=True)[0] is not True:
                ok = True
                break
        self.ex.obls.append(('cover: ' + what, ok, 'z3', 0))
        return ok

    def prove(self, st, f, name):
        return self.ex.prove(st, zb(f) if not isinstance(f, bool) else f, name)

    def nothrow(self, outs, name='does not throw'):
        rs = []
        for o in outs:
            if o.kind == 'throw':
                self.ex.prove(o.st, False, name)
            else:
                rs.append(o)
        if not any(o.kind == 'throw' for o in outs):
            self.ex.obls.append((name, True, 'syntactic', 0))
        return rs


def signed(v, w):
    h = 1 << (w - 1)
    if is_c(v):
        return v - 2 * h if v >= h else v
    return z3.If(v < h, v, v - 2 * h)


def b8(v):
    """bool result -> z3 bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_c(v):
        return z3.BoolVal(v != 0)
    if z3.is_bool(v):
        return v
    return v != 0


def record_events(p, rx=r'^ev\b'):
    """calls of the (external) driver function ev(tag, args...) are recorded in order"""
    def h(ex, st, args, inst, dem):
        st.ghost['$ev'] = tuple(st.ghost.get('$ev', ())) + (tuple(args),)
        return [Out('ret', st, None)]
    p.ex.contracts.append((rx, h))


def events(o):
    return list(o.st.ghost.get('$ev', ()))
