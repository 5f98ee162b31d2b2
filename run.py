#!/usr/bin/env python3-vt
"""one check: python3-vt run.py --prop C01 [--tier quick|thorough]

(1) deductive: contracts of the real functions (specs/<id>.py), verification conditions
    generated from the LLVM IR of /repo's current sources, discharged by z3/cvc5;
(2) bounded: executable contracts over the same functions (native/<id>.cpp), run on the
    real code; finds the failing input to replay, never counted as proved.
exit 0: held, exit 1 + VIOLATION line: broken, exit 2: the check could not decide anything."""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vcg'), os.path.join(HERE, 'specs')]
REPO = os.environ.get('VF_REPO', '/repo')
CXX = '/usr/bin/clang++-18'
CC = '/usr/bin/clang-18'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

LIB = ['domain', 'domain-c', 'exception', 'mixin_allocator-c', 'mixin_info_data', 'mutate-c', 'object', 'object-c', 'object_mutate_ops',
       'object_mutation', 'throw_exception', 'type', 'type-c', 'type_mutation', 'type_mutation-c', 'dbg_dmp']


def flags(extra=()):
    return ['-std=c++17', '-O1', '-g1', '-w', *SAN, '-I' + REPO + '/code', '-I' + REPO + '/v1compat/code', '-I' + HERE + '/standins',
            '-I' + HERE + '/native', '-DVF_REPO="%s"' % REPO, *extra]


class NativeError(Exception):
    pass


def sources(kind):
    """library sources of the current tree (globbed: files may be split or added)"""
    import glob
    out = []
    if kind == 'c':
        out += sorted(glob.glob(REPO + '/code/dnmx/*.c'))
    if kind in ('lib', 'v1'):
        out += sorted(glob.glob(REPO + '/code/dynamix/*.cpp')) + sorted(glob.glob(REPO + '/code/dnmx/*.c'))
    if kind == 'v1':
        out += sorted(glob.glob(REPO + '/v1compat/code/dynamix/v1compat/*.cpp'))
    return out


def build_native(nat, wd):
    srcs = [os.path.join(HERE, 'native', s) for s in nat['src']] + sources(nat.get('lib'))
    objs = []

    def one(k):
        i, s = k
        o = os.path.join(wd, '%d.o' % i)
        if s.endswith('.c'):
            cmd = [CC, '-std=c11'] + [f for f in flags(nat.get('flags', ())) if not f.startswith('-std')]
        else:
            cmd = [CXX] + flags(nat.get('flags', ()))
        p = subprocess.run(cmd + ['-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode and '/native/' in s:
            # parts of the harness which need more of the interface than they test are left out
            p = subprocess.run(cmd + ['-DVF_FALLBACK=1', '-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise NativeError('cannot compile %s:\n%s' % (s, p.stderr[-1500:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs)))
    exe = os.path.join(wd, 'native')
    p = subprocess.run([CXX, *SAN, *objs, '-o', exe, '-lpthread'], capture_output=True, text=True)
    if p.returncode:
        raise NativeError('cannot link: ' + p.stderr[-1500:])
    return exe


def run_native(nat, tier, seed, res):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='nat-')
    res.update(evaluations=0, distinct=0, samples=[], runs=[])
    try:
        nats = nat if isinstance(nat, list) else [nat]
        for n in nats:
            sub = tempfile.mkdtemp(dir=wd)
            exe = build_native(n, sub)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1',
                       UBSAN_OPTIONS='print_stacktrace=1', HOME=sub)
            lim = n.get('limit', 180 if tier == 'quick' else 700)
            try:
                p = subprocess.run([exe, str(seed), tier], capture_output=True, text=True, errors='replace', timeout=lim, cwd=sub, env=env)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as e:
                rc = -1
                out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
                err = 'FAIL: no termination within %d s' % lim
            m = re.search(r'^STATS (\{.*\})$', out, re.M)
            if rc == 0 and m:
                st = json.loads(m.group(1))
                res['evaluations'] += st['evaluations']
                res['distinct'] += st['distinct']
                res['samples'] += st['samples'][:2]
            else:
                res['violation'] = dict(cmd='native harness %s seed=%s tier=%s' % (','.join(n['src']), seed, tier), rc=rc, stdout=out[-6000:], stderr=err[-6000:])
                break
    except NativeError as e:
        res['error'] = str(e)
    except Exception as e:
        res['error'] = 'harness error: %r' % e
    finally:
        shutil.rmtree(wd, True)
        res['wall'] = round(time.time() - t0, 2)


def known(prop):
    f = os.path.join(HERE, 'known-findings.txt')
    out = []
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import lib
    spec = importlib.import_module(prop.lower())
    nat = getattr(spec, 'NATIVE', None)
    nres = {}
    th = None
    if nat and not a.no_native:
        th = threading.Thread(target=run_native, args=(nat, tier, seed, nres))
        th.start()
    s = lib.Session(prop, tier, budget=getattr(spec, 'BUDGET', 420) if tier == 'quick' else 800)
    perr = None
    if hasattr(spec, 'verify') and not a.no_proof:
        sys.setrecursionlimit(20000)
        try:
            try:
                spec.verify(s)
            finally:
                s.join()
        except lib.BuildError as e:
            perr = str(e)
        except lib.Unsupported as e:
            perr = 'unsupported: %s' % e
    if th:
        th.join()
    if s.failed() and not nres.get('violation') and time.time() - t0 < 250:
        s.budget = max(s.budget, time.time() - s.t0 + 300)
        s.retry()
    failed = s.failed()
    nviol = nres.get('violation')
    level = getattr(spec, 'LEVEL', 'proof' if hasattr(spec, 'verify') else 'other')
    backends = {}
    for o in s.obls:
        if o['ok']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    cov = dict(
        obligations=len(s.obls), discharged=len(s.obls) - len(failed),
        checker_cmd='python3-vt /verif/run.py --prop %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED + getattr(spec, 'TRUST', []),
        functions_under_contract=s.functions,
        undecided=['%s: %s' % u for u in s.undecided] + ([perr] if perr else []),
        inlined_functions=sorted(s.inlined), assumed_contracts=sorted(s.assumed), loops_cut=len(s.loops),
        loops={k: v for k, v in list(s.loops.items())[:60]},
        backends=backends, solver_seconds=round(s.qtime, 2), solver_queries=s.nq, reachability_checks=s.covers,
        slowest=[dict(obligation=o['function'] + ': ' + o['name'], seconds=o['time'], backend=o['backend']) for o in sorted(s.obls, key=lambda o: -o['time'])[:5]],
        evaluations=nres.get('evaluations', 0), distinct_nontrivial=nres.get('distinct', 0),
        rule=getattr(spec, 'RULE', 'bounded executable contracts on the real code (native/%s): enumerated small cases and seeded random ones; distinct by case text' % prop.lower()),
        samples=nres.get('samples', []) or [o['function'] + ': ' + o['name'] for o in s.obls[:3]],
        bounded_stand_ins=getattr(spec, 'BOUNDED', []), bounded_error=nres.get('error'), bounded_wall_s=nres.get('wall', 0),
        explanation=getattr(spec, 'EXPLAIN', 'postconditions of the real functions, proved for all inputs from the LLVM IR of the current sources; plus bounded executable contracts'),
    )
    viol = None
    if nviol or failed:
        rd = os.path.join(HERE, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%s.txt' % (prop, tier))
        with open(rp, 'w') as f:
            f.write('property %s violated on the tree at %s\n' % (prop, REPO))
            if nviol:
                f.write('\nfailing input, replayed on the real code: %s\n(rerun: VERIF_SEED=%s python3-vt /verif/run.py --prop %s --tier %s)\nexit %s\n%s\n%s\n' % (
                    nviol['cmd'], seed, prop, tier, nviol['rc'], nviol['stdout'], nviol['stderr']))
            for o in failed:
                f.write('\nfailed obligation: %s: %s (solver: %s)\n' % (o['function'], o['name'], o['backend']))
                if o.get('model'):
                    f.write('counter-model: %s\n' % o['model'])
        viol = 'VIOLATION property=%s replay=%s' % (prop, rp) + ('' if nviol else ' no-failing-input-found')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=TRUSTED + getattr(spec, 'TRUST', []) + ['assumed contract: ' + x for x in sorted(s.assumed)],
              wall_s=round(time.time() - t0, 2), violations=(1 if nviol else 0) + len(failed))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d obligations, %d discharged, %d functions under contract, %d undecided; bounded: %d cases (%d distinct)%s; %.1f s' % (
        prop, len(s.obls), len(s.obls) - len(failed), len(s.functions), len(s.undecided) + (1 if perr else 0), cov['evaluations'], cov['distinct_nontrivial'],
        ' [bounded error: %s]' % nres['error'][:300] if nres.get('error') else '', time.time() - t0))
    for u in cov['undecided']:
        print('  undecided: ' + u[:300])
    if viol:
        for o in failed[:5]:
            print('  failed: %s: %s' % (o['function'], o['name']))
        if nviol:
            m = re.search(r'FAIL: .*', nviol['stdout'] + nviol['stderr'])
            c = re.search(r'CASE: .*', nviol['stdout'])
            print('  ' + (m.group(0)[:300] if m else 'crash: ' + nviol['stderr'][:300].replace('\n', ' | ')))
            print('  ' + (c.group(0)[:300] if c else ''))
        print(viol)
        sys.exit(1)
    if not s.obls and not cov['evaluations']:
        print('nothing was decided')
        sys.exit(2)
    sys.exit(0)


TRUSTED = [
    'clang 18 (-O1 front end output) and the opt passes sroa, early-cse, simplifycfg, instsimplify preserve the semantics of the C/C++ source',
    'the verification condition generator vcg/engine.py (IR semantics, loop cutting) and the solvers z3 / cvc5',
    'strict aliasing by access width; accesses stay inside of the object their address was derived from; stack and fresh objects do not overlap older ones',
    'the stand-ins for itlib and splat (standins/) as contracts of those dependencies',
    'partial correctness: termination is not proved; out-of-memory in the standard library is not modelled unless stated',
]

if __name__ == '__main__':
    main()
