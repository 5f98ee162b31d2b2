#!/usr/bin/env python3
"""mkseed.py DEF.py: plants a bug. DEF.py sets ID, PROP, EDITS=[(file, old, new)], DEMO (C++ text),
LIB ('' | 'c' | 'lib' | 'v1'), NEEDS, BREAKS. Makes seeded/ID/ and confirms it in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
exec(open(sys.argv[1]).read(), d)
out = os.path.join(H, 'seeded', d['ID'])
os.makedirs(out, exist_ok=True)
LIB = d.get('LIB', '')
srcs = {'': '', 'c': '"$R"/code/dnmx/*.c', 'lib': '"$R"/code/dnmx/*.c "$R"/code/dynamix/*.cpp', 'v1': '"$R"/code/dnmx/*.c "$R"/code/dynamix/*.cpp "$R"/v1compat/code/dynamix/v1compat/*.cpp'}[LIB]
sh = '''#!/bin/bash
# exit 0: behaves as stated; builds from the sources in the current directory
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
n=0
pids=()
for s in "$H"/demo.cpp %s; do
    n=$((n+1))
    case $s in
        *.c) gcc -std=c11 -O0 -w -I"$R/code" -I"$H/standins" -c "$s" -o $n.o & ;;
        *) g++ -std=c++17 -O0 -w %s -I"$R/code" -I"$R/v1compat/code" -I"$H/standins" -c "$s" -o $n.o & ;;
    esac
    pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 2; done
g++ *.o -o demo -lpthread || exit 2
timeout 60 ./demo
''' % (srcs, d.get('FLAGS', ''))
open(out + '/demo.sh', 'w').write(sh)
os.chmod(out + '/demo.sh', 0o755)
open(out + '/demo.cpp', 'w').write(d['DEMO'].lstrip('\n'))
if os.path.exists(out + '/standins'):
    shutil.rmtree(out + '/standins')
if LIB in ('lib', 'v1') or d.get('STANDINS'):
    shutil.copytree(H + '/standins', out + '/standins')
json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
w = tempfile.mkdtemp(prefix='seed-')
try:
    r = w + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    run = lambda *a, **k: subprocess.run(a, cwd=r, capture_output=True, text=True, **k)
    assert run(out + '/demo.sh').returncode == 0, 'demo fails on the unchanged tree'
    for f, a, b in d['EDITS']:
        s = open(r + '/' + f).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(r + '/' + f, 'w').write(s.replace(a, b))
    p = run('git', 'diff', '--', *[e[0] for e in d['EDITS']])
    open(out + '/patch.diff', 'w').write(p.stdout)
    q = run(out + '/demo.sh')
    print(d['ID'], 'demo with the patch:', q.returncode, (q.stdout + q.stderr).strip()[:200])
    assert q.returncode not in (0, 2)
finally:
    shutil.rmtree(w)
