import sys, importlib, os
sys.path[:0] = ['/verif/vcg', '/verif/specs']
from lib import Session
s = Session(sys.argv[1])
mod = importlib.import_module(sys.argv[1])
if len(sys.argv) > 2:
    oc = s.contract
    s.contract = lambda t, *a, **k: oc(t, *a, **k) if sys.argv[2] in t else None
mod.verify(s)
s.join()
print(len(s.obls), 'obligations', len(s.failed()), 'failed', s.undecided, 'time', round(s.qtime, 1))
