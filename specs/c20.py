import objspec
import mutspec

NATIVE = dict(src=['c20.cpp'], lib='lib')
TRUST = mutspec.TRUST_M


def verify(s):
    for f in (objspec.moves, objspec.destruction, objspec.retype, objspec.copies, mutspec.ctor, mutspec.rollback):
        f(s)
