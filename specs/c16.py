import mutspec
import objspec

NATIVE = dict(src=['c16.cpp'], lib='lib')
TRUST = mutspec.TRUST_M


def verify(s):
    for f in (mutspec.ctor, mutspec.rollback, mutspec.each, mutspec.finalize, mutspec.dtor, objspec.destruction, objspec.retype, objspec.special):
        f(s)
