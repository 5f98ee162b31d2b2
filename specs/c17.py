import mutspec
import objspec

NATIVE = dict(src=['c17.cpp'], lib='lib')
TRUST = mutspec.TRUST_M


def verify(s):
    for f in (mutspec.ctor, mutspec.rollback, mutspec.each, mutspec.dtor, objspec.retype):
        f(s)
