import mutspec
import objspec
import tq

NATIVE = dict(src=['c19.cpp'], lib='lib')
TRUST = mutspec.TRUST_M


def verify(s):
    tq.traits(s)
    for f in (objspec.copies, objspec.matching, mutspec.ctor, mutspec.rollback, mutspec.each, mutspec.finalize, mutspec.dtor):
        f(s)
