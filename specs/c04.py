import createspec
from domspec import *

NATIVE = dict(src=['c04.cpp'], lib='lib')
TRUST = createspec.TRUST_C


def verify(s):
    createspec.layout(s)
    createspec.storage(s)
