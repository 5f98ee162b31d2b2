import createspec
from rulespec import *

NATIVE = dict(src=['c10.cpp'], lib='lib')
TRUST = createspec.TRUST_C + TRUST_R


def verify(s):
    createspec.validity(s)
    requests(s, order=False)
