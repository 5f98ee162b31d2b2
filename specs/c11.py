from rulespec import *

NATIVE = dict(src=['c11.cpp'], lib='lib')
TRUST = TRUST_D[:1] + TRUST_R


def verify(s):
    rules(s)
