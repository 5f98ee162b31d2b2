from gcspec import *

NATIVE = dict(src=['c14.cpp'], lib='lib')
TRUST = TRUST_D + TRUST_G


def verify(s):
    removal(s)
