from rulespec import *

NATIVE = dict(src=['c09.cpp'], lib='lib')
TRUST = TRUST_D[:1] + TRUST_R + ['rules are functions of the list of the mutation (a request is answered alike by the same rules)']


def verify(s):
    requests(s)
