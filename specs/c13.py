from typespec import TRUST_T
import tq
import domspec

NATIVE = dict(src=['c13.cpp'], lib='lib')
TRUST = TRUST_T + domspec.TRUST_D + domspec.TRUST_V[:1]
NOTE = ('lookups, type class registration and is_of are proved for all registry contents from the IR of the current sources; '
        'that the registries hold what was registered is proved under C12; trusts the VC generator, clang front end, solvers and the contracts listed in the evidence')


def verify(s):
    tq.classes(s)
    domspec.lookups(s)
    domspec.classes(s)
