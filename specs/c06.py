from typespec import TRUST_T
import tq

NATIVE = dict(src=['c06.cpp'], lib='lib')
TRUST = TRUST_T
LEVEL = 'other'
NOTE = ('deductive for the queries that read a built feature table (implements_strong by id, info and name, implements, ftable_at, dnmx_ftable_at); '
        'the construction of the table (domain::create_type) is checked by a bounded run only')


def verify(s):
    tq.strong(s)
