from gcspec import *

NATIVE = dict(src=['c12.cpp'], lib='lib')
TRUST = TRUST_D + TRUST_G + TRUST_V[:1]
LEVEL = 'other'
NOTE = ('deductive for register_feature, unregister_feature, unregister_mixin and register_mixin (any number of registered features, or one new one); '
        'mixins with several new features are checked by a bounded run only')


def verify(s):
    registration(s)
    s.contract('domain::unregister_mixin', GD, 'vf_unregister', unregister, limit=300)
