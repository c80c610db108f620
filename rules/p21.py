"""P21: hash maps and sets."""
import obs
SPEC = {
 'explanation': 'HashMap and HashSet operations are run over the lowered code of map.h, table.h and table.c++ with keys whose hash codes are arbitrary members of every collision class (equal codes, same bucket with different codes, neighbouring buckets, '
   'last bucket with wrap-around) and arbitrary values; after every operation each key is looked up and must be found with its value exactly if it is present. Storage is a ghost: freed once, never touched afterwards or outside, never leaked. Reports of internal inconsistency must be unreachable.',
 'assumptions': ['keys that are equal have equal hash codes and are not changed while in the table', 'memory allocation succeeds'],
}
def check(ck):
    ck.units = ['witness/hash.cc', 'kj/table.h', 'kj/map.h', 'kj/table.c++', 'kj/array.c++']
    obs.Suite(ck, 'hash.cc', 'hash:found', heap=True, merge=['kj/table.c++', 'kj/array.c++'], cfgs=(('-DDEBUG',),), bad=r'logHashTableInconsistency|kj::_::Debug::log', opaque=r'logHashTableInconsistency|kj::_::Debug::log', home=r'kj/(table|map)\.h', deadline=8000000, peel=40, recmax=4, userthrow=lambda n: n.startswith('__cxa'))
    ck.need('hash:found', 40)
