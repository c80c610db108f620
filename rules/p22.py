"""P22: ordered maps and sets."""
import obs
SPEC = {
 'explanation': 'TreeMap and TreeSet operations are run over the lowered code of map.h, table.h and table.c++ with symbolic keys: the analysis splits on every order the keys can have, so an inserted, erased, searched or range-bounding key takes '
   'every position in every node (full, half full, split, merged). On every path the complete forward and backward iteration and the lookup of every key must equal the set the history defines; node storage is a ghost as for P21.',
 'assumptions': ['the key order is a strict total order and keys are not changed while in the table', 'memory allocation succeeds'],
}
def check(ck):
    ck.units = ['witness/tree.cc', 'kj/table.h', 'kj/map.h', 'kj/table.c++', 'kj/array.c++']
    obs.Suite(ck, 'tree.cc', 'tree:order', heap=True, merge=['kj/table.c++', 'kj/array.c++'], cfgs=(('-DDEBUG',),), deadline=8000000, bad=r'BTreeImpl::logInconsistency|kj::_::Debug::log', opaque=r'BTreeImpl::logInconsistency|kj::_::Debug::log', home=r'kj/(table|map)\.h', peel=40, recmax=4, userthrow=lambda n: n.startswith('__cxa'))
    ck.need('tree:order', 40)
