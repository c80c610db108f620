"""P23: insertion-ordered tables."""
import obs
SPEC = {
 'explanation': 'Histories of inserting, erasing, releasing, clearing, reserving, moving and assigning tables with an InsertionOrderIndex are run over the lowered code of table.h and table.c++ '
   'with arbitrary row values; on every path the complete forward and backward iteration must be the rows in the order they were inserted, storage is freed exactly once and never leaked, and the shared empty '
   'placeholder is never written to.',
 'assumptions': ['memory allocation succeeds', 'a table is not moved onto itself'],
}
def check(ck):
    ck.units = ['witness/order.cc', 'kj/table.h', 'kj/table.c++', 'kj/array.c++']
    obs.Suite(ck, 'order.cc', 'order:insertion', heap=True, merge=['kj/table.c++', 'kj/array.c++'], deadline=8000000, bad=r'kj::_::Debug::log', opaque=r'kj::_::Debug::log', home=r'kj/table\.h', peel=40, recmax=4, userthrow=lambda n: n.startswith('__cxa'))
    ck.need('order:insertion', 20)
