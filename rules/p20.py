"""P20: tables keep rows and indexes in step."""
import obs
SPEC = {
 'explanation': 'Every operation of kj::Table (insert, upsert, findOrCreate, find, erase, release, eraseMatch, clear, ordered, range, seek) is run with two ghost indexes that record what they are told and may '
   'report a duplicate or throw at any entry; on every path each index must be told exactly about the rows the table holds, at their positions and with their keys, a failed operation must leave rows and indexes '
   'as they were, and the rows must be the expected ones (the last row replacing an erased one).',
 'assumptions': ['moving a row does not throw', 'memory allocation succeeds'],
}
def check(ck):
    ck.units = ['witness/table.cc', 'kj/table.h', 'kj/vector.h', 'kj/array.h', 'kj/array.c++']
    obs.Suite(ck, 'table.cc', 'table:step', merge=['kj/array.c++'], home=r'kj/table\.h', peel=4, recmax=4, userthrow=lambda n: n.startswith('__cxa'))
    ck.need('table:step', 90)
