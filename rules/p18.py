"""P18: intrusive lists."""
import obs
SPEC = {
 'explanation': 'Every history of add/addFront/remove over three elements (three further operations from an empty list, a two-element and a three-element list), '
   'iteration with removal of the current element, and every misuse is run over the lowered code of kj::List; on every path size, emptiness, front, '
   'the linked state of each element and the complete forward iteration (const and not) must equal the order the history defines, misuse '
   'must be rejected and leave the list unchanged. An operation touches only the immediate neighbours of one element, so these histories '
   'contain every neighbour configuration of longer lists.',
 'assumptions': ['each element is in at most one list through one link'],
}
def check(ck):
    ck.units = ['witness/ilist.cc', 'kj/list.h']
    obs.Suite(ck, 'ilist.cc', 'list:order', merge=['kj/list.c++'], home=r'kj/list\.h', peel=4, recmax=8)
    ck.need('list:order', 60)
