"""P27: building text."""
import obs
SPEC = {
 'explanation': 'str, strArray, delimited, strPreallocated, heapString, clone and every way of building, nesting, joining, moving, visiting and flattening a StringTree are run over the lowered code of string.h, string-tree.h and their .c++ files '
   'with pieces of zero to two arbitrary characters of every kind (pointers, owned strings, characters, literals, ranges, stringified values) and buffers of every small size; the result must have exactly the length and characters of the concatenation, be terminated, '
   'and nothing may be written outside the buffer. Storage is a ghost: freed once, never used afterwards or outside its bounds, never leaked.',
 'assumptions': ['memory allocation succeeds', 'a moved-from StringTree is only destroyed or assigned'],
}
def check(ck):
    ck.units = ['witness/strs.cc', 'kj/string.h', 'kj/string-tree.h', 'kj/string.c++', 'kj/string-tree.c++', 'kj/array.c++']
    obs.Suite(ck, 'strs.cc', 'text:exact', heap=True, merge=['kj/string.c++', 'kj/string-tree.c++', 'kj/array.c++'], home=r'kj/(string|string-tree|array|common)\.h', peel=40, recmax=12, deadline=8000000, cfgs=(('-DDEBUG',),))
    ck.need('text:exact', 40)
