"""P30: byte streams and descriptors."""
import obs
SPEC = {
 'explanation': 'buffered, array, vector and descriptor streams are run over the lowered code of io.h, io.c++ and array.c++ with a source and sink that move arbitrary portions, arbitrary contents, buffers of 1 to 4 bytes and arbitrary sequences of operations '
   '(reads of every size and minimum, skips, peeks, writes from outside, from the stream\'s own buffer and from memory adjacent to it, flushes); the bytes delivered must be exactly the bytes sent, in order, nothing outside the destination may be written, short reads only at the end; '
   'every owned descriptor is closed exactly once on every path.',
 'assumptions': ['memory allocation and system calls succeed (failing system calls are P25)', 'an underlying stream honours its own contract'],
}
def check(ck):
    ck.units = ['witness/io.cc', 'kj/io.h', 'kj/io.c++', 'kj/array.c++']
    obs.Suite(ck, 'io.cc', 'io:exact', heap=True, merge=['kj/io.c++', 'kj/array.c++'], home=r'kj/(io|array|common)\.(h|c\+\+)', peel=40, recmax=12, deadline=4000000, maxpaths=60000, cfgs=(('-DDEBUG',),))
    ck.need('io:exact', 60)
