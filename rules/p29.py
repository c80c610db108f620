"""P29: equal values, equal hash codes."""
import re, obs
from kern import *
SPEC = {
 'explanation': 'kj::hashCode of the same arbitrary value held in every type that can hold it (integers of all widths and signedness, enums, raw and owning pointers, nullptr, text and bytes in every string and array type, arrays of different element types, several values together) '
   'is computed over the lowered code of hash.h and hash.c++; on every path the resulting terms must be equal.',
 'assumptions': ['user-defined hash functions are consistent with the user-defined equality', 'bool is not compared with numbers'],
}
def bits32(t):
    """the value modulo 2^32"""
    while True:
        if t[0] == 'i': return I(t[1] & 0xffffffff)
        if t[0] == 'tr' and t[1] >= 32: t = t[3]
        elif t[0] == 'sx' and t[2] == 32: t = t[1]
        elif t[0] == 'sx' and t[1][0] in ('sx', 'tr') and t[1][0] == 'sx': t = t[1]
        else: return t
def setup(s, e):
    def h32(e, st, tgt, args, where):
        t = ('op', 'mix32', bits32(args[0]), ZERO); e.uns[t] = 32
        return [obs.Out(st, 'ret', t)]
    e.models.append((re.compile(r'^kj::_::intHash32$'), h32))
def check(ck):
    ck.units = ['witness/hcode.cc', 'kj/hash.h', 'kj/hash.c++']
    obs.Suite(ck, 'hcode.cc', 'hash:equal', merge=['kj/hash.c++'], home=r'kj/hash\.(h|c\+\+)', setup=setup, peel=20, recmax=12)
    ck.need('hash:equal', 30)
