"""P26: callables and tuples."""
import obs
SPEC = {
 'explanation': 'Creating, moving, assigning, referencing and calling Function, ConstFunction, FunctionParam and bound methods, and building, flattening, copying, moving, reading and applying tuples, is run over the lowered code with arbitrary arguments, '
   'counted and move-only types; on every path (also when the callable throws) every argument, result and element must be exactly the one given, in its position, references must stay references, and every stored callable must be destroyed exactly once with its owner. Storage is a ghost: freed once, never used afterwards, never leaked.',
 'assumptions': ['memory allocation succeeds'],
}
def check(ck):
    ck.units = ['witness/func.cc', 'kj/function.h', 'kj/tuple.h', 'kj/memory.h']
    obs.Suite(ck, 'func.cc', 'call:exact', heap=True, home=r'kj/(function|tuple|memory|common)\.h', peel=4, recmax=12, nohalt=True)
    ck.need('call:exact', 40)
