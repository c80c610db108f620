"""P31: the typed interface performs exactly the named operation on exactly the given pointer."""
import obs
SPEC = {
 'explanation': 'Every typed accessor that gets, initialises, sets, copies, adopts, disowns, clears, truncates or converts a pointer, orphan, list element, untyped struct or list, or message root is run over the lowered headers with the wire layer replaced by ghosts that record '
   'which operation was performed, on which pointer and with which arguments; exactly one operation must be performed, the one the accessor names, on exactly the given pointer (segment, capability table, position, nesting limit), with the element encoding and struct size of the type and the caller\'s '
   'default, count, value and canonical flag, and the result of that operation must be what is returned; an orphan is in exactly one place at any time and destroyed exactly once.',
 'assumptions': ['the struct sizes generated for a type are the type\'s sizes', 'the wire layer itself is the subject of P01-P05 and P15'],
}
def check(ck):
    ck.units = ['witness/typed.cc', 'capnp/any.h', 'capnp/orphan.h', 'capnp/list.h', 'capnp/pointer-helpers.h', 'capnp/message.h', 'capnp/capability.h', 'capnp/layout.h', 'capnp/common.h']
    obs.Suite(ck, 'typed.cc', 'typed:operation', cfgs=(('-fno-access-control',), ('-fno-access-control', '-DDEBUG')), home=r'capnp/(any|orphan|list|pointer-helpers|message|capability|layout)\.h', peel=40, recmax=12)
    ck.need('typed:operation', 120)
