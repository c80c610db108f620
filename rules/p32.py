"""P32: a typed call reaches exactly the hook, interface and method it names, once."""
import obs
from p16 import A
SPEC = {
 'explanation': 'Every operation of the typed capability interface (clients, requests, responses, call contexts, pipelines, revocable servers, local server recognition, and the generated client and server of a committed interface) is run over the lowered headers with every hook replaced by a ghost that records each call and each disposal; '
   'the calls recorded must be exactly those the operation names, on exactly the given hook, with exactly the given interface, method, size hint and call hints; the typed part must be derived from what the hook returned; a request is used up by sending it; every hook is released exactly once.',
 'assumptions': ['what hooks do with a call is the RPC system (P61, P62)', 'the promise passed to newLocalPromiseClient is only handed over here; continuations are P16'],
}
def setup(s, e):
    if not hasattr(s.K, 'A'): s.K.A = A(s.K)
    s.K.A.attach(e); e.peel = 40; e.recmax = 12

def check(ck):
    ck.units = ['witness/cap.cc', 'capnp/capability.h', 'capnp/any.h', 'capnp/persistent.capnp.h', 'kj/async-inl.h', 'kj/memory.h']
    obs.Suite(ck, 'cap.cc', 'call:exact', cfgs=(('-fno-access-control',), ('-fno-access-control', '-DDEBUG')), home=r'capnp/(any|capability|orphan|pointer-helpers|persistent\.capnp)\.h|kj/(async-inl|async|memory)\.h', merge=['kj/async.c++', 'kj/array.c++'], setup=setup, peel=40, recmax=12)
    ck.need('call:exact', 40)
