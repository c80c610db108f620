"""P33: a producer/consumer queue hands each value to exactly one consumer, first to first."""
import obs
from p16 import A
SPEC = {
 'explanation': 'Short histories of pushing, waiting, cancelling and rejecting, with arbitrary values, are run over the lowered source of the queue and of the promise nodes behind it; each value must reach exactly the waiter or later pop that is its turn, a cancelled or served waiter must not disturb the rest, '
   'a rejection must reach every waiter and nothing else, and each value moved in must be released exactly once.',
 'assumptions': ['histories up to four arbitrary operations, plus longer named ones', 'arming the event of a ready promise is the event loop (P63)'],
}
def setup(s, e):
    if not hasattr(s.K, 'A'): s.K.A = A(s.K)
    s.K.A.attach(e); e.peel = 40; e.recmax = 12
def check(ck):
    ck.units = ['witness/queue.cc', 'kj/async-queue.h', 'kj/list.h', 'kj/async-inl.h']
    obs.Suite(ck, 'queue.cc', 'queue:exact', cfgs=(('-fno-access-control',), ('-fno-access-control', '-DDEBUG')), merge=['kj/async.c++', 'kj/array.c++'], setup=setup, peel=40, recmax=12, heap=True, home=r'kj/(async-queue|list|async-inl)\.h')
    ck.need('queue:exact', 20)
