"""P19: mutex guards and lazy initialisation."""
import obs
SPEC = {
 'explanation': 'MutexGuarded, Locked, ExternalMutexGuarded and Lazy are run through their public operations (lock, timed lock, move, assign, release, wait, when, '
   'get, set, destruction, with throwing conditions and callbacks) over the lowered code of the headers. kj::_::Mutex is a ghost recording its '
   'state: on every path it is never locked twice, never unlocked in another mode than it was locked in, held in the right mode whenever the value is handed out or a '
   'condition or callback runs, and released exactly once at the end, also when something throws. Lazy (with mutex.c++ analysed inline) runs the initializer until it '
   'has succeeded once and always yields the same object, read after an acquire.',
 'assumptions': ['kj::_::Mutex itself provides mutual exclusion (platform primitive)', 'ExternalMutexGuarded is assigned only while empty'],
}
ACQ = {4, 6, 7}
def acquire(s, name, t):
    n = 0
    for ev in t.o.events:
        if ev.kind == 'aload':
            n += 1
            s.ck.obl(ev.slot in ACQ, 'lazy:acquire', ev.where, f'{name}: whether the value is initialised must be read with acquire ordering', name + ':acq')
    return n
def check(ck):
    ck.units = ['witness/mutex.cc', 'witness/lazy.cc', 'kj/mutex.h', 'kj/mutex.c++']
    obs.Suite(ck, 'mutex.cc', 'lock:held', home=r'kj/mutex\.(h|c\+\+)', peel=4)
    obs.Suite(ck, 'lazy.cc', 'lazy:once', merge=['kj/mutex.c++'], home=r'kj/mutex\.(h|c\+\+)', peel=2, extra=acquire)
    ck.need('lock:held', 50); ck.need('lazy:once', 10); ck.need('lazy:acquire', 2)
