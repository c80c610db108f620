"""P25: checks and system-call wrappers."""
import obs, re
from obs import Out
SPEC = {
 'explanation': 'Every path through KJ_REQUIRE/KJ_ASSERT (plain conditions, each comparison over arbitrary operands, short-circuit and user-defined operators, recovery blocks), the unconditional and debug-only failures, '
   'KJ_REQUIRE_NONNULL, and the system-call wrappers with every possible result and errno is enumerated over the lowered code; control must get past the check exactly when the condition held (the call succeeded), '
   'each operand must have been evaluated exactly once, message arguments only on failure, and an interrupted call must be made again.',
 'assumptions': ['Fault::fatal() throws (debug.c++) and describing a failure (kj::str) has no effect on the program', 'Debug::getOsErrorNumber() returns -1 for EINTR and 0 only for would-block in non-blocking mode'],
}
NOP = re.compile(r'^kj::(str|_::Debug::Fault::(init|~Fault))$')
RAISE = re.compile(r'^kj::_::Debug::Fault::fatal$|^kj::_::inline(Require|Assert)Failure$')
def setup(s, e):
    # failing is Fault::fatal(), which throws; describing the failure changes nothing
    e.faults = False
    def raises(e, st, tgt, args, where):
        st.ev = st.ev + (obs.Ev('fault', tgt.short, tuple(args), None, where),)
        return [Out(st, 'throw', None)]
    e.models += [(NOP, lambda e, st, tgt, args, where: [Out(st, 'ret', None)]), (RAISE, raises)]
def check(ck):
    ck.units = ['witness/dbg.cc', 'kj/debug.h', 'kj/common.h']
    obs.Suite(ck, 'dbg.cc', 'check:raises', home=r'kj/(common|exception|debug)\.h', peel=3, recmax=6, nohalt=True, setup=setup)
    ck.need('check:raises', 60)
