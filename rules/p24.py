"""P24: scope guards and exception capture."""
import obs, re
from obs import Out
SPEC = {
 'explanation': 'Every path, normal and exceptional, through scopes that use KJ_DEFER, kj::defer objects (run, cancelled, moved), KJ_ON_SCOPE_SUCCESS, KJ_ON_SCOPE_FAILURE, runCatchingExceptions, KJ_TRY/KJ_CATCH and '
   'catchExceptionsIfUnwinding is enumerated over the lowered code; the guarded code must have run exactly as often as its name promises (once, or not at all), not before the scope ends, '
   'and a capturing helper must report an exception exactly when one was thrown.',
 'assumptions': ['an exception counts as in flight from the throwing call to the handler that catches it (kj::UnwindDetector over std::uncaught_exceptions)'],
}
def setup(s, e):
    # a caught exception arrives as a kj::Exception that is not the moved-away one
    def caught(e, st, tgt, args, where):
        t = e.P(f'storage@{len(st.ev)}'); e.assume(st, ('ne', t)); e.put(st, args[0], 0, t)
        return [Out(st, 'ret', None)]
    e.models.append((re.compile(r'^kj::getCaughtExceptionAsKj$'), caught))
def check(ck):
    ck.units = ['witness/guard.cc', 'kj/common.h', 'kj/exception.h']
    obs.Suite(ck, 'guard.cc', 'guard:runs', home=r'kj/(common|exception|memory)\.h', setup=setup, nohalt=True, peel=8, recmax=6)
    ck.need('guard:runs', 60)
