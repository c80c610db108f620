"""P16: promise results (and the shared machinery for P17)."""
from kern import *
import os
from absint import terms_in

SPEC = {
 'explanation': 'Every way of producing, transforming and delivering a promise result (immediate, broken, constant; then/catch_/attach/'
   'ignoreResult/eagerlyEvaluate/fork/split/join/race; fulfillers, adapted promises, cross-thread fulfillers and executors, coroutine '
   'returns and awaits, wait) is run through the public API on a dependency whose outcome is arbitrary (value, exception, both; its '
   'destruction may throw) with continuations that may throw. kj/async.c++ is analysed inline. On every path the outcome delivered is '
   'the one specified: the same value, or the same exception (identity tracked through moves and clones), each continuation called at '
   'most once and with the right argument, and the first fulfill/reject deciding.',
 'assumptions': ['a promise node delivers a value or an exception or both, never neither', 'moving a kj::Exception keeps its identity (P13 covers Maybe)', 'KJ_REQUIRE-style faults inside the event loop plumbing do not fire'],
}

def kern(ck, cfg):
    K = Kern(ck, 'async.cc', extra=cfg)
    K.merge(['kj/async.c++', 'kj/array.c++'], cfg)
    return K

EXC = re.compile(r'^(kj::getCaughtExceptionAsKj|kj::Exception::clone|vp::depExc|kj::getDestructionReason|kj::_::XThreadPaf::unfulfilledException)$')
NOP = re.compile(r'^kj::Exception::(addTrace|extendTrace|addTraceHere|truncateCommonTrace|~Exception)$|^kj::AsyncObject::~AsyncObject$'
                 r'|^kj::_::(XThreadEvent::(XThreadEvent|~XThreadEvent|ensureDoneOrCanceled)|FiberBase::(FiberBase|cancel|~FiberBase)|XThreadPaf::(~XThreadPaf|FulfillScope::~FulfillScope)|CoroutineBase::~CoroutineBase)$')
ARM = re.compile(r'^kj::_::Event::(armDepthFirst|armBreadthFirst|armLast|armWhenWouldSleep|disarm)$')
OPQ = r'^kj::Executor::(getLoop|addRef)$'

class A:
    def __init__(s, K):
        s.K = K
        e = IR(K.mod)
        o = e.run(K.ws['sizeofE'], [])
        s.size = o[0].val[1]
        e = IR(K.mod); x = e.P('x')
        o = e.run(K.ws['isNoneE'], [x])
        t = [t for r in o for t in (list(terms_in(r.val)) if isinstance(r.val, tuple) else []) + [u for f in list(r.st.eqs) + list(r.st.nes) + list(r.st.ges) for u in terms_in(f)] if t[0] == 'ld' and e.root(t[1]) == x]
        s.off = e.split(t[0][1])[1]
    def attach(s, e):
        e.recmax = 8; e.peel = 3
        e.models += [(EXC, s.mk), (NOP, s.nop), (ARM, s.nop), (re.compile(r'^operator delete'), s.delete), (re.compile(r'^kj::_::waitImpl$'), s.wait), (re.compile(r'^kj::Executor::addRef$'), s.addref), (re.compile(r'^kj::throw(Recoverable|Fatal)Exception$'), s.throw), (re.compile(r'^kj::Executor::send$'), s.send)]
        e.bounds_hooks.append(s.bounds)
    def rec(s, st, tgt, args, where, r=None):
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), r, where),)
    def nop(s, e, st, tgt, args, where):
        s.rec(st, tgt, args, where)
        return [Out(st, 'ret', None)]
    def addref(s, e, st, tgt, args, where):
        s.rec(st, tgt, args, where)
        for o in (0, 8): e.put(st, args[0], o, ZERO, 8, 'p')
        return [Out(st, 'ret', None)]
    def wait(s, e, st, tgt, args, where):
        return e.call_fn(s.K.ws['waitStub'], args[:2], st, ())
    def send(s, e, st, tgt, args, where):
        s.rec(st, tgt, args, where)
        return e.call_fn(s.K.ws['sendStub'], [args[1]], st, ())
    def throw(s, e, st, tgt, args, where):
        s.rec(st, tgt, args, where, e.get(st, args[0], s.off, 8, 'p'))
        st2 = st.clone()
        st2.ev = st2.ev + (Ev('thrown', tgt.short, tuple(args), None, where),)
        return [Out(st2, 'throw', None)] + ([Out(st, 'ret', None)] if 'Recoverable' in tgt.short else [])
    def mk(s, e, st, tgt, args, where):
        d = args[0]
        t = e.P(f'exc{len(st.ev)}')
        e.assume(st, c_ge(sub(t, ONE)))
        if tgt.short.endswith('clone'):
            t = ('cl', e.get(st, args[1], s.off, 8, 'p')); e.ptrs.add(t); e.assume(st, c_not(c_eq(t)))
        for o in range(0, s.size, 8): e.put(st, d, o, t, 8, 'p')
        s.rec(st, tgt, args, where, t)
        return [Out(st, 'ret', None)]
    def delete(s, e, st, tgt, args, where):
        if tgt.blocks is not None: return None
        x = args[0]
        if x == ZERO: return [Out(st, 'ret', None)]
        s.rec(st, tgt, args, where)
        if x not in st.ts.get('alive', ()): st.ts['badfree'] = st.ts.get('badfree', ()) + ((x, where),)
        else:
            st.ts['alive'] = tuple(y for y in st.ts['alive'] if y != x)
            st.ts['freed'] = st.ts.get('freed', ()) + (x,)
        return [Out(st, 'ret', None)]
    def bounds(s, e, st, kind, a, n, where):
        if a[0] in ('agg', 'undef', 'cond'): return
        b, off = e.split(a)
        if b in st.ts.get('freed', ()): st.ts['uaf'] = st.ts.get('uaf', ()) + ((a, where),)
        elif b[0] == 'new' and isinstance(n, int) and ('size', b) in st.ts:
            sz = st.ts[('size', b)]
            if sz[0] == 'i' and (off < 0 or off + n > sz[1]): st.ts['oob'] = st.ts.get('oob', ()) + ((a, where),)

def throws(n, ev):
    return n in ('vp::fn', 'vp::efn', 'vp::zfn', 'vp::depDestroy', 'vp::pfn', 'vp::wfn') or n.startswith(('kj::throw',))

def run(ck, K, name, cfg=()):
    if not hasattr(K, 'A'): K.A = A(K)
    e = K.engine(throws=throws, opaque=OPQ)
    K.A.attach(e)
    f = K.ws[name]
    args = [e.P(a[3]) if a[1][0] == 'p' else e.N(a[3], a[1][1]) for a in f.args]
    try: outs = e.run(f, args)
    except Budget as b: raise AnalysisBroken(f'{name}: analysis budget exceeded ({b})')
    ck.engine_stats(e)
    return e, outs

# ---- reading a path ----
class Tr:
    """what one path did, as (name, arguments, result, threw)"""
    def __init__(s, e, A, o):
        s.e, s.A, s.o = e, A, o
        s.it = []
        for x in o.events:
            if x.kind == 'thrown' and s.it and s.it[-1][0] == short(x.name): s.it[-1][3] = True
            elif x.kind in ('call', 'vcall', 'icall', 'new'): s.it.append([short(x.name), x.args, x.ret, False, x.where])
    def named(s, n): return [i for i in s.it if i[0] == n]
    def pos(s, n, k=0):
        p = [j for j, i in enumerate(s.it) if i[0] == n]
        return p[k] if len(p) > k else None
    def arg(s, n, k=0):
        l = s.named(n); return l[k][1][0] if len(l) > k else None
    def exc(s, t):
        """identity of the exception whose line was reported as t"""
        if t is None: return None
        b = t[1] if t[0] == 'ld' else t
        b, _ = s.e.split(b) if b[0] not in ('agg',) else (b, 0)
        while b[0] == 'cl': b = b[1]
        return b
    def excv(s, t):
        while t is not None and t[0] == 'cl': t = t[1]
        return t
    def dep(s, k=0):
        """(value, exception, exception thrown by destroying it before the result was seen) of dependency k"""
        I_ = lambda n: [i for i in s.it if i[0] == n and i[1][-1 if n == 'depExc' else 0] == I(k)]
        v = I_('depVal'); x = I_('depExc')
        d = [j for j, i in enumerate(s.it) if i[0] == 'depDestroy' and i[1][0] == I(k)]
        see = s.seepos()
        c = None
        if d and s.it[d[0]][3] and (see is None or d[0] < see):
            cs = [i for i in s.it[d[0]:see] if i[0] == 'getCaughtExceptionAsKj']
            if cs: c = cs[0][2]
        return (v[0][2] if v else None, x[0][2] if x else None, c)
    def gets(s, k=0): return len([i for i in s.it if i[0] == 'depHasVal' and i[1][0] == I(k)])
    def seepos(s):
        p = [j for j, i in enumerate(s.it) if i[0] in ('seeExc', 'seeNoExc')]
        return p[0] if p else None
    def seen(s):
        """(exception, value) delivered, as identities"""
        x = s.arg('seeExc'); v = s.arg('seeVal')
        return (s.exc(x) if x is not None else None, v)
    def is_(s, v, b): return s.e.decide(s.o.st, s.e.truth(v)) is b
    def saw(s): return s.seepos() is not None
    def eq(s, a, b):
        if a is None or b is None: return a is b
        if a == b: return True
        return s.e.entails_eq(s.o.st, sub(a, b))
    def show(s, ev=None): 
        x, v = s.seen()
        return f'exception {show(x) if x else "none"}, value {show(v) if v else "none"}'
def short(n): return n.rsplit('::', 1)[-1]

SP = {}
def spec(n):
    def d(f): SP[n] = f; return f
    return d

def deliver(t, exc, val, strict=True):
    """obligation: the outcome seen is exc if any, else val"""
    if not t.saw(): return [(False, 'no outcome is delivered')]
    x, v = t.seen()
    if exc is not None:
        return [(t.eq(x, exc), f'the promise must deliver the exception {show(exc)}, it delivers {t.show()}')] + \
               ([(t.eq(v, val), f'the value alongside the exception must be {show(val) if val else "none"}, it is {show(v) if v else "none"}')] if strict else [])
    return [(x is None and t.eq(v, val), f'the promise must deliver the value {show(val) if val else "?"} and no exception, it delivers {t.show()}')]

@spec('eo')
def _(t, n):
    if n in ('eo__const', 'eo__readyNow') and t.named('vcall'): return None     # the static node already existed
    if t.named('inX'): return deliver(t, t.exc(t.arg('inX')), None)
    if t.named('inVal'): return deliver(t, None, t.arg('inVal'))
@spec('same')
def _(t, n):
    x = t.arg('inExc'); v = t.arg('inVal')
    if x is None and v is None:
        return [(t.saw() and t.seen() == (None, None), f'an empty result must stay empty, it is {t.show()}')] if t.saw() else None
    return deliver(t, t.exc(x) if x else None, v)
@spec('add')
def _(t, n):
    if not t.named('inX'): return None
    x = t.arg('inExc'); v = t.arg('inVal')
    return deliver(t, t.exc(x) if x else t.exc(t.arg('inX')), v)
@spec('conv')
def _(t, n): return converted(t, t.exc(t.arg('inExc')) if t.named('inExc') else None, t.arg('inVal'))
def converted(t, exc, val):
    thr = [i for i in t.it if i[0] in ('throwRecoverableException', 'throwFatalException')]
    if exc is None and val is None: return None
    if exc is not None:
        ok = len(thr) == 1 and t.eq(t.excv(thr[0][2]), exc)
        r = [(ok, f'the exception {show(exc)} must be thrown, thrown: {[show(i[1][0]) for i in thr]}')]
        if val is None: r.append((not t.named('seeVal') or bool(thr), 'no value exists to return'))
        return r
    return [(not thr and t.o.kind == 'ret' and t.eq(t.arg('seeVal'), val), f'must return {show(val)} and throw nothing; throws {[i[0] for i in thr]}, returns {show(t.arg("seeVal")) if t.named("seeVal") else "nothing"}')]

def after_dep(t, k=0):
    v, x, c = t.dep(k)
    return v, (x if x is not None else c)
def called(t, n, arg, exc=False):
    l = t.named(n)
    if len(l) != 1: return [(False, f'{n} must be called exactly once, it is called {len(l)} times')]
    a = l[0][1][0]
    return [(arg is None or t.eq(t.exc(a) if exc else a, arg), f'{n} must be called with {show(arg) if arg else ""}, it is called with {show(a)}')]
def handled(t, n, res):
    """outcome of a continuation call"""
    l = t.named(n)
    if not l: return []
    if l[0][3]:
        j = t.it.index(l[0]); c = [i for i in t.it[j:] if i[0] == 'getCaughtExceptionAsKj']
        return deliver(t, c[0][2] if c else ('sym', 'the thrown exception'), None, False)
    return deliver(t, None, res if res is not None else l[0][2])
def notcalled(t, *ns): return [(not t.named(n), f'{n} must not be called') for n in ns]
def order(t, k=0):
    """the dependency is gone before the continuation runs"""
    r = []
    for n in ('fn', 'efn'):
        if t.named(n):
            d = [j for j, i in enumerate(t.it) if i[0] == 'depDestroy' and i[1][0] == I(k)]
            r.append((bool(d) and d[0] < t.pos(n), f'the dependency must be destroyed before {n} runs'))
    return r
def trans(err, okfn='fn', void=False):
    def f(t, n):
        V = ZERO if void or 'void' in n or n.endswith('Void') and 'from' not in n else None
        frm = 'from' in n or n == 'catch__void'
        r = [(t.gets() == 1, f'the dependency result must be taken exactly once, it is taken {t.gets()} times')]
        v, x = after_dep(t)
        if t.o.kind == 'halt': return None
        if x is not None:
            if err == 'efn': return r + notcalled(t, 'fn') + called(t, 'efn', x, True) + handled(t, 'efn', V) + order(t)
            return r + notcalled(t, 'fn', 'efn') + deliver(t, x, None, False)
        r += notcalled(t, 'efn')
        if okfn is None: return r + deliver(t, None, ZERO if V is not None or frm else v)
        return r + called(t, 'fn', None if frm else v) + handled(t, 'fn', V) + order(t)
    return f
SP['then'] = trans(None); SP['thenProp'] = trans(None); SP['thenErr'] = trans('efn'); SP['catch'] = trans('efn', None)
@spec('pass')
def _(t, n):
    v, x = after_dep(t)
    void = 'Void' in n or n in ('pass__attach2', 'pass__ignore')
    r = [(t.gets() == 1, f'the dependency result must be taken exactly once, it is taken {t.gets()} times')]
    return r + deliver(t, x, ZERO if void and v is not None else v, n != 'pass__ignore')
@spec('big')
def _(t, n):
    v, x = after_dep(t)
    if x is not None: return notcalled(t, 'fn') + deliver(t, x, None, False)
    l = t.named('fn')
    if not 1 <= len(l) <= 2: return [(False, f'the continuations must run once each, {len(l)} calls')]
    r = [(t.eq(l[0][1][0], v), 'the first continuation gets the dependency value')]
    if l[0][3]:
        return r + [(len(l) == 1, 'the second continuation must be skipped')] + handled(t, 'fn', None)
    if len(l) == 1: return r + [(False, 'the second continuation must run')]
    r.append((t.eq(l[1][1][0], l[0][2]), 'the second continuation gets the first one\'s result'))
    if l[1][3]:
        c = [i for i in t.it[t.it.index(l[1]):] if i[0] == 'getCaughtExceptionAsKj']
        return r + deliver(t, c[0][2] if c else ('sym', 'the thrown exception'), None, False)
    return r + deliver(t, None, l[1][2])
@spec('split')
def _(t, n):
    if t.o.kind == 'halt': return None
    v, x = after_dep(t)
    vs = [i[2] for i in t.it if i[0] == 'depVal' and i[1][0] == I(int(n[-1]))]
    return deliver(t, x, vs[0] if vs else None)
@spec('first')
def _(t, n):
    if not t.named('inX') and not t.named('inVal'): return None
    if '##' in n: return None
    if ('FR' in n or 'RR' in n) and not t.named('inY'): return None
    b = [i[1][0] for i in t.named('seeBool')]
    r = [(len(b) == 2 and t.is_(b[0], True), 'before the first call the fulfiller must be waiting'),
         (len(b) == 2 and t.is_(b[1], False), 'after the first call the fulfiller must no longer be waiting')]
    return r + (deliver(t, t.exc(t.arg('inX')), None) if t.named('inX') else deliver(t, None, t.arg('inVal')))
@spec('after')
def _(t, n):
    b = [i[1][0] for i in t.named('seeBool')]
    return [(all(t.is_(x, False) for x in b), 'once the promise is gone the fulfiller must not be waiting')]
@spec('early')
def _(t, n): return [(True, 'without debug checks asking an unready promise is undefined')] if not DEBUG else [(t.o.kind == 'throw' or not t.saw(), 'asking a promise for its result before it is ready must be rejected')]
DEBUG = False
@spec('abandoned')
def _(t, n):
    c = t.named('getDestructionReason')
    return deliver(t, c[0][2] if c else ('sym', 'a destruction exception'), None)
@spec('evalNow')
def _(t, n): return called(t, 'fn', None) + handled(t, 'fn', None)
@spec('rejectIf')
def _(t, n):
    b = [i[1][0] for i in t.named('seeBool')]
    thr = t.named('fn') and t.named('fn')[0][3]
    ge = lambda x: t.is_(x, True)
    ze = lambda x: t.is_(x, False)
    if len(b) != 2: return [(False, 'rejectIfThrows did not finish')]
    if not thr: return [(ge(b[0]) and ge(b[1]), 'a function that returns must yield true and leave the promise waiting')]
    return [(ze(b[0]) and ze(b[1]), 'a function that throws must yield false and reject the promise')] + handled(t, 'fn', None)
@spec('trace')
def _(t, n):
    e, st = t.e, t.o.st
    N = [i[1][0] for i in t.named('seeN')]; P = [i[1][0] for i in t.named('seeP')]; B = [i[1][0] for i in t.named('seeBool')]
    if t.o.kind != 'ret' or len(B) != 2: return None
    n0, p0, x = e.N('n', 64), e.P('p'), e.P('x')
    ze = lambda c: e.entails_eq(st, c)
    if ze(n0): return [(ze(N[0]), 'nothing fits in an empty trace')]
    return [(ze(sub(N[0], ONE)), 'one address must be recorded'), (P[0] == p0, 'the trace starts at the space given'), (len(P) == 2 and P[1] == x, 'the address added is recorded'), (t.is_(B[0], False), 'a non-empty space is not full')]
@spec('forkHas')
def _(t, n):
    b = [i[1][0] for i in t.named('seeBool')]
    if len(b) < 4: return None
    ge = lambda x: t.is_(x, True)
    ze = lambda x: t.is_(x, False)
    return [(ze(b[0]) and ge(b[1]) and ge(b[2]) and ze(b[3]), 'hasBranches must be true exactly while a branch exists')]
@spec('copyRef')
def _(t, n):
    if n.endswith('none'): return [(bool(t.named('seeNoVal')), 'a copy of none must be none')]
    a = t.named('addRefd')
    if not t.named('step') or a and t.e.entails_eq(t.o.st, a[0][2]): return None
    return [(len(a) == 1 and t.eq(t.arg('seeP'), a[0][2]), 'the copy must be the new reference'), (len(t.named('released')) == 2, 'each reference is released once')] if a else [(False, 'addRef must be called')]
@spec('armed')
def _(t, n):
    if 'R' in n and not t.named('inX'): return None
    names = [i[0] for i in t.it]
    arms = [j for j, x in enumerate(names) if x.startswith('arm')]
    s1, s2, s9 = [t.pos('step', k) for k in range(3)]
    return [(len(arms) == 1 and s1 < arms[0] < s2, f'the registered event must be armed exactly once, as soon as the promise is ready (armed {len(arms)} times)')]
@spec('wait')
def _(t, n):
    v, x, c = t.dep()
    if not t.gets(): return None
    if 'void' in n and v is not None: v = ZERO
    if c is not None or any(i[0] == 'depDestroy' and i[3] for i in t.it): return None
    return converted(t, x, v)
@spec('await')
def _(t, n):
    v, x, c = t.dep()
    if c is None:
        d = [i for i in t.it if i[0] == 'depDestroy' and i[3]]
        cs = [i for i in t.it if i[0] == 'getCaughtExceptionAsKj']
        if d and cs: c = cs[0][2]
    if 'void' in n and v is not None: v = ZERO
    return converted(t, x if x is not None else c, v)
@spec('joined')
def _(t, n):
    (v0, x0, c0), (v1, x1, c1) = t.dep(0), t.dep(1)
    if t.o.kind == 'halt' or not t.saw(): return None
    e0 = x0 if x0 is not None else c0; e1 = x1 if x1 is not None else c1
    if e0 is not None or e1 is not None:
        x, v = t.seen()
        return [(any(t.eq(x, y) for y in (e0, e1) if y is not None), 'an exception of an element must be delivered')]
    vals = [i[1][0] for i in t.named('seeVal')]
    return [(t.seen()[0] is None and len(vals) == 2 and t.eq(vals[0], v0) and t.eq(vals[1], v1), f'the array must hold the results in order, it holds {[show(v) for v in vals]}'),
            (t.named('seeN') and t.eq(t.arg('seeN'), I(2)), 'the array must have one element per promise')]
@spec('race')
def _(t, n):
    k = 1 if n.endswith('second') else 0
    v, x, c = t.dep(k)
    if t.o.kind == 'halt' or not t.saw(): return None
    if x is not None or c is not None: return None
    return deliver(t, None, v)
@spec('exclusive')
def _(t, n):
    k = 1 if n.endswith('second') else 0
    v, x, c = t.dep(k)
    if t.o.kind == 'halt' or not t.saw(): return None
    return [(t.gets(1 - k) == 0, 'the losing promise must not be asked for its result')] + (deliver(t, x if x is not None else c, v, False) if c is None else [])
@spec('ready2')
def _(t, n):
    names = [i[0] for i in t.it]
    arms = [j for j, x in enumerate(names) if x.startswith('arm')]
    ss = [t.pos('step', k) for k in range(4)]
    if t.o.kind != 'ret' or None in ss: return None
    (v0, x0, c0), (v1, x1, c1) = t.dep(0), t.dep(1)
    first = [a for a in arms if ss[0] < a < ss[1]]; second = [a for a in arms if ss[1] < a < ss[2]]
    r = [(not [a for a in arms if a < ss[0]], 'the promise must not become ready before any input is')]
    fail = x0 is not None or t.it[ss[0]:ss[1]] and any(i[0] == 'depDestroy' and i[3] for i in t.it[ss[0]:ss[1]])
    if n.endswith('race') and any(i[0] == 'depDestroy' and i[3] for i in t.it): return None      # which of the two then wins is not specified
    early = {'lazy': False, 'failFast': fail, 'race': not fail, 'exclusive': True}[n.split('__')[1]]
    if n.endswith(('failFast', 'race')): r.append((any(i[0] == 'depHasVal' and i[1][0] == I(0) for i in t.it[ss[0]:ss[1]]), 'whether the first input failed must be looked at as soon as it arrives'))
    r.append((len(first) == (1 if early else 0), f'after the first input the promise must {"be ready" if early else "still wait"} (armed {len(first)} times)'))
    r.append((len(second) == (0 if early else 1), f'after the second input it must become ready exactly if it was not before (armed {len(second)} times)'))
    return r
@spec('forkCopy')
def _(t, n):
    if t.o.kind != 'ret': return None
    v, x = after_dep(t)
    xs = [t.exc(i[1][0]) for i in t.named('seeExc')]; vs = [i[1][0] for i in t.named('seeVal')]
    if x is not None: return [(len(xs) == 2 and all(t.eq(y, x) for y in xs), 'both branches must deliver the exception')]
    return [(not xs and len(vs) == 2 and all(t.eq(y, v) for y in vs), f'both branches must deliver their own copy of the value, they deliver {[show(y) for y in vs]}')]
@spec('xexec')
def _(t, n):
    b = t.named('seeBool')
    l = t.named('fn')
    if len(l) != 1: return [(False, f'the function must run exactly once, it runs {len(l)} times')]
    if l[0][3]: return [(t.o.kind == 'throw', 'an exception must reach the executor')]
    return [(b and t.is_(b[0][1][0], True), 'a plain result leaves no promise to run')] + deliver(t, None, ZERO if 'void' in n else l[0][2])
@spec('xpaf')
def _(t, n):
    if n.endswith('R') and not t.named('inX'): return None
    if t.o.kind == 'halt' or not t.saw(): return None
    return deliver(t, t.exc(t.arg('inX')), None) if n.endswith('R') else deliver(t, None, t.arg('inVal'))
@spec('xpafDrop')
def _(t, n):
    if t.o.kind == 'halt' or not t.saw(): return None
    c = t.named('unfulfilledException')
    return deliver(t, c[0][2] if c else ('sym', 'an unfulfilled-promise exception'), None)
@spec('xsync')
def _(t, n):
    l = t.named('fn')
    if len(l) != 1: return [(False, f'the function must run exactly once, it runs {len(l)} times')]
    if l[0][3]: return [(t.o.kind == 'throw', 'the exception must be thrown')]
    return [(t.o.kind == 'ret' and t.eq(t.arg('seeVal'), l[0][2]), 'executeSync must return the function result')]
LIFE = ('drop', 'pafDrop', 'xasync', 'fiberDrop')       # only their lifetimes are specified (P17)
for _n in LIFE: SP[_n] = lambda t, n: None

def outcomes(ck, cfg):
    K = kern(ck, cfg)
    only = os.environ.get('VP_ONLY')
    for name in sorted(K.ws):
        if '__' not in name or only and not re.search(only, name): continue
        e, outs = run(ck, K, name, cfg)
        yield K, name, e, outs

def check(ck):
    ck.units = ['witness/async.cc', 'kj/async-inl.h', 'kj/async.h', 'kj/async-prelude.h', 'kj/async.c++']
    global DEBUG
    for cfg in ((), ('-DDEBUG',)):
        DEBUG = bool(cfg)
        for K, name, e, outs in outcomes(ck, cfg):
            sp = SP.get(name.split('__')[0])
            if sp is None: raise AnalysisBroken(f'no spec for {name}')
            n = 0
            for o in outs:
                if o.kind == 'halt': continue
                t = Tr(e, K.A, o)
                for ok, txt in (sp(t, name) or []):
                    n += 1
                    ck.obl(bool(ok), 'promise:result', inrepo(o), f'{name}: {txt}' + pathinfo(o), name + ':' + re.sub(r'[^a-z ]', '', txt.split(',')[0])[:50])
            if name.split('__')[0] not in LIFE + ('early',): ck.obl(n > 0, 'promise:result', src_where(K.ws[name]), f'{name}: no path delivers a result', name + ':some')
            ck.notes.setdefault('paths_checked', {}); ck.notes['paths_checked'][name] = n
    ck.need('promise:result', 200)
