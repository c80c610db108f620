"""P02: the traversal limit bounds everything a message can make a reader traverse."""
from lay import *
import prog as P

SPEC = {
 'explanation': 'Guard dataflow over the wire-format layer: (1) every accepting path of the object check charges the limiter with '
   'the size it bounds-checked; (2) the limiter accepts only amounts it can subtract, stores the difference, and never stores more '
   'than it read; (3) every list handed out whose elements may occupy zero bits has been charged for its element count on the same '
   'path; (4) the limiter of a message starts at the configured limit; (5) refunds happen only after the same traversal was charged; '
   '(6) objects reachable through encoded pointers are only produced after a charging check (all bounds obligations of the reader '
   'layer use the charging check).',
 'assumptions': ['KJ_REQUIRE failures leave the function', 'the limiter is deliberately relaxed-atomic: concurrent readers may lose updates (documented)'],
}

LIM = N + 'ReadLimiter::limit'

def check(ck):
    prog = P.load(['capnp/layout.c++', P.VERIF + '/witness/layout_inst.cc', 'capnp/arena.c++', 'capnp/message.c++'])
    ck.units = ['capnp/layout.c++', 'capnp/layout.h', 'capnp/arena.h', 'capnp/arena.c++', 'capnp/message.c++']
    kernels(ck, prog)
    amplified(ck, prog)
    refunds(ck, prog)

def kernels(ck, prog):
    this = ('sym', 'this')
    def j_can(eng, st, v, f):
        amt = ('sym', f.params[0][1])
        old = ('ld', ('f', ('d', this), LIM), 0, 0)
        cur = eng.load(st, ('f', ('d', this), LIM))
        s = split_ret(eng, st, v, True)
        if s is not None:
            olds = [t for t in terms_in(cur) if t[0] == 'ld' and t[1] == ('f', ('d', this), LIM)]
            o = olds[0] if olds else None
            if o is None: return 'accepts without updating the remaining limit'
            if not eng.entails_eq(s, sub(sub(o, amt), cur)): return f'remaining limit becomes {show(cur)} instead of limit - amount'
            if not eng.entails_ge(s, sub(o, amt), True): return 'accepts an amount larger than the remaining limit (underflow)'
        return None
    kern(ck, prog, CANREAD, 'limiter:charge', j_can, this=this)
    def j_un(eng, st, v, f):
        cur = eng.load(st, ('f', ('d', this), LIM))
        olds = [t for t in terms_in(cur) if t[0] == 'ld' and t[1] == ('f', ('d', this), LIM)]
        amt = ('sym', f.params[0][1])
        if cur in olds: return None
        if olds and eng.entails_eq(st, sub(sub(cur, olds[0]), amt)): return None
        return f'refund sets the limit to {show(cur)}'
    kern(ck, prog, N + 'ReadLimiter::unread', 'limiter:refund', j_un, this=this)
    def j_obj(eng, st, v, f):
        s = split_ret(eng, st, v, True)
        if s is None: return None
        size = ('sym', f.params[-1][1])
        cr = [t for t, x in s.tr.items() if x and t[0] == 'call' and t[1] == CANREAD]
        if not any(eng.entails_ge(s, sub(t[2][1], size), True) for t in cr): return 'accepts an object without charging its size'
    kern(ck, prog, CHECK_OBJ, 'charge:object', j_obj, opaque={CANREAD}, this=this)
    kern(ck, prog, AMPL, 'charge:amplified', j_obj, opaque={CANREAD}, this=this)
    def j_w(eng, st, v, f):
        s = split_ret(eng, st, v, True)
        if s is None: return None
        seg = ('sym', f.params[0][1]); size = ('sym', f.params[-1][1])
        if eng.decide(s, c_eq(seg)) is True: return None
        want = CHECK_OBJ if len(f.params) == 3 else AMPL
        if not any(x and t[0] == 'call' and t[1] == want and t[2][0] == seg and eng.entails_ge(s, sub(eng.simplify(s, t[2][-1]), size), True) for t, x in s.tr.items()):
            return 'accepts without charging the limiter of the segment'
    kern(ck, prog, N + 'WireHelpers::boundsCheck', 'charge:wrapper', j_w, opaque={CHECK_OBJ, AMPL})
    kern(ck, prog, N + 'WireHelpers::amplifiedRead', 'charge:wrapper', j_w, opaque={CHECK_OBJ, AMPL})
    # initial value
    n = 0
    for f in prog.all_fns():
        if f.file == 'capnp/arena.c++' and f.cname == N + 'ReaderArena' and 'K' in f.fl and f.body is not None:
            eng = Engine(prog, cap=64, depth=6, size=600)
            def hook(eng, st, c):
                if c.q == N + 'ReadLimiter::ctor':
                    ok = bool(c.args) and any('traversalLimitInWords' in str(t) for t in [c.args[0]]) and c.args[0][0] in ('fo', 'ld')
                    ck.obl(ok, 'limiter:initial', at(c), f'limiter starts at {show(c.args[0]) if c.args else "unlimited"} rather than the configured limit', f.q)
            eng.any_call_hooks.append(hook)
            eng.run(f)
            ck.engine_stats(eng)
    ck.need('limiter:charge', 1); ck.need('limiter:refund', 1); ck.need('charge:object', 1); ck.need('charge:amplified', 1); ck.need('charge:wrapper', 2); ck.need('limiter:initial', 1)

def amplified(ck, prog):
    roots = [f for f in prog.all_fns() if is_reader_side(f)]
    cf = contracts(roots)
    for f in roots:
        if not any(short(pointee(f, i)) == 'SegmentReader' for i in range(len(f.params))) : continue
        for v in entry_variants(f):
            eng = reader_engine(prog, cf)
            trusted = default_params(f)
            def hook(eng, st, c):
                if c.q == LR + '::ctor' and len(c.args) == 9:
                    seg, cap, p, n, step = c.args[:5]
                    if eng.decide(st, c_eq(seg)) is True or n == ZERO or any(contains(p, t) for t in trusted): return
                    ok = eng.entails_ge(st, sub(step, ONE), True) or eng.entails_eq(st, n)
                    if not ok:
                        for t, x in st.tr.items():
                            if x and t[0] == 'call' and t[1] == AMPL and t[2][0] == seg and eng.entails_ge(st, sub(eng.simplify(st, t[2][-1]), n), True): ok = True
                    ck.obl(ok, 'charge:zero-sized-elements', at(c), f'list of {show(n)} elements whose size {show(step)} may be zero is handed out without charging the element count' + path(st), f.q)
            eng.any_call_hooks.append(hook)
            def setup(e, st, fr):
                entry_setup(f, e, st, fr, v)
                for p in f.params:
                    if p[1] == 'canonical': e.assume(st, c_eq(('sym', 'canonical')))
            eng.run(f, setup=setup)
            ck.engine_stats(eng)
    ck.need('charge:zero-sized-elements', 4)

def refunds(ck, prog):
    """words are only given back as part of computing (and thereby charging) the total size of an object"""
    lay = [f for f in prog.all_fns() if f.file.startswith('capnp/') and f.body is not None]
    T = N + 'WireHelpers::totalSize'
    callers = {}
    for f in lay:
        for g, n in prog.calls(f): callers.setdefault(g.k, []).append((f, n))
    for f in lay:
        for g, n in prog.calls(f):
            if g.q not in (N + 'SegmentReader::unread', N + 'ReadLimiter::unread') or f.q == N + 'SegmentReader::unread': continue
            near = {f.k: f}
            for h, _ in prog.calls(f): near[h.k] = prog.resolve(h)
            for h, _ in callers.get(f.k, ()): near[h.k] = h
            ok = any(T in prog.callees(h) for h in near.values())
            ck.obl(ok, 'limiter:refund-site', f'{f.file}:{n[4] if len(n) > 4 and isinstance(n[4], int) else f.line} ({f.q})', 'gives words back to the traversal limit although no size traversal was charged here', f.q)
    ck.need('limiter:refund-site', 2)
