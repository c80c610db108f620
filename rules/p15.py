"""P15: typed lists and wire values address exactly the bits of the element they are asked for."""
from kern import *
import os
from bits import *

SPEC = {
 'explanation': 'Every element accessor of the raw list reader/builder, of every typed list kind, of the list iterators, and every wire-value '
   'encoding (native, byte-swapping and shifting) is run on a list of symbolic address, stride and size. The accessed address must be '
   'base + index*stride/8 (bit index for bit lists, past the data section for pointers of struct elements), computed without overflow; the '
   'value must be exactly the bits stored there, decided by bit provenance; a write must change exactly those bits. With debug checks every '
   'index >= size must be rejected and every index < size accepted.',
 'assumptions': ['list sizes below 2^29 elements and strides below 2^23 bits (enforced where lists are constructed, see P01, P05)', 'the typed wrappers hold the raw reader/builder as their only member (asserted in the witness)'],
}
SIZES = {'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'S8': 8, 'S16': 16, 'S32': 32, 'S64': 64, 'F32': 32, 'F64': 64, 'EN': 16}

class Run:
    """one witness run: accesses outside the stack and outside the object r itself, with values"""
    def __init__(s, ck, K, name, args=None, pre=None, cfg=(), probe=False):
        s.ck, s.K, s.name, s.cfg = ck, K, name, cfg
        f = K.ws.get(name)
        if f is None: raise AnalysisBroken(f'witness {name} missing')
        s.f = f; s.where = src_where(f)
        s.e = e = K.engine(throws=lambda n, ev: False, snap=snap)
        if not probe: e.ovf_hooks.append(s.ovf)
        e.bounds_hooks.append(s.acc); e.mstore_hooks.append(s.sto)
        s.r = e.P('r'); av = []; s.a = {'r': s.r}
        for a in f.args:
            if a[2] == 's': av.append(e.P('ret')); continue
            t = (args or {}).get(a[3])
            if t is None:
                t = s.r if a[3] == 'r' else e.P(a[3]) if a[1][0] == 'p' else e.N(a[3], a[1][1] if a[1][0] == 'i' else SIZES.get(name.rsplit('_', 1)[1], 64))
            elif callable(t): t = t(e)
            av.append(t); s.a[a[3]] = t
        st = IState(); st.ts['acc'] = ()
        s.ok = True
        if pre: s.ok = pre(s, st)
        s.outs = []
        if s.ok:
            try: s.outs = e.run(f, av, None, st)
            except Budget as b: raise AnalysisBroken(f'{name}: analysis budget exceeded ({b})')
        ck.engine_stats(e)
    def obl(s, ok, rule, where, detail): s.ck.obl(ok, rule, where, detail, s.name + ''.join(s.cfg))
    def ovf(s, e, st, op, a, b, bits, where):
        if e.trial == 0: s.obl(False, 'elem:overflow', where, f'{bits}-bit {op} of {show(a)} and {show(b)} can overflow' + ' | path: ' + (st.facts_str() or 'unconditional')[:300])
    def outside(s, addr):
        r = s.e.root(addr)
        return not (r is not None and r[0] in ('al', 'G')) and not (r == s.r and s.e.split(addr)[0] == s.r and not s.name.startswith('w'))
    def acc(s, e, st, kind, addr, size, where):
        if kind == 'load' and s.outside(addr): st.ts['acc'] = st.ts['acc'] + (('load', addr, size, None, where),)
    def sto(s, e, st, addr, v, size, where):
        r = e.root(addr)
        if r is not None and r[0] == 'al': return
        st.ts['acc'] = st.ts['acc'] + (('store', addr, size, v, where),)

def snap(e, st, ev):
    r = {}
    for i, a in enumerate(ev.args):
        if isinstance(a, tuple) and a and a[0] == 'al': r[i] = {o: v for o, (z, v) in st.heap.get(a, {}).items()}
    return r
def own_ld(s, t): return t[0] == 'ld' and s.e.split(t[1])[0] == s.r

class Fields: pass

def learn(ck, K, X, cfg):
    """where this class keeps its base address, stride and size, read off its own accessors"""
    F = Fields(); F.X = X
    F.B = F.S = None
    for n in ('U8', 'U32', 'U64', 'S16'):
        r = Run(ck, K, f'raw__{X}_{n}', cfg=cfg, probe=True)
        acc = [a for o in r.outs for a in o.st.ts['acc'] if a[0] == 'load']
        if len(r.outs) != 1 or len(acc) != 1: continue
        A = acc[0][1]
        c, d = A[1:] if A[0] == 'lin' else (0, ((A, 1),))
        lds = [t for t, k in d if own_ld(r, t) and k == 1]
        dv = [t for t, k in d if t not in lds]
        B = lds[0] if lds else None; S = None
        for t in dv:
            for u in terms_in(t):
                if own_ld(r, u) and u != B: S = u
        if B is not None and S is not None: F.B, F.S = B, S; break
    z = Run(ck, K, f'size__{X}_raw', cfg=cfg)
    F.N = z.outs[0].events[-1].args[0]
    if F.B is None or F.S is None or not own_ld(r, F.N) or len({F.B, F.S, F.N}) != 3: raise AnalysisBroken('cannot identify base, stride and size of the list')
    p = Run(ck, K, f'rawptr__{X}', cfg=cfg)
    F.ptr = [o.events[-1].snap.get(0) for o in p.outs][0] if p.outs else None
    F.D = None
    if F.ptr:
        for v in F.ptr.values():
            for u in terms_in(v):
                if own_ld(p, u) and contains(v, F.B) and u not in (F.B, F.S): F.D = u
    return F

def bound(F):
    def pre(s, st):
        e = s.e
        e.uns[F.S] = 23; e.uns[F.N] = 29
        return True
    return pre

def at(F, i): return add(F.B, divc(mul(i, F.S), 8))

def same(e, st, a, b): return a == b or e.entails_eq(st, sub(a, b))

def valbits(s, o, v, w): return bits(s.e, v)[:w]
def mem(addr, w): return [frozenset([(add(addr, I(j // 8)), 0, j % 8)]) for j in range(w)]
def symb(t, w): return [frozenset([(t, 0, j)]) for j in range(w)]

def elem(s, o, F, i, w, kind, val=None):
    """exactly one access, to element i, of w bits"""
    e, st = s.e, o.st; where = inrepo(o, s.where)
    acc = st.ts['acc']
    want = at(F, i)
    bad = None
    if len(acc) != 1 or acc[0][0] != kind: bad = 'performs ' + (', '.join(f'{a[0]} at {show(a[1])}' for a in acc) or 'no access') + f' instead of one {kind}'
    else:
        _, addr, size, v, w2 = acc[0]; where = w2
        if not same(e, st, addr, want): bad = f'{kind}s at {show(addr)} instead of {show(want)}'
        elif size * 8 != w: bad = f'{kind}s {size} bytes instead of {w // 8}'
        elif kind == 'store':
            if nan(o, val): bad = None if (v[0] == 'i' and isnan(v[1], w)) else f'stores {show(v)} for a NaN'
            elif valbits(s, o, v, w) != symb(val, w): bad = f'stores {show(v)} instead of the value given'
        else:
            see = [x for x in o.events if x.name.startswith('vp::see')]
            if len(see) != 1 or valbits(s, o, see[0].args[0], w) != mem(addr, w): bad = f'yields {", ".join(show(x.args[0]) for x in see)} instead of the stored value'
    s.obl(bad is None, 'elem:exact', where, (bad or '') + pathinfo(o))
def nan(o, v):
    """does this path hold exactly for NaN values of v"""
    for t, k in o.st.tr.items():
        if t[0] == 'fcmp' and t[1] in ('une', 'uno', 'oeq', 'ord') and v in t[2:] and k == (t[1][0] == 'u') and (t[2] == t[3] or t[1] in ('uno', 'ord')): return True
    return False
def isnan(n, w):
    n &= (1 << w) - 1
    return (n >> 23) & 0xff == 0xff and n & 0x7fffff if w == 32 else (n >> 52) & 0x7ff == 0x7ff and n & ((1 << 52) - 1)

def bit(s, o, F, q, r, write, typed=True):
    e, st = s.e, o.st; where = inrepo(o, s.where)
    addr = add(F.B, q); acc = st.ts['acc']; bad = None
    if not acc or any(not same(e, st, a[1], addr) or a[2] != 1 for a in acc): bad = 'accesses ' + ', '.join(f'{a[2]} bytes at {show(a[1])}' for a in acc) + f' instead of the byte at {show(addr)}'
    else:
        where = acc[-1][4]
        if write:
            sts = [a for a in acc if a[0] == 'store']
            want = mem(addr, 8); want[r] = symb(s.a['v'], 1)[0]
            if len(sts) != 1: bad = f'{len(sts)} stores'
            elif valbits(s, o, sts[0][3], 8) != want: bad = f'element {r} of a byte: does not store the bit and keep the seven others: {show(sts[0][3])}'
        else:
            see = [x for x in o.events if x.name == 'vp::seeB']
            if any(a[0] == 'store' for a in acc): bad = 'writes'
            elif len(see) != 1 or valbits(s, o, bool_val(see[0].args[0]), 1)[0] != mem(addr, 8)[r]:
                # the value may have been decided by branching on the bit
                bad = f'element {r} of a byte: yields {show(see[0].args[0]) if see else "nothing"}'
    s.obl(bad is None, 'elem:bit', where, (bad or '') + pathinfo(o))
def bool_val(v): return v

def check(ck):
    for cfg in ((), ('-DDEBUG',), ('-DCAPNP_CANONICALIZE_NAN=1',)): lists(ck, cfg)
    for cfg, order in (((), 'little'), (('-DCAPNP_DISABLE_ENDIAN_DETECTION=1',), 'little'), (('-DCAPNP_REVERSE_ENDIAN=1',), 'big')): wire(ck, cfg, order)
    ck.units = ['witness/lists.cc', 'capnp/list.h', 'capnp/layout.h', 'capnp/any.h', 'capnp/capability.h', 'capnp/endian.h']
    for r, n in (('elem:exact', 40), ('elem:bit', 6), ('elem:pointer', 20), ('elem:struct', 5), ('elem:rejected', 40), ('elem:accepted', 40), ('elem:size', 20), ('iter:element', 30), ('iter:compare', 10), ('wire:bytes', 30)): ck.need(r, n)

def lists(ck, cfg):
    K = Kern(ck, 'lists.cc', extra=cfg)
    Fs = {X: learn(ck, K, X, cfg) for X in 'RB'}
    for name in sorted(K.ws):
        if '__' not in name: continue
        spec, var = name.split('__', 1)
        m = re.search(r'(^|_)([RB])(_|$)', var); X = m.group(2) if m else 'B'; F = Fs[X]
        only = os.environ.get('VP_ONLY')
        if only and not re.search(only, name): continue
        if spec in ('raw', 'rawset'):
            s = Run(ck, K, name, pre=bound(F), args={'i': lambda e: e.N('i', 29)}, cfg=cfg)
            w = SIZES[var[2:]]
            for o in s.outs: elem(s, o, F, s.a['i'], w, 'load' if spec == 'raw' else 'store', s.a.get('v'))
        elif spec in ('rawbit', 'rawbitset'):
            for r in range(8):
                s = Run(ck, K, name, pre=bound(F), args={'i': lambda e: add(mulc(e.N('q', 26), 8), I(r))}, cfg=cfg)
                for o in s.outs: bit(s, o, F, s.e.N('q', 26), r, spec == 'rawbitset')
        elif spec == 'rawptr':
            s = Run(ck, K, name, pre=bound(F), args={'i': lambda e: e.N('i', 29)}, cfg=cfg)
            for o in s.outs: ptr(s, o, F, s.a['i'], o.events[-1].snap.get(0), raw=True)
        elif spec == 'size':
            s = Run(ck, K, name, cfg=cfg)
            for o in s.outs: s.obl(o.kind == 'ret' and o.events[-1].args[0] == F.N, 'elem:size', s.where, f'reports {show(o.events[-1].args[0])} instead of the element count' + pathinfo(o))
        elif spec in ('get', 'set', 'ptr', 'ptrsz', 'elt'):
            def args(e): return {'i': lambda e: e.N('i', 32)}
            # all indexes: rejection
            if '-DDEBUG' in cfg: rejects(ck, K, name, F, cfg, 'i')
            s = Run(ck, K, name, pre=inrange(F, 'i'), args={'i': lambda e: e.N('i', 29)}, cfg=cfg)
            accepts(s)
            for o in s.outs:
                if o.kind != 'ret': continue
                if spec in ('get', 'set'): elem(s, o, F, s.a['i'], SIZES[var.rsplit('_', 1)[1]], 'load' if spec == 'get' else 'store', s.a.get('v'))
                elif spec == 'elt': struct(s, o, X)
                else:
                    cs = [x for x in o.events if x.kind == 'call' and x.snap and any(hasbase(F, v) for v in x.snap.values())]
                    if not cs: s.obl(False, 'elem:pointer', s.where, 'the element is not accessed' + pathinfo(o)); continue
                    for x in cs:
                        for v in x.snap.values():
                            if hasbase(F, v): ptr(s, o, F, s.a['i'], v)
                    if spec == 'ptrsz': s.obl(any(s.a['n'] in x.args or any(y == s.a['n'] for y in x.args) for x in cs), 'elem:pointer', s.where, 'the requested size is not passed on' + pathinfo(o))
        elif spec in ('getbit', 'setbit'):
            if '-DDEBUG' in cfg: rejects(ck, K, name, F, cfg, 'i')
            for r in range(8):
                def pre(s, st):
                    s.e.uns[F.S] = 23; s.e.uns[F.N] = 29
                    return s.e.assume(st, c_ge(sub(sub(F.N, s.a['i']), ONE)))
                s = Run(ck, K, name, pre=pre, args={'i': lambda e: add(mulc(e.N('q', 26), 8), I(r))}, cfg=cfg)
                accepts(s)
                for o in s.outs:
                    if o.kind == 'ret': bit(s, o, F, s.e.N('q', 26), r, spec == 'setbit')
        elif spec in ('it', 'it1', 'itm', 'itm1'):
            off = {'it': 0, 'it1': 1, 'itm1': -1, 'itm': 0}[spec]
            def pre(s, st):
                e = s.e; e.uns[F.S] = 23; e.uns[F.N] = 29; k = s.a['k']
                s.idx = sub(F.N, k) if spec == 'itm' else add(k, I(off))
                return e.assume(st, c_ge(s.idx)) and e.assume(st, c_ge(sub(sub(F.N, s.idx), ONE))) and e.assume(st, c_ge(k))
            s = Run(ck, K, name, pre=pre, args={'k': lambda e: e.N('k', 29)}, cfg=cfg)
            if not any(o.kind == 'ret' for o in s.outs): s.obl(False, 'iter:element', s.where, 'a position inside the list is rejected')
            for o in s.outs:
                if o.kind == 'halt': continue
                see = [x for x in o.events if x.name.startswith('vp::see')]
                acc = o.st.ts['acc']
                ok = o.kind == 'ret' and len(acc) == 1 and len(see) == 1 and same(s.e, o.st, simp(s.e, o.st, acc[0][1]), simp(s.e, o.st, at(F, s.idx)))
                s.obl(ok, 'iter:element', inrepo(o, s.where), f'denotes the element at {", ".join(show(a[1]) for a in acc)} instead of element {show(s.idx)}' + pathinfo(o))
        elif spec == 'beg':
            def pre(s, st):
                s.e.uns[F.S] = 23; s.e.uns[F.N] = 29
                return s.e.assume(st, c_ge(sub(F.N, ONE)))
            s = Run(ck, K, name, pre=pre, cfg=cfg); s.a['i'] = ZERO
            for o in s.outs:
                if o.kind != 'ret': continue
                if var[2:] in ('ST', 'AS'): struct(s, o, X)
                elif var[2:] != 'AP':
                    for x in o.events:
                        for v in (x.snap or {}).values():
                            if hasbase(F, v): ptr(s, o, F, ZERO, v)
        elif spec == 'itd':
            def pre(s, st): s.e.uns[F.N] = 29; return True
            s = Run(ck, K, name, pre=pre, args={'a': lambda e: e.N('a', 29), 'b': lambda e: e.N('b', 29)}, cfg=cfg)
            want = sub(s.a['a'], s.a['b']) if 'a' in s.a else F.N
            for o in s.outs:
                v = o.events[-1].args[0] if o.events else ZERO
                while v[0] == 'sx': v = v[1]
                s.obl(o.kind == 'ret' and same(s.e, o.st, v, want), 'iter:compare', inrepo(o, s.where), f'distance {show(v)} instead of {show(want)}' + pathinfo(o))
        elif spec == 'itc':
            s = Run(ck, K, name, args={'a': lambda e: e.N('a', 29), 'b': lambda e: e.N('b', 29)}, cfg=cfg)
            a, b = s.a['a'], s.a['b']; op = var.split('_')[0]
            c = {'eq': c_eq(sub(a, b)), 'ne': c_not(c_eq(sub(a, b))), 'lt': c_ge(sub(sub(b, a), ONE)), 'gt': c_ge(sub(sub(a, b), ONE)), 'le': c_ge(sub(b, a)), 'ge': c_ge(sub(a, b))}[op]
            for o in s.outs:
                v = s.e.truth(o.events[-1].args[0]); e = s.e
                ok = True
                for cc, exp in ((c, True), (c_not(c), False)):
                    s2 = o.st.clone()
                    if e.assume(s2, cc) and e.decide(s2, v) is not exp: ok = False
                s.obl(ok, 'iter:compare', inrepo(o, s.where), f'comparison is {show(o.events[-1].args[0])}' + pathinfo(o))

def simp(e, st, t): return t

def inrange(F, n):
    def pre(s, st):
        if s.name == 'ptr__Bset_CA' and not s.e.assume(st, c_ge(sub(s.e.get(st, s.a['v'], 8, 8, 'p'), ONE))): return False  # a Client holds a hook
        s.e.uns[F.S] = 23; s.e.uns[F.N] = 29
        return s.e.assume(st, c_ge(sub(sub(F.N, s.a[n]), ONE)))
    return pre

def rejects(ck, K, name, F, cfg, n):
    def pre(s, st):
        s.e.ovf_hooks.clear(); s.e.uns[F.N] = 29
        return s.e.assume(st, c_ge(sub(s.a[n], F.N)))
    s = Run(ck, K, name, pre=pre, args={n: lambda e: e.N(n, 32)}, cfg=cfg)
    if not s.outs: s.obl(False, 'elem:rejected', s.where, 'no result for an index past the end')
    for o in s.outs: s.obl(o.kind != 'ret' and not any(contains(a[1], F.B) for a in o.st.ts['acc']), 'elem:rejected', inrepo(o, s.where), 'an index past the end of the list is not rejected' + pathinfo(o))

def accepts(s):
    n = 0
    for o in s.outs:
        if o.kind == 'halt': continue
        s.obl(o.kind == 'ret', 'elem:accepted', inrepo(o, s.where), 'an index inside the list is rejected' + pathinfo(o)); n += 1
    if not n: s.obl(False, 'elem:accepted', s.where, 'no result for an index inside the list')

def hasbase(F, cells): return any(isinstance(v, tuple) and contains(v, F.B) for v in cells.values())

def ptr(s, o, F, i, cells, raw=False):
    e, st = s.e, o.st
    want = {}
    bad = None
    if cells is None: bad = 'no pointer object'
    else:
        A = at(F, i)
        ps = [v for v in cells.values() if isinstance(v, tuple) and contains(v, F.B)]
        if F.X == 'R': A = add(A, divc(F.D, 8)) if F.D is not None else None    # elements of a struct list: past their data section
        ok = [A is not None and same(e, st, p, A) for p in ps]
        if len(ps) != 1 or not all(ok): bad = f'addresses the pointer at {", ".join(map(show, ps))} instead of {show(A) if A is not None else "past the data section of the element"}'
        else:
            # the rest of the pointer object (segment, capability table, nesting limit) must be the list's own
            ref = F.ptr or {}
            for off, v in ref.items():
                if contains(v, F.B): continue
                if cells.get(off) != v: bad = f'does not carry over {show(v)} from the list (has {show(cells.get(off, ("undef",)))})'
            others = [v for v in cells.values() if not contains(v, F.B)]
            if raw and (any(not own_ld(s, v) for v in others) or len(set(others)) != len(others) or len(others) < 2): bad = 'does not carry over segment, capability table and nesting limit of the list'
    s.obl(bad is None, 'elem:pointer', inrepo(o, s.where), (bad or '') + pathinfo(o))

def struct(s, o, X):
    cs = [x for x in o.events if x.kind == 'call' and x.name.endswith('::getStructElement')]
    i = s.a['i']
    ok = len(cs) == 1 and s.r in cs[0].args and any(same(s.e, o.st, a, i) for a in cs[0].args[-1:])
    s.obl(ok, 'elem:struct', inrepo(o, s.where), f'selects {", ".join(show(a) for x in cs for a in x.args[-1:])} instead of element {show(i)}' + pathinfo(o))

def wire(ck, cfg, order):
    K = Kern(ck, 'lists.cc', extra=cfg)
    for name in sorted(K.ws):
        m = re.match(r'w(get|set)__(\w+)$', name)
        if not m: continue
        w = SIZES[m.group(2)]; n = w // 8
        s = Run(ck, K, name, cfg=cfg)
        for o in s.outs:
            if m.group(1) == 'get':
                see = [x for x in o.events if x.name.startswith('vp::see')]
                got = valbits(s, o, see[0].args[0], w) if see else None
                want = []
                for j in range(n): want += mem(add(s.r, I(j if order == 'little' else n - 1 - j)), 8)
                acc = [a for a in o.st.ts['acc'] if a[0] == 'store']
                s.obl(got == want and not acc, 'wire:bytes', inrepo(o, s.where), f'{order}-endian value is read as {show(see[0].args[0]) if see else None}' + pathinfo(o))
            else:
                v = symb(s.a['v'], w); got = {}
                for k, addr, size, val, wh in o.st.ts['acc']:
                    if k != 'store': continue
                    d = sub(addr, s.r)
                    if d[0] != 'i': got = None; break
                    b = bits(s.e, val)
                    for j in range(size): got[d[1] + j] = b[8 * j:8 * j + 8]
                want = {j: v[8 * (j if order == 'little' else n - 1 - j):][:8] for j in range(n)}
                s.obl(got == want, 'wire:bytes', inrepo(o, s.where), f'value is not stored {order}-endian in exactly its {n} bytes' + pathinfo(o))
