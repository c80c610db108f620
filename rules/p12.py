"""P12: containers construct, keep and destroy each element exactly once, inside their storage."""
from kern import *

SPEC = {
 'explanation': 'Every growing, shrinking, relocating and finishing operation of ArrayBuilder, Vector, Array and the heapArray/arr/KJ_MAP '
   'factories (with kj/array.c++ analysed inline) is run over symbolic sizes on all normal and exceptional paths. A ghost high-water '
   'mark per allocation is advanced by element constructors and retreated by destructors: each constructor must hit exactly the mark '
   'and fit in the allocation, each destructor exactly the last live element; at exit the container bookkeeping equals the mark, '
   'storage is freed only when no element is alive, every allocation has exactly one holder, and elements keep their order.',
 'assumptions': ['element counts below 2^58', 'destroying a moved-from temporary does not throw', 'a source range passed to addAll does not alias the container', 'without debug checks the documented preconditions (capacity, non-empty) hold'],
}
CTOR = re.compile(r'^vp::(N?Elem)::~?\1$')

class G:
    """ghost live range per allocation"""
    def __init__(s, ck, e, op, L):
        s.ck = ck; s.e = e; s.op = op; s.L = L; s.srcs = {}; s.reloc = set(); s.triv = False
        e.models.append((CTOR, s.elem)); e.models.append((re.compile(r'^operator new$'), s.new)); e.models.append((re.compile(r'^operator delete'), s.delete))
        e.bounds_hooks.append(s.bounds)
    def gh(s, r):
        t = ('gh', r); s.e.ptrs.add(t); return t
    def add_region(s, st, r, size, live):
        st.ts['regs'] = st.ts.get('regs', ()) + (r,)
        st.ts[('size', r)] = size
        s.e.put(st, s.gh(r), 0, live, 8, 'p')
    def mark(s, st, r): return s.e.get(st, s.gh(r), 0)
    def obl(s, ok, rule, where, detail, what=''):
        if s.e.trial == 0: s.ck.obl(ok, rule, where, f'{s.op}: {detail}', s.op + what)
    def new(s, e, st, tgt, args, where):
        if len(args) != 1: return None       # placement
        n = st.visits.get(('new', where), 0); st.visits[('new', where)] = n + 1
        s2 = st.clone(); s2.ev = s2.ev + (Ev('thrown', 'operator new', tuple(args), None, where),)
        t = ('new', where, n, 0); e.ptrs.add(t); e.objs.add(t); e.uns[t] = 64
        st.ev = st.ev + (Ev('new', 'operator new', tuple(args), t, where),)
        s.add_region(st, t, args[0], t)
        return [Out(st, 'ret', t), Out(s2, 'throw', None)]
    def delete(s, e, st, tgt, args, where):
        x = args[0]
        if tgt.blocks is not None: return None
        if x == ZERO: return [Out(st, 'ret', None)]
        regs = st.ts.get('regs', ())
        ok = x in regs
        s.obl(ok, 'cont:free', where, f'frees {show(x)}, which is not live container storage' + stpath(st))
        if ok:
            if not s.triv: s.obl(e.entails_eq(st, sub(s.mark(st, x), x)), 'cont:free', where, f'frees storage while elements are alive ({show(sub(s.mark(st, x), x))} bytes)' + stpath(st), ':live')
            st.ts['regs'] = tuple(r for r in regs if r != x)
            st.ts['freed'] = st.ts.get('freed', ()) + (x,)
        return [Out(st, 'ret', None)]
    def elem(s, e, st, tgt, args, where):
        x = args[0]; isd = '~' in tgt.short
        where = outer(where, e)
        r = e.root(x)
        nothrow = 'n' in tgt.fl
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), None, where),)
        outs = []
        if r in st.ts.get('regs', ()):
            m = s.mark(st, r); size = st.ts[('size', r)]
            if isd:
                s.obl(e.entails_eq(st, sub(sub(m, I(8)), x)), 'cont:destroy', where, f'destroys {show(x)}, but the last live element is at {show(sub(m, I(8)))}' + stpath(st))
                s.obl(e.entails_ge(st, sub(x, r), True), 'cont:destroy', where, f'destroys {show(x)}, before the storage' + stpath(st))
                e.put(st, s.gh(r), 0, sub(m, I(8)), 8, 'p')
                if not nothrow:
                    s2 = st.clone(); s2.ev = s2.ev + (Ev('thrown', tgt.short, tuple(args), None, where),); outs.append(Out(s2, 'throw', None))
            else:
                s.obl(e.entails_eq(st, sub(m, x)), 'cont:construct', where, f'constructs an element at {show(x)}, but elements are live up to {show(m)}' + stpath(st))
                s.obl(e.entails_ge(st, sub(sub(add(r, size), x), I(8)), True), 'cont:capacity', where, f'constructs an element at {show(sub(x, r))} of {show(size)} bytes of storage' + stpath(st))
                if len(args) > 1 and tgt.args[1][1][0] == 'p': s.order(st, x, r, args[1], where)
                if not nothrow:
                    s2 = st.clone(); s2.ev = s2.ev + (Ev('thrown', tgt.short, tuple(args), None, where),); outs.append(Out(s2, 'throw', None))
                e.put(st, s.gh(r), 0, add(m, I(8)), 8, 'p')
        else:
            if r is None or r[0] != 'al':
                s.obl(False, 'cont:construct' if not isd else 'cont:destroy', where, f'{"destroys" if isd else "constructs"} {show(x)}, which is not live container storage' + stpath(st))
            if not nothrow and not isd:
                s2 = st.clone(); s2.ev = s2.ev + (Ev('thrown', tgt.short, tuple(args), None, where),); outs.append(Out(s2, 'throw', None))
        return [Out(st, 'ret', None)] + outs
    def order(s, st, x, r, src, where):
        e = s.e; sr = e.root(src)
        if sr is None or sr[0] == 'al': return
        off = s.srcs.get(sr)
        if off is None: s.obl(False, 'cont:order', where, f'element constructed from {show(src)}, which is no source of this operation' + stpath(st)); return
        s.obl(e.entails_eq(st, sub(sub(x, add(r, off)), sub(src, sr))), 'cont:order', where, f'element {show(sub(x, r))} constructed from source {show(src)}' + stpath(st))
    def bounds(s, e, st, kind, addr, size, where):
        if e.trial: return
        r = e.root(addr)
        if kind == 'store' and r in st.ts.get('freed', ()): s.obl(False, 'cont:capacity', where, 'writes to freed storage' + stpath(st))
        if r not in st.ts.get('regs', ()) or addr[0] == 'gh': return
        size = I(size) if isinstance(size, int) else size
        ok = e.entails_ge(st, sub(addr, r), True) and e.entails_ge(st, sub(add(r, st.ts[('size', r)]), add(addr, size)), True)
        s.obl(ok, 'cont:capacity', outer(where, e), f'{kind} of {show(size)} bytes at {show(sub(addr, r))} of {show(st.ts[("size", r)])} bytes of storage' + stpath(st))

def outer(where, e): return where
def stpath(st): return ' | path: ' + (st.facts_str() or 'unconditional')[:300]

def check(ck):
    for cfg in ((), ('-DDEBUG',)): one(ck, cfg)
    for r, n in (('cont:construct', 30), ('cont:destroy', 20), ('cont:capacity', 30), ('cont:holder', 80), ('cont:size', 50), ('cont:free', 10), ('cont:order', 15), ('cont:misuse-rejected', 6)): ck.need(r, n)

def one(ck, cfg):
    K = Kern(ck, 'cont.cc', extra=cfg)
    K.merge(['kj/array.c++'], cfg)
    ck.units = ['witness/cont.cc', 'kj/array.h', 'kj/vector.h', 'kj/array.c++']
    L = layout(K)
    HAD = next(n for n in K.mod.globs if re.search(r'HeapArrayDisposer8instanceE$', n)); NAD = next(n for n in K.mod.globs if re.search(r'17NullArrayDisposer8instanceE$', n))
    for name, f in K.ws.items():
        if name.startswith('lay__') or '__' not in name: continue
        for mode in ('heap', 'null'):
            tys = params_of(f)
            conts = [(i, t) for i, t in enumerate(tys) if re.match(r'kj::(ArrayBuilder|Vector)<', t)]
            if mode == 'null' and not conts: continue
            if mode == 'null' and not (name[0] == 'v' or name.endswith(('dtor', 'null', 'assign', 'clear'))): continue
            pres = [True] if not cfg else [True, False]
            for pre in pres:
                run1(ck, K, L, name, f, tys, mode, pre, HAD, NAD, cfg)

def layout(K):
    import p10
    class X: pass
    L = X()
    def off(w):
        e, outs, nm = K.run(w); v = outs[0].val
        if v[0] != 'ld': raise AnalysisBroken(f'{w}: accessor is not a plain field read ({show(v)})')
        return e.split(v[1])[1]
    L.ap = off('lay__arrBegin'); L.an = off('lay__arrSize'); L.ad = ({0, 8, 16} - {L.ap, L.an}).pop()
    L.bp = off('lay__bldBegin'); L.be = off('lay__bldEnd')
    e, outs, nm = K.run('lay__bldCap')
    o = {e.split(t[1])[1] for t in terms_in(outs[0].val) if t[0] == 'ld'} - {L.bp}
    if len(o) != 1: raise AnalysisBroken('ArrayBuilder capacity layout')
    L.bc = o.pop(); L.bd = ({0, 8, 16, 24} - {L.bp, L.be, L.bc}).pop()
    if off('lay__vecBegin') != L.bp: raise AnalysisBroken('Vector layout')
    return L

BIG = 1 << 58
def run1(ck, K, L, name, f, tys, mode, pre, HAD, NAD, cfg):
    op = name.split('__')[1]; cls = name.split('__')[0]
    triv = cls.endswith('L')
    e = K.engine(throws=lambda n, ev: True)
    g = G(ck, e, name, L); g.triv = triv
    vec = cls[0] == 'v'
    info = {}
    def setup(eng, st, nm):
        pn = [a[3] for a in f.args if a[2] != 's']
        for i, t in enumerate(tys):
            p = nm[pn[i]]
            if re.match(r'kj::(ArrayBuilder|Vector)<', t):
                if mode == 'null' and i == 0:
                    for o in (L.bp, L.be, L.bc): eng.put(st, p, o, ZERO)
                    eng.put(st, p, L.bd, ('G', NAD)); eng.const(['g', NAD])
                    info[p] = (None, ZERO, ZERO)
                    continue
                R = eng.P('S' + pn[i]); n = eng.N('n' + pn[i]); c = eng.N('c' + pn[i])
                eng.assume(st, c_ge(sub(c, n))); eng.assume(st, c_ge(sub(I(BIG), c)))
                g.add_region(st, R, mulc(c, 8), add(R, mulc(n, 8)))
                eng.put(st, p, L.bp, R); eng.put(st, p, L.be, add(R, mulc(n, 8))); eng.put(st, p, L.bc, add(R, mulc(c, 8)))
                eng.put(st, p, L.bd, eng.const(['g', HAD]))
                info[p] = (R, n, c)
            elif re.match(r'kj::Array<', t):
                R = eng.P('S' + pn[i]); n = eng.N('n' + pn[i])
                eng.assume(st, c_ge(sub(I(BIG), n)))
                g.add_region(st, R, mulc(n, 8), add(R, mulc(n, 8)))
                eng.put(st, p, L.ap, R); eng.put(st, p, L.an, n, 8, 'i'); eng.put(st, p, L.ad, eng.const(['g', HAD]))
                info[p] = (R, n, n)
        b = nm.get(pn[0]) if pn else None
        base, n0, c0 = info.get(b, (None, ZERO, ZERO))
        if not tys or not re.match(r'kj::(ArrayBuilder|Vector)<', tys[0]): base, n0, c0 = None, ZERO, ZERO
        info['n0'] = n0; info['c0'] = c0; info['b'] = b if base is not None or mode == 'null' else None
        cnt = None
        if 's' in nm and 'e' in nm and not op.startswith('add') or op in ('addAllCopy', 'addAllPtr', 'addAllIt'):
            S = nm['s']; w = 4 if op in ('addAllIt', 'map', 'iter') else 8
            k = eng.N('k'); info['cnt'] = k
            # e = s + w*k
            args = None
            info['sub'] = (nm['e'], add(S, mulc(k, w)))
            eng.assume(st, c_ge(sub(I(BIG), k)))
            cnt = k
            if w == 8: g.srcs[S] = mulc(n0, 8)
        elif op in ('addAllArr', 'addAllArrMove', 'addAllVec'):
            a = nm['a']; cnt = info[a][1]; g.srcs[info[a][0]] = mulc(n0, 8)
        elif op in ('copyN', 'copyM'): cnt = nm['n']; eng.assume(st, c_ge(sub(I(BIG), cnt))); g.srcs[nm['s']] = ZERO
        elif op in ('arr3',): g.srcs.update({nm['x']: ZERO, nm['y']: I(8), nm['z']: I(16)}); cnt = I(3)
        elif op == 'arrOf': g.srcs.update({nm['x']: ZERO, nm['z']: I(8)}); cnt = I(2)
        elif op == 'map3': cnt = I(3)
        elif op.startswith('add'): cnt = ONE; g.srcs[nm.get('e')] = mulc(n0, 8)
        if base is not None: g.srcs.setdefault(base, ZERO)
        if 'n' in nm and (vec or cls.startswith('mk')): eng.assume(st, c_ge(sub(I(BIG), nm['n'])))
        info['cnt'] = cnt
        need = []
        if not vec and cls[0] == 'b':
            if op.startswith('add'): need.append(c_ge(sub(c0, add(n0, cnt))))
            if op == 'resize': need.append(c_ge(sub(c0, nm['n'])))
            if op == 'finish': need.append(c_eq(sub(c0, n0)))
        if op == 'removeLast': need.append(c_ge(sub(n0, ONE)))
        if op == 'truncate': need.append(c_ge(sub(n0, nm['n'])))
        info['need'] = need
        if pre or op.startswith('addAll') or mode == 'null' and op in ('removeLast', 'truncate'):
            info['ok'] = all(eng.assume(st, x) for x in need)
        else: info['ok'] = True
    # substitute e-pointer argument
    try:
        outs = run_sub(K, f, e, setup, info)
    except Infeasible: return
    for o in outs:
        if o.kind == 'halt': continue
        w = inrepo(o, f'kj/{"vector" if vec else "array"}.h')
        viol = [x for x in info['need'] if e.decide(o.st, x) is not True]
        if not pre and viol and not op.startswith('addAll'):
            if any(e.decide(o.st, x) is False for x in viol) or o.kind == 'ret':
                flt = [ev for ev in o.events if ev.kind == 'fault']
                ck.obl(o.kind == 'throw' and flt, 'cont:misuse-rejected', w, f'{name}: a debug build accepts an operation outside the container' + pathinfo(o), name)
        regs = o.st.ts.get('regs', ())
        hold = {}
        dead = op in ('dtor', 'arrD')
        hs = []
        for p, (R, n, c) in [(k, v) for k, v in info.items() if isinstance(v, tuple) and len(v) == 3 and isinstance(k, tuple)]:
            if dead and (p == e.named.get('b') or p == e.named.get('v') or p == e.named.get('a')): continue
            isarr = re.match(r'kj::Array<', tys[[a[3] for a in f.args if a[2] != 's'].index(nameof(p))])
            hs.append((p, 'arr' if isarr else 'bld'))
        if o.kind == 'ret' and 'ret' in e.named:
            hs.append((e.named['ret'], 'bld' if op in ('vec', 'vecFrom', 'bld') else 'arr'))
        for p, k in hs:
            if k == 'bld':
                q, pos, end = e.get(o.st, p, L.bp), e.get(o.st, p, L.be), e.get(o.st, p, L.bc)
            else:
                q = e.get(o.st, p, L.ap); n = e.get(o.st, p, L.an, 8, 'i'); pos = end = add(q, mulc(n, 8))
            nm_ = nameof(p)
            if q in regs:
                hold[q] = hold.get(q, 0) + 1
                m = g.mark(o.st, q)
                if not triv: ck.obl(e.entails_eq(o.st, sub(pos, m)), 'cont:holder', w, f'{name}: `{nm_}` believes {show(sub(pos, q))} bytes of elements are alive, actually {show(sub(m, q))}' + pathinfo(o), f'{name}:{mode}:{nm_}:{o.kind}')
                ck.obl(e.entails_eq(o.st, sub(end, add(q, o.st.ts[('size', q)]))), 'cont:holder', w, f'{name}: `{nm_}` believes its capacity is {show(sub(end, q))} bytes, allocated {show(o.st.ts[("size", q)])}' + pathinfo(o), f'{name}:{mode}:{nm_}:{o.kind}:cap')
            else:
                ck.obl(q == ZERO and e.entails_eq(o.st, pos) and e.entails_eq(o.st, end), 'cont:holder', w, f'{name}: `{nm_}` holds {show(q)} (freed or foreign storage)' + pathinfo(o), f'{name}:{mode}:{nm_}:{o.kind}')
        for r in regs:
            if dead and o.kind == 'throw' and False: continue
            ck.obl(hold.get(r, 0) == 1, 'cont:holder', w, f'{name}: storage {show(r)} is held by {hold.get(r, 0)} containers' + pathinfo(o), f'{name}:{mode}:{o.kind}:held')
        if o.kind == 'ret':
            n0, cnt = info['n0'], info['cnt']
            want = None; tgt = info['b'] if cls[0] in 'bv' else e.named.get('ret'); kind = 'bld'
            if cls.startswith('mk'):
                kind = 'bld' if op in ('vec', 'vecFrom', 'bld') else 'arr'
                want = {'vec': ZERO, 'bld': ZERO, 'heap': e.named.get('n')}.get(op, cnt)
                if op == 'vecFrom': want = info[e.named['a']][1]
            elif op.startswith('add'): want = add(n0, cnt)
            elif op == 'removeLast': want = sub(n0, ONE)
            elif op in ('truncate', 'resize'): want = e.named['n']
            elif op == 'clear': want = ZERO
            elif op in ('null',): want = ZERO
            elif op == 'reserve': want = n0
            elif op in ('finish', 'releaseAsArray'): want = n0; tgt = e.named['ret']; kind = 'arr'
            if want is not None and tgt is not None:
                if kind == 'bld': got = sub(e.get(o.st, tgt, L.be), e.get(o.st, tgt, L.bp))
                else: got = mulc(e.get(o.st, tgt, L.an, 8, 'i'), 8)
                ck.obl(e.entails_eq(o.st, sub(got, mulc(want, 8))), 'cont:size', w, f'{name}: afterwards holds {show(got)}/8 elements instead of {show(want)}' + pathinfo(o), f'{name}:{mode}')
            if op in ('reserve', 'vec', 'bld'):
                cap = sub(e.get(o.st, tgt, L.bc), e.get(o.st, tgt, L.bp))
                ck.obl(e.entails_ge(o.st, sub(cap, mulc(e.named['n'], 8)), True), 'cont:size', w, f'{name}: capacity {show(cap)}/8 is below the requested {show(e.named["n"])}' + pathinfo(o), f'{name}:{mode}:cap')
            if triv:
                mc = [ev for ev in o.events if ev.kind == 'memcpy']
                for ev in mc:
                    d, s_, n_ = ev.args
                    r = e.root(d)
                    if ('size', r) in o.st.ts: g.order(o.st, d, r, s_, ev.where)
                # every element of the result is covered by a copy of the right length
                if op.startswith('addAll') or op.startswith('copy') or op in ('releaseAsArray', 'reserve', 'add', 'addCopy', 'addMove', 'resize'):
                    for ev in mc:
                        sr = e.root(ev.args[1])
                        exp = mulc(n0, 8) if info['b'] is not None and sr == info.get(info['b'], (None,))[0] and not (op == 'addAllVec' and sr == info.get(e.named.get('a'), (None,))[0]) else mulc(cnt, 8) if cnt is not None else None
                        if exp is not None: ck.obl(e.entails_eq(o.st, sub(ev.args[2], exp)), 'cont:order', ev.where, f'{name}: copies {show(ev.args[2])} bytes of elements instead of {show(exp)}' + pathinfo(o), f'{name}:len')
                    if op.startswith('addAll') or op.startswith('copy'):
                        src = next(iter(k for k in g.srcs if k is not None and k != info.get(info['b'], (None,))[0]), None)
                        ck.obl(any(e.root(ev.args[1]) == src for ev in mc) or e.entails_eq(o.st, cnt), 'cont:order', w, f'{name}: the source elements are not copied' + pathinfo(o), f'{name}:copied')
                    if info['b'] is not None and info.get(info['b'], (None,))[0] is not None:
                        R0 = info[info['b']][0]
                        q = e.get(o.st, info['b'] if kind == 'bld' else e.named['ret'], L.bp if kind == 'bld' else L.ap)
                        if q != R0 and op != 'assign': ck.obl(any(e.root(ev.args[1]) == R0 and ev.args[0] == q for ev in mc) or e.entails_eq(o.st, n0), 'cont:order', w, f'{name}: existing elements are not copied to the new storage' + pathinfo(o), f'{name}:moved')

class Infeasible(Exception): pass
def nameof(t): return t[1] if t[0] == 'sym' else show(t)

def run_sub(K, f, e, setup, info):
    named = {}; args = []
    for a in f.args:
        nm = 'ret' if a[2] == 's' else (a[3] or f'a{a[0]}')
        t = e.P(nm) if a[1][0] == 'p' else e.N(nm, a[1][1] if a[1][0] == 'i' else 64)
        args.append(t); named[nm] = t
    e.named = named
    st = IState()
    setup(e, st, named)
    if not info['ok']: raise Infeasible()
    if 'sub' in info:
        o, n = info['sub']
        args = [n if a == o else a for a in args]; e.objs.discard(o)
    try: outs = e.run(f, args, None, st)
    except Budget as b: raise AnalysisBroken(f'{f.short}: analysis budget exceeded ({b})')
    K.ck.engine_stats(e)
    return outs
