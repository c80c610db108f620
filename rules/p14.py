"""P14: array and string views denote exactly the requested part of the data and never reach outside it."""
from kern import *

SPEC = {
 'explanation': 'Every operation of ArrayPtr, Array, Vector, ArrayBuilder, StringPtr, String, ConstString, Text and Data that yields an element, a '
   'sub-view or another view is run on a view of symbolic address and size: the result must be exactly the specified address and length; '
   'with debug checks every out-of-range request must be rejected and every in-range request accepted; every load, store, memcmp and '
   'memchr it performs must lie inside the viewed data (plus the terminator for strings); searches, comparisons, prefix tests, splits and '
   'bulk copies are checked against their definition per path, loops by induction over the element index.',
 'assumptions': ['view sizes below 2^58 elements', 'a StringPtr/String constructed by the library is NUL-terminated (checked on construction in debug builds)', 'front()/back() are called on non-empty views'],
}
BIG = 1 << 58
STR = {'SP', 'ST', 'CS', 'TB', 'TR'}
SZ = {'AP': 8, 'CAP': 8, 'ACH': 1, 'CCH': 1, 'CBY': 1, 'AE': 8, 'CAE': 8, 'AR': 8, 'CAR': 8, 'VE': 8, 'AB': 8, 'SP': 1, 'ST': 1, 'CS': 1, 'TB': 1, 'TR': 1, 'DR': 1, 'DB': 1}
TY = [(r'^kj::ArrayPtr<unsigned long>', 'AP'), (r'^kj::ArrayPtr<unsigned long const>', 'CAP'), (r'^kj::ArrayPtr<char>', 'ACH'), (r'^kj::ArrayPtr<char const>', 'CCH'), (r'^kj::ArrayPtr<unsigned char const>', 'CBY'),
      (r'^kj::ArrayPtr<vp::E>', 'AE'), (r'^kj::ArrayPtr<vp::E const>', 'CAE'), (r'^kj::Array<unsigned long>', 'AR'), (r'^kj::Array<unsigned long const>', 'CAR'), (r'^kj::Vector<', 'VE'), (r'^kj::ArrayBuilder<', 'AB'), (r'^kj::StringPtr', 'SP'), (r'^kj::String\b', 'ST'),
      (r'^kj::ConstString', 'CS'), (r'^capnp::Text::Builder', 'TB'), (r'^capnp::Text::Reader', 'TR'), (r'^capnp::Data::Reader', 'DR'), (r'^capnp::Data::Builder', 'DB')]
def vtype(t):
    for rx, n in TY:
        if re.match(rx, t): return n

def stpath(st): return ' | path: ' + (st.facts_str() or 'unconditional')[:400]
m = lambda a, k: mul(I(k), a) if k != 1 else a

class V:
    def __init__(s, ty, b, n): s.ty, s.b, s.n, s.sz = ty, b, n, SZ[ty]
    @property
    def bytes(s): return m(s.n, s.sz)

class G:
    def __init__(s, ck, e, K, op):
        s.ck, s.e, s.K, s.op = ck, e, K, op
        s.regs = []      # (base, byte length, writable)
        e.models += [(re.compile(r'^(__builtin_)?(memcmp|bcmp)$'), s.memcmp), (re.compile(r'^memchr$'), s.memchr), (re.compile(r'^strlen$'), s.strlen), (re.compile(r'^vp::E::operator'), s.ecmp)]
        e.bounds_hooks.append(s.bounds); e.mstore_hooks.append(s.mstore); s.stores = []; s.prob = []
    def obl(s, ok, rule, where, detail):
        if s.e.trial == 0: s.ck.obl(ok, rule, where, f'{s.op}: {detail}', s.op)
    def inb(s, st, addr, size, where, what, write=False):
        e = s.e; size = I(size) if isinstance(size, int) else size
        if e.entails_eq(st, size): return
        for b, ln, wr in st.ts.get('regs', ()):
            d = sub(addr, b)
            if root_in(addr, b):
                ok = e.entails_ge(st, d, True) and e.entails_ge(st, sub(ln, add(d, size)), True)
                s.obl(ok, 'view:access', where, f'{what} of {show(size)} bytes at offset {show(d)} of {show(ln)} viewed bytes' + stpath(st))
                return
        r = e.root(addr)
        if r is not None and r[0] == 'G' and s.K.mod.globs.get(r[1], {}).get('s') is not None:
            d = sub(addr, r); ln = I(s.K.mod.globs[r[1]]['s'])
            s.obl(e.entails_ge(st, d, True) and e.entails_ge(st, sub(ln, add(d, size)), True), 'view:access', where, f'{what} of {show(size)} bytes at offset {show(d)} of a {show(ln)} byte constant' + stpath(st))
            return
        s.obl(False, 'view:access', where, f'{what} of {show(size)} bytes at {show(addr)}, which is in no view of this operation' + stpath(st))
    def bounds(s, e, st, kind, addr, size, where):
        r = e.root(addr)
        if addr[0] == 'gh': return
        if any(root_in(addr, b) for b, l, w in st.ts.get('regs', ())):
            s.inb(st, addr, size, where, kind)
        elif addr[0] != 'G' and r is not None and r[0] == 'ld': s.inb(st, addr, size, where, kind)
    def mstore(s, e, st, addr, v, size, where):
        if e.trial == 0 and any(root_in(addr, b) for b, l, w in st.ts.get('regs', ())): s.stores.append((st.clone(), addr, v, size, where))
    def memcmp(s, e, st, tgt, args, where):
        s.inb(st, args[0], args[2], where, 'memcmp'); s.inb(st, args[1], args[2], where, 'memcmp')
        n = st.visits.get('mc', 0); st.visits['mc'] = n + 1
        r = ('mcres', n)
        st.ev = st.ev + (Ev('call', 'memcmp', tuple(args), r, where),)
        return [Out(st, 'ret', r)]
    def memchr(s, e, st, tgt, args, where):
        s.inb(st, args[0], args[2], where, 'memchr')
        n = st.visits.get('mh', 0); st.visits['mh'] = n + 1
        a = st.clone(); a.ev = a.ev + (Ev('call', 'memchr', tuple(args), ZERO, where),)
        j = e.N(f'found{n}', 64)
        st.ev = st.ev + (Ev('call', 'memchr', tuple(args), j, where),)
        outs = [Out(a, 'ret', ZERO)]
        if e.assume(st, c_ge(sub(sub(args[2], j), I(1)))) and e.assume(st, c_not(c_eq(add(args[0], j)))): outs.append(Out(st, 'ret', add(args[0], j)))
        return outs
    def strlen(s, e, st, tgt, args, where):
        j = e.N('strlen', 64); e.assume(st, c_ge(sub(I(BIG), j)))
        st.ev = st.ev + (Ev('call', 'strlen', tuple(args), j, where),)
        st.ts['regs'] = st.ts.get('regs', ()) + ((args[0], add(j, I(1)), False),)
        return [Out(st, 'ret', j)]
    def ecmp(s, e, st, tgt, args, where):
        va, vb = s.pair
        if root_in(args[0], vb.b) and tgt.short.endswith('=='): va, vb = vb, va
        da, db = sub(args[0], va.b), sub(args[1], vb.b)
        s.inb(st, args[0], 8, where, 'comparison'); s.inb(st, args[1], 8, where, 'comparison')
        s.obl(da == db or e.entails_eq(st, sub(da, db)), 'view:compare', where, f'compares element at {show(da)} with element at {show(db)}' + stpath(st))
        r = ('ecres', tgt.short, da); e.uns[r] = 1
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), r, where),)
        return [Out(st, 'ret', r)]

def root_in(addr, b):
    if addr == b: return True
    d = sub(addr, b)
    return not any(t == b for t in terms_in(d)) and (b in terms_in(addr))

def check(ck):
    for cfg in ((), ('-DDEBUG',)): one(ck, cfg)
    for r, n in (('view:result', 150), ('view:access', 60), ('view:rejected', 40), ('view:accepted', 40), ('view:compare', 40), ('view:search', 20), ('view:bulk', 4)): ck.need(r, n)

def one(ck, cfg):
    K = Kern(ck, 'view.cc', extra=cfg)
    ck.units = ['witness/view.cc', 'kj/common.h', 'kj/array.h', 'kj/vector.h', 'kj/string.h', 'capnp/blob.h']
    import os
    only = os.environ.get('VP_ONLY')
    for name, f in sorted(K.ws.items()):
        if '__' not in name or (only and not re.search(only, name)): continue
        run1(ck, K, name, f, cfg)

SEE = ('vp::see', 'vp::seeView', 'vp::seeIdx', 'vp::seeNone', 'vp::seeBool')
def sees(st, n0=0): return [x for x in st.ev[n0:] if x.kind == 'call' and x.name in SEE]

def observe(K, e, st, ty, p):
    f = K.ws['obs_' + ty]; n0 = len(st.ev); r = []
    for o in e.run(f, [p], None, st.clone()):
        ev = sees(o.st, n0)
        if o.kind != 'ret' or len(ev) != 1: raise AnalysisBroken(f'observer of {ty} is not a plain observation')
        o.st.ev = o.st.ev[:n0]
        r.append((o.st, V(ty, ev[0].args[0], ev[0].args[1])))
    return r

class C:
    pass

def ge(a, b): return c_ge(sub(a, b))
# spec -> (expected observation, precondition, checked in debug builds?)
def S_idx(c): return ('see', add(c.a.b, m(c.i, c.a.sz))), [ge(c.a.n, add(c.i, I(1)))], True
def S_front(c): return ('see', c.a.b), [ge(c.a.n, I(1))], False
def S_back(c): return ('see', add(c.a.b, m(sub(c.a.n, I(1)), c.a.sz))), [ge(c.a.n, I(1))], False
def S_slice2(c): return ('view', add(c.a.b, m(c.s, c.a.sz)), sub(c.e, c.s)), [ge(c.e, c.s), ge(c.a.n, c.e)], True
def S_slice1(c): return ('view', add(c.a.b, m(c.s, c.a.sz)), sub(c.a.n, c.s)), [ge(c.a.n, c.s)], True
def S_first(c): return ('view', c.a.b, c.c), [ge(c.a.n, c.c)], True
def S_whole(c): return ('view', c.a.b, c.a.n), [], True
def S_bytes(c): return ('view', c.a.b, c.a.bytes), [], True
def S_str(c): return ('str', c.a.b, c.a.n), [], True
def S_cstr(c): return ('cstr', c.a.b), [], True
def S_sidx(c): return ('load', add(c.a.b, c.i)), [ge(c.a.n, c.i)], True
def S_sslice2(c): return ('view', add(c.a.b, c.s), sub(c.e, c.s)), [ge(c.e, c.s), ge(add(c.a.n, I(1)), c.e)], True
def S_sslice1(c): return ('view', add(c.a.b, c.s), sub(c.a.n, c.s)), [ge(c.a.n, c.s)], True
def S_sfirst(c): return ('view', c.a.b, c.c), [ge(add(c.a.n, I(1)), c.c)], True
def S_mkview(c): return ('view', c.p, c.n), [], True
def S_mknative(c): return ('view', c.a, I(8)), [], True
def S_mkstr(c): return ('view', c.p, c.n), None, True
def S_mkstrz(c): return ('view', c.p, None), [], True
SPECS = {'idx': S_idx, 'idxC': S_idx, 'front': S_front, 'frontC': S_front, 'back': S_back, 'backC': S_back, 'slice2': S_slice2, 'slice2C': S_slice2, 'slice1': S_slice1, 'slice1C': S_slice1,
 'first': S_first, 'firstC': S_first, 'whole': S_whole, 'bytes': S_bytes, 'bytesC': S_bytes, 'beginEnd': S_bytes, 'beginEndC': S_bytes, 'str': S_str, 'cstr': S_cstr, 'sidx': S_sidx, 'sslice2': S_sslice2, 'sslice1': S_sslice1, 'sfirst': S_sfirst,
 'mkview': S_mkview, 'mknative': S_mknative, 'mkstr': S_mkstr, 'mkstrz': S_mkstrz}
REL = {'eqm', 'nem', 'ltm', 'gtm', 'lem', 'gem', 'eqs', 'nes', 'lts', 'gts', 'les', 'ges', 'eqe', 'lte', 'isNull', 'starts', 'ends', 'ff', 'fl', 'split', 'fill', 'fillArr', 'copyFrom'}

def run1(ck, K, name, f, cfg):
    spec, var = name.split('__')
    e = K.engine(throws=lambda n, ev: not n.startswith('vp::see'))
    g = G(ck, e, K, f'{name}{"[debug]" if cfg else ""}')
    tys = params_of(f); pn = [a for a in f.args if a[2] != 's']
    args = []; views = []; named = {}
    for a in f.args:
        t = tys[pn.index(a)]; p = e.P(a[3]) if a[1][0] == 'p' else e.N(a[3], a[1][1])
        args.append(p); named[a[3]] = p
        vt = vtype(t)
        if vt and t.endswith('&'): views.append((a[3], vt, p))
    states = [(IState(), {})]
    for n, vt, p in views:
        nx = []
        for st, d in states:
            for st2, v in observe(K, e, st, vt, p):
                if not e.assume(st2, c_ge(sub(I(BIG), v.n))): continue
                if not e.assume(st2, c_ge(v.n)): continue
                ln = add(v.bytes, I(1)) if vt in STR else v.bytes
                null = v.b == ZERO
                if not null: st2.ts['regs'] = st2.ts.get('regs', ()) + ((v.b, ln, True),)
                elif not e.assume(st2, c_eq(v.n)): continue
                if vt in STR and not null:
                    z = st2.clone()
                    if e.assume(z, c_eq(v.n)):
                        e.put(z, add(v.b, v.n), 0, ZERO, 1, 'i'); keep = {b: dict(x) for b, x in z.heap.items()}; e.put(z, v.b, 0, ZERO, 1, 'i'); [z.heap.setdefault(b, {}).update(x) for b, x in keep.items()]; nx.append((z, {**d, n: v}))
                    if not e.assume(st2, c_ge(sub(v.n, I(1)))): continue
                    e.put(st2, add(v.b, v.n), 0, ZERO, 1, 'i')
                nx.append((st2, {**d, n: v}))
        states = nx
    if not states: raise AnalysisBroken(f'{name}: no initial state')
    for n, p in named.items():
        if n in ('i', 's', 'e', 'c', 'n'):
            for st, d in states:
                if not e.assume(st, c_ge(sub(I(1 << 62), p))) and False: pass
    where = src_where(f)
    for st, d in states:
        c = C(); c.__dict__.update(named); c.__dict__.update(d); c.st = st
        c.eng, c.g, c.K, c.cfg, c.where, c.name, c.var = e, g, K, cfg, where, name, var
        if spec in REL: rel(c, spec, f, args); continue
        if spec == 'mkstr' or spec == 'mkview' :
            e.assume(st, ge(I(BIG), c.n)); st.ts['regs'] = ((c.p, add(c.n, I(1)) if spec == 'mkstr' else m(c.n, 8), True),)
        if spec == 'mknative': pass
        want, pre, dbg = SPECS[spec](c)
        if spec in ('sidx',) and c.a.b == ZERO: pre = None      # a null String has no terminator to read
        simple(c, spec, f, args, want, pre, dbg)
    ck.engine_stats(e)

def run(c, f, args, st):
    try: return c.eng.run(f, list(args), None, st)
    except Budget as b: raise AnalysisBroken(f'{c.name}: analysis budget exceeded ({b})')

def simple(c, spec, f, args, want, pre, dbg):
    e, g = c.eng, c.g
    desc = f'view of {show(c.a.n)} elements' if hasattr(c, 'a') and isinstance(c.a, V) else 'arguments'
    if pre is None:
        if spec == 'mkstr':
            # terminator: value[size] must be checked in debug builds
            for o in run(c, f, args, c.st.clone()):
                nul = e.get(o.st, add(c.p, c.n), 0, 1)
                if o.kind == 'ret':
                    verify(c, o, want)
                    if c.cfg: g.obl(e.entails_eq(o.st, nul) or e.entails_eq(o.st, ('sx', nul, 8)), 'view:rejected', inrepo(o, c.where), 'a string without NUL terminator is accepted' + pathinfo(o))
                elif o.kind == 'throw': g.obl(e.decide(o.st, c_eq(nul)) is not True, 'view:accepted', inrepo(o, c.where), 'a properly terminated string is rejected' + pathinfo(o))
        elif c.cfg:
            for o in run(c, f, args, c.st.clone()):
                g.obl(o.kind != 'ret', 'view:rejected', inrepo(o, c.where), 'reading the terminator of a null String is accepted' + pathinfo(o))
        return
    if c.cfg and dbg and pre:
        for o in run(c, f, args, c.st.clone()):
            if o.kind == 'ret':
                for p in pre: g.obl(e.decide(o.st, p) is True, 'view:rejected', inrepo(o, c.where), f'out-of-range request is not rejected ({desc}): {pshow(p)} is not ensured' + pathinfo(o))
    st = c.st.clone()
    for p in pre:
        if not e.assume(st, p): return
    n = 0
    for o in run(c, f, args, st):
        if o.kind == 'halt': continue
        g.obl(o.kind == 'ret', 'view:accepted', inrepo(o, c.where), f'in-range request is rejected ({desc})' + pathinfo(o))
        if o.kind == 'ret': verify(c, o, want); n += 1
    if not n: g.obl(False, 'view:accepted', c.where, f'in-range request never completes ({desc})')

def pshow(p): return show(p[1]) + (' >= 0' if p[0] == 'ge' else '') if isinstance(p, tuple) and len(p) > 1 else str(p)

def same(e, st, a, b): return a == b or e.entails_eq(st, sub(a, b))

def verify(c, o, want):
    e, g = c.eng, c.g
    ev = sees(o.st); w = inrepo(o, c.where); st = o.st
    k = want[0]
    if k == 'load':
        g.obl(True, 'view:result', w, ''); return         # the access itself is checked in bounds
    if len(ev) != 1: g.obl(False, 'view:result', w, 'no single result' + pathinfo(o)); return
    a = list(ev[0].args)
    if hasattr(c, 'a') and isinstance(c.a, V) and c.a.b == ZERO and k == 'view':      # the empty part of a null string may point into the shared empty string
        r = e.root(a[0])
        if r is not None and r[0] == 'G' and isnul(c.K, r[1]): a[0] = sub(a[0], r)
    if k == 'see': g.obl(same(e, st, a[0], want[1]), 'view:result', w, f'yields the element at {show(a[0])}, expected {show(want[1])}' + pathinfo(o))
    elif k == 'cstr' or k == 'str':
        b = want[1]
        if b == ZERO:      # null string: any NUL-terminated empty string will do
            ok = a[0][0] == 'G' and isnul(c.K, a[0][1])
        else: ok = same(e, st, a[0], b)
        if k == 'str': ok = ok and same(e, st, a[1], want[2])
        g.obl(ok, 'view:result', w, f'yields {", ".join(map(show, a))}, expected {show(b)}' + pathinfo(o))
    elif k == 'view':
        empty = want[2] is not None and e.entails_eq(st, want[2])
        wn = want[2]
        if wn is None:
            sl = [x for x in o.events if x.name == 'strlen' and x.args[0] == want[1]]
            wn = sl[0].ret if sl else I(-1)
        ok = same(e, st, a[1], wn) and (same(e, st, a[0], want[1]) or (empty and want[1] == ZERO))
        if not ok and want[1] == ZERO: ok = same(e, st, a[1], wn) and e.entails_eq(st, a[1])
        if not ok and a[0][0] == 'G' and hasattr(c, 'a') and c.a.b == ZERO: ok = same(e, st, a[1], wn) and isnul(c.K, a[0][1])
        g.obl(ok, 'view:result', w, f'yields the view ({show(a[0])}, {show(a[1])}), expected ({show(want[1])}, {show(wn)})' + pathinfo(o))

def isnul(K, gname):
    gl = K.mod.globs.get(gname)
    return gl is not None and gl.get('init') is not None and zero_init(gl['init'])
def zero_init(i):
    if isinstance(i, (list, tuple)):
        if i and i[0] in ('z', 'zero', 'null'): return True
        if i and i[0] in ('i', 'int'): return int(i[-1]) == 0
        if i and i[0] in ('s', 'str', 'bytes'): return all(x in ('0', 0, '\0', '') for x in (i[1] if isinstance(i[1], (list, str)) else [i[1]]))
        return all(zero_init(x) for x in i[1:] if isinstance(x, (list, tuple)))
    return False

def feas(e, st, *cs):
    s = st.clone()
    for x in cs:
        if not e.assume(s, x): return None
    return s

def mcmp(o): return [x for x in o.events if x.kind == 'call' and x.name == 'memcmp']

def rel(c, spec, f, args):
    e, g = c.eng, c.g; a = c.a; b = getattr(c, 'b', None)
    g.pair = (a, b)
    st = c.st.clone()
    base = spec[:2]; kind = spec[2:]
    if spec in ('copyFrom', 'fillArr'): return bulk(c, spec, f, args, st)
    g.stores = []
    outs = run(c, f, args, st)
    if spec == 'fill':
        for s, addr, v, size, where in g.stores: g.obl(v == c.x, 'view:bulk', where, f'fills with {show(v)}' + stpath(s))
    for o in outs:
        if o.kind == 'halt': continue
        w = inrepo(o, c.where); s = o.st
        if o.kind == 'throw': g.obl(False, 'view:accepted', w, 'fails' + pathinfo(o)); continue
        if spec == 'fill': bulk_exit(c, o, a.n, c.x); continue
        ev = sees(s)
        if spec == 'isNull':
            v = e.truth(ev[0].args[0]); z = c_eq(a.n)
            g.obl(agree(e, s, v, z), 'view:compare', w, 'comparison with nullptr is not "size is zero"' + pathinfo(o)); continue
        if spec in ('starts', 'ends') or kind in ('m', 's') and base in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            order(c, spec, o, ev, a, b); continue
        if spec == 'eqe':
            v = e.decide(s, e.truth(ev[0].args[0]))
            lp = [x for x in o.events if x.kind == 'loop']
            if v is True: g.obl(same(e, s, a.n, b.n) and (e.entails_eq(s, a.n) or any(same(e, s, x.args[0], a.n) for x in lp)), 'view:compare', w, 'reports equality without having compared all elements of equally long views' + pathinfo(o))
            else:
                cm = [x for x in o.events if x.kind == 'call' and x.name.startswith('vp::E::')]
                r = e.decide(s, e.truth(cm[-1].ret)) if cm else None
                g.obl(v is False and (e.decide(s, c_eq(sub(a.n, b.n))) is False or r is False), 'view:compare', w, 'reports inequality although no difference was found' + pathinfo(o))
            continue
        if spec == 'lte':
            lp = [x for x in o.events if x.kind == 'loop']; k = lp[-1].args[0] if lp else ZERO
            cm = [x for x in o.events if x.kind == 'call' and x.name.startswith('vp::E::')]
            v = e.truth(ev[0].args[0])
            if cm and cm[-1].name.endswith('@lt'):
                # decided by the first differing element
                eq = [x for x in cm[:-1] if x.name.endswith('==') and x.args == cm[-1].args]
                ok = bool(eq) and e.decide(s, e.truth(eq[-1].ret)) is False and agree(e, s, v, e.truth(cm[-1].ret)) and same(e, s, sub(cm[-1].args[0], a.b), m(k, a.sz))
                g.obl(ok, 'view:compare', w, 'the order is not decided by "<" on the first pair of different elements' + pathinfo(o))
            else:
                ok = agree(e, s, v, ge(b.n, add(a.n, I(1)))) and (same(e, s, k, a.n) or same(e, s, k, b.n)) and e.entails_ge(s, sub(a.n, k), True) and e.entails_ge(s, sub(b.n, k), True)
                g.obl(ok, 'view:compare', w, 'views equal over their common length are not ordered by length, or not all of the common length was compared' + pathinfo(o))
            continue
        if spec in ('ff', 'fl'): find(c, spec, o, ev, a); continue
        if spec == 'split': split(c, o, ev, a); continue
        raise AnalysisBroken(spec)

def agree(e, s, v, z):
    s1 = feas(e, s, z); s2 = feas(e, s, c_not(z))
    return (s1 is None or e.decide(s1, v) is True) and (s2 is None or e.decide(s2, v) is False)

def order(c, spec, o, ev, a, b):
    e, g = c.eng, c.g; s = o.st; w = inrepo(o, c.where)
    mc = mcmp(o); v = e.truth(ev[0].args[0])
    base = spec[:2] if spec not in ('starts', 'ends') else spec
    bad = None
    term = I(1) if (spec[2:] == 's') else ZERO          # strings may compare including the terminator
    if len(mc) > 1: bad = 'compares more than once'
    x = mc[0] if mc else None
    lp = [y for y in o.events if y.kind == 'loop']
    if base in ('eq', 'ne'):
        eqv = v if base == 'eq' else c_not(v)
        if x is None and (lp or valcmp(e, s, a, b, ZERO)):      # element by element
            k = lp[-1].args[0] if lp else ZERO; r = e.decide(s, eqv)
            if not same(e, s, a.n, b.n): bad = 'compares contents although the lengths differ'
            elif r is True and not same(e, s, k, a.n) and not same(e, s, k, add(a.n, term)): bad = f'reports equality after {show(k)} elements'
            elif r is False and not valcmp(e, s, a, b, k): bad = 'reports inequality although no difference was found'
            elif r is None: bad = 'result is not "all elements equal"'
        elif x is None:
            s1 = feas(e, s, c_eq(sub(a.n, b.n)))
            if s1 is not None and not (e.entails_eq(s1, a.n) and e.decide(s1, eqv) is True): bad = 'decides without comparing the contents of equally long views'
            s2 = feas(e, s, c_not(c_eq(sub(a.n, b.n))))
            if s2 is not None and e.decide(s2, eqv) is not False: bad = 'views of different length can compare equal'
        else:
            if not same(e, s, a.n, b.n): bad = 'compares contents although the lengths differ'
            elif not pairs(e, s, x, a.b, b.b, a.bytes, term): bad = f'compares {show(x.args[2])} bytes at {show(x.args[0])} and {show(x.args[1])} instead of all {show(a.bytes)} bytes of both'
            elif not agree(e, s, eqv, c_eq(x.ret)): bad = 'result is not "all bytes equal"'
    elif base in ('lt', 'gt', 'le', 'ge'):
        p, q = (a, b) if base in ('lt', 'ge') else (b, a)
        ltv = v if base in ('lt', 'gt') else c_not(v)
        if x is None: bad = 'decides the order without comparing contents'
        else:
            okm = False
            for nn, cond in ((p.n, ge(q.n, p.n)), (q.n, ge(p.n, q.n))):
                s1 = feas(e, s, cond)
                if s1 is not None:
                    okm = pairs(e, s1, x, p.b, q.b, m(nn, p.sz), term)
                    sw = not okm and pairs(e, s1, x, q.b, p.b, m(nn, p.sz), term)
                    if not okm and not sw: bad = f'compares {show(x.args[2])} bytes at {show(x.args[0])} and {show(x.args[1])} instead of the common prefix'; break
                    r = x.ret if okm else sub(ZERO, x.ret)
                    for cc, exp in ((ge(I(-1), r), True), (ge(r, I(1)), False)):
                        s2 = feas(e, s1, cc)
                        if s2 is not None and e.decide(s2, ltv) is not exp: bad = 'order does not follow the first differing byte'
                    s2 = feas(e, s1, c_eq(r))
                    if s2 is not None and not agree(e, s2, ltv, ge(sub(q.n, p.n), I(1))): bad = 'a proper prefix does not order before the longer view'
    else:
        off = ZERO if base == 'starts' else sub(a.bytes, b.bytes)
        longer = ge(b.n, add(a.n, I(1)))
        sv = V(a.ty, add(a.b, off), b.n)
        if x is None and e.decide(s, longer) is False and (lp or valcmp(e, s, sv, b, ZERO)):
            k = lp[-1].args[0] if lp else ZERO; r = e.decide(s, v)
            if r is True and not same(e, s, k, b.n): bad = f'reports a match after {show(k)} elements'
            elif r is False and not valcmp(e, s, sv, b, k): bad = 'reports a mismatch although no difference was found'
            elif r is None: bad = 'result is not "all elements equal"'
        elif x is None:
            s1 = feas(e, s, longer)
            if s1 is not None and e.decide(s1, v) is not False: bad = 'a longer view can be a prefix/suffix'
            s2 = feas(e, s, c_not(longer))
            if s2 is not None and not (e.entails_eq(s2, b.n) and e.decide(s2, v) is True): bad = 'decides without comparing'
        else:
            if not same(e, s, x.args[2], b.bytes): bad = f'compares {show(x.args[2])} bytes instead of {show(b.bytes)}'
            elif not ((same(e, s, x.args[0], add(a.b, off)) and same(e, s, x.args[1], b.b)) or (same(e, s, x.args[1], add(a.b, off)) and same(e, s, x.args[0], b.b))): bad = f'compares {show(x.args[0])} with {show(x.args[1])}'
            elif not agree(e, s, v, c_eq(x.ret)): bad = 'result is not "all bytes equal"'
    g.obl(bad is None, 'view:compare', w, (bad or '') + pathinfo(o))

def valcmp(e, s, a, b, k):
    """are elements k of both views known to differ?"""
    x, y = (e.get(s, add(v.b, m(k, v.sz)), 0, v.sz, 'i') for v in (a, b))
    return e.decide(s, c_eq(sub(x, y))) is False or nefact(s, x, y)
def nefact(s, a, b):
    def strip(t):
        while isinstance(t, tuple) and t[0] in ('sx', 'zx', 'tr'): t = t[1]
        return t
    for L in s.nes:
        ts = [strip(t) for t in terms_in(L) if isinstance(t, tuple) and t[0] in ('ld', 'sym', 'sx', 'zx')]
        if strip(a) in ts and strip(b) in ts: return True
    return False

def pairs(e, s, x, p, q, n, term):
    ln = same(e, s, x.args[2], n) or (term != ZERO and same(e, s, x.args[2], add(n, term)))
    P = lambda u, v: same(e, s, u, v) or v == ZERO      # a null String compares as the shared empty string
    return ln and P(x.args[0], p) and P(x.args[1], q)

def find(c, spec, o, ev, a):
    e, g = c.eng, c.g; s = o.st; w = inrepo(o, c.where)
    x = c.__dict__['x']; xs = SZ[a.ty]
    lp = [y for y in o.events if y.kind == 'loop']; mh = [y for y in o.events if y.name == 'memchr']
    r = ev[0]
    bad = None
    if mh:
        y = mh[0]
        if not (same(e, s, y.args[0], a.b) and same(e, s, y.args[2], a.n)): bad = f'searches {show(y.args[2])} bytes at {show(y.args[0])} instead of the whole view'
        elif spec == 'fl': bad = 'searches forward'
        elif y.ret == ZERO:
            if r.name != 'vp::seeNone': bad = 'reports a match although none was found'
        elif r.name != 'vp::seeIdx' or not same(e, s, r.args[0], y.ret): bad = 'reports the wrong position'
    elif e.entails_eq(s, a.n):
        if r.name != 'vp::seeNone': bad = 'reports a match in an empty view'
    elif len(lp) > 1: bad = 'no single search over the view'
    else:
        k = lp[0].args[0] if lp else ZERO
        if r.name == 'vp::seeNone':
            if not same(e, s, k, a.n): bad = f'reports no match after {show(k)} of {show(a.n)} elements'
        else:
            i = r.args[0]; exp = k if spec == 'ff' else sub(sub(a.n, I(1)), k)
            if not same(e, s, i, exp): bad = f'reports position {show(i)} in step {show(k)}'
            elif not (e.entails_ge(s, i, True) and e.entails_ge(s, sub(sub(a.n, i), I(1)), True)): bad = f'position {show(i)} is outside the view'
            else:
                ok, el, xv = matches(c, s, add(a.b, m(i, xs)), xs)
                if not ok: bad = f'element {show(el)} at the reported position is not known to match {show(xv)}'
    g.obl(bad is None, 'view:search', w, (bad or '') + pathinfo(o))

def eqfact(e, s, a, b):
    """equality recorded on sign-extended or masked copies"""
    def strip(t):
        while isinstance(t, tuple) and t[0] in ('sx', 'zx', 'tr'): t = t[1]
        return t
    for L in s.eqs:
        ts = [strip(t) for t in terms_in(L) if isinstance(t, tuple) and t[0] in ('ld', 'sym', 'n', 'sx', 'zx')]
        if strip(a) in ts and strip(b) in ts: return True
    return False

def matches(c, s, addr, xs):
    e = c.eng; x = c.__dict__['x']
    el = e.get(s, addr, 0, xs, 'i'); isp = c.K.ws[c.name].args[1][1][0] == 'p'
    xv = e.get(s, x, 0, xs, 'i') if isp else x
    return el == xv or e.entails_eq(s, sub(el, xv)) or eqfact(e, s, el, xv), el, xv

def segok(c, o, B, R, n, sz):
    """is n the distance from B to the first delimiter among R elements (R if there is none)?"""
    e = c.eng; s = o.st
    for y in o.events:
        if y.name == 'memchr' and same(e, s, y.args[0], B) and same(e, s, y.args[2], R):
            return same(e, s, n, R if y.ret == ZERO else y.ret)
    ks = [ZERO] + [y.args[0] for y in o.events if y.kind == 'loop']
    if not any(same(e, s, n, k) for k in ks): return False
    return same(e, s, n, R) or matches(c, s, add(B, m(n, sz)), sz)[0]

def split(c, o, ev, a):
    e, g = c.eng, c.g; s = o.st; w = inrepo(o, c.where)
    bad = None
    if len(ev) != 2 or ev[0].name != 'vp::seeView': bad = 'no first segment'
    else:
        b1, n1 = ev[0].args[:2]
        if not same(e, s, b1, a.b): bad = f'first segment starts at {show(b1)}'
        elif not (e.entails_ge(s, sub(a.n, n1), True) and e.entails_ge(s, n1, True)): bad = f'first segment has {show(n1)} of {show(a.n)} elements'
        elif not segok(c, o, a.b, a.n, n1, a.sz): bad = f'first segment of {show(n1)} elements does not end at the first delimiter'
        elif ev[1].name == 'vp::seeNone':
            if not same(e, s, n1, a.n): bad = f'ends after a segment of {show(n1)} of {show(a.n)} elements'
        else:
            b2, n2 = ev[1].args[:2]
            rest = sub(sub(a.n, n1), I(1))
            if not e.entails_ge(s, rest, True): bad = 'continues past the end'
            elif not same(e, s, b2, add(a.b, m(add(n1, I(1)), a.sz))): bad = f'second segment starts at {show(b2)}'
            elif not (e.entails_ge(s, sub(rest, n2), True) and e.entails_ge(s, n2, True)): bad = f'second segment has {show(n2)} of the remaining {show(rest)} elements'
            elif not segok(c, o, b2, rest, n2, a.sz): bad = f'second segment of {show(n2)} elements does not end at the first delimiter'
    g.obl(bad is None, 'view:search', w, (bad or '') + pathinfo(o))

def bulk(c, spec, f, args, st):
    e, g = c.eng, c.g; a, b = c.a, c.b
    pre = [ge(b.n, I(1))] if spec == 'fillArr' else [c_eq(sub(a.n, b.n))]
    if c.cfg:
        for o in run(c, f, args, st.clone()):
            if o.kind == 'ret':
                for p in pre: g.obl(e.decide(o.st, p) is True, 'view:rejected', inrepo(o, c.where), f'mismatched sizes are not rejected' + pathinfo(o))
                if spec == 'copyFrom' and c.var == 'AP':
                    # no overlap on any accepted path
                    s1 = feas(e, o.st, ge(sub(add(a.b, a.bytes), b.b), I(1)), ge(sub(add(b.b, b.bytes), a.b), I(1)))
                    g.obl(s1 is None, 'view:rejected', inrepo(o, c.where), 'overlapping ranges are not rejected' + pathinfo(o))
    for p in pre:
        if not e.assume(st, p): return
    g.stores = []
    for o in run(c, f, args, st):
        if o.kind != 'ret': continue
        bulk_exit(c, o, a.n)
    for s, addr, v, size, where in g.stores:
        if spec == 'copyFrom':
            want = e.get(s, add(b.b, sub(addr, a.b)), 0, size)
            g.obl(v == want or isload(v, add(b.b, sub(addr, a.b))), 'view:bulk', where, f'writes {show(v)} to element {show(sub(addr, a.b))}' + stpath(s))

def isload(v, addr):
    while isinstance(v, tuple) and v[0] in ('sx', 'zx', 'tr'): v = v[1]
    return isinstance(v, tuple) and v[0] == 'ld' and sub(v[1], addr) == ZERO

def bulk_exit(c, o, n, x=None):
    e, g = c.eng, c.g
    lp = [y for y in o.events if y.kind == 'loop']; ms = [y for y in o.events if y.kind == ('memcpy' if x is None else 'memset')]
    if ms: ok = any(same(e, o.st, y.args[0], c.a.b) and same(e, o.st, y.args[2], c.a.bytes) for y in ms)
    else: ok = e.entails_eq(o.st, n) or any(same(e, o.st, y.args[0], n) for y in lp)
    g.obl(ok, 'view:bulk', inrepo(o, c.where), f'does not process exactly the {show(n)} elements of the view' + pathinfo(o))
