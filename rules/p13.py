"""P13: Maybe and OneOf hold exactly the value their state says, on every path."""
from kern import *

SPEC = {
 'explanation': 'Every operation of Maybe<T> (flag and niche representations; throwing, non-assignable, nothrow, move-only element types), '
   'Maybe<T&>, OneOf and the unwrapping macros is run from every reachable initial state on all normal and exceptional paths. Element '
   'constructors, assignments and destructors are ghost events (dead->live, live, live->dead, value identity); initial and final states '
   'are read through the public observers. At every exit the container observes a value iff exactly that value is alive, no other '
   'value was leaked or destroyed twice, and the value is the one the operation specifies.',
 'assumptions': ['destroying a moved-from local temporary does not throw', 'OneOf is not assigned from itself or from a value inside it', 'MaybeTraits of user types are consistent (initNone makes isNone true; constructed values are not none)'],
}
ELEM = re.compile(r'^vp::(A2|A|B|C|M|Q|R)::(~?\1|operator=|clone)$')
NICHE = {'M', 'Q', 'R'}
MOVESAFE = {'M'}

class G:
    def __init__(s, ck, e, op):
        s.ck = ck; s.e = e; s.op = op
        e.models += [(ELEM, s.elem), (re.compile(r'^vp::use$'), s.use), (re.compile(r'^vp::fn$'), s.use), (re.compile(r'^vp::see$'), s.see), (re.compile(r'^vp::(A|B|C|M|Q|R)::operator==$'), s.cmp)]
    def obl(s, ok, rule, where, detail):
        if s.e.trial == 0: s.ck.obl(ok, rule, where, f'{s.op}: {detail}', s.op)
    def live(s, st, x): return st.ts.get(('live', x))
    def born(s, st, x, ty, ident):
        st.ts[('live', x)] = (ty, ident)
        if ty in NICHE:
            t = s.e.N(f'tag{len(s.e.uns)}', 64); s.e.put(st, x, 0, t, 8, 'u'); s.e.assume(st, c_not(c_eq(t)))
    def die(s, st, x, ty):
        st.ts.pop(('live', x), None)
        if ty in NICHE: s.e.put(st, x, 0, s.e.N(f'junk{len(s.e.uns)}', 64), 8, 'u')
    def moved(s, st, x, ty):
        """states after the value at x was moved from"""
        l = s.live(st, x)
        a = st.clone(); a.ts[('live', x)] = (ty, ('moved', l[1]))
        r = [a]
        if ty in MOVESAFE:
            b = st.clone(); b.ts.pop(('live', x)); s.e.put(b, x, 0, ZERO, 8, 'u'); r.append(b)
        return r
    def elem(s, e, st, tgt, args, where):
        m = ELEM.match(tgt.short); ty, kind = m.group(1), m.group(2)
        nothrow = 'n' in tgt.fl
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), None, where),)
        def thr(st2):
            if nothrow: return []
            t = st2.clone(); t.ev = t.ev + (Ev('thrown', tgt.short, tuple(args), None, where),); return [Out(t, 'throw', None)]
        pt = tgt.dem[tgt.dem.index('(') + 1:] if '(' in tgt.dem else ''
        if kind == 'clone': args = [args[0], args[1]]; pt = 'const&'
        x = args[0]; l = s.live(st, x)
        if kind.startswith('~'):
            s.obl(l is not None and l[0] == ty, 'var:destroy', where, f'destroys {ty} at {show(x)}, which is ' + ('not alive' if l is None else f'a live {l[0]}') + stpath(st))
            s.die(st, x, ty)
            if l and l[1][0] == 'moved' and (e.root(x) or ('',))[0] == 'al': return [Out(st, 'ret', None)]   # assumption: see SPEC
            return [Out(st, 'ret', None)] + thr(st)
        src = None
        if len(args) > 1 and tgt.args[1][1][0] == 'p' or kind == 'clone':
            src = args[1]; sl = s.live(st, src)
            none_ok = ty in MOVESAFE and '&&' in pt and kind == ty and sl is None and e.entails_eq(st, e.get(st, src, 0))
            if none_ok:
                s.obl(l is None, 'var:construct', where, f'constructs over the live value at {show(x)}' + stpath(st))
                e.put(st, x, 0, ZERO, 8, 'u'); return [Out(st, 'ret', None)]
            s.obl(sl is not None, 'var:source', where, f'{kind} from {show(src)}, which is not alive' + stpath(st))
            if sl is None: sl = ('?', ('dead', src)); st.ts[('live', src)] = sl
            ident = sl[1]
        else:
            ident = ('arg', args[1] if len(args) > 1 else None)
        if kind == 'operator=':
            s.obl(l is not None and l[0] == ty, 'var:assign', where, f'assigns to {show(x)}, which is not a live {ty}' + stpath(st))
            outs = thr(st)
            mv = '&&' in pt
            for st2 in (s.moved(st, src, sl[0]) if mv and src != x else [st.clone()]):
                if not (mv and src == x): st2.ts[('live', x)] = (ty, ident)
                outs.append(Out(st2, 'ret', x))
            return outs
        s.obl(l is None, 'var:construct', where, f'constructs over the live value at {show(x)}' + stpath(st))
        outs = thr(st)
        for st2 in (s.moved(st, src, sl[0]) if src is not None and '&&' in pt else [st.clone()]):
            s.born(st2, x, ty, ident); outs.append(Out(st2, 'ret', None))
        return outs
    def use(s, e, st, tgt, args, where):
        x = args[0]; l = s.live(st, x)
        s.obl(l is not None or x in st.ts.get('refs', ()), 'var:use', where, f'the body runs on {show(x)}, which is not alive' + stpath(st))
        r = None
        if tgt.short == 'vp::fn':
            r = ('fnres', x, len(st.ev)); e.uns[r] = 64
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), r, where),)
        st.ts['uses'] = st.ts.get('uses', ()) + ((x, l and l[1]),)
        t = st.clone(); t.ev = t.ev + (Ev('thrown', tgt.short, tuple(args), None, where),)
        return [Out(st, 'ret', r), Out(t, 'throw', None)]
    def see(s, e, st, tgt, args, where):
        m = re.search(r'\(vp::(\w+)', tgt.dem)
        st.ts['seen'] = (m.group(1) if m else 'int', args[0])
        return [Out(st, 'ret', None)]
    def cmp(s, e, st, tgt, args, where):
        for x in args[:2]: s.obl(s.live(st, x) is not None, 'var:use', where, f'compares {show(x)}, which is not alive' + stpath(st))
        r = ('cmpres', args[0], args[1]); e.uns[r] = 1
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), r, where),)
        outs = [Out(st, 'ret', r)]
        if 'n' not in tgt.fl: outs.append(Out(st.clone(), 'throw', None))
        return outs
def stpath(st): return ' | path: ' + (st.facts_str() or 'unconditional')[:300]

CONT = re.compile(r'^(kj::Maybe<vp::(A2|A|B|C|M|Q|R)( const)?(&)?>|kj::OneOf<(.*)>)( const)?&?$')
def cont_of(t):
    t = t.strip()
    if t.startswith('kj::Maybe<unsigned long>'): return ('MaybeU', True)
    m = CONT.match(t)
    if not m: return None
    if m.group(5): return ('O2' if m.group(5).replace(' ', '') == 'vp::C,vp::A' else 'O', False)
    return ('Maybe' + m.group(2) + (('CRef' if m.group(3) else 'Ref') if m.group(4) else ''), bool(m.group(4)))


def check(ck):
    for cfg in ((), ('-DDEBUG',)): one(ck, cfg)
    for r, n in (('var:construct', 200), ('var:destroy', 150), ('var:source', 100), ('var:state', 800), ('var:post', 500), ('var:leak', 500), ('var:use', 80)): ck.need(r, n)

class Cell:
    def __init__(s, name, cont, ref, p): s.name, s.cont, s.ref, s.p = name, cont, ref, p

def one(ck, cfg):
    K = Kern(ck, 'maybe.cc', extra=cfg)
    ck.units = ['witness/maybe.cc', 'kj/common.h', 'kj/one-of.h', 'kj/debug.h']
    import os
    only = os.environ.get('VP_ONLY')
    for name, f in sorted(K.ws.items()):
        if '__' not in name or (only and not re.search(only, name)): continue
        run1(ck, K, name, f, cfg)

def observe(K, e, st, cont, p):
    """[(state, kind, address)] for each way the observer can see the container"""
    f = K.ws['obs_' + cont]
    st = st.clone(); n = len(st.ev); st.ts.pop('seen', None)
    r = []
    for o in e.run(f, [p], None, st):
        nm = [x.name for x in o.st.ev[n:] if x.kind == 'call' and x.name.startswith('vp::')]
        if o.kind != 'ret': r.append((o.st, '!', None)); continue
        if nm == ['vp::unreachable']: r.append((o.st, '!bad', None)); continue
        if nm == ['vp::seeNone']: r.append((o.st, None, None)); continue
        if nm or 'seen' not in o.st.ts: r.append((o.st, '!', None)); continue
        r.append((o.st, o.st.ts['seen'][0], o.st.ts['seen'][1]))
    return r

class S:
    def __init__(s, pre=None, uses=None, val=None, rejects=None, dead=(), els=None, **post): s.pre, s.uses, s.val, s.rejects, s.dead, s.els, s.post = pre, uses, val, rejects, dead, els, post
ANY = 'any'
class Ctx:
    def __init__(s, **k): s.__dict__.update(k)
    def id(s, n): return ('val', n) if s.d[n] else None
    def addr(s, n): return s.d[n][1]
    def ty(s, n): return s.d[n] and s.d[n][0]
    def ini(s): return ', '.join(f'{k} {"holds " + v[0] if v else "is empty"}' for k, v in s.d.items())
V = lambda n: lambda c: c.id(n)
X = lambda c: ('val', 'x')
NONE = lambda c: None
ARG = lambda c: ('arg', c.e.N('n', 64))
KEEP = ANY
def use_addr(c): return [('addr', c.addr('a'))] if c.d['a'] else []
def use_id(c): return [('id', ('val', 'a'))] if c.d['a'] else []
els = lambda c: not c.d['a']
some = lambda c: c.d['a'] is not None
none = lambda c: c.d['a'] is None
empty_rejected = lambda c: c.d['a'] is None
ordef = lambda c: c.addr('a') if c.d['a'] else c.vals['x'][1]
boolv = lambda f: (lambda c: I(1 if f(c) else 0))
def eqv(c):
    if not c.d['a'] or not c.d['b']: return I(1 if bool(c.d['a']) == bool(c.d['b']) else 0)
    return ('cmpres', c.addr('a'), c.addr('b'))
isty = lambda c: c.ty('a') == c.var
refv = lambda n: lambda c: ('ref', c.addr(n)) if c.d[n] else None
tryv = lambda c: ('ref', c.addr('a')) if isty(c) else None
fnv = lambda c: ('fn', c.addr('a')) if c.d['a'] else None
fnvm = lambda c: ('fn', None) if c.d['a'] else None
SPECS = {
 'empty': S(ret=NONE), 'none': S(ret=NONE), 'fromMove': S(ret=X), 'some': S(ret=X), 'fromCopy': S(ret=X), 'fromCopyN': S(ret=X),
 'move': S(ret=V('b'), b=NONE), 'oMove': S(ret=V('b'), b=ANY), 'copy': S(ret=V('b'), b=V('b')), 'copyN': S(ret=V('b'), b=V('b')),
 'dtor': S(dead=('a',)), 'assignMove': S(a=V('b'), b=NONE), 'oAssignMove': S(a=V('b'), b=ANY), 'assignCopy': S(a=V('b'), b=V('b')), 'assignCopyN': S(a=V('b'), b=V('b')),
 'assignSelf': S(a=V('a')), 'assignSelfC': S(a=V('a')), 'assignOwn': S(a=V('a')), 'assignOwnC': S(a=V('a')),
 'assignVal': S(a=X), 'assignValC': S(a=X), 'assignValN': S(a=X), 'oAssignVal': S(a=X), 'assignNone': S(a=NONE),
 'emplace': S(a=ARG), 'emplaceVal': S(a=X), 'emplaceValC': S(a=X), 'emplaceInit': S(pre=none, a=ARG), 'emplaceInitMaybe': S(pre=none, a=V('b'), b=NONE),
 'isNone': S(val=boolv(none), a=V('a')), 'isSome': S(val=boolv(some), a=V('a')), 'eq': S(val=eqv, a=V('a'), b=V('b')),
 'ifSome': S(uses=use_addr, els=els, a=V('a')), 'ifSomeC': S(uses=use_addr, els=els, a=V('a')), 'ifSomeMove': S(uses=use_id, els=els, a=NONE),
 'unwrapRet': S(uses=use_addr, a=V('a')), 'unwrapOr': S(uses=use_addr, els=els, a=V('a')), 'unwrapMove': S(uses=use_id, els=els, a=NONE),
 'assertNN': S(uses=use_addr, rejects=empty_rejected, a=V('a')), 'requireNN': S(uses=use_addr, rejects=empty_rejected, a=V('a')), 'assertNNMove': S(uses=use_id, rejects=empty_rejected, a=ANY),
 'map': S(ret=fnv, a=V('a')), 'mapC': S(ret=fnv, a=V('a')), 'mapM': S(ret=fnvm, a=ANY),
 'refOf': S(ret=refv('a'), a=V('a')), 'refOfC': S(ret=refv('a'), a=V('a')),
 'rCopy': S(ret=refv('b'), b=refv('b')), 'rMove': S(ret=refv('b'), b=NONE), 'rToConst': S(ret=refv('b'), b=refv('b')), 'rToConstM': S(ret=refv('b'), b=NONE),
 'rFrom': S(ret=lambda c: ('ref', c.vals['x'][1])), 'rFromPtr': S(ret=lambda c: ('ref', c.vals['x'][1])),
 'rAssign': S(a=refv('b'), b=refv('b')), 'rAssignM': S(a=refv('b'), b=NONE), 'rAssignVal': S(a=lambda c: ('ref', c.vals['x'][1])), 'rAssignNone': S(a=NONE),
 'rAssignC': S(a=refv('b'), b=refv('b')), 'rAssignCM': S(a=refv('b'), b=NONE),
 'fromRef': S(ret=lambda c: ('tgt', 'b') if c.d['b'] else None, b=refv('b')), 'fromRefM': S(ret=lambda c: ('tgt', 'b') if c.d['b'] else None, b=NONE),
 'oTry': S(ret=tryv, a=V('a')), 'oTryC': S(ret=tryv, a=V('a')), 'oTryM': S(ret=lambda c: ('val', 'a') if isty(c) else None, a=ANY),
 'oGet': S(pre=isty, val=lambda c: c.addr('a'), a=V('a')), 'oGetC': S(pre=isty, val=lambda c: c.addr('a'), a=V('a')), 'oGetM': S(pre=isty, val=lambda c: c.addr('a'), a=V('a')),
 'oIs': S(val=boolv(isty), a=V('a')), 'oWhich': S(pre=some, val=lambda c: I({'A': 0, 'B': 1, 'C': 2}[c.ty('a')]), a=V('a')),
 'oSwitch': S(pre=some, uses=use_addr, a=V('a')), 'oSwitchC': S(pre=some, uses=use_addr, a=V('a')), 'oSwitchM': S(pre=some, uses=use_id, a=ANY),
}
for k in ('', 'C', 'M', 'CM', 'F', 'CF', 'MF'): SPECS['orDef' + k] = S(val=ordef, a=V('a'))

def run1(ck, K, name, f, cfg):
    spec, var = name.split('__')
    sp = SPECS.get(spec)
    if sp is None: raise AnalysisBroken(f'no specification for witness {name}')
    e = K.engine(throws=lambda n, ev: not n.startswith('vp::see') and n != 'vp::unreachable')
    e.peel = 2
    g = G(ck, e, f'{name}{"[debug]" if cfg else ""}')
    tys = params_of(f); pn = [a for a in f.args if a[2] != 's']
    cells = []; vals = {}; args = []
    rt = getattr(f, 'rt', None)
    for a in f.args:
        if a[2] == 's':
            p = e.P('ret'); args.append(p); continue
        t = tys[pn.index(a)]; p = e.P(a[3]) if a[1][0] == 'p' else e.N(a[3], a[1][1])
        args.append(p)
        c = cont_of(t)
        if c: cells.append(Cell(a[3], c[0], c[1], p))
        elif t.endswith(('&', '*')): vals[a[3]] = (re.search(r'vp::(\w+)', t).group(1), p)
    retc = ret_container(K, name, spec, var)
    st0 = IState()
    d0 = {}
    for n, (ty, p) in vals.items():
        if ty in NICHE: e.assume(st0, c_not(c_eq(e.get(st0, p, 0))))
        st0.ts[('live', p)] = (ty, ('val', n))
    states = [(st0, d0)]
    for c in cells:
        nxt = []
        for st, d in states:
            for st2, k, addr in observe(K, e, st, c.cont, c.p):
                if k == '!bad': continue
                if k == '!': raise AnalysisBroken(f'observer of {c.cont} is not a plain observation')
                d2 = dict(d); d2[c.name] = None
                if k is not None:
                    st2.ts[('live', addr)] = (k, ('tgt' if c.ref else 'val', c.name)); d2[c.name] = (k, addr)
                    if c.ref: st2.ts['refs'] = st2.ts.get('refs', ()) + (addr,)
                nxt.append((st2, d2))
        states = nxt
    if not states: raise AnalysisBroken(f'{name}: no initial state')
    for st, d in states:
        st = st.clone(); st.ev = ()
        ctx = Ctx(K=K, e=e, g=g, name=name, var=var.lstrip('O') or var, d=d, vals=vals, cells=cells, cfg=cfg)
        if sp.pre and not sp.pre(ctx):
            if not cfg: continue
            bad = True
        else: bad = False
        if 'a' not in d and 'a' in vals: d['a'] = None   # raw pointer subject
        try: outs = e.run(f, list(args), None, st)
        except Budget as b: raise AnalysisBroken(f'{name}: analysis budget exceeded ({b})')
        rets = [o for o in outs if o.kind == 'ret']
        where = src_where(f)
        if bad:
            for o in rets: g.obl(False, 'var:misuse-rejected', inrepo(o, where), f'misuse is not rejected when {ctx.ini()}' + pathinfo(o))
            if not rets: g.obl(True, 'var:misuse-rejected', where, 'rejected')
        elif not (sp.rejects and sp.rejects(ctx)):
            if not rets: g.obl(False, 'var:post', where, f'never completes when {ctx.ini()}')
        else:
            for o in rets: g.obl(False, 'var:post', inrepo(o, where), f'completes although {ctx.ini()}' + pathinfo(o))
            continue
        for o in outs:
            if o.kind == 'halt': continue
            final(ctx, sp, o, retc, where, bad)
    ck.engine_stats(e)

def ret_container(K, name, spec, var):
    if spec.startswith('map'): return 'MaybeU'
    if not SPECS[spec].post.get('ret'): return None
    if spec.startswith(('r', 'oTry')) and spec != 'oTryM': return 'Maybe' + var.lstrip('O') + ('CRef' if spec in ('refOfC', 'rToConst', 'rToConstM', 'oTryC') else 'Ref')
    if var in ('cv', 'clone'): return 'MaybeA'
    if var == 'cloneQ': return 'MaybeQ'
    if spec == 'oTryM': return 'Maybe' + var
    if var in ('O', 'sub', 'cloneO') or var[0] == 'O': return 'O'
    return 'Maybe' + var

def final(ctx, sp, o, retc, where, bad):
    e, g, K = ctx.e, ctx.g, ctx.K
    w = inrepo(o, where)
    via = f'when {ctx.ini() or "called"}, on the {"normal" if o.kind == "ret" else "exceptional"} exit: '
    obs = [(c.name, c.cont, c.ref, c.p) for c in ctx.cells]
    if retc and o.kind == 'ret': obs.append(('ret', retc, retc.endswith('Ref') or retc == 'MaybeU', e.P('ret')))
    claimed = set()
    for n, cont, ref, p in obs:
        if n in sp.dead: continue
        for st2, k, addr in observe(K, e, o.st, cont, p):
            l = st2.ts.get(('live', addr)) if k and not ref else None
            if k in ('!', '!bad'): g.obl(False, 'var:state', w, via + f'{n} is in no valid state' + stpath(st2) + pathinfo(o)); continue
            if not ref:
                inside = [x[1] for x in o.st.ts if isinstance(x, tuple) and x[0] == 'live' and e.root(x[1]) == p]
                if k is None: g.obl(not inside, 'var:state', w, via + f'{n} reports no value but a value inside it is alive' + pathinfo(o))
                else:
                    g.obl(l is not None and l[0] == k and inside == [addr], 'var:state', w, via + f'{n} reports a {k}, but ' + (f'a {l[0]} is alive there' if l else 'no value is alive there') + pathinfo(o))
                    claimed.add(addr)
            elif k is not None and k != 'int':
                g.obl(('live', addr) in st2.ts, 'var:state', w, via + f'{n} refers to {show(addr)}, which is not alive' + pathinfo(o))
            if o.kind != 'ret' or bad: continue
            want = sp.post.get(n, ANY)
            if want is ANY: continue
            want = want(ctx)
            if cont == 'MaybeU':
                if k is not None:
                    v = e.get(st2, addr, 0)
                    ok = want is not None and v[0] == 'fnres' and (want[1] is None or v[1] == want[1])
                else: ok = want is None
                g.obl(ok, 'var:post', w, via + f'result {"is a value" if k else "is none"}, expected {want}' + pathinfo(o)); continue
            if ref: got = ('ref', addr) if k else None
            else: got = l[1] if l else None
            if n != 'ret' and ref and isinstance(want, tuple) and want[0] == 'val': want = ('ref', ctx.addr(n))
            g.obl(got == want, 'var:post', w, via + f'{n} ends up with {fmt(got)}, expected {fmt(want)}' + pathinfo(o))
    keep = {p for ty, p in ctx.vals.values()} | set(o.st.ts.get('refs', ())) | claimed
    left = [x[1] for x in o.st.ts if isinstance(x, tuple) and x[0] == 'live' and x[1] not in keep and not any(e.root(x[1]) == c.p and c.name not in sp.dead for c in ctx.cells)]
    g.obl(not left, 'var:leak', w, via + f'a value at {", ".join(map(show, left))} is still alive but belongs to nothing' + pathinfo(o))
    for n, (ty, p) in ctx.vals.items():
        g.obl(('live', p) in o.st.ts or (ty in MOVESAFE and e.entails_eq(o.st, e.get(o.st, p, 0))), 'var:leak', w, via + f'argument {n} was destroyed' + pathinfo(o))
    if o.kind != 'ret' or bad: return
    if sp.uses:
        exp = sp.uses(ctx) if not (ctx.name.startswith('ifSome__rp')) else None
        us = o.st.ts.get('uses', ())
        if exp is None: ok = len(us) <= 1; ok = ok and all(u[0] == ctx.vals['a'][1] for u in us) and bool(us) == (not e.entails_eq(o.st, ctx.vals['a'][1]))
        else: ok = len(us) == len(exp) and all(u[0] == x[1] if x[0] == 'addr' else u[1] == x[1] for u, x in zip(us, exp))
        g.obl(ok, 'var:post', w, via + f'body ran on {[(show(a), b) for a, b in us]}' + pathinfo(o))
    if sp.els and not ctx.name.startswith('ifSome__rp'):
        n = sum(1 for x in o.events if x.kind == 'call' and x.name == 'vp::elseBranch')
        g.obl(n == (1 if sp.els(ctx) else 0), 'var:post', w, via + f'else branch ran {n} times' + pathinfo(o))
    if sp.val:
        v = sp.val(ctx)
        isb = ctx.name.startswith(('is', 'eq', 'oIs')) and v[0] == 'i'
        gv = o.val
        if isinstance(gv, tuple) and gv[0] == 'sx' and e.entails_ge(o.st, gv[1], True): gv = gv[1]      # non-negative
        g.obl(gv == v or (v[0] == 'i' and (e.entails_eq(o.st, sub(gv, v)) or isb and e.decide(o.st, e.truth(o.val)) is (v == I(1)))), 'var:post', w, via + f'returns {show(o.val)}, expected {show(v)}' + pathinfo(o))

def fmt(x): return 'nothing' if x is None else 'the value of ' + str(x[1]) if x[0] == 'val' else str(x)
