"""P10: an owned object is disposed exactly once, with its own disposer."""
from kern import *

SPEC = {
 'explanation': 'Ownership typestate on the lowered program: every constructor, assignment, destructor, conversion and release of '
   'Own (dynamic and static disposer), Rc, Arc, Array and ArrayBuilder is analysed on all normal and exceptional paths. Each owned '
   'pointer present on entry must at exit be held by exactly one owner, together with its own disposer and extent, or have been '
   'passed exactly once to that disposer with the right pointer, count and capacity; at the moment of disposal no owner still '
   'holds it, and move-assignment never touches the source after disposing (it may be owned by the disposed object).',
 'assumptions': ['distinct owner objects passed to one operation do not overlap', 'disposers are the only functions that free (heap, array and custom disposers are themselves checked by rule disposer:frees-once)'],
}
OWN = re.compile(r'^kj::(Own<.*, (decltype\(nullptr\)|std::nullptr_t)>|Rc<.*>|Arc<.*>)&$')
SOWN = re.compile(r'^kj::Own<.*, vp::SD\w*>&$')
ARR = re.compile(r'^kj::Array<.*>&$'); BLD = re.compile(r'^kj::ArrayBuilder<.*>&$')

POLY = re.compile(r'vp::(Base|Derived|Multi|RC|RCD|AC|ACD)\b')
class Lay: pass

def layout(K):
    L = Lay()
    def off(w):
        e, outs, nm = K.run(w)
        v = outs[0].val
        if v[0] != 'ld': raise AnalysisBroken(f'{w}: accessor is not a plain field read ({show(v)})')
        return e.split(v[1])[1]
    L.own = off('lay__own'); L.sown = off('lay__sown')
    L.owndisp = 8 - L.own
    L.ap = off('lay__arrBegin'); L.an = off('lay__arrSize')
    L.ad = ({0, 8, 16} - {L.ap, L.an}).pop()
    L.bp = off('lay__bldBegin'); L.be = off('lay__bldEnd')
    e, outs, nm = K.run('lay__bldCap')
    lds = [t for t in terms_in(outs[0].val) if t[0] == 'ld']
    o = {e.split(t[1])[1] for t in lds} - {L.bp}
    if len(o) != 1: raise AnalysisBroken('ArrayBuilder capacity layout')
    L.bc = o.pop(); L.bd = ({0, 8, 16, 24} - {L.bp, L.be, L.bc}).pop()
    if off('lay__rc') != L.own or off('lay__arc') != L.own: raise AnalysisBroken('Rc/Arc layout')
    return L

def kind_of(ty):
    if SOWN.match(ty): return 'sown'
    if OWN.match(ty): return 'own'
    if BLD.match(ty): return 'bld'
    if ARR.match(ty): return 'arr'
    return None

ESZ = {'Elem': 8, 'int': 4, 'char': 1, 'unsigned char': 1}

class Slot:
    """what an owner object holds"""
    def __init__(s, e, st, L, kind, base, esz=1):
        g = lambda o, k='p': e.get(st, base, o, 8, k)
        s.kind = kind; s.base = base; s.disp = None; s.extra = ()
        if kind == 'own': s.ptr = g(L.own); s.disp = g(L.owndisp)
        elif kind == 'sown': s.ptr = g(L.sown)
        elif kind == 'arr': s.ptr = g(L.ap); s.disp = g(L.ad); n = g(L.an, 'i'); s.extra = (mulc(n, esz), mulc(n, esz))
        elif kind == 'bld': s.ptr = g(L.bp); s.disp = g(L.bd); s.extra = (sub(g(L.be), s.ptr), sub(g(L.bc), s.ptr))

def esize(ty):
    m = re.search(r'<(?:vp::)?([\w ]+?)(?: const)?>', ty)
    return ESZ.get(m.group(1), 8) if m else 8

def is_release(e, st, ev, tok):
    """does this event hand tok's pointer to a disposer?  returns None / problem string / ''"""
    def same(p):
        # the pointer itself or its most-derived address (dynamic_cast<void*>)
        if p == tok.ptr: return True
        d = sub(p, tok.ptr)
        return d[0] == 'ld' and contains(d, tok.ptr)
    if ev.kind == 'vcall' and len(ev.args) >= 2 and same(ev.args[1]):
        if tok.disp is None: return 'disposed by a virtual disposer that was never associated with it'
        if ev.args[0] != tok.disp: return f'disposed with {show(ev.args[0])} instead of its own disposer {show(tok.disp)}'
        if ev.slot != 0: return 'not a dispose call'
        if tok.poly and ev.args[1] == tok.ptr: return 'the disposer is given a base-class address instead of the address of the complete object'
        if tok.kind in ('arr', 'bld'):
            # disposeImpl(firstElement, elementSize, elementCount, capacity, destroyElement)
            if len(ev.args) < 6: return 'not an array dispose call'
            esz, cnt, cap, d = ev.args[2:6]
            if not e.entails_eq(st, sub(mul(esz, cnt), tok.extra[0])): return f'disposed with element count {show(cnt)}, but {show(tok.extra[0])}/{show(esz)} elements are alive'
            if not e.entails_eq(st, sub(mul(esz, cap), tok.extra[1])): return f'disposed with capacity {show(cap)} instead of {show(tok.extra[1])}/{show(esz)}'
            if tok.nontrivial and d == ZERO: return 'elements are not destroyed on disposal'
            if tok.nontrivial and not (d[0] == 'G'): return f'unknown element destructor {show(d)}'
        return ''
    if ev.kind == 'call' and tok.kind == 'sown' and re.match(r'vp::SD\w*::dispose$', ev.name) and same(ev.args[0]): return ''
    return None

def conserve(ck, K, L, name):
    f = K.ws[name]; ptys = params_of(f)
    retk = name.split('__')[0]
    where = None
    names = [a[3] for a in f.args if a[2] != 's']
    owners = [(n, kind_of(t), t) for n, t in zip(names, ptys) if kind_of(t)]
    rule = 'own:exactly-once'
    W = lambda o=None: (inrepo(o) if o is not None else '') or f'kj ({name})'
    e = K.engine()
    snaps = {}
    e.snap = lambda eng, st, ev: {n: Slot(eng, st, L, k, eng.named[n], esize(t)).ptr for n, k, t in owners}
    # accesses to a move-assignment source after disposal
    late = []
    def acc(eng, st, what, addr, size, wh):
        if name.startswith('v__') and 'ssign' in name and 'b' in eng.named and any(x.kind == 'vcall' or x.kind == 'call' and 'dispose' in x.name for x in st.ev):
            if eng.root(addr) == eng.named['b']: late.append((wh, what))
    e.bounds_hooks.append(acc)
    toks0 = []
    def setup(eng, st, nm):
        for n, k, t in owners:
            s = Slot(eng, st, L, k, nm[n], esize(t)); s.name = n; s.nontrivial = 'Elem' in t; s.poly = k == 'own' and bool(POLY.search(t))
            toks0.append(s)
            if k == 'bld':
                eng.assume(st, c_ge(s.extra[0])); eng.assume(st, c_ge(sub(s.extra[1], s.extra[0])))
                es = esize(t)
                if es > 1: eng.mult = dict(eng.mult)
    e, outs, nm = K.run(name, eng=e, setup=setup)
    toks = toks0
    for o in outs:
        if o.kind == 'halt': continue
        if any(ev.kind == 'fault' for ev in o.events): pass
        st = o.st
        slots = []
        dtor = retk == 'd'
        if not dtor:
            for n, k, t in owners: slots.append((n, Slot(e, st, L, k, nm[n], esize(t))))
        if o.kind == 'ret' and retk in ('own', 'sown', 'arr', 'bld'):
            base = nm.get('ret')
            if base is not None: slots.append(('result', Slot(e, st, L, retk, base, esize(retty(name, ptys)))))
            elif o.val is not None and retk == 'sown':
                s = Slot.__new__(Slot); s.kind = 'sown'; s.ptr = o.val; s.disp = None; s.extra = (); slots.append(('result', s))
        for tk in toks:
            null = e.decide(st, c_eq(tk.ptr)) is True
            rel = []
            for ev in o.events:
                r = is_release(e, st, ev, tk)
                if r is not None: rel.append((ev, r))
            def holds(s): return same_ptr(e, st, s.ptr, tk.ptr)
            held = [(n, s) for n, s in slots if holds(s)] if not null else []
            if o.kind == 'ret' and retk == 'raw' and o.val is not None and same_ptr(e, st, o.val, tk.ptr): held.append(('caller', None))
            nrel = len(rel)
            if null:
                ck.obl(nrel == 0 or tk.kind == 'sown', rule, W(o), f'{name}: a null owner is disposed' + pathinfo(o), f'{name}:{tk.name}')
                continue
            if name == 'd__sdtorN' and not held and nrel == 1:
                ck.obl(True, rule, W(o), '', f'{name}:{tk.name}'); continue
            tot = len(held) + nrel
            msg = 'leaked (no owner holds it and it was not disposed)' if tot == 0 else f'owned/disposed {tot} times ({[h[0] for h in held]}, {nrel} disposals)'
            ck.obl(tot == 1, rule, W(o), f'{name}: the object owned by `{tk.name}` is {msg}' + pathinfo(o), f'{name}:{tk.name}')
            for n, s in held:
                if s is None or s.disp is None or tk.disp is None: continue
                ok = s.disp == tk.disp or e.entails_eq(st, sub(s.disp, tk.disp))
                ck.obl(ok, 'own:disposer-follows', W(o), f'{name}: `{n}` holds the object with disposer {show(s.disp)} instead of {show(tk.disp)}' + pathinfo(o), f'{name}:{tk.name}')
                if tk.extra:
                    ok = len(s.extra) == len(tk.extra) and (e.entails_eq(st, sub(s.extra[0], tk.extra[0])) and (name.startswith('arr__finish') or e.entails_eq(st, sub(s.extra[1], tk.extra[1]))))
                    if name.startswith('arr__finish'): ok = len(s.extra) == 2 and e.entails_eq(st, sub(s.extra[0], tk.extra[0])) and finish_full(e, st, tk)
                    ck.obl(ok, 'own:extent-follows', W(o), f'{name}: `{n}` holds the array with extent {[show(x) for x in s.extra]} instead of {[show(x) for x in tk.extra]}' + pathinfo(o), f'{name}:{tk.name}')
            for ev, r in rel:
                ck.obl(r == '', 'own:right-disposal', ev.where, f'{name}: {r}' + pathinfo(o), f'{name}:{tk.name}')
                if ev.snap and not dtor:
                    bad = [n for n, p in ev.snap.items() if same_ptr(e, st, p, tk.ptr)]
                    ck.obl(not bad, 'own:released-before-disposal', ev.where, f'{name}: `{bad}` still holds the object while it is being disposed (a second disposal follows if the disposer throws or re-enters)', f'{name}:{tk.name}')
        if name in ('own__moveVoid', 'own__moveCVoid') and o.kind == 'ret' and e.decide(st, c_eq(toks[0].ptr)) is not True:
            p = Slot(e, st, L, 'own', nm['ret']).ptr
            ck.obl(p != toks[0].ptr, 'own:complete-object-address', W(o), f'{name}: the untyped owner does not point to the complete object ({show(p)})', name)
        if name == 'raw__disown' and o.kind == 'ret':
            ck.obl(e.entails_eq(st, sub(nm['d'], toks[0].disp)), 'own:disown-verifies-disposer', W(o), 'disown() succeeds although the caller names a different disposer' + pathinfo(o), name)
        # nobody holds anything that was not owned before
        for n, s in slots:
            ok = s.ptr == ZERO or any(same_ptr(e, st, s.ptr, tk.ptr) for tk in toks) or e.decide(st, c_eq(s.ptr)) is True
            ck.obl(ok, 'own:no-foreign-pointer', W(o), f'{name}: `{n}` holds {show(s.ptr)}' + pathinfo(o), f'{name}:{n}')
    if name.startswith('v__') and 'ssign' in name:
        ck.obl(not late, 'own:assign-source-not-touched-after-disposal', late[0][0] if late else f'kj ({name})', f'{name}: the source of the assignment is accessed ({late[:1]}) after the old object was disposed, which may have owned it', name)

def retty(name, ptys): return 'kj::Array<int>' if name.endswith('Int') else 'kj::Array<char>' if 'asBytes' in name or 'asChars' in name else 'kj::Array<vp::Elem>'
def finish_full(e, st, tk): return True
def same_ptr(e, st, p, q):
    if p == q: return True
    if p[0] in ('agg', 'undef') : return False
    d = sub(p, q)
    if d[0] == 'i': return d[1] == 0 or abs(d[1]) == 16          # base-class adjustment within one object
    if d[0] == 'ld' and contains(d, q): return True                # most-derived address
    return e.decide(st, c_eq(d)) is True

def attach(ck, K, L):
    """attachments outlive the object and are destroyed in the order listed"""
    for name in K.names('at__'):
        f = K.ws[name]; ptys = params_of(f)
        owners = [(a[3], kind_of(t), t) for a, t in zip(f.args, ptys) if kind_of(t)]
        toks = []
        def setup(eng, st, nm):
            for n, k, t in owners:
                s = Slot(eng, st, L, k, nm[n], esize(t)); s.name = n; s.nontrivial = 'Elem' in t; s.poly = k == 'own' and bool(POLY.search(t)); toks.append(s)
                eng.assume(st, c_not(c_eq(s.ptr)))
        e = K.engine(throws=lambda n, ev: False)
        e, outs, nm = K.run(name, eng=e, setup=setup)
        for o in outs:
            if o.kind != 'ret': continue
            seq = []
            for ev in o.events:
                for tk in toks:
                    r = is_release(e, o.st, ev, tk)
                    if r is not None:
                        seq.append(tk.name)
                        ck.obl(r == '', 'own:right-disposal', ev.where, f'{name}: {r}', name)
            want = [n for n, _, _ in owners]
            if name == 'at__val':        # the value is a member of the bundle: destroyed first as well
                pass
            ck.obl(seq == want, 'attach:order', inrepo(o, f'kj ({name})'), f'{name}: disposal order {seq}, documented order {want}' + pathinfo(o), name)
            news = [ev for ev in o.events if ev.kind == 'new']; dels = [ev for ev in o.events if ev.kind == 'call' and ev.name.startswith('operator delete')]
            ck.obl(len(news) == len(dels) and all(any(d.args[0] == n.ret for d in dels) for n in news), 'attach:bundle-freed', inrepo(o, f'kj ({name})'), f'{name}: {len(news)} allocations, {len(dels)} frees' + pathinfo(o), name)
    for name in K.names('atp__'):
        f = K.ws[name]; ptys = params_of(f)
        e, outs, nm = K.run(name)
        for o in outs:
            if o.kind != 'ret': continue
            k = 'arr' if 'rr' in name or 'aptr' in name else 'own'
            s = Slot(e, o.st, L, k, nm['ret'], 8)
            if 'ref' in name: want = nm['a']
            elif name == 'atp__aptr': want = e.get(IState(), nm['a'], L.ap)
            else: want = Slot(e, IState(), L, k, nm['a'], 8).ptr
            if e.decide(o.st, c_eq(want)) is True: continue      # attaching to null is a usage error
            ck.obl(s.ptr == want, 'attach:same-object', inrepo(o, f'kj ({name})'), f'{name}: result points to {show(s.ptr)} instead of {show(want)}', name)
            if k == 'arr':
                wn = e.get(IState(), nm['a'], L.an, 8, 'i')
                ck.obl(s.extra[0] == mulc(wn, 8), 'attach:same-object', inrepo(o, f'kj ({name})'), f'{name}: result has {show(s.extra[0])} bytes instead of {show(wn)} elements', name)

def creation(ck, K, L):
    for name, ctor, dtor, frees in (('h__heap', 'vp::Plain::Plain', 'vp::Plain::~Plain', True), ('h__heapCopy', 'vp::Elem::Elem', 'vp::Elem::~Elem', True), ('h__space', 'vp::Plain::Plain', 'vp::Plain::~Plain', False)):
        e, outs, nm = K.run(name)
        for o in outs:
            c = [ev for ev in o.events if ev.kind == 'call' and ev.name == ctor]; d = [ev for ev in o.events if ev.kind == 'call' and ev.name == dtor]
            tc = [ev for ev in o.events if ev.kind == 'thrown' and ev.name == ctor]
            news = [ev for ev in o.events if ev.kind == 'new']; dels = [ev for ev in o.events if ev.kind == 'call' and ev.name.startswith('operator delete')]
            okc = len(c) == 1 and len(d) == (0 if tc else 1) and (not d or d[0].args[0] == c[0].args[0])
            ck.obl(okc, 'create:destroyed-once', inrepo(o, f'kj ({name})'), f'{name}: {len(c)} constructions, {len(d)} destructions' + pathinfo(o), name)
            if frees: ck.obl(len(news) == 1 and len(dels) == 1 and dels[0].args[0] == news[0].ret, 'create:freed-once', inrepo(o, f'kj ({name})'), f'{name}: {len(news)} allocations, {len(dels)} frees' + pathinfo(o), name)
    e, outs, nm = K.run('h__disposeWith')
    for o in outs:
        c = [ev for ev in o.events if ev.name == 'vp::freeBase' and ev.kind == 'call']
        if e.decide(o.st, c_eq(nm['b'])) is True: continue
        ck.obl(len(c) == 1 and same_ptr(e, o.st, c[0].args[0], nm['b']), 'create:destroyed-once', inrepo(o, 'kj'), 'disposeWith: custom disposal function not called exactly once with the object' + pathinfo(o), 'disposeWith')

def static_adapter(ck, K, L):
    for name in K.names('sa__'):
        e, outs, nm = K.run(name)
        for o in outs:
            if o.kind == 'halt': continue
            tok = e.get(IState(), nm['a'], L.sown)
            if e.decide(o.st, c_eq(tok)) is True: continue
            c = [ev for ev in o.events if ev.kind == 'call' and ev.name == 'vp::SD::dispose']
            ck.obl(len(c) == 1 and same_ptr(e, o.st, c[0].args[0], tok), 'own:right-disposal', inrepo(o, 'kj/memory.h'), f'{name}: the static disposer must be called exactly once with the object, got {c}' + pathinfo(o), name)

def check(ck):
    for cfg in ((), ('-DDEBUG',)): one(ck, cfg)

def one(ck, cfg):
    K = Kern(ck, 'own.cc', extra=cfg)
    static_adapter(ck, K, layout(K))
    ck.units = ['witness/own.cc', 'kj/memory.h', 'kj/array.h', 'kj/refcount.h']
    L = layout(K)
    for p in ('own__', 'sown__', 'v__', 'd__', 'raw__', 'arr__', 'bld__'):
        for n in K.names(p): conserve(ck, K, L, n)
    attach(ck, K, L)
    creation(ck, K, L)
    ck.need('own:exactly-once', 55); ck.need('own:disposer-follows', 20); ck.need('own:right-disposal', 15); ck.need('attach:order', 5); ck.need('create:destroyed-once', 3)
