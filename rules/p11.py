"""P11: a reference-counted object lives exactly as long as references to it exist."""
from kern import *
import p10

SPEC = {
 'explanation': 'Every operation that creates, copies, or drops a reference to a Refcounted/AtomicRefcounted object is analysed on all '
   'paths: creation yields count 1 and one owner; each new owner is matched by exactly one increment and names the counted object as '
   'its disposer; disposal decrements exactly once and destroys the object exactly when the count reaches zero; a weak reference is '
   'granted only by atomically incrementing a non-zero count. For the atomic variant every access is a single atomic '
   'read-modify-write, the decrement releases, and destruction (and isShared) acquires.',
 'assumptions': ['counts do not exceed 2^32 references'],
}
ACQ = {4, 6, 7}; REL = {5, 6, 7}

def check(ck):
    for cfg in ((), ('-DDEBUG',)): one(ck, cfg)
    ck.need('ref:owner-per-increment', 14); ck.need('ref:drop', 2); ck.need('ref:shared', 2); ck.need('ref:weak', 1)

def one(ck, cfg):
    K = Kern(ck, 'own.cc', extra=cfg)
    K.merge(['kj/refcount.c++'], cfg)
    ck.units = ['witness/own.cc', 'kj/refcount.h', 'kj/refcount.c++']
    L = p10.layout(K)
    cnt_off = {}
    for w, key in (('sh__shared', 'R'), ('sh__ashared', 'A')):
        e, outs, nm = K.run(w)
        lds = {t for o in outs for t in terms_in(o.val) if t[0] == 'ld'} | {t for o in outs for x in list(o.st.ges) for t in terms_in(x) if t[0] == 'ld'}
        if len(lds) != 1: raise AnalysisBroken(f'{w}: reference count field not identified')
        t = lds.pop(); cnt_off[key] = e.split(t[1])[1]
        for o in outs:
            if o.kind != 'ret': continue
            c = val_to_cond(o.val)
            want = c_ge(sub(t, I(2)))
            ok = c == want
            if not ok:
                s1 = o.st.clone(); s2 = o.st.clone()
                ok = (not e.assume(s1, want) or e.decide(s1, c) is True) and (not e.assume(s2, c_not(want)) or e.decide(s2, c) is False)
            ck.obl(ok, 'ref:shared', f'kj/refcount.h ({w})', f'isShared() is {show(o.val)} instead of count > 1', w)
            if key == 'A':
                al = [ev for ev in o.events if ev.kind == 'aload']
                ck.obl(len(al) == 1 and al[0].slot in ACQ, 'ref:shared', al[0].where if al else f'kj/refcount.h ({w})', 'isShared() on an atomic count must be an acquire load (another thread may just have dropped its reference)', w + ':order')
    for name in K.names('rcx__'):
        atomic = name in ('rcx__anew', 'rcx__anewArc', 'rcx__aaddRef', 'rcx__aaddRefC', 'rcx__arcAddRef', 'rcx__arcClone')
        creates = 'new' in name.lower()
        if name in ('rcx__weak', 'rcx__reown'): continue
        e, outs, nm = K.run(name)
        for o in outs:
            w = inrepo(o, f'kj/refcount.h ({name})')
            if o.kind == 'throw':
                if creates:
                    news = [ev for ev in o.events if ev.kind == 'new']; dels = [ev for ev in o.events if ev.kind == 'call' and ev.name.startswith('operator delete')]
                    ck.obl(len(news) == len(dels), 'ref:owner-per-increment', w, f'{name}: allocation leaks when the constructor throws' + pathinfo(o), name)
                continue
            if o.kind != 'ret': continue
            own = p10.Slot(e, o.st, L, 'own', nm['ret'])
            if creates: obj = [ev.ret for ev in o.events if ev.kind == 'new'][0]
            elif 'w' in nm: obj = nm['w']
            elif name in ('rcx__rcAddRef', 'rcx__rcClone', 'rcx__arcAddRef', 'rcx__arcClone'): obj = e.get(IState(), nm['r'], L.own)
            else: obj = nm['r']
            off = cnt_off['A' if atomic else 'R']
            if e.decide(o.st, c_eq(obj)) is True:
                ck.obl(own.ptr == ZERO, 'ref:owner-per-increment', w, f'{name}: null reference yields {show(own.ptr)}', name); continue
            before = ZERO if creates else e.ld(IState(), add(obj, I(off)), ['i', 32], 4)
            after = e.ld(o.st, add(obj, I(off)), ['i', 32], 4)
            ck.obl(sub(after, before) == ONE, 'ref:owner-per-increment', w, f'{name}: a new owner is handed out but the count goes from {show(before)} to {show(after)}' + pathinfo(o), name)
            want = obj
            if name == 'rcx__wrapped' or name == 'rcx__wrappedP': okp = contains(own.ptr, obj)
            else: okp = own.ptr == obj
            ck.obl(okp, 'ref:owner-per-increment', w, f'{name}: owner points to {show(own.ptr)}', name + ':object')
            ck.obl(own.disp == obj, 'ref:owner-per-increment', w, f'{name}: disposer of the new reference is {show(own.disp)} instead of the counted object', name + ':disposer')
            if atomic:
                rm = [ev for ev in o.events if ev.kind == 'rmw']
                ck.obl(len(rm) == 1 and rm[0].name == 'add' and rm[0].args[1] == ONE, 'ref:atomic', w, f'{name}: the count must be incremented by one atomic read-modify-write, got {rm}', name)
    # reown: takes over a reference without counting
    e, outs, nm = K.run('rcx__reown')
    for o in outs:
        if o.kind != 'ret': continue
        own = p10.Slot(e, o.st, L, 'own', nm['ret'])
        after = e.ld(o.st, add(nm['p'], I(cnt_off['A'])), ['i', 32], 4)
        ck.obl(own.ptr == nm['p'] and own.disp == nm['p'] and after[0] == 'ld', 'ref:reown', 'kj/refcount.h (kj::Arc::reown)', f'reown yields {show(own.ptr)} with disposer {show(own.disp)}, count {show(after)}', 'reown')
    # weak
    e, outs, nm = K.run('rcx__weak')
    n = 0
    for o in outs:
        if o.kind != 'ret': continue
        n += 1
        w = inrepo(o, 'kj/refcount.h (kj::atomicAddRefWeak)')
        cas = [ev for ev in o.events if ev.kind == 'cas' and ev.name == 'ok']; rm = [ev for ev in o.events if ev.kind == 'rmw']
        own = p10.Slot(e, o.st, L, 'own', nm['ret'])
        if e.decide(o.st, c_eq(own.ptr)) is True or own.ptr == ZERO:
            ck.obl(not cas and not rm, 'ref:weak', w, 'a reference was counted but not handed out' + pathinfo(o), 'none')
        else:
            ok = len(cas) == 1 and not rm and sub(cas[0].args[2], cas[0].args[1]) == ONE and e.decide(o.st, c_eq(cas[0].args[1])) is False
            ck.obl(ok, 'ref:weak', w, f'a weak reference is upgraded without atomically incrementing a count known to be non-zero: {cas or rm}' + pathinfo(o), 'some')
            ck.obl(own.ptr == nm['r'] and own.disp == nm['r'], 'ref:weak', w, f'upgraded reference points to {show(own.ptr)} / {show(own.disp)}', 'owner')
    # dropping
    for cls, key in (('kj::Refcounted', 'R'), ('kj::AtomicRefcounted', 'A')):
        fs = [f for f in K.mod.bydem.get(cls + '::disposeImpl', []) if f.blocks is not None]
        if not fs: raise AnalysisBroken(cls + '::disposeImpl has no body')
        f = fs[0]
        e = K.engine(); this = e.P('this'); p = e.P('p')
        outs = e.run(f, [this, p])
        for o in outs:
            if o.kind == 'halt': continue
            a = add(this, I(cnt_off[key]))
            before = e.ld(IState(), a, ['i', 32], 4)
            w = inrepo(o, f'{f.file}:{f.line} ({f.short})')
            stv = o.st.heap.get(this, {}).get(cnt_off[key])
            after = stv[1] if stv else before
            ck.obl(sub(after, before) == I(-1), 'ref:drop', f'{f.file}:{f.line} ({f.short})', f'dropping a reference changes the count by {show(sub(after, before))}' + pathinfo(o), cls + ':decrement')
            dels = [ev for ev in o.events if ev.kind in ('vcall', 'call') and ev.args and ev.args[0] == this]
            zero = e.decide(o.st, c_eq(sub(before, ONE)))
            if dels:
                ck.obl(len(dels) == 1 and zero is True, 'ref:drop', w, 'the object is destroyed although the count may still be non-zero' + pathinfo(o), cls + ':destroy')
            else:
                ck.obl(zero is False, 'ref:drop', f'{f.file}:{f.line} ({f.short})', 'the last reference is dropped but the object is not destroyed' + pathinfo(o), cls + ':destroy')
            if key == 'A':
                rm = [ev for ev in o.events if ev.kind == 'rmw']
                ok = len(rm) == 1 and rm[0].name in ('sub', 'add') and rm[0].slot in REL
                ck.obl(ok, 'ref:atomic', w, f'the decrement must be one atomic read-modify-write with release ordering: {rm} {[r.slot for r in rm]}', cls + ':release')
                if dels and rm:
                    i = o.events.index(dels[0])
                    acq = rm[0].slot in (6, 7) or any(ev.kind in ('fence', 'aload') and ev.slot in ACQ for ev in o.events[:i])
                    ck.obl(acq, 'ref:atomic', w, 'the object is destroyed without an acquire after the final decrement', cls + ':acquire')
