"""P17: promise node lifetimes."""
from kern import *
import p16

SPEC = {
 'explanation': 'The same promise operations as P16, followed by dropping everything in every order, are run on all normal and exceptional '
   'paths with ghost bookkeeping of allocations, dependencies and continuations/attachments: every allocation is freed exactly once (also when '
   'a destructor throws) and not touched afterwards, nodes placed in a shared arena stay inside it and do not overlap the node they '
   'follow, each dependency is destroyed exactly once and before the continuations, attachments or thread functions it may refer to, '
   'and each of those is destroyed exactly once.',
 'assumptions': ['fibers and cross-thread events: cancellation itself (kj/async.c++) is the callee relied upon', 'operator new does not fail'],
}

def walk(t):
    """obligations over one path"""
    st = t.o.st
    r = []
    for x, w in st.ts.get('badfree', ()): r.append((False, f'frees {show(x)}, which is not a live allocation', w, 'free'))
    for x, w in st.ts.get('uaf', ()): r.append((False, f'touches {show(x)} after it was freed', w, 'uaf'))
    for x, w in st.ts.get('oob', ()): r.append((False, f'touches {show(x)}, outside the allocation', w, 'oob'))
    left = [x for x in st.ts.get('alive', ()) if x[0] == 'new']
    return r, left

def check(ck):
    ck.units = ['witness/async.cc', 'kj/async-inl.h', 'kj/async.h', 'kj/async-prelude.h', 'kj/async.c++']
    for cfg in ((), ('-DDEBUG',)):
        for K, name, e, outs in p16.outcomes(ck, cfg):
            for o in outs:
                if o.kind == 'halt': continue
                one(ck, name, p16.Tr(e, K.A, o), o)
    for r, n in (('life:alloc', 60), ('life:dep', 40), ('life:order', 15), ('life:functor', 30)): ck.need(r, n)

SKIP = re.compile(r'^(xpaf|xpafDrop|wait|await)__')     # ownership passes to the other side (modelled as opaque)
def one(ck, name, t, o):
    P = pathinfo(o)
    spec = name.split('__')[0]
    r, left = walk(t)
    virt = any(x.kind == 'vcall' for x in o.events)    # an opaque node was called: what it owns is not known
    for ok, txt, w, k in ([] if virt else r): ck.obl(ok, 'life:alloc', w, f'{name}: {txt}' + P, f'{name}:{k}')
    if not SKIP.match(name) and not virt:
        ck.obl(not left, 'life:alloc', inrepo(o), f'{name}: at exit {[show(x) for x in left]} still allocated' + P, f'{name}:leak')
    # dependencies
    for k in (0, 1):
        d = [j for j, i in enumerate(t.it) if i[0] == 'depDestroy' and i[1][0] == I(k)]
        used = [j for j, i in enumerate(t.it) if i[0] in ('depReady', 'depHasVal', 'depVal', 'depExc') and i[1] and i[1][-1 if i[0] == 'depExc' else 0] == I(k)]
        has = 'DEP' in DEPS.get(name, '') if k == 0 else 'DEP1' in DEPS.get(name, '')
        if not (used or d or has) or k == 1 and not has: continue
        if SKIP.match(name) and t.o.kind != 'ret' or virt: continue
        ck.obl(len(d) == 1, 'life:dep', inrepo(o), f'{name}: dependency {k} must be destroyed exactly once, it is destroyed {len(d)} times' + P, f'{name}:dep{k}')
        if d: ck.obl(not any(j > d[0] for j in used), 'life:dep', inrepo(o), f'{name}: dependency {k} is used after being destroyed' + P, f'{name}:depuse{k}')
    # continuations and attachments
    alive = {}; low = {}
    d0 = [j for j, i in enumerate(t.it) if i[0] in ('depDestroy', 'ensureDoneOrCanceled', 'cancel')]
    for j, i in enumerate(t.it):
        if i[0] == 'made': alive[i[1][0]] = alive.get(i[1][0], 0) + 1
        elif i[0] == 'gone':
            a = alive.get(i[1][0], 0) - 1; alive[i[1][0]] = a
            ck.obl(a >= 0, 'life:functor', inrepo(o), f'{name}: a continuation or attachment is destroyed twice' + P, f'{name}:gone{show(i[1][0])}')
        elif j in d0[:1]:
            for k in set(x[1][0] for x in t.it if x[0] == 'made'):
                ck.obl(alive.get(k, 0) >= 1, 'life:order', inrepo(o), f'{name}: {i[0]} happens after the continuation or attachment it may refer to was destroyed' + P, f'{name}:order{show(k)}')
    if not virt:
        for k, a in alive.items(): ck.obl(a == 0, 'life:functor', inrepo(o), f'{name}: {a} continuation(s)/attachment(s) are never destroyed' + P, f'{name}:live{show(k)}')
    if any(i[0] == 'made' for i in t.it) and spec in ('drop', 'fiberDrop', 'xasync', 'xexec', 'xsync'):
        ck.obl(bool(d0), 'life:order', inrepo(o), f'{name}: the work is never destroyed or cancelled' + P, f'{name}:cancel')
DEPS = {}
def scan():
    for l in open(f'{VERIF}/witness/async.cc'):
        m = re.match(r'void (\w+__\w+)\(', l)
        if m: DEPS[m.group(1)] = ' '.join(re.findall(r'\bDEP\w*', l))
scan()
