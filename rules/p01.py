"""P01: readers never touch memory outside the message."""
from lay import *
import prog as P

SPEC = {
 'explanation': 'Path-sensitive guard dataflow over the type-resolved AST of the wire-format layer. Every construction of a '
   'reader (struct, list, pointer, text, data), every dereference of an encoded pointer word and every raw copy out of '
   'message memory is an obligation: on every path to it, the byte range it exposes must be covered by a successful '
   'segment bounds check (or by the invariant of the reader it was derived from) in the same segment, and the start address '
   'must come from the clamping offset computation of that segment. Kind and element-size compatibility guards are '
   'obligations of the same form. The check kernels (offset clamp, object check, segment lookup) are separate rules. '
   'Loops are summarised by affine induction variables; helpers are inlined.',
 'assumptions': ['KJ_REQUIRE/KJ_ASSERT failures leave the function (default ExceptionCallback)',
                 'segment memory and its size are as given to the MessageReader; segments are at most 2^29-1 words',
                 'default values compiled into schemas are well-formed (trusted), as are explicitly unchecked messages'],
}

READ_FNS = ['readStructPointer', 'readListPointer', 'readTextPointer', 'readDataPointer', 'readCapabilityPointer', 'totalSize', 'followFars']

def trusted_ptr(t, trusted):
    return any(contains(t, x) for x in trusted)

def check(ck):
    prog = P.load(['capnp/layout.c++', P.VERIF + '/witness/layout_inst.cc', 'capnp/arena.c++', 'capnp/message.c++'])
    ck.units = ['capnp/layout.c++', 'capnp/layout.h', 'capnp/arena.h', 'capnp/arena.c++', 'capnp/message.c++']
    readers(ck, prog)
    kernels(ck, prog)
    elements(ck, prog)
    import p05
    p05.types(ck, ['capnp/layout.c++', 'capnp/arena.c++'])     # the same ranges, computed without wrap-around

def readers(ck, prog):
    roots = [f for f in prog.all_fns() if is_reader_side(f)]
    names = {f.short for f in roots}
    for n in ('readStructPointer', 'readListPointer', 'readTextPointer', 'readDataPointer', 'totalSize', 'copyPointer',
              'setStructPointer', 'setListPointer', 'getStructElement', 'getPointerElement', 'getRoot'):
        if n not in names: raise AnalysisBroken(f'reader entry point {n} not found')
    contract_fns = contracts(roots)
    for f in roots:
        import time, os; t0 = time.time()
        for v in entry_variants(f):
            if f.cname == LR and f.short == 'getPointerElement' and v[-1] < 6: continue   # callers check structPointerCount
            run_root(ck, prog, f, contract_fns, v)
        if os.environ.get("VP_T"): print(f.q, f.line, round(time.time() - t0, 2), flush=True)
    ck.need('bounds:struct', 4); ck.need('bounds:list', 4); ck.need('bounds:pointer', 4); ck.need('bounds:text', 2)
    ck.need('bounds:deref', 20); ck.need('bounds:copy', 3); ck.need('start:clamped', 8); ck.need('bounds:ref-arg', 6); ck.need('kind:checked', 8)

def lin_parts(t):
    if t[0] == 'lin': return t[1], dict(t[2])
    if t[0] == 'i': return t[1], {}
    return 0, {t: 1}
def base_d(loc):
    while loc[0] == 'f': loc = loc[1]
    return loc

def run_root(ck, prog, f, contract_fns, variant):
    eng = reader_engine(prog, contract_fns)
    R = Ranges(eng)
    isread = f.short.startswith('read')
    trusted = set()
    starts = set()
    for i, p in enumerate(f.params):
        t = ptype(f, i)
        if t[1] != 'p': continue
        pe = short(pointee(f, i))
        if pe in ('word', 'void'):
            starts.add(('sym', p[1]))
    # the compiled-in default is the last word/void pointer parameter of a read function / getter
    if (isread or (f.cname == PR and f.short in ('getStruct', 'getList', 'getListAnySize', 'getBlob'))) and starts:
        last = [('sym', p[1]) for i, p in enumerate(f.params) if short(pointee(f, i)) in ('word', 'void')][-1]
        trusted.add(last); starts.discard(last)
    zero = ('g', N + 'zero')
    def where(c): return c.fr.where(c.line)
    def istrusted(st, seg, p):
        if seg is not None and R.null_seg(st, seg): return True
        if seg is None and any(R.null_seg(st, s) for s in segs): return True
        if p[0] in ('addr', 's') or p == NULL: return True
        if trusted_ptr(p, trusted): return True
        if eng.decide(st, c_eq(p)) is True: return True
        return False
    def rng(st, c, rule, seg, ptr, bits, what):
        ok = istrusted(st, seg, ptr) or R.ok(st, seg, ptr, bits)
        ck.obl(ok, rule, loc(c), f'{what}: no bounds check on this path covers {show(bits)} bits at {show(ptr)} (path: {st.facts_str()[-400:]})', f.q)
    def loc(c):
        fr = c.fr
        return f'{fr.fn.file}:{c.line} ({fr.fn.q})'
    def kinds(eng, st, c, args):
        """the words whose struct/list encoding is being used were tested to be of that kind"""
        seen = set()
        for a in args:
            for t in terms_in(a):
                if t[0] != 'ld' or not isinstance(t[1], tuple): continue
                loc_ = t[1]; kind = None; chain = []
                while loc_[0] == 'f':
                    chain.append(loc_[2]); loc_ = loc_[1]
                for fq in chain:
                    if '::structRef' in fq: kind = 0
                    elif '::listRef' in fq: kind = 1
                if kind is None or loc_[0] != 'd' or (loc_, kind) in seen: continue
                seen.add((loc_, kind))
                if istrusted(st, None, loc_[1]): continue
                ok = False
                for e in st.eqs:
                    c0, d = lin_parts(e)
                    for u, k in d.items():
                        if u[0] == 'op' and u[1] == '&' and I(3) in (u[2], u[3]) and len(d) == 1 and contains(u, loc_) and \
                           any(x[0] == 'ld' and x[1][0] == 'f' and 'offsetAndKind' in str(x[1]) and base_d(x[1]) == loc_ for x in terms_in(u)):
                            ok = ok or -c0 * k == kind
                ck.obl(ok, 'kind:checked', loc(c), f'word at {show(loc_[1])} is interpreted as a {"struct" if kind == 0 else "list"} pointer without testing its kind' + path(st), f.q)
    def anyhook(eng, st, c):
        q = c.q
        if q == SR + '::ctor' and len(c.args) == 7: kinds(eng, st, c, c.args[4:6])
        elif q == LR + '::ctor' and len(c.args) == 9: kinds(eng, st, c, c.args[3:7])
        elif q in ('capnp::Text::Reader::ctor', 'capnp::Data::Reader::ctor') and len(c.args) == 2: kinds(eng, st, c, c.args[1:])
        if q == SR + '::ctor' and len(c.args) == 7:
            seg, cap, d, p, ds, pc, nl = c.args
            rng(st, c, 'bounds:struct', seg, d, ds, 'struct data section')
            rng(st, c, 'bounds:struct', seg, p, mulc(pc, 64), 'struct pointer section')
        elif q == LR + '::ctor' and len(c.args) == 9:
            seg, cap, p, n, step, ds, pc, es, nl = c.args
            rng(st, c, 'bounds:list', seg, p, mul(n, step), 'list body')
            ok = istrusted(st, seg, p) or eng.entails_ge(st, sub(sub(step, ds), mulc(pc, 64)), True)
            ck.obl(ok, 'list:step-covers-element', loc(c), f'element size {show(ds)} bits + {show(pc)} pointers exceeds step {show(step)}', f.q)
        elif q == PR + '::ctor' and len(c.args) == 4:
            seg, cap, p, nl = c.args
            rng(st, c, 'bounds:pointer', seg, p, I(64), 'pointer word')
        elif q in ('capnp::Text::Reader::ctor',) and len(c.args) == 2:
            rng(st, c, 'bounds:text', None, c.args[0], add(mulc(c.args[1], 8), I(8)), 'text content plus NUL')
        elif q in ('capnp::Data::Reader::ctor',) and len(c.args) == 2:
            rng(st, c, 'bounds:data', None, c.args[0], mulc(c.args[1], 8), 'data content')
        elif q == CHECK_OBJ:
            seg = c.this; p = c.args[0]
            ok = p in starts or trusted_ptr(p, trusted) or any(t[0] == 'call' and t[1] == CHECK_OFF and t[2][0] == seg and p == t
                     for t in terms_in(p)) or p == NULL
            ck.obl(ok, 'start:clamped', loc(c), f'object start {show(p)} is not the clamped offset in segment {show(seg)}', f.q)
        elif q == CHECK_OFF:
            pass
        elif q in ('memcpy', 'memmove', '__builtin_memcpy') and len(c.args) == 3:
            src = c.args[1]
            if src[0] != 'addr' and (any(t[0] == 'call' and t[1] == CHECK_OFF for t in terms_in(src)) or any(r[1] != NULL and contains(src, r[1]) for r in st.ts.get('ranges', ()))):
                rng(st, c, 'bounds:copy', None, src, mulc(c.args[2], 8), 'copy source')
        elif c.fn is not None and c.fn.k in contract_fns and c.fr.fn.k != c.fn.k or (c.fn is not None and c.fn.k in contract_fns and c.fn.k == f.k):
            g = contract_fns[c.fn.k]; seg = None
            for i, a in enumerate(c.args):
                if i >= len(g.params): break
                pe = short(pointee(g, i))
                if pe == 'SegmentReader': seg = a
                if pe == 'WirePointer' and ptype(g, i)[1] == 'p' and 'const' in g.tu.types[ptype(g, i)[3]][0]:
                    rng(st, c, 'bounds:ref-arg', seg, a, I(64), 'encoded pointer passed on')
    def deref(eng, st, fr, p, line):
        fq = eng.cur_field
        if not fq or not fq.startswith(N + 'WirePointer::'): return
        if p[0] in ('addr',) or fr is None: return
        if find_terms(p, lambda t: t[0] == 'sym' and t[1].startswith('out')): return
        # builder-side pointers are covered by the builder properties
        if p in builder_refs or any(contains(p, b) for b in builder_refs): return
        if find_terms(p, lambda t: t[0] == 'call' and t[1] in (N + 'WireHelpers::allocate', N + 'OrphanBuilder::tagAsPtr')): return
        ok = istrusted(st, None, p) or any(R.null_seg(st, s) for s in segs) or R.ok(st, None, p, I(64))
        fw = fr
        while fw.parent is not None and (fw.fn.cname or '').startswith(N + 'WirePointer'): line = fw.line; fw = fw.parent
        ck.obl(ok, 'bounds:deref', f'{fw.fn.file}:{line} ({fw.fn.q})', f'encoded pointer at {show(p)} read without a covering bounds check (path: {st.facts_str()[-400:]})', f.q)
    segs = [('sym', p[1]) for i, p in enumerate(f.params) if short(pointee(f, i)) == 'SegmentReader']
    builder_refs = [('sym', p[1]) for i, p in enumerate(f.params) if ptype(f, i)[1] == 'p' and short(pointee(f, i)) == 'WirePointer' and 'const' not in f.tu.types[ptype(f, i)[3]][0]]
    eng.any_call_hooks.append(anyhook)
    eng.deref_hooks.append(deref)
    def setup(e, st, fr):
        entry_setup(f, e, st, fr, variant)
        for pi, p in enumerate(f.params):
            if p[1] == 'canonical': e.assume(st, c_eq(('sym', 'canonical')))
        # an object reachable from a builder has already been validated by construction
        if f.cname in (SR, LR, PR):
            s = e.load(st, ('f', ('d', fr.this), f.cname + '::segment'))
            segs.append(s)
            if f.cname == LR and f.short in ('getStructElement', 'getPointerElement', 'getDataElement'):
                i = ('sym', f.params[0][1]); n = e.load(st, ('f', ('d', fr.this), LR + '::elementCount'))
                e.uns.setdefault(i, 32)
                st.ges[sub(sub(n, i), ONE)] = 1
            if f.short == 'getPointerElement':
                pc = e.load(st, ('f', ('d', fr.this), LR + '::structPointerCount')); st.ges[sub(pc, ONE)] = 1
    try:
        eng.run(f, setup=setup)
    except Budget as ex:
        raise AnalysisBroken(f'{f.q}: {ex}')
    ck.engine_stats(eng)


def kernels(ck, prog):
    this = ('sym', 'this')
    segf = lambda eng, st, n: eng.load(st, ('f', ('d', this), N + 'SegmentReader::' + n))
    def pe(eng, st):
        base = ('f', ('d', this), N + 'SegmentReader::ptr')
        b = eng.load(st, ('f', base, 'kj::ArrayPtr::ptr')); n = eng.load(st, ('f', base, 'kj::ArrayPtr::size_'))
        return b, n
    def j_obj(eng, st, v, f):
        s = split_ret(eng, st, v, True)
        if s is None: return None
        b, n = pe(eng, s); start = ('sym', f.params[0][1]); size = ('sym', f.params[1][1])
        size = eng.load(s, ('f', ('v', f.tu.name, f.params[1][0]), 'x')) if False else size
        cr = [t for t, x in s.tr.items() if x and t[0] == 'call' and t[1] == CANREAD]
        if not cr: return 'accepts an object without charging the traversal limiter'
        amt = cr[0][2][1]
        # 8*(size) + (start - begin) <= 8*n
        if not eng.entails_ge(s, sub(mulc(n, 8), add(sub(start, b), mulc(amt, 8))), True):
            return f'accepts an object although start + {show(amt)} words may exceed the segment'
        if not (amt == size or contains(amt, size) and amt[0] != 'lin'):
            return f'charges {show(amt)} instead of the object size'
        return None
    def this_setup(f, extra=None):
        def setup(eng, st, fr):
            b, n = pe(eng, st)
            eng.uns.setdefault(n, 29)
            st.ges[sub(('sym', f.params[0][1]), b)] = 1
        return setup
    f = prog.fn(CHECK_OBJ)
    kern(ck, prog, CHECK_OBJ, 'kernel:object-check', j_obj, opaque={CANREAD}, this=this, setup=this_setup(f))
    def j_off(eng, st, v, f):
        b, n = pe(eng, st)
        if not eng.entails_ge(st, sub(v, b), True): return f'result {show(v)} may lie before the segment'
        if not eng.entails_ge(st, sub(add(b, mulc(n, 8)), v), True): return f'result {show(v)} may lie past the segment end'
        return None
    def setup_off(eng, st, fr):
        b, n = pe(eng, st); eng.uns.setdefault(n, 29)
    kern(ck, prog, CHECK_OFF, 'kernel:offset-clamp', j_off, this=this, setup=setup_off)
    # every reader-side boundsCheck really consults the segment
    def j_bc(eng, st, v, f):
        s = split_ret(eng, st, v, True)
        if s is None: return None
        seg = ('sym', f.params[0][1])
        if eng.decide(s, c_eq(seg)) is True: return None
        if f.short == 'amplifiedRead':
            ok = [t for t, x in s.tr.items() if x and t[0] == 'call' and t[1] in (AMPL, CANREAD)]
        else:
            ok = [t for t, x in s.tr.items() if x and t[0] == 'call' and t[1] == CHECK_OBJ and t[2][0] == seg and t[2][1] == ('sym', f.params[1][1]) and eng.entails_eq(s, sub(eng.simplify(s, t[2][2]), ('sym', f.params[2][1])))]
        return None if ok else 'accepts without consulting the segment of the object'
    kern(ck, prog, N + 'WireHelpers::boundsCheck', 'kernel:bounds-check', j_bc, opaque={CHECK_OBJ})
    # segment lookup hands out only the requested segment
    segment_lookup(ck, prog)
    ck.need('kernel:object-check', 1); ck.need('kernel:offset-clamp', 1); ck.need('kernel:bounds-check', 1)

def segment_lookup(ck, prog):
    """a SegmentReader describes exactly the memory obtained for that segment; table lookups stay inside the table"""
    roots = [f for f in prog.all_fns() if f.file == 'capnp/arena.c++' and f.cname in (N + 'ReaderArena',) or f.q == N + 'BuilderArena::tryGetSegment']
    for f in roots:
        if f.body is None or 'L' in f.fl: continue
        eng = Engine(prog, cap=200, depth=8, size=900)
        def hook(eng, st, c):
            if c.q == N + 'SegmentReader::ctor' and len(c.args) == 5:
                p, n = c.args[2], c.args[3]
                ok = p == NULL and n == ZERO or 'K' in f.fl and p[0] == n[0] == 'sym' or p[0] in ('fo', 'ld') and p[0] == n[0] and base(p) is not None and base(p) == base(n)
                ck.obl(ok, 'kernel:segment-describes-array', f'{c.fr.fn.file}:{c.line} ({c.fr.fn.q})', f'segment bounds ({show(p)}, {show(n)}) are not those of one array', f.q)
            if c.q in ('kj::Vector::operator[]', 'kj::Array::operator[]', 'kj::ArrayPtr::operator[]') and c.fr.fn.k == f.k:
                b = ('d', c.this) if c.this[0] != 'addr' else c.this[1]
                if c.q == 'kj::Vector::operator[]':
                    bb = ('f', b, 'kj::Vector::builder'); sz = xdivc(sub(eng.load(st, ('f', bb, 'kj::ArrayBuilder::pos')), eng.load(st, ('f', bb, 'kj::ArrayBuilder::ptr'))), 16)
                    sz = next((t for t in terms_in(tuple(st.ges)) if t[0] == 'xd' and t[1] == (sz[1] if sz[0] == 'xd' else None)), sz)
                else: sz = eng.load(st, ('f', b, c.q.rsplit('::', 1)[0] + '::size_'))
                ck.obl(eng.entails_ge(st, sub(sub(sz, c.args[0]), ONE), True), 'kernel:segment-lookup', f'{c.fr.fn.file}:{c.line} ({c.fr.fn.q})', f'segment table index {show(c.args[0])} is not checked against the table size (path: {st.facts_str()[-300:]})', f.q)
        eng.any_call_hooks.append(hook)
        eng.run(f)
        ck.engine_stats(eng)
    # verified size
    def j(eng, st, v, f):
        p = ('f', ('v', f.tu.name, f.params[0][0]), 'kj::ArrayPtr::size_'); n = eng.load(st, p)
        if not eng.entails_eq(st, sub(v, n)): return f'reports {show(v)} words for a segment of {show(n)}'
        if not eng.entails_ge(st, sub(I((1 << 29) - 1), n), True): return 'accepts a segment of 2^29 or more words'
    kern(ck, prog, N + 'verifySegment', 'kernel:segment-size', j)
    ck.need('kernel:segment-describes-array', 2); ck.need('kernel:segment-lookup', 1); ck.need('kernel:segment-size', 1)

def base(t):
    if t[0] == 'fo': return t[1]
    if t[0] == 'ld' and t[1][0] == 'f': return t[1][1]
    return None

ELEM_OK = {1: 'bit', 2: 8, 3: 16, 4: 32, 5: 64, 6: 'ptr', 7: 'struct'}

def elements(ck, prog):
    """readListPointer: a list may only be handed to a reader of element size E if each stored element can hold E"""
    fs = [f for f in prog.fns(N + 'WireHelpers::readListPointer') if len(f.params) >= 7 and any(p[1] == 'checkElementSize' for p in f.params)]
    if not fs: raise AnalysisBroken('readListPointer not found')
    f = max(fs, key=lambda f: len(f.params))
    pi = [p[1] for p in f.params].index('expectedElementSize') if 'expectedElementSize' in [p[1] for p in f.params] else None
    if pi is None:
        pi = [i for i in range(len(f.params)) if short(ptype(f, i)[0]) == 'ElementSize'][0]
    ci = len(f.params) - 1
    for e, need in ELEM_OK.items():
        eng = engine(prog, cap=400)
        args = [('sym', p[1]) for p in f.params]
        args[pi] = I(e); args[ci] = ONE
        def hook(eng, st, c):
            if c.q == LR + '::ctor' and len(c.args) == 9:
                seg, cap, p, n, step, ds, pc, es, nl = c.args
                ok = True; why = ''
                if isinstance(need, int):
                    ok = eng.entails_ge(st, sub(ds, I(need)), True); why = f'elements of {show(ds)} bits are read as {need}-bit values'
                elif need == 'ptr':
                    ok = eng.entails_ge(st, sub(pc, ONE), True); why = f'elements with {show(pc)} pointers are read as pointers'
                elif need == 'bit':
                    ok = eng.entails_ge(st, sub(ds, ONE), True); why = f'elements of {show(ds)} bits are read as bits'
                elif need == 'struct':
                    ok = eng.decide(st, c_eq(sub(es, ONE))) is False; why = 'a bit list is read as a struct list'
                ck.obl(ok, 'list:element-compatible', f'{c.fr.fn.file}:{c.line} ({c.fr.fn.q})', why + f' (path: {st.facts_str()[-300:]})', f'expected element size code {e}')
        eng.any_call_hooks.append(hook)
        dn = {p[1]: i for i, p in enumerate(f.params)}
        def setup(eng, st, fr):
            pass
        eng.run(f, args=args)
        ck.engine_stats(eng)
    ck.need('list:element-compatible', 7)
    # kind tags: the word finally interpreted is of the kind the reader expects
