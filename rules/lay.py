"""Shared model of the wire-format layer (capnp/layout.c++, arena.h, layout.h)."""
import prog as P
from prog import AnalysisBroken
from absint import *

N = 'capnp::_::'
SR, LR, PR = N + 'StructReader', N + 'ListReader', N + 'PointerReader'
CHECK_OBJ = N + 'SegmentReader::checkObject'
CHECK_OFF = N + 'SegmentReader::checkOffset'
AMPL = N + 'SegmentReader::amplifiedRead'
TRYSEG = (N + 'Arena::tryGetSegment', N + 'ReaderArena::tryGetSegment', N + 'BuilderArena::tryGetSegment')

def load_layout():
    p = P.load(['capnp/layout.c++'])
    for q in (CHECK_OBJ, CHECK_OFF, AMPL):
        p.fn(q)
    return p

def table(prog, fname):
    """value of a one-argument constexpr table function for each ElementSize 0..7, from its source"""
    out = []
    f = prog.fn(N + fname)
    for i in range(8):
        e = Engine(prog, cap=64)
        r = e.run(f, args=[I(i)])
        vs = {v for _, v in r}
        v = vs.pop() if len(vs) == 1 else None
        if v is None: return None
        v = e_val(v)
        out.append(v)
    return out

def e_val(v):
    while v[0] == 'agg' and len(v[2]) == 1: v = v[2][0][1]
    return v[1] if v[0] == 'i' else None

def engine(prog, **kw):
    kw.setdefault('cap', 256); kw.setdefault('depth', 9); kw.setdefault('size', 900)
    eng = Engine(prog, opaque={CHECK_OBJ, CHECK_OFF, AMPL} | set(kw.pop('opaque', ())),
                 pure={CHECK_OBJ, CHECK_OFF, AMPL, *TRYSEG} | set(kw.pop('pure', ())), **kw)
    return eng

def ptype(f, i):
    return f.tu.types[f.params[i][2]]

def pointee(f, i):
    t = ptype(f, i)
    if t[1] == 'p' and t[3] >= 0: return f.tu.types[t[3]][0].replace('const ', '').strip()
    if t[1] == 'r' and t[3] >= 0:
        u = f.tu.types[t[3]]
        if u[1] == 'p' and u[3] >= 0: return f.tu.types[u[3]][0].replace('const ', '').strip()
    return ''

def short(t): return t.replace('const ', '').strip().split('::')[-1]

class Ranges:
    """readable byte ranges known on a path: successful bounds checks + entry contracts"""
    def __init__(self, eng): self.eng = eng
    def null_seg(self, st, seg):
        return self.eng.decide(st, c_eq(seg)) is True
    def known(self, st):
        for t, v in st.tr.items():
            if v and t[0] == 'call' and t[1] == CHECK_OBJ:
                seg, ptr, n = t[2][0], t[2][1], t[2][2]
                yield seg, ptr, mulc(self.eng.simplify(st, n), 64)
        for r in st.ts.get('ranges', ()): yield r
    def ok(self, st, seg, ptr, nbits):
        """[ptr, ptr+nbits) readable (and inside seg unless seg is None)"""
        e = self.eng
        if e.entails_eq(st, nbits) if nbits[0] != 'i' else nbits[1] == 0: return True
        if seg is not None and self.null_seg(st, seg): return True
        if st.ts.get('unchecked'): return True
        for s, p0, n in self.known(st):
            if seg is not None and s is not None and s != seg: continue
            off = sub(ptr, p0)
            # both ends inside
            if not e.entails_ge(st, off, True): continue
            if e.entails_ge(st, sub(sub(n, mulc(off, 8)), nbits), True): return True
        return False

def fld(base, q): return ('f', base, q)

BITS = (0, 1, 8, 16, 32, 64)        # encoding specification: element data bits by size code

def reader_variants(kind):
    """case split of a reader's representation: lists by element encoding, structs by bit/byte granularity"""
    if kind == LR: return list(range(8))
    if kind == SR: return ['bytes', 'bit']
    return [None]

def reader_contract(eng, st, kind, loc, var):
    """class invariant of a reader object stored at loc: returns readable ranges and constrains the fields"""
    L = lambda name: _ld(eng, st, loc, kind + '::' + name)
    W = lambda name, v: st.mem.__setitem__(('f', loc, kind + '::' + name), v)
    if kind == SR:
        seg = L('segment'); d = L('data'); p = L('pointers'); pc = L('pointerCount')
        eng.uns.setdefault(pc, 16)
        if var == 'bit': ds = ONE
        else:
            b = ('sym', 'dataBytes'); eng.uns.setdefault(b, 19); ds = mulc(b, 8)
        W('dataSize', ds)
        return ((seg, d, ds), (seg, p, mulc(pc, 64)))
    if kind == LR:
        seg = L('segment'); p = L('ptr'); n = L('elementCount')
        eng.uns.setdefault(n, 29)
        if var < 6: ds, pc, step = I(BITS[var]), ZERO, I(BITS[var])
        elif var == 6: ds, pc, step = ZERO, ONE, I(64)
        else:
            dw = ('sym', 'dataWords'); pc = ('sym', 'ptrWords')
            eng.uns.setdefault(dw, 16); eng.uns.setdefault(pc, 16)
            ds = mulc(dw, 64); step = mulc(add(dw, pc), 64)
        W('structDataSize', ds); W('structPointerCount', pc); W('step', step); W('elementSize', I(var))
        return ((seg, p, mul(n, step)),)
    if kind == PR:
        seg = L('segment'); p = L('pointer')
        return ((seg, p, I(64)),)
    return ()

def _ld(eng, st, loc, f):
    return eng.load(st, ('f', loc, f))

def entry_kinds(f):
    ks = []
    for i, p in enumerate(f.params):
        t = ptype(f, i)
        cn = short(t[0] if t[1] != 'r' else f.tu.types[t[3]][0]) if t[1] in ('c', 'r') and (t[1] == 'c' or t[3] >= 0) else ''
        if cn in ('StructReader', 'ListReader', 'PointerReader'): ks.append(N + cn)
    if f.cname in (SR, LR, PR): ks.append(f.cname)
    return ks

def entry_variants(f):
    import itertools
    return list(itertools.product(*[reader_variants(k) for k in entry_kinds(f)]))

def entry_setup(f, eng, st, fr, variant):
    vs = list(variant)
    """contracts of function f's parameters, by type"""
    rs = []
    seg = None
    for i, p in enumerate(f.params):
        t = ptype(f, i); pe = short(pointee(f, i))
        v = ('sym', p[1] or f'p{p[0]}')
        if t[1] == 'r' and pe: v = eng.load(st, st.mem[('ref', ('v', f.tu.name, p[0]))])
        if pe in ('SegmentReader', 'SegmentBuilder'): seg = v
        if pe == 'WirePointer':
            rs.append((seg, v, I(64)))
        cn = short(t[0] if t[1] != 'r' else f.tu.types[t[3]][0]) if t[1] in ('c', 'r') and (t[1] == 'c' or t[3] >= 0) else ''
        if cn in ('StructReader', 'ListReader', 'PointerReader'):
            loc = ('v', f.tu.name, p[0])
            r = st.mem.get(('ref', loc))
            rs += reader_contract(eng, st, N + cn, r if r is not None else loc, vs.pop(0))
    if f.cname in (SR, LR, PR) and fr.this is not None:
        rs += reader_contract(eng, st, f.cname, ('d', fr.this), vs.pop(0))
    st.ts['ranges'] = tuple(rs)

def is_reader_side(f):
    if 'L' in f.fl: return False
    if f.file not in ('capnp/layout.c++', 'capnp/layout.h'): return False
    if f.cname in (SR, LR, PR) and f.short != 'canonicalize' and 'K' not in f.fl and 'D' not in f.fl: return True
    if f.short == 'canonicalize' or 'Builder' in (f.cname or ''): return False
    if 'K' in f.fl or f.short == 'followFars': return False   # followFars is analysed inlined into its callers
    if f.cname and f.cname.startswith(N + 'WirePointer'): return False
    ps = [short(pointee(f, i)) for i in range(len(f.params))]
    cs = [short(ptype(f, i)[0]) for i in range(len(f.params))]
    return ('SegmentReader' in ps and 'WirePointer' in ps) or any(c in ('StructReader', 'ListReader', 'PointerReader') for c in cs)

def contracts(roots):
    return {f.k: f for f in roots if any(short(pointee(f, i)) == 'WirePointer' and 'const' in f.tu.types[ptype(f, i)[3]][0] for i in range(len(f.params)) if ptype(f, i)[1] == 'p')}

def reader_engine(prog, contract_fns):
    eng = engine(prog, cap=400, opaque={N + 'WireHelpers::zeroObject', N + 'WireHelpers::allocate', N + 'WireHelpers::zeroMemory'})
    # functions with a contract are analysed on their own; calls to them are checked against it
    cq = {g.q for g in contract_fns.values()} - {N + 'WireHelpers::followFars'}
    def inl(fn, fr):
        if fn.q in cq and not (fn.short == fr.fn.short and fn.cname == fr.fn.cname): return False
        if fn.cname in (SR, LR, PR) and fn.short in ('isCanonical', 'totalSize', 'canonicalize', 'getPointerType'): return False
        if fn.q in (N + 'WireHelpers::setStructPointer', N + 'WireHelpers::setListPointer'): return False
        return None
    eng.inline_extra = inl
    eng.pure |= cq | {N + 'WireHelpers::setStructPointer', N + 'WireHelpers::setListPointer', N + 'WireHelpers::zeroObject', N + 'WireHelpers::zeroMemory', N + 'PointerReader::isCanonical',
                      N + 'StructReader::isCanonical', N + 'ListReader::isCanonical'}
    return eng

CANREAD = N + 'ReadLimiter::canRead'

def kern(ck, prog, q, rule, judge, opaque=(), **kw):
    """runs the kernel function q and judges every returning path with judge(eng, st, ret, fn) -> error or None"""
    fs = [f for f in prog.fns(q) if f.body is not None]
    if not fs: raise AnalysisBroken(f'{q} not found')
    for f in fs:
        eng = Engine(prog, cap=200, depth=8, size=900, opaque=set(opaque), pure=set(opaque))
        rs = eng.run(f, **kw)
        if not rs: raise AnalysisBroken(f'{q}: no returning path')
        for st, v in rs:
            err = judge(eng, st, v, f)
            ck.obl(err is None, rule, f'{f.file}:{f.line} ({f.q})', (err or '') + f' (path: {st.facts_str()[-300:]})', f.q)
        ck.engine_stats(eng)

def split_ret(eng, st, v, want):
    """states refined by the boolean result being `want`"""
    s = st.clone()
    return s if eng.assume(s, val_to_cond(v) if want else c_not(val_to_cond(v))) else None

def at(c): return f'{c.fr.fn.file}:{c.line} ({c.fr.fn.q})'
def path(st, n=400): return f' (path: {st.facts_str()[-n:]})'

def default_params(f):
    """parameters holding compiled-in (trusted) default values"""
    out = set()
    if f.short.startswith('read') or f.cname == PR and f.short.startswith('get'):
        ps = [('sym', p[1]) for i, p in enumerate(f.params) if short(pointee(f, i)) in ('word', 'void')]
        if ps: out.add(ps[-1])
    return out
