"""P04: schema evolution: a field the sender's struct is too short for reads as its default; one it holds reads its stored bits."""
from p15 import *

SPEC = {
 'explanation': 'Every struct field accessor (all primitive widths, bool, enum, float, pointer; reader and builder; with and without a default; '
   'with and without debug checks) is compiled and every path through it followed with a symbolic struct, field index, default and value. A '
   'path that reads must be exactly the paths on which the whole field lies inside the section present, read exactly the bits of the field, '
   'and yield them exclusive-or the default (decided per bit); every other path must read nothing and yield the default; a setter must store '
   'exactly value xor default into exactly those bits.',
 'assumptions': ['all generated and dynamic accessors funnel into these inline accessors (they are the only readers of the section pointers)', 'field indexes are those of structs of at most 2^16-1 words'],
}

def check(ck):
    ck.units = ['witness/lists.cc', 'capnp/layout.h', 'capnp/endian.h']
    fields(ck)

def learn_struct(ck, K, X, cfg):
    F = Fields()
    s = Run(ck, K, f'fsize__{X}', cfg=cfg, probe=True)
    ev = [x for x in s.outs[0].events if x.name == 'vp::seeV']
    F.DS, F.PC = ev[0].args[0], ev[1].args[0]
    if not own_ld(s, F.DS) or not own_ld(s, F.PC): raise AnalysisBroken('cannot identify the section sizes of a struct')
    F.D = F.P = None
    for n in ('U8', 'U32', 'U64'):
        r = Run(ck, K, f'fraw__{X}_{n}', cfg=cfg, probe=True)
        for o in r.outs:
            for a in o.st.ts['acc']:
                c, d = a[1][1:] if a[1][0] == 'lin' else (0, ((a[1], 1),))
                l = [t for t, k in d if own_ld(r, t) and k == 1 and t not in (F.DS, F.PC)]
                if l and F.D is None: F.D = l[0]
    p = Run(ck, K, f'fptr__{X}', cfg=cfg, probe=True)
    F.ptr = None
    for o in p.outs:
        for x in o.events:
            for cells in (x.snap or {}).values():
                for v in cells.values():
                    if not isinstance(v, tuple) or 'i' not in p.a or not contains(v, p.a['i']): continue
                    c, d = v[1:] if v[0] == 'lin' else (0, ((v, 1),))
                    for t, k in d:
                        if own_ld(p, t): F.P = t; F.ptr = cells
    if F.D is None or F.P is None: raise AnalysisBroken('cannot identify the sections of a struct')
    return F

def fields(ck):
    for cfg in ((), ('-DDEBUG',), ('-DCAPNP_CANONICALIZE_NAN=1',)):
        K = Kern(ck, 'lists.cc', extra=cfg)
        Fs = {X: learn_struct(ck, K, X, cfg) for X in 'RB'}
        for name in sorted(K.ws):
            m = re.match(r'(fraw|frawset|fmask|fmaskset|fhas|fbit|fbitset|fbitmask|fbitmaskset|fptr|fblob|fplist)__([RB])(?:_(\w+))?$', name)
            if not m: continue
            spec, X, t = m.groups(); F = Fs[X]
            if spec in ('fblob', 'fplist'): whole(ck, K, name, F, X, spec, cfg)
            elif spec == 'fptr': pointerf(ck, K, name, F, X, cfg)
            elif spec.startswith('fbit'):
                for r in range(8): bitf(ck, K, name, F, X, spec, r, cfg)
            else: dataf(ck, K, name, F, X, spec, SIZES[t], cfg)
    for r, n in (('field:exact', 60), ('field:default', 20), ('field:pointer', 2), ('field:bit', 5), ('field:sections', 4)): ck.need(r, n)

def dataf(ck, K, name, F, X, spec, w, cfg):
    def pre(s, st): s.e.uns[F.DS] = 23; s.e.uns[F.PC] = 16; return True
    s = Run(ck, K, name, pre=pre, args={'i': lambda e: e.N('i', 23 - w.bit_length())}, cfg=cfg)
    i = s.a['i']; addr = add(F.D, mulc(i, w // 8)); e = s.e
    inside = c_ge(sub(F.DS, mulc(add(i, ONE), w)))
    k = symb(s.a['k'], w) if 'k' in s.a else [Z] * w
    seen = {}
    for o in s.outs:
        st = o.st; acc = st.ts['acc']; where = inrepo(o, s.where); bad = None; rule = 'field:exact'
        see = [x for x in o.events if x.name.startswith('vp::see')]
        if o.kind != 'ret': s.obl(False, rule, where, 'an access is rejected' + pathinfo(o)); continue
        if spec.endswith('set'):
            seen['w'] = 1
            if len(acc) != 1 or acc[0][0] != 'store' or not same(e, st, acc[0][1], addr) or acc[0][2] * 8 != w: bad = 'accesses ' + (', '.join(f'{a[0]} {a[2]} bytes at {show(a[1])}' for a in acc) or 'nothing') + f' instead of storing {w // 8} bytes at {show(addr)}'
            else:
                v = acc[0][3]; where = acc[0][4]
                want = bxor(symb(s.a['v'], w), k)
                if nan(o, s.a['v']):
                    b = bxor(valbits(s, o, v, w), k)
                    n = sum(1 << j for j, x in enumerate(b) if x == ONEB)
                    if any(x not in (Z, ONEB) for x in b) or not isnan(n, w): bad = f'stores {show(v)} for a NaN'
                elif valbits(s, o, v, w) != want: bad = f'stores {show(v)} instead of the value xor its default'
        elif acc:
            seen['in'] = 1
            ok = X == 'B' or not maybe(e, st, c_not(inside))
            if len(acc) != 1 or acc[0][0] != 'load' or not same(e, st, acc[0][1], addr) or acc[0][2] * 8 != w: bad = 'accesses ' + ', '.join(f'{a[0]} {a[2]} bytes at {show(a[1])}' for a in acc) + f' instead of loading {w // 8} bytes at {show(addr)}'
            elif not ok: bad = f'reads a field that may extend past the {show(F.DS)} bits of the data section'
            elif len(see) != 1: bad = 'yields no value'
            elif spec == 'fhas':
                nz = [t for t in terms_in(see[0].args[0]) if t[0] == 'ld' and t[1] == acc[0][1]] or [t for t in all_lds(st) if t[1] == acc[0][1]]
                if not nz: bad = 'does not test the stored value'
                else:
                    c = e.truth(see[0].args[0])
                    for cc, exp in ((c_eq(nz[0]), False), (c_not(c_eq(nz[0])), True)):
                        s2 = st.clone()
                        if e.assume(s2, cc) and e.decide(s2, c) is not exp: bad = f'yields {show(see[0].args[0])} for a {"nonzero" if exp else "zero"} field'
            elif valbits(s, o, see[0].args[0], w) != bxor(mem(acc[0][1], w), k): bad = f'yields {show(see[0].args[0])} instead of the stored bits xor the default'
        else:
            seen['out'] = 1; rule = 'field:default'
            if X == 'B': bad = 'does not access the field'
            elif maybe(e, st, inside): bad = 'yields the default for a field that may be present'
            elif len(see) != 1: bad = 'yields no value'
            else:
                v = see[0].args[0]
                got = [Z] * w if zero(v) else valbits(s, o, v, w)
                if spec == 'fhas': ok = e.decide(st, e.truth(v)) is False
                else: ok = got == k
                if not ok: bad = f'yields {show(v)} for an absent field'
        s.obl(bad is None, rule, where, (bad or '') + pathinfo(o))
    want = {'w'} if spec.endswith('set') else {'in'} if X == 'B' else {'in', 'out'}
    if set(seen) != want: s.obl(False, 'field:exact', s.where, f'some field positions have no result (got {sorted(seen)})')

def zero(v): return v == ZERO or v[0] == 'fl' and float(v[1]) == 0 or v[0] == 'f' 
def all_lds(st):
    for c in st.facts:
        for t in terms_in(c):
            if t[0] == 'ld': yield t
def maybe(e, st, c):
    s2 = st.clone()
    return e.assume(s2, c)

def bitf(ck, K, name, F, X, spec, r, cfg):
    def pre(s, st): s.e.uns[F.DS] = 23; return True
    s = Run(ck, K, name, pre=pre, args={'i': lambda e: add(mulc(e.N('q', 19), 8), I(r))}, cfg=cfg)
    e = s.e; i = s.a['i']; addr = add(F.D, e.N('q', 19))
    k = symb(s.a['k'], 1)[0] if 'k' in s.a else Z
    inside = c_ge(sub(sub(F.DS, i), ONE)); seen = set()
    for o in s.outs:
        st = o.st; acc = st.ts['acc']; where = inrepo(o, s.where); bad = None
        see = [x for x in o.events if x.name == 'vp::seeB']
        if o.kind != 'ret': bad = 'an access is rejected'
        elif acc:
            seen.add('in')
            if any(not same(e, st, a[1], addr) or a[2] != 1 for a in acc): bad = 'accesses ' + ', '.join(f'{a[2]} bytes at {show(a[1])}' for a in acc)
            elif X == 'R' and maybe(e, st, c_not(inside)): bad = 'reads a bit that may lie past the data section'
            elif spec.endswith('set'):
                sts = [a for a in acc if a[0] == 'store']
                want = mem(addr, 8); want[r] = bxor(symb(s.a['v'], 1), [k])[0]
                if len(sts) != 1 or valbits(s, o, sts[0][3], 8) != want: bad = f'bit {r}: does not store the bit and keep the seven others: {", ".join(show(a[3]) for a in sts)}'
            elif any(a[0] == 'store' for a in acc): bad = 'writes'
            elif len(see) != 1 or valbits(s, o, see[0].args[0], 1)[0] != mem(addr, 8)[r] ^ k: bad = f'bit {r}: yields {show(see[0].args[0]) if see else "nothing"}'
        else:
            seen.add('out')
            if X == 'B': bad = 'does not access the field'
            elif maybe(e, st, inside): bad = 'yields the default for a field that may be present'
            elif len(see) != 1 or valbits(s, o, see[0].args[0], 1)[0] != k: bad = f'yields {show(see[0].args[0]) if see else None} for an absent bit'
        s.obl(bad is None, 'field:bit', where, (bad or '') + pathinfo(o))
    if seen != ({'in'} if X == 'B' else {'in', 'out'}): s.obl(False, 'field:bit', s.where, f'some bits have no result (got {sorted(seen)})')

def whole(ck, K, name, F, X, spec, cfg):
    def pre(s, st): s.e.uns[F.PC] = 16; s.e.uns[F.DS] = 23; return True
    s = Run(ck, K, name, pre=pre, args={'i': lambda e: e.N('i', 16)}, cfg=cfg)
    if not s.outs: s.obl(False, 'field:sections', s.where, 'no result')
    for o in s.outs:
        e, st = s.e, o.st; bad = None
        if spec == 'fblob':
            x = [x for x in o.events if x.name == 'vp::seeQ']
            if len(x) != 1 or not same(e, st, x[0].args[0], F.D) or not same(e, st, x[0].args[1], divc(F.DS, 8)): bad = f'the data section is given as {", ".join(map(show, x[0].args)) if x else None}'
        else:
            z = [x for x in o.events if x.name == 'vp::seeV']; y = [x for x in o.events if x.name.startswith('vp::seeL')]
            if not z or not same(e, st, z[0].args[0], F.PC): bad = f'the pointer section has {show(z[0].args[0]) if z else None} elements'
            elif not y or [v for v in y[0].snap.get(0, {}).values() if same(e, st, v, add(F.P, mulc(s.a['i'], 8)))] == []: bad = f'element i is at {[show(v) for v in y[0].snap.get(0, {}).values()] if y else None}'
        s.obl(bad is None, 'field:sections', inrepo(o, s.where), (bad or '') + pathinfo(o))

def pointerf(ck, K, name, F, X, cfg):
    def pre(s, st): s.e.uns[F.PC] = 16; return True
    s = Run(ck, K, name, pre=pre, args={'i': lambda e: e.N('i', 16)}, cfg=cfg)
    e = s.e; i = s.a['i']; inside = c_ge(sub(sub(F.PC, i), ONE)); seen = set()
    for o in s.outs:
        st = o.st; bad = None
        cells = o.events[-1].snap.get(0) if o.events else None
        if o.kind != 'ret' or not cells: bad = 'no pointer'
        else:
            ps = [v for v in cells.values() if contains(v, F.P)]
            if ps:
                seen.add('in')
                others = [v for v in cells.values() if not contains(v, F.P)]
                if len(ps) != 1 or not same(e, st, ps[0], add(F.P, mulc(i, 8))): bad = f'addresses {", ".join(map(show, ps))} instead of {show(add(F.P, mulc(i, 8)))}'
                elif X == 'R' and maybe(e, st, c_not(inside)): bad = 'addresses a pointer that may lie past the pointer section'
                elif any(not own_ld(s, v) for v in others) or len(set(others)) != len(others) or len(others) < 2: bad = 'does not carry over segment, capability table and nesting limit'
            else:
                seen.add('out')
                if X == 'B': bad = 'does not address the field'
                elif maybe(e, st, inside): bad = 'yields a null pointer for a field that may be present'
                elif any(own_ld(s, v) for v in cells.values()): bad = 'an absent pointer is not null'
        s.obl(bad is None, 'field:pointer', inrepo(o, s.where), (bad or '') + pathinfo(o))
    if seen != ({'in'} if X == 'B' else {'in', 'out'}): s.obl(False, 'field:pointer', s.where, f'some fields have no result (got {sorted(seen)})')
