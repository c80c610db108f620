"""P03: nesting depth is bounded: each level of indirection consumes one unit of the configured limit."""
from lay import *
import prog as P

SPEC = {
 'explanation': 'Guard dataflow over every function of the reader layer. Each struct or list reader produced by following an '
   'encoded pointer, and each recursive descent (size computation, deep copy), must be dominated by the incoming limit being '
   'positive and must carry a strictly smaller limit; readers derived without following a pointer must not carry a larger limit; '
   'the root pointer carries the configured limit.',
 'assumptions': ['KJ_REQUIRE failures leave the function', 'readers over builder-owned memory are unlimited by design'],
}
INF = 0x7fffffff

def check(ck):
    prog = P.load(['capnp/layout.c++', P.VERIF + '/witness/layout_inst.cc', 'capnp/arena.c++', 'capnp/message.c++'])
    ck.units = ['capnp/layout.c++', 'capnp/layout.h', 'capnp/message.c++']
    roots = [f for f in prog.all_fns() if is_reader_side(f)]
    cf = contracts(roots)
    for f in roots:
        if f.short == 'canonicalize': continue
        for v in entry_variants(f): run(ck, prog, f, cf, v)
    ck.need('limit:consumed', 6); ck.need('limit:passed-on', 8); ck.need('limit:recursion', 3)
    root_limit(ck, prog)

def nl_index(f):
    for i, p in enumerate(f.params):
        if ptype(f, i)[1] == 's' and 'limit' in p[1].lower(): return i
    for i, p in enumerate(f.params):
        if ptype(f, i)[0] == 'int': return i
    return None

def run(ck, prog, f, cf, variant):
    eng = reader_engine(prog, cf)
    ni = nl_index(f)
    limits = []
    this_kind = f.cname if f.cname in (SR, LR, PR) else None
    trusted = default_params(f)
    def incoming(): return limits
    def ok_smaller(eng, st, nl, strict):
        for l in limits:
            if nl == l or (nl[0] == 'i' and not strict and eng.entails_ge(st, sub(l, nl))):
                if not strict: return True
            if strict and eng.entails_ge(st, sub(sub(l, ONE), nl)) and eng.entails_ge(st, sub(l, ONE)): return True
        return False
    def unlimited(eng, st, seg):
        return seg is not None and eng.decide(st, c_eq(seg)) is True
    def hook(eng, st, c):
        if not limits: return
        q = c.q
        if q == SR + '::ctor' and len(c.args) == 7:
            judge(eng, st, c, c.args[0], c.args[6], 'struct', True)
        elif q == LR + '::ctor' and len(c.args) == 9:
            # the pointer section viewed as a list follows no pointer
            strict = not (this_kind == SR)
            judge(eng, st, c, c.args[0], c.args[8], 'list', strict)
        elif q == PR + '::ctor' and len(c.args) == 4:
            judge(eng, st, c, c.args[0], c.args[3], 'pointer', False)
        elif c.fn is not None and c.fn.k in cf:
            g = cf[c.fn.k]; gi = nl_index(g)
            if gi is None or gi >= len(c.args): return
            rec = g.k == f.k and not (c.fr.fn.k == f.k and len(g.params) != len(f.params))
            a = c.args[gi]
            ok = ok_smaller(eng, st, a, g.short == f.short and g.cname == f.cname and g.k == f.k)
            ck.obl(ok, 'limit:recursion' if g.k == f.k else 'limit:passed-on', at(c), f'{g.short} called with nesting limit {show(a)}; incoming {", ".join(show(l) for l in limits)}' + path(st), f.q)
    def judge(eng, st, c, seg, nl, what, strict):
        if unlimited(eng, st, seg) and (seg == NULL or not limits): return
        if seg == NULL: return
        if strict and this_kind is None and ni is None and f.cname != N + 'WireHelpers': strict = False
        ok = ok_smaller(eng, st, nl, strict)
        ck.obl(ok, 'limit:consumed' if strict else 'limit:passed-on', at(c), f'{what} reader gets nesting limit {show(nl)}; incoming {", ".join(show(l) for l in limits)}' + path(st), f.q)
    eng.any_call_hooks.append(hook)
    def setup(e, st, fr):
        entry_setup(f, e, st, fr, variant)
        for i, p in enumerate(f.params):
            if p[1] == 'canonical': e.assume(st, c_eq(('sym', 'canonical')))
        if ni is not None: limits.append(('sym', f.params[ni][1]))
        for i, p in enumerate(f.params):
            t = ptype(f, i)
            cn = short(t[0] if t[1] != 'r' else f.tu.types[t[3]][0]) if t[1] in ('c', 'r') and (t[1] == 'c' or t[3] >= 0) else ''
            if cn in ('StructReader', 'ListReader', 'PointerReader'):
                loc = ('v', f.tu.name, p[0]); r = st.mem.get(('ref', loc))
                limits.append(e.load(st, ('f', r if r is not None else loc, N + cn + '::nestingLimit')))
        if this_kind and fr.this is not None: limits.append(e.load(st, ('f', ('d', fr.this), this_kind + '::nestingLimit')))
    eng.run(f, setup=setup)
    ck.engine_stats(eng)

def root_limit(ck, prog):
    for f in prog.all_fns():
        if f.file != 'capnp/message.c++' or f.body is None or 'L' in f.fl or 'Builder' in (f.cname or ''): continue
        if not any(q == PR + '::getRoot' for q in prog.callees(f)): continue
        eng = Engine(prog, cap=128, depth=5, size=500, opaque={PR + '::getRoot', PR + '::isCanonical', SR + '::isCanonical', LR + '::isCanonical'})
        def hook(eng, st, c):
            if c.q == PR + '::getRoot':
                nl = c.args[-1]
                ok = nl[0] in ('ld', 'fo') and 'ReaderOptions::nestingLimit' in str(nl)
                ck.obl(ok, 'limit:root', at(c), f'root pointer carries limit {show(nl)} rather than the configured one', f.q)
        eng.any_call_hooks.append(hook)
        eng.run(f)
        ck.engine_stats(eng)
    ck.need('limit:root', 1)
