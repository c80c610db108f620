"""Buffer-bounds analysis: every view constructed over memory, every raw element access and every bulk copy must lie inside
memory known to be valid on that path. Views received from elsewhere (parameters, fields) are valid by the same rule applied where
they are constructed (assume/guarantee)."""
import prog as P
from prog import AnalysisBroken
from absint import *

AP = 'kj::ArrayPtr'
PTRF = {'kj::ArrayPtr::ptr': 'kj::ArrayPtr::size_', 'kj::Array::ptr': 'kj::Array::size_'}

def at(c, line=None):
    fr = c.fr
    return f'{fr.fn.file}:{c.line if line is None else line} ({fr.fn.q})'
def user_frame(fr, line, skip=('kj/common.h', 'kj/array.h', 'kj/string.h', 'kj/memory.h')):
    """nearest frame outside the container library: where the construct is written"""
    while fr is not None and fr.fn.file in skip and fr.parent is not None:
        line = fr.line; fr = fr.parent
    return fr, line
def path(st): return ' | path: ' + st.facts_str()[-600:]

class Buf:
    def __init__(self, ck, prog, pre='bounds', opaque=(), cap=128, depth=8, size=900, **kw):
        self.ck = ck; self.pre = pre
        e = self.eng = Engine(prog, cap=cap, depth=depth, size=size, opaque=opaque, **kw)
        e.wrap_split = True
        e.any_call_hooks.append(self.call)
        e.deref_hooks.append(self.deref)
        self.files = None
        self.bulk = {}       # callee -> cb(c) yielding (ptr, bytes)
        self.n = 0
        self.strict = True   # unknown base: obligation fails only if strict bases
        self.unknown = {}
    # ---------------------------------------------------------------- regions
    def regions(self, st, p):
        """candidate (base, size in bytes) for pointer term p"""
        e = self.eng
        cands = []
        for t, c in ([(p, 1)] if p[0] != 'lin' else p[2]):
            if c != 1: continue
            cands.append(t)
        for b, n in st.ts.get('regions', ()):
            if b == p or b in cands or p[0] == 'lin' and b[0] == 'lin' and contains_base(p, b): yield b, n
        for t in cands:
            if t[0] == 'call' and t[1].endswith('HeapArrayDisposer::allocateImpl') and len(t[2]) >= 3:
                yield t, mul(t[2][0], t[2][2])
            elif t[0] == 'call' and t[1].endswith('HeapArrayDisposer::allocateUninitialized') and len(t[2]) >= 1:
                es = e.pelem.get(t); yield t, mulc(t[2][0], es or 1)
            elif t[0] == 'ld' and t[1][0] == 'f' and t[1][2] in PTRF:
                n = ('ld', ('f', t[1][1], PTRF[t[1][2]])) + self.ver(t)
                cur = e.load(st, ('f', t[1][1], PTRF[t[1][2]]))
                e.uns.setdefault(n, 64)
                es = e.pelem.get(t)
                if es:
                    yield t, mulc(n, es)
                    if cur != n: yield t, mulc(cur, es)
            elif t[0] == 'fo' and t[2] in PTRF:
                n = ('fo', t[1], PTRF[t[2]]); e.uns.setdefault(n, 64)
                es = e.pelem.get(t)
                if es: yield t, mulc(n, es)
    def ver(self, t): return t[2:]
    def base_known(self, st, p): return any(True for _ in self.regions(st, p))
    def inside(self, st, p, nbytes):
        e = self.eng
        if nbytes == ZERO or e.entails_eq(st, nbytes): return True
        if e.decide(st, c_eq(p)) is True: return None
        known = False
        for b, n in self.regions(st, p):
            known = True
            off = sub(p, b)
            if e.entails_ge(st, off, True) and e.entails_ge(st, sub(sub(n, off), nbytes), True) and e.entails_ge(st, nbytes, True): return True
        a = self.local(st, p)
        if a is not None:
            off, size = a
            if size is None: return True
            return e.entails_ge(st, off, True) and e.entails_ge(st, sub(sub(size, off), nbytes), True) and e.entails_ge(st, nbytes, True)
        return False if known else None
    def local(self, st, p):
        """address of (an element of) a named object -> (byte offset, byte size)"""
        off = ZERO
        if p[0] == 'lin':
            a = [t for t, c in p[2] if c == 1 and t[0] == 'addr']
            if not a: return None
            off = sub(p, a[0]); p = a[0]
        if p[0] != 'addr': return None
        loc = p[1]
        if loc[0] == 'x':
            es = self.eng.xelem.get(loc[1])
            n = self.eng.xsize.get(loc[1])
            if es is None or n is None: return (ZERO, None)
            return add(off, mulc(loc[2], es)), I(es * n)
        n = self.eng.xsize.get(loc)
        if n is not None: return off, I(self.eng.xelem[loc] * n)
        return (ZERO, None)
    # ---------------------------------------------------------------- obligations
    def want(self, fr):
        while fr is not None:
            if self.files is None or fr.fn.file in self.files: return True
            fr = fr.parent
        return False
    def ob(self, st, fr, line, p, nbytes, rule, what):
        r = self.inside(st, p, nbytes)
        uf, ul = user_frame(fr, line)
        where = f'{uf.fn.file}:{ul} ({uf.fn.q})'
        if r is None:
            self.unknown[where + ' ' + what] = show(p)[:160]
            return
        self.n += 1
        self.ck.obl(r, f'{self.pre}:{rule}', where, f'{what}: [{show(p)}, +{show(nbytes)} bytes) is not known to lie inside the underlying memory' + path(st), uf.fn.q)
    def call(self, eng, st, c):
        q = c.q
        if q == 'kj::ArrayPtr::ctor' and len(c.args) == 2:
            es = self.elem(c.fn)
            p, n = c.args
            t = c.fn.tu.types[c.fn.params[1][2]]
            if t[1] == 'p': nb = sub(n, p)
            else: nb = mulc(n, es) if es else None
            if nb is not None and c.fr.fn.short not in ('asBytes', 'asChars'): self.ob(st, c.fr, c.line, p, nb, 'view', 'view constructed')
        elif q in ('memcpy', 'memmove', '__builtin_memcpy') and len(c.args) == 3:
            self.ob(st, c.fr, c.line, c.args[0], c.args[2], 'copy-dst', 'copy destination')
            self.ob(st, c.fr, c.line, c.args[1], c.args[2], 'copy-src', 'copy source')
        elif q in ('memset', '__builtin_memset') and len(c.args) == 3:
            self.ob(st, c.fr, c.line, c.args[0], c.args[2], 'copy-dst', 'fill destination')
        elif q == 'kj::ArrayPtr::copyFrom' and c.this is not None:
            a = self.view(st, c.this); b = self.view(st, c.args[0])
            if a and b:
                uf, ul = user_frame(c.fr, c.line)
                self.ck.obl(eng.entails_eq(st, sub(a[1], b[1])), f'{self.pre}:copy-size', f'{uf.fn.file}:{ul} ({uf.fn.q})', f'copy between views of different sizes {show(a[1])} and {show(b[1])}' + path(st), uf.fn.q)
        elif q in self.bulk:
            for p, n, what in self.bulk[q](self, st, c): self.ob(st, c.fr, c.line, p, n, 'bulk', what)
    def view(self, st, v):
        """(ptr, size) of an ArrayPtr object given by pointer or value"""
        if v[0] == 'addr': o = lambda f: self.eng.load(st, ('f', v[1], f))
        elif v[0] in ('agg', 'ld', 'fo', 'call', 'sym'): o = lambda f: self.eng.field_of(v, f)
        else: return None
        s = o('kj::ArrayPtr::size_'); self.eng.uns.setdefault(s, 64)
        return o('kj::ArrayPtr::ptr'), s
    def elem(self, fn):
        t = fn.tu.types[fn.params[0][2]]
        return t[2] if t[1] == 'p' else None
    def deref(self, eng, st, fr, p, line):
        if fr is None or p[0] == 'addr' and p[1][0] != 'x': return
        if not self.base_known(st, p) and self.local(st, p) is None: return
        self.ob(st, fr, line, p, ONE, 'element', 'memory access')
    def run(self, f, setup=None, **kw):
        r = self.eng.run(f, setup=setup, **kw)
        self.ck.engine_stats(self.eng)
        self.eng.stats.update(paths=0, branches=0, calls=0, inlined=0, merges=0); self.eng.stats['functions'] = set()
        return r

def contains_base(p, b):
    d = sub(p, b)
    return d[0] == 'i' or len(d[2]) < len(p[2])
