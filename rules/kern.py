"""Shared vocabulary for analysing header kernels through witness functions (IR level)."""
from ir import *
from prog import AnalysisBroken, VERIF
import re

def src_where(outs_or_fn): return f'{outs_or_fn.file}:{outs_or_fn.line}'

def params_of(fn):
    """top-level parameter types of a (non-template) witness function"""
    d = fn.dem; i = d.index('('); s = d[i + 1:d.rindex(')')]
    out = []; depth = 0; cur = ''
    for ch in s:
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Kern:
    def __init__(self, ck, witness, extra=(), **kw):
        self.ck = ck; self.kw = kw
        self.mod = load_ir([f'{VERIF}/witness/{w}' for w in ([witness] if isinstance(witness, str) else witness)], extra)
        self.ws = {f.short[4:]: f for f in self.mod.fns.values() if f.blocks is not None and f.short.startswith('vp::') and not re.search(r"\$_|\blambda\b", f.dem)}
        self.stats = {}
    def merge(self, srcs, extra=()):
        """analyse these translation units together with the witness"""
        m = load_ir(srcs, extra)
        for f in m.fns.values():
            o = self.mod.fns.get(f.name)
            if o is None or (o.blocks is None and f.blocks is not None):
                self.mod.fns[f.name] = f; self.mod.bydem.setdefault(f.short, []).append(f)
        for n, g in m.globs.items():
            o = self.mod.globs.get(n)
            if o is None or 'init' not in o: self.mod.globs[n] = g
    def names(self, prefix): return [n for n in self.ws if n.startswith(prefix)]
    def engine(self, **kw):
        k = dict(self.kw); k.update(kw)
        return IR(self.mod, **k)
    def run(self, name, eng=None, setup=None, **kw):
        f = self.ws.get(name)
        if f is None: raise AnalysisBroken(f'witness {name} missing')
        e = eng or self.engine(**kw)
        args = []
        named = {}
        for a in f.args:
            nm = 'ret' if a[2] == 's' else (a[3] or f'a{a[0]}')
            t = e.P(nm) if a[1][0] == 'p' else e.N(nm, a[1][1] if a[1][0] == 'i' else 64)
            args.append(t); named[nm] = t
        e.named = named
        def su(eng, st, ar):
            if setup: setup(eng, st, named)
        try:
            outs = e.run(f, args, su)
        except Budget as b:
            raise AnalysisBroken(f'{name}: analysis budget exceeded ({b})')
        self.ck.engine_stats(e)
        return e, outs, named
    def impl(self, f, e=None):
        """the repository functions this witness runs through (for the report)"""
        return f

def pathinfo(o):
    return ' | path: ' + (o.st.facts_str() or 'unconditional')[:300] + ' | events: ' + ', '.join(repr(x) for x in o.events)[:300]

def inrepo(o, default=''):
    """a repository location mentioned on this path (last event), for the report"""
    for ev in reversed(o.events):
        if ev.where and not ev.where.startswith('witness'): return ev.where
    return default
