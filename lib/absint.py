"""Path-sensitive guard/typestate dataflow over the type-resolved AST.

Values are canonical terms (global value numbering with linear normal form), each abstract state
carries the branch conditions that dominate the current point on its path, and rules are evaluated
at program events (calls, stores, returns) against that state.  Repository helpers are inlined up to
a stated bound so that extracting or merging helpers does not change a verdict.  Loops are
over-approximated by forgetting everything their body may change.  No code is executed and no
solver is used: entailment is a bounded syntactic combination of linear guards."""
import math
import sys
from prog import AnalysisBroken
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ terms
_tid = {}
def tid(t):
    i = _tid.get(t)
    if i is None:
        i = _tid[t] = len(_tid)
    return i

ZERO = ('i', 0); ONE = ('i', 1); NULL = ZERO
TRUE = ('i', 1); FALSE = ('i', 0)
UNK = ('unk',)

def I(n): return ('i', int(n))

def _lin(t):
    k = t[0]
    if k == 'i': return t[1], {}
    if k == 'lin': return t[1], dict(t[2])
    return 0, {t: 1}

def _mk(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d: return ('i', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: tid(x[0]))))

def add(a, b):
    ca, da = _lin(a); cb, db = _lin(b)
    for t, k in db.items(): da[t] = da.get(t, 0) + k
    return _mk(ca + cb, da)
def neg(a):
    c, d = _lin(a)
    return _mk(-c, {t: -k for t, k in d.items()})
def sub(a, b): return add(a, neg(b))
def mulc(a, n):
    c, d = _lin(a)
    return _mk(c * n, {t: k * n for t, k in d.items()})
def mul(a, b):
    if a[0] == 'i': return mulc(b, a[1])
    if b[0] == 'i': return mulc(a, b[1])
    # distribute over linear forms
    ca, da = _lin(a); cb, db = _lin(b)
    if len(da) * len(db) <= 6:
        r = mulc(b, ca)
        r = add(r, _mk(0, {t: k * cb for t, k in da.items()}))
        for t, k in da.items():
            for u, m in db.items():
                x, y = (t, u) if tid(t) <= tid(u) else (u, t)
                r = add(r, _mk(0, {('mul', x, y): k * m}))
        return r
    x, y = (a, b) if tid(a) <= tid(b) else (b, a)
    return ('mul', x, y)
def divc(a, n):
    if n in (0, 1): return a
    c, d = _lin(a)
    if c % n == 0 and all(k % n == 0 for k in d.values()):
        return _mk(c // n, {t: k // n for t, k in d.items()})
    if c > 0 and d and all(k % n == 0 and k > 0 for k in d.values()):    # floor((n*x + c)/n), x >= 0
        return _mk(c // n, {t: k // n for t, k in d.items()})
    return ('div', a, I(n))

def xdivc(a, n):
    """exact division (difference of pointers into one array)"""
    r = divc(a, n)
    return ('xd', a, n) if r[0] == 'div' else r

def subst(t, a, b):
    if t == a: return b
    if not isinstance(t, tuple) or not t: return t
    k = t[0]
    if k in ('i', 'sym', 's', 'g', 'v'): return t
    if k == 'lin':
        r = ('i', t[1]); ch = False
        for x, c in t[2]:
            y = subst(x, a, b); ch = ch or y is not x
            r = add(r, mulc(y, c))
        return r if ch else t
    if k == 'mul':
        x, y = subst(t[1], a, b), subst(t[2], a, b)
        return t if x is t[1] and y is t[2] else mul(x, y)
    n = tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return n if any(x is not y for x, y in zip(n, t)) else t

def terms_in(t, out=None):
    if out is None: out = set()
    if isinstance(t, tuple):
        out.add(t)
        for x in t:
            if isinstance(x, tuple): terms_in(x, out)
    return out

def contains(t, sub_):
    if t == sub_: return True
    if isinstance(t, tuple):
        return any(contains(x, sub_) for x in t if isinstance(x, tuple))
    return False

def find_terms(t, pred, out=None):
    if out is None: out = []
    if isinstance(t, tuple):
        if t and pred(t): out.append(t)
        for x in t:
            if isinstance(x, tuple): find_terms(x, pred, out)
    return out

# ------------------------------------------------------------------ conditions
# ('ge', L)  L >= 0 ;  ('eq', L) ; ('ne', L) ; ('t', term) ; ('f', term) ; True ; False
def c_ge(L):
    if L[0] == 'i': return L[1] >= 0
    if L[0] == 'lin':
        from math import gcd
        g = 0
        for _, k in L[2]: g = gcd(g, abs(k))
        if g > 1: L = _mk(L[1] // g, {t: k // g for t, k in L[2]})
    return ('ge', L)
def c_eq(L):
    if L[0] == 'i': return L[1] == 0
    if L[0] == 'lin':
        from math import gcd
        if L[2][0][1] < 0: L = neg(L)
        if L[0] != 'lin': return ('eq', L)
        g = 0
        for _, k in L[2]: g = gcd(g, abs(k))
        if g > 1:
            if L[1] % g: return False
            L = _mk(L[1] // g, {t: k // g for t, k in L[2]})
    return ('eq', L)
def c_not(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'ge': return c_ge(sub(neg(c[1]), ONE))
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 't': return ('f', c[1])
    if k == 'f': return ('t', c[1])
    if k == 'and': return ('or', c_not(c[1]), c_not(c[2]))
    if k == 'or': return ('and', c_not(c[1]), c_not(c[2]))
    raise Exception(c)

BOOLOPS = ('ge', 'eq', 'ne', 't', 'f')
def cond_to_val(c):
    if c is True: return TRUE
    if c is False: return FALSE
    return ('cond', c)
def val_to_cond(v):
    if v[0] == 'i': return v[1] != 0
    if v[0] == 'cond': return v[1]
    if v[0] in ('addr', 'str', 'clo'): return True
    if v[0] == 'just' or v[0] == 'new': return True
    if v[0] == 'op' and v[1] in ('&', '|') and _boolish(v[2]) and _boolish(v[3]):
        a, b = val_to_cond(v[2]), val_to_cond(v[3])
        if v[1] == '&':
            if a is False or b is False: return False
            if a is True: return b
            if b is True: return a
            return ('and', a, b)
        if a is True or b is True: return True
        if a is False: return b
        if b is False: return a
        return ('or', a, b)
    if v[0] == 'optr':
        if v[1][0] in ('new', 'just'): return True
        if v[1] == NULL: return False
    return c_not(c_eq(v)) if v[0] not in ('some',) else ('t', v)

def _boolish(v):
    return v[0] == 'cond' or v in (TRUE, FALSE) or (v[0] == 'op' and v[1] in ('&', '|') and _boolish(v[2]) and _boolish(v[3]))

class State:
    __slots__ = ('mem', 'epoch', 'fver', 'ges', 'eqs', 'nes', 'tr', 'ev', 'ts', 'visits', 'dead')
    def __init__(s):
        s.mem = {}; s.epoch = 0; s.fver = {}; s.ges = {}; s.eqs = {}; s.nes = {}; s.tr = {}; s.ev = (); s.ts = {}; s.visits = {}
    def clone(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.epoch = s.epoch; n.fver = dict(s.fver); n.ges = dict(s.ges); n.eqs = dict(s.eqs)
        n.nes = dict(s.nes); n.tr = dict(s.tr); n.ev = s.ev; n.ts = dict(s.ts); n.visits = dict(s.visits)
        return n
    def facts_str(s):
        return '; '.join([f'{show(k)} >= 0' for k in s.ges] + [f'{show(k)} == 0' for k in s.eqs] + [f'{show(k)} != 0' for k in s.nes] +
                         [('' if v else '!') + show(k) for k, v in s.tr.items()])

def show(t, d=0):
    try: return show_(t, d)
    except (IndexError, TypeError, AttributeError): return str(t)[:200]
def show_(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    if d > 7: return '..'
    k = t[0]
    s = lambda x: show(x, d + 1)
    if not isinstance(k, str): return '(' + ', '.join(s(x) for x in t) + ')'
    if k == 'i': return str(t[1])
    if k == 'lin':
        out = []
        for x, c in t[2]: out.append((f'{c}*' if c not in (1, -1) else ('-' if c == -1 else '')) + s(x))
        if t[1]: out.append(str(t[1]))
        return '(' + ' + '.join(out) + ')'
    if k == 'mul': return f'{s(t[1])}*{s(t[2])}'
    if k == 'div': return f'{s(t[1])}/{s(t[2])}'
    if k == 'op': return f'({s(t[2])} {t[1]} {s(t[3])})'
    if k == 'sym': return str(t[1])
    if k == 'ld': return s(t[1])
    if k == 'f': return f'{s(t[1])}.{t[2].rsplit("::",1)[-1]}'
    if k == 'fo': return f'{s(t[1])}.{t[2].rsplit("::",1)[-1]}'
    if k == 'd': return f'*{s(t[1])}'
    if k == 'v': return f'${t[1]}'
    if k == 'addr': return f'&{s(t[1])}'
    if k == 'call': return f'{t[1].rsplit("::",1)[-1]}({", ".join(s(x) for x in t[2])})'
    if k == 'cond': return s(t[1])
    if k == 'ge': return f'{s(t[1])}>=0'
    if k == 'eq': return f'{s(t[1])}==0'
    if k == 'ne': return f'{s(t[1])}!=0'
    if k == 'agg' and len(t) == 2: return '{' + ', '.join(s(x) for x in t[1]) + '}'
    if k == 'agg': return '{' + ', '.join(f'{f.rsplit("::",1)[-1] if isinstance(f,str) else f}={s(v)}' for f, v in t[2]) + '}'
    return k + '(' + ', '.join(s(x) for x in t[1:]) + ')'

class Call:
    """call-site event passed to hooks"""
    __slots__ = ('q', 'fn', 'this', 'args', 'line', 'fr', 'node', 'res', 'argnodes', 'kind')
    def __repr__(s): return f'{s.q}({show(s.this) if s.this else ""}; {", ".join(show(a) for a in s.args)})@{s.line}'

class Frame:
    __slots__ = ('fn', 'tu', 'depth', 'this', 'parent', 'line', 'recv')
    def __init__(s, fn, this, parent, depth, line=0):
        s.fn = fn; s.tu = fn.tu; s.this = this; s.parent = parent; s.depth = depth; s.line = line
    def stack(s):
        out = []; f = s
        while f: out.append(f.fn.q); f = f.parent
        return out
    def where(s, line):
        out = f'{s.fn.file}:{line} ({s.fn.q})'
        f = s
        while f.parent:
            out += f' <- {f.parent.fn.file}:{f.line} ({f.parent.fn.q})'
            f = f.parent
        return out
    def root(s):
        f = s
        while f.parent: f = f.parent
        return f

class Outs:
    __slots__ = ('brk', 'cont', 'ret', 'goto', 'thrown')
    def __init__(s):
        s.brk = []; s.cont = []; s.ret = []; s.goto = {}; s.thrown = []

IDENT = {'kj::mv', 'kj::fwd', 'kj::cp', 'std::move', 'std::forward', 'kj::implicitCast', 'kj::refIfLvalue', 'kj::_::refIfLvalue',
         'kj::downcast', 'kj::constCast', 'kj::asConst', 'kj::copy', 'std::launder', '__builtin_launder', 'std::as_const'}

class Budget(Exception):
    pass

import re as _re
ARRN = _re.compile(r'\[(\d+)\]$')
class Engine:
    def __init__(self, prog, cap=64, depth=6, size=350, opaque=(), inline=None, pure=(), steps=4_000_000, detach=False, hot=()):
        self.prog = prog
        self.cap = cap; self.maxdepth = depth; self.maxsize = size
        self.opaque = set(opaque); self.inline_extra = inline; self.pure = set(pure)
        self.call_hooks = {}      # qname -> [cb(eng, st, call)]
        self.any_call_hooks = []  # cb(eng, st, call)
        self.store_hooks = []     # cb(eng, st, fr, loc, val, line)
        self.deref_hooks = []
        self.ret_hooks = []
        self.models = {}          # qname -> cb(eng, st, call) -> [(st, val)] or None
        self.quiet = 0
        self.uns = {}             # terms known unsigned -> bits
        self.steps = steps; self.nsteps = 0
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'branches': 0, 'inlined': 0, 'merges': 0}
        self.detach = detach
        self.nofold = False
        self.async_calls = {}
        self._const_cache = {}
        self.extra_inline_size = {}
        self.hot = set(hot)
        self.nowatch_dtor = True
        self.dtor_watch = set()
        self.fault_throws = True
        self.run_dtors = False
        self.raw = set()          # classes analysed from their own source instead of the built-in models
        self.wrap_split = False   # case-split 32-bit unsigned `x + c` / `x - c` on wrap-around
        self.pelem = {}           # pointer term -> pointee size
        self.xelem = {}; self.xsize = {}   # array object location -> element size / count

    # -------------------------------------------------------------- helpers
    def fresh(self, st, site, hint=''):
        n = st.visits.get(site, 0); st.visits[site] = n + 1
        return ('sym', f'{hint}#{site}' + (f'.{n}' if n else ''))

    def site(self, fr, line, node=None):
        return f'{fr.fn.file}:{line}:{(node and self._nid(node)) or 0}'
    def _nid(self, node):
        m = self._const_cache
        k = id(node)
        v = m.get(k)
        if v is None:
            v = m[k] = len(m) + 1
        return v

    # -------------------------------------------------------------- memory
    def is_heap(self, loc):
        while True:
            k = loc[0]
            if k == 'f' or k == 'x': loc = loc[1]; continue
            if k == 'val' or k == 'as':
                loc = loc[1]; continue
            return k not in ('v', 't', 'ref')
    def lastfield(self, loc):
        if loc[0] == 'f': return loc[2]
        if loc[0] == 'x': return self.lastfield(loc[1]) if loc[1][0] == 'f' else '[]'
        if loc[0] == 'val': return self.lastfield(loc[1])
        return '*'

    def field_of(self, v, f):
        k = v[0]
        if k == 'agg':
            for n, x in v[2]:
                if n == f: return x
            return self.field_of(v[3], f) if v[3] is not None else ('fo', v[1], f)
        if k == 'ld': return ('ld', ('f', v[1], f)) + v[2:]
        if k == 'i': return ZERO
        return ('fo', v, f)

    def load(self, st, loc):
        mem = st.mem
        v = mem.get(loc)
        if v is not None:
            return self._absorb(st, loc, v)
        k = loc[0]
        if k == 'f':
            # ancestor value?
            base = loc[1]
            if base in mem or base[0] in ('f', 'val', 'x', 't', 'v'):
                bv = self._load_plain(st, base)
                if bv is not None: return self.field_of(bv, loc[2])
        if k == 'val':
            bv = self._load_plain(st, loc[1])
            if bv is not None:
                if bv[0] == 'just': return bv[1]
                return ('fo', bv, 'val')
        if k == 'd' and loc[1][0] == 'objp':
            return loc[1][1]
        return self._absorb(st, loc, ('ld', loc, st.epoch if self.is_heap(loc) else 0, st.fver.get(self.lastfield(loc), 0)))

    def _absorb(self, st, loc, v):
        # if sub-fields have been separately stored, make an aggregate
        return v

    def _load_plain(self, st, loc):
        v = st.mem.get(loc)
        if v is not None: return v
        if loc[0] == 'f':
            b = self._load_plain(st, loc[1])
            if b is not None: return self.field_of(b, loc[2])
        if loc[0] == 'val':
            b = self._load_plain(st, loc[1])
            if b is not None:
                return b[1] if b[0] == 'just' else ('fo', b, 'val')
        if loc[0] == 'd' and loc[1][0] == 'objp': return loc[1][1]
        return None

    def load_obj(self, st, loc):
        """value of a class object incl. separately stored fields"""
        base = self.load(st, loc)
        subs = [(k[2], v) for k, v in st.mem.items() if k[0] == 'f' and k[1] == loc]
        if subs:
            return ('agg', loc, tuple(sorted(subs)), base)
        return base

    def store(self, st, loc, val, fr=None, line=0):
        if self.store_hooks and not self.quiet and fr is not None:
            for h in self.store_hooks: h(self, st, fr, loc, val, line)
        self._store(st, loc, val)
    def _store(self, st, loc, val):
        mem = st.mem
        # drop descendants
        dead = [k for k in mem if k is not loc and self._desc(k, loc)]
        for k in dead: del mem[k]
        if self.is_heap(loc):
            f = self.lastfield(loc)
            if f == '*' and loc[0] == 'd' and loc[1][0] in ('new', 'objp'):
                pass
            else:
                st.fver[f] = st.fver.get(f, 0) + 1
                dead = [k for k in mem if k != loc and self.is_heap(k) and self.lastfield(k) == f and not self._distinct(k, loc)]
                for k in dead: del mem[k]
        mem[loc] = val

    def _desc(self, k, loc):
        while k[0] in ('f', 'x', 'val', 'as'):
            k = k[1]
            if k == loc: return True
        return False
    def _distinct(self, a, b):
        # same field, different roots: distinct if both rooted at distinct 'new' objects or linear offset differs by nonzero constant
        while a[0] in ('f', 'val') and b[0] == a[0] and a[2:] == b[2:]:
            a = a[1]; b = b[1]
        if a[0] == 'd' and b[0] == 'd':
            d = sub(a[1], b[1])
            if d[0] == 'i' and d[1] != 0: return True
            if a[1][0] == 'new' and b[1][0] == 'new': return a != b
        return False

    def havoc_heap(self, st):
        st.epoch = st.epoch + 1 if isinstance(st.epoch, int) else st.epoch
        dead = [k for k in st.mem if self.is_heap(k)]
        for k in dead: del st.mem[k]

    # -------------------------------------------------------------- facts
    def is_uns(self, t):
        k = t[0]
        if k in ('mul', 'div'): return self.is_uns(t[1]) and self.is_uns(t[2])
        if k == 'i': return t[1] >= 0
        if k == 'lin': return t[1] >= 0 and all(c > 0 and self.is_uns(x) for x, c in t[2])
        if k == 'cond': return True
        if k == 'op' and t[1] == '&' : return self.is_uns(t[2]) or self.is_uns(t[3])
        if k == 'op' and t[1] in ('>>', '%', '|', '<<', '/'): return self.is_uns(t[2])
        if k == 'tr': return t[2] == 'u'
        return t in self.uns

    def ub(self, t):
        """structural upper bound of an unsigned term, or None"""
        k = t[0]
        if k == 'i': return t[1]
        if k == 'lin':
            r = t[1]
            for x, c in t[2]:
                if c < 0:
                    if not self.is_uns(x): return None
                    continue
                b = self.ub(x)
                if b is None: return None
                r += c * b
            return r
        r = None
        b = self.uns.get(t)
        if b: r = (1 << b) - 1
        def mn(v):
            nonlocal r
            if v is not None: r = v if r is None else min(r, v)
        if k == 'div' and t[2][0] == 'i' and t[2][1] > 0:
            b = self.ub(t[1]); mn(None if b is None else b // t[2][1])
        elif k == 'mul':
            if self.is_uns(t[1]) and self.is_uns(t[2]):
                a, b = self.ub(t[1]), self.ub(t[2]); mn(None if a is None or b is None else a * b)
        elif k == 'op' and t[1] == '&':
            for x in (t[2], t[3]):
                if self.is_uns(x): mn(self.ub(x))
        elif k == 'op' and t[1] == '%' and t[3][0] == 'i' and t[3][1] > 0: mn(t[3][1] - 1)
        elif k == 'tr' and t[2] == 'u': mn((1 << t[1]) - 1)
        elif k == 'cond': mn(1)
        elif k == 'min':
            for x in (t[1], t[2]): mn(self.ub(x))
        elif k == 'max':
            a, b = self.ub(t[1]), self.ub(t[2]); mn(None if a is None or b is None else max(a, b))
        return r

    def nonneg(self, L):
        if L[0] == 'i': return L[1] >= 0
        if L[0] == 'lin': return L[1] >= 0 and all(c > 0 and self.is_uns(x) for x, c in L[2])
        return self.is_uns(L)

    def axioms(self, L):
        """bounds implied by the structure of terms in L (as facts f >= 0)"""
        out = []
        c, d = _lin(L)
        for t in d:
            if t[0] == 'op' and t[1] == '&' and t[3][0] == 'i' and t[3][1] >= 0:
                out.append(sub(t[3], t))
            if t[0] == 'op' and t[1] == '&':
                for x in (t[2], t[3]):
                    if self.is_uns(x): out.append(sub(x, t))
            if t[0] == 'op' and t[1] == '%' and t[3][0] == 'i' and t[3][1] > 0 and self.is_uns(t[2]):
                out.append(sub(I(t[3][1] - 1), t))
            if t[0] == 'tr' and t[2] == 'u':
                out.append(sub(I((1 << t[1]) - 1), t))
                if self.is_uns(t[3]): out.append(sub(t[3], t))
            if t[0] == 'min':
                out.append(sub(t[1], t)); out.append(sub(t[2], t))
            if t[0] == 'max':
                out.append(sub(t, t[1])); out.append(sub(t, t[2]))
            if t[0] == 'div' and t[2][0] == 'i' and t[2][1] > 0 and self.is_uns(t[1]):
                n = t[2][1]
                out.append(sub(t[1], mulc(t, n)))           # n*(x/n) <= x
                out.append(sub(add(mulc(t, n), I(n - 1)), t[1]))
            if t[0] == 'xd':
                e = sub(mulc(t, t[2]), t[1]); out.append(e); out.append(neg(e))
            b = self.uns.get(t)
            if b: out.append(sub(I((1 << b) - 1), t))
        return out

    def entails_ge(self, st, L, deep=False):
        if self.nonneg(L): return True
        c, d = _lin(L)
        if len(d) >= 1 and L[0] == 'lin':
            g = 0
            for v in d.values(): g = math.gcd(g, v)
            if g > 1:
                L = _mk(c // g, {t: v // g for t, v in d.items()}); c, d = _lin(L)
                if self.nonneg(L): return True
        ts = set(d)
        pool = list(st.ges)
        for e in st.eqs: pool.append(e); pool.append(neg(e))
        pool += self.axioms(L)
        rel = [f for f in pool if any(t in ts for t, _ in (f[2] if f[0] == 'lin' else ((f, 1),)))]
        r1 = []
        for f in rel:
            r = sub(L, f)
            if self.nonneg(r): return True
            r1.append(r)
        if not deep: return False
        return self.prove_ge(st, L, 6 if deep is True else deep)

    def prove_ge(self, st, L, depth):
        """bounded search for a non-negative combination of guards (and products of a guard with an
        unsigned factor) that yields L >= 0; each step cancels one term the goal cannot tolerate"""
        pool = list(st.ges)
        for e in st.eqs: pool.append(e); pool.append(neg(e))
        sx = {}; mods = {}
        for f in list(pool) + [L]:
            for t in _lin(f)[1]:
                if t in sx: continue
                if t[0] == 'xd':
                    e = sub(mulc(t, t[2]), t[1]); pool.append(e); pool.append(neg(e))
                elif t[0] == 'op' and t[1] == '%': mods[(t[2], t[3])] = t; sx[t] = 1
                elif t[0] in ('div', 'min', 'max', 'tr') or t[0] == 'op' and t[1] == '&': sx[t] = 1
        if sx:
            for t in list(sx):
                for u in terms_in(t):
                    if u[0] == 'div' : sx.setdefault(u, 1)
            for t in sx:
                pool += self.axioms(t)
                if t[0] == 'div' and (t[1], t[2]) in mods:
                    e = sub(sub(t[1], mulc(t, t[2][1])), mods[(t[1], t[2])]); pool.append(e); pool.append(neg(e))
        idx = {}
        for f in pool:
            for t, k in _lin(f)[1].items(): idx.setdefault((t, k > 0), []).append((f, k))
        seen = {}
        budget = [6000]
        def rec(r, d):
            if self.nonneg(r): return True
            if d == 0 or budget[0] <= 0: return False
            if seen.get(r, -1) >= d: return False
            seen[r] = d
            c, dd = _lin(r)
            bad = None; best = None
            allax = self.axioms(r)
            for t, k in dd.items():
                if k > 0 and self.is_uns(t): continue
                pos = k > 0
                fs = [(f, kk) for f, kk in idx.get((t, pos), ())]
                for f in allax:
                    kk = _lin(f)[1].get(t, 0)
                    if kk and (kk > 0) == pos: fs.append((f, kk))
                if t[0] == 'mul':
                    for x, y in ((t[1], t[2]), (t[2], t[1])):
                        if not self.is_uns(y): continue
                        for f, kk in idx.get((x, pos), ()):
                            g = mul(f, y); kg = _lin(g)[1].get(t, 0)
                            if kg and (kg > 0) == pos: fs.append((g, kg))
                ismul = t[0] == 'mul'
                if not fs:
                    if not any(u[0] == 'mul' and m < 0 for u, m in dd.items()): return False
                    continue
                key = (not ismul, len(fs))
                if best is None or key < best[3]: best = (t, k, fs, key)
            if best is None and any(k < 0 or not self.is_uns(t) for t, k in dd.items()): return False
            if best is None:
                # only the constant is negative: any fact with a negative constant may help
                for f in pool:
                    if _lin(f)[0] < 0 and all(t in dd for t in _lin(f)[1]):
                        budget[0] -= 1
                        m = max(1, -(-(-c) // -_lin(f)[0]))
                        if rec(sub(r, mulc(f, m)), d - 1): return True
                for q in st.eqs:
                    for t, k in _lin(q)[1].items():
                        if t in dd and dd[t] % k == 0:
                            budget[0] -= 1
                            if rec(sub(r, mulc(q, dd[t] // k)), d - 1): return True
                for t in dd:
                    for f, k in idx.get((t, True), ())[:12]:
                        if len(_lin(f)[1]) > 1 and dd[t] > 0 and dd[t] % k == 0:
                            budget[0] -= 1
                            if rec(sub(r, mulc(f, dd[t] // k)), d - 1): return True
                return False
            t, k, fs, _ = best
            from math import gcd
            for f, kk in fs[:40]:
                budget[0] -= 1
                g = gcd(abs(k), abs(kk))
                r2 = sub(mulc(r, abs(kk) // g), mulc(f, abs(k) // g))
                if rec(r2, d - 1): return True
            return False
        return rec(L, depth)

    def simplify(self, st, L):
        """replaces 0/1 condition terms decided on this path by their value"""
        c, d = _lin(L)
        r = ('i', c)
        for t, k in d.items():
            if t[0] == 'cond':
                b = self.decide(st, t[1])
                if b is not None: t = I(1 if b else 0)
            r = add(r, mulc(t, k))
        return r

    def entails_eq(self, st, L):
        c = c_eq(L)
        if c is True or c is False: return c
        if self.decide(st, c) is True: return True
        return self.entails_ge(st, L, True) and self.entails_ge(st, neg(L), True)

    def decide(self, st, c):
        if c is True or c is False: return c
        k = c[0]
        if k == 'ge':
            if c[1] in st.ges: return True
            if self.entails_ge(st, c[1]): return True
            if self.entails_ge(st, sub(neg(c[1]), ONE)): return False
            return None
        if k in ('eq', 'ne'):
            L = c[1]; r = None
            if L in st.eqs: r = True
            elif L in st.nes: r = False
            else:
                for e in st.eqs:
                    for f in (e, neg(e)):
                        d = sub(L, f)
                        if d[0] == 'i': r = (d[1] == 0)
                if r is None:
                    if self.entails_ge(st, sub(L, ONE)) or self.entails_ge(st, sub(neg(L), ONE)): r = False
                    elif not (L[0] != 'lin') and self.entails_ge(st, L) and self.entails_ge(st, neg(L)): r = True
            if r is None: return None
            return r if k == 'eq' else not r
        if k in ('t', 'f'):
            v = st.tr.get(c[1])
            if v is None:
                return None
            return v if k == 't' else not v
        if k in ('and', 'or'):
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if k == 'and':
                if a is False or b is False: return False
                return True if a and b else None
            if a or b: return True
            return False if a is False and b is False else None
        raise Exception(c)

    def assume(self, st, c):
        """add condition; returns False if contradictory"""
        if c is True: return True
        if c is False: return False
        d = self.decide(st, c)
        if d is not None: return d
        k = c[0]
        if k == 'ge':
            st.ges[c[1]] = 1
        elif k == 'eq':
            st.eqs[c[1]] = 1
        elif k == 'ne':
            st.nes[c[1]] = 1
            L = c[1]
            # unsigned != 0  =>  >= 1
            if self.is_uns(L): st.ges[sub(L, ONE)] = 1
            elif self.entails_ge(st, L): st.ges[sub(L, ONE)] = 1
            elif self.entails_ge(st, neg(L)): st.ges[sub(neg(L), ONE)] = 1
        elif k == 't': st.tr[c[1]] = True
        elif k == 'f': st.tr[c[1]] = False
        elif k == 'and': return self.assume(st, c[1]) and self.assume(st, c[2])
        elif k == 'or':
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False: return self.assume(st, c[2])
            if b is False: return self.assume(st, c[1])
        return True

    # -------------------------------------------------------------- type helpers
    def tkind(self, fr_or_tu, ti):
        tu = fr_or_tu
        if ti is None or ti < 0 or ti >= len(tu.types): return ('', 'o', 0, -1, 0)
        return tu.types[ti]

    def mark_type(self, v, t):
        if t[1] == 'u' and v[0] not in ('i', 'lin', 'cond'): self.uns.setdefault(v, t[2])
        elif t[1] == 'e' and v[0] not in ('i', 'lin', 'cond'): self.uns.setdefault(v, t[2])
        elif t[1] == 'b' and v[0] not in ('i', 'lin', 'cond'): self.uns.setdefault(v, 1)
        elif t[1] == 'p' and t[2]: self.pelem.setdefault(v, t[2])

    # -------------------------------------------------------------- expressions
    LV = {'var', 'fld', 'idx', 'gvar', 'this_deref'}

    def is_lv(self, e, fr):
        k = e[0]
        if k in ('var', 'fld', 'idx', 'gvar'): return True
        if k == 'un': return e[1] == '*' or (e[1] in ('++', '--') and not e[3])
        if k == 'asg': return True
        if k in ('call', 'mcall'):
            f = fr.tu.fns[e[1]]
            return self.tkind(fr.tu, f.ret)[1] == 'r'
        if k == 'cast': return e[1] in ('LValueBitCast',) or (e[1] in ('NoOp', 'BaseToDerived') and self.is_lv(e[3], fr))
        if k == 'cond': return self.is_lv(e[2], fr) and self.is_lv(e[3], fr) if e[2] and e[3] else False
        if k == 'bin' and e[1] == ',': return self.is_lv(e[3], fr)
        if k == 'icall': return False
        if k == 'str': return False
        return False

    def lv(self, e, st, fr):
        """evaluate as glvalue -> [(st, loc)]"""
        k = e[0]
        if k == 'var':
            loc = ('v', fr.tu.name, e[1])
            b = st.mem.get(('ref', loc))
            return [(st, b if b is not None else loc)]
        if k == 'gvar': return [(st, ('g', e[1]))]
        if k == 'fld':
            fname = fr.tu.fields[e[2]][0]
            res = []
            if e[3]:
                for s, p in self.ev(e[1], st, fr):
                    self.cur_field = fname
                    dl = self.deref(s, p, fr, e[4])
                    self.cur_field = None
                    res.append((s, self.fld_loc(s, dl, fname, fr, e[2])))
            else:
                for s, b in self.lv(e[1], st, fr):
                    res.append((s, self.fld_loc(s, b, fname, fr, e[2])))
            return res
        if k == 'idx':
            res = []
            for s, b in self.ev(e[1], st, fr):
                for s2, i in self.ev(e[2], s, fr):
                    res.append((s2, self.idx_loc(s2, b, i, fr, e[3], e)))
            return res
        if k == 'un' and e[1] == '*':
            return [(s, self.deref(s, p, fr, e[4])) for s, p in self.ev(e[2], st, fr)]
        if k == 'un' and e[1] in ('++', '--') and not e[3]:
            res = []
            for s, loc in self.lv(e[2], st, fr):
                self._incdec(s, loc, e, fr); res.append((s, loc))
            return res
        if k == 'asg':
            return [(s, l) for s, l, v in self._assign(e, st, fr)]
        if k in ('call', 'mcall') and self.is_lv(e, fr):
            return self._call_node(e, st, fr, want='loc')
        if k == 'cast' and self.is_lv(e, fr):
            return self.lv(e[3], st, fr)
        if k == 'cond' and self.is_lv(e, fr):
            res = []
            for s, b in self.cond(e[1], st, fr):
                res += self.lv(e[2] if b else e[3], s, fr)
            return res
        if k == 'bin' and e[1] == ',':
            res = []
            for s, _ in self.ev(e[2], st, fr): res += self.lv(e[3], s, fr)
            return res
        if k == 'str':
            return [(st, ('g', 'str:' + e[1]))]
        if k == 'icall':
            # may return a reference; treat result as object
            pass
        # prvalue -> temporary
        res = []
        for s, v in self.ev(e, st, fr):
            if v[0] == 'locref':
                res.append((s, v[1])); continue
            t = ('t', f'{self._nid(e)}')
            self._store(s, t, v)
            res.append((s, t))
        return res

    def fld_loc(self, st, base, fname, fr, fi):
        loc = ('f', base, fname)
        r = st.mem.get(('ref', loc))
        if r is not None: return r
        t = self.tkind(fr.tu, fr.tu.fields[fi][1])
        if t[1] == 'r':
            # reference member: refers to object at pointer value stored in member
            v = self._load_plain(st, loc)
            if v is not None and v[0] == 'addr': return v[1]
            if v is None: v = ('ld', loc, 0, 0)   # references never rebind
            return ('d', v)
        return loc

    def deref(self, st, p, fr=None, line=0):
        if self.deref_hooks and not self.quiet:
            for h in self.deref_hooks: h(self, st, fr, p, line)
        if p[0] == 'addr': return p[1]
        return ('d', p)

    def idx_loc(self, st, b, i, fr, line, node):
        if b[0] == 'addr':
            if b[1][0] == 'x' and i[0] == 'i': return ('x', b[1][1], add(b[1][2], i))
            return ('x', b[1], i)
        if b[0] == 'lin' or True:
            # pointer arithmetic in bytes
            sz = self._elem_size(node, fr)
            p = add(b, mulc(i, sz))
            return self.deref(st, p, fr, line)

    def _elem_size(self, node, fr):
        return self._ptr_size_of(node[1], fr) or 1

    def _ptr_size_of(self, e, fr):
        """pointee size of pointer-typed expression (bytes), best effort"""
        t = self.etype(e, fr)
        if t is not None and t[1] in ('p', 'a'): return t[2]
        return None

    def etype(self, e, fr):
        k = e[0]; tu = fr.tu
        if k == 'fld': return self._unref(tu, tu.types[tu.fields[e[2]][1]])
        if k == 'var':
            ti = self.vtypes(fr).get(e[1])
            return self._unref(tu, tu.types[ti]) if ti is not None else None
        if k == 'un': return self._unref(tu, tu.types[e[5]]) if len(e) > 5 and e[5] >= 0 else None
        if k in ('bin', 'asg'): return self._unref(tu, tu.types[e[5]]) if e[5] >= 0 else None
        if k == 'call': return self._unref(tu, tu.types[e[4]])
        if k == 'mcall': return self._unref(tu, tu.types[e[7]])
        if k == 'icall': return self._unref(tu, tu.types[e[4]])
        if k == 'cast': return self._unref(tu, tu.types[e[2]])
        if k == 'cond': return self.etype(e[2], fr) or self.etype(e[3], fr)
        if k == 'idx':
            t = self.etype(e[1], fr)
            if t is not None and t[1] in ('p', 'a') and t[3] >= 0: return tu.types[t[3]]
        if k == 'ctor': return tu.types[e[3]]
        if k == 'init': return tu.types[e[1]]
        if k == 'new': return None
        if k == 'this':
            return None
        return None

    def _unref(self, tu, t):
        if t[1] == 'r' and t[3] >= 0: return tu.types[t[3]]
        return t

    def vtypes(self, fr):
        tu = fr.tu
        m = getattr(tu, 'prog').__dict__.setdefault('_vt', {})
        d = m.get(tu.name)
        if d is None:
            d = m[tu.name] = {}
            for f in tu.fns:
                for p in f.params: d[p[0]] = p[2]
                if f.body is not None: self._collect_vars(f.body, d)
                if f.inits:
                    for i in f.inits: self._collect_vars(i, d)
        return d
    def _collect_vars(self, b, d):
        stack = [b]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                if len(x) == 7 and isinstance(x[0], int) and isinstance(x[1], str) and isinstance(x[2], int) and isinstance(x[5], int):
                    d[x[0]] = x[2]
                stack.extend(x)

    def ev(self, e, st, fr):
        """evaluate to value -> [(st, val)]"""
        self.nsteps += 1
        if self.nsteps > self.steps: raise Budget(f'budget exceeded in {fr.root().fn.q}')
        if e is None: return [(st, UNK)]
        k = e[0]
        m = getattr(self, 'x_' + k, None)
        if m: return m(e, st, fr)
        return [(st, UNK)]

    def x_int(self, e, st, fr): return [(st, ('i', e[1]))]
    def x_bool(self, e, st, fr): return [(st, ('i', e[1]))]
    def x_float(self, e, st, fr): return [(st, ('fl', e[1]))]
    def x_str(self, e, st, fr): return [(st, ('s', e[1]))]
    def x_null(self, e, st, fr): return [(st, NULL)]
    def x_zero(self, e, st, fr): return [(st, ZERO)]
    def x_unk(self, e, st, fr): return [(st, UNK)]
    def x_typeid(self, e, st, fr): return [(st, UNK)]
    def x_this(self, e, st, fr): return [(st, fr.this if fr.this is not None else UNK)]
    def x_fn(self, e, st, fr): return [(st, ('fnp', fr.tu.fns[e[1]].q))]
    def x_mfn(self, e, st, fr): return [(st, ('fnp', fr.tu.fns[e[1]].q))]
    def x_fldref(self, e, st, fr): return [(st, ('fldref', fr.tu.fields[e[1]][0]))]
    def x_gvar(self, e, st, fr):
        if e[1] == 'kj::none': return [(st, ('none',))]
        return [(st, self.load(st, ('g', e[1])))]
    def _loadval(self, s, loc, t):
        v = self.load_obj(s, loc) if (t is not None and t[1] == 'c') or t is None else self.load(s, loc)
        if t is not None:
            if t[1] == 'a':
                m = ARRN.search(t[0])
                if m and t[2]: self.xelem[loc] = t[2]; self.xsize[loc] = int(m.group(1))
                return ('addr', loc)
            self.mark_type(v, t)
        return v
    def x_var(self, e, st, fr):
        out = []
        t = self.etype(e, fr)
        for s, loc in self.lv(e, st, fr):
            out.append((s, self._loadval(s, loc, t)))
        return out
    def x_fld(self, e, st, fr):
        t = self.etype(e, fr)
        return [(s, self._loadval(s, loc, t)) for s, loc in self.lv(e, st, fr)]
    def x_idx(self, e, st, fr):
        t = self.etype(e, fr)
        b = e[1]
        while b[0] == 'cast': b = b[3]
        if b[0] == 'gvar' and b[1] in fr.tu.garr:
            arr = fr.tu.garr[b[1]]
            out = []
            for s, i in self.ev(e[2], st, fr):
                if i[0] == 'i' and 0 <= i[1] < len(arr): out.append((s, I(arr[i[1]]))); continue
                if len(arr) > 16:
                    out.append((s, ('op', 'tbl:' + b[1], i, ZERO))); continue
                for k, val in enumerate(arr):
                    c = c_eq(sub(i, I(k)))
                    if self.decide(s, c) is False: continue
                    s2 = s.clone()
                    if self.assume(s2, c): out.append((s2, I(val)))
            return out
        return [(s, self._loadval(s, loc, t)) for s, loc in self.lv(e, st, fr)]
    def x_await(self, e, st, fr):
        out = []
        for s, v in (self.ev(e[1], st, fr) if e[1] else [(st, UNK)]):
            r = self.on_await(s, v, e, fr)
            out += r
        return out
    def on_await(self, s, v, e, fr):
        self._emit_call(s, 'co_await', None, None, [v], e[2], fr, e)
        self.havoc_heap(s)
        return [(s, ('await', v, self.fresh(s, self.site(fr, e[2], e), 'aw')[1]))]
    def x_throw(self, e, st, fr):
        for s, v in (self.ev(e[1], st, fr) if e[1] else [(st, UNK)]):
            self._emit_call(s, 'throw', None, None, [v], e[2], fr, e)
            self._throw(s, fr)
        return []
    def x_sexpr(self, e, st, fr):
        # GNU statement expression; last expression statement is the value
        body = e[1]
        stmts = body[1]
        o = self.outs_stack[-1]
        states = [st]
        for s in stmts[:-1]:
            states = self.exec(s, states, fr, o)
        out = []
        for s in states:
            last = stmts[-1]
            if last[0] == 'e':
                if self.is_lv(last[1], fr):
                    for s2, loc in self.lv(last[1], s, fr): out.append((s2, self.load_obj(s2, loc)))
                else:
                    out += self.ev(last[1], s, fr)
            else:
                for s2 in self.exec(last, [s], fr, o): out.append((s2, UNK))
        return out
    def x_new(self, e, st, fr):
        out = []
        states = [(st, [])]
        for pa in e[3]:
            states = [(s2, a + [v]) for s, a in states for s2, v in self.ev(pa, s, fr)]
        for s, pargs in states:
            sizes = self.ev(e[4], s, fr) if e[4] else [(s, None)]
            for s2, n in sizes:
                if pargs and len(pargs) >= 1 and e[4] is None:
                    ptr = pargs[-1] if len(pargs) == 1 else pargs[1]
                else:
                    ptr = ('new', self.fresh(s2, self.site(fr, e[5], e), 'new')[1])
                if e[2] is not None:
                    for s3, v in self.ev(e[2], s2, fr):
                        loc = ptr[1] if ptr[0] == 'addr' else ('d', ptr)
                        self.store(s3, loc, v, fr, e[5])
                        out.append((s3, ptr))
                else: out.append((s2, ptr))
        return out
    def x_del(self, e, st, fr):
        out = []
        for s, v in self.ev(e[1], st, fr):
            self._emit_call(s, 'delete', None, None, [v], e[3], fr, e)
            self.havoc_heap(s)
            out.append((s, UNK))
        return out
    def x_atomic(self, e, st, fr):
        states = [(st, [])]
        for a in e[2]:
            states = [(s2, av + [v]) for s, av in states for s2, v in self.ev(a, s, fr)]
        out = []
        for s, av in states:
            c = self._emit_call(s, e[1], None, None, av, e[3], fr, e)
            nm = e[1].replace('__c11', '_').replace('__atomic_load_n', '__atomic_load').replace('__atomic_store_n', '__atomic_store')
            if av and nm.endswith('atomic_load') and len(av) <= 2:
                loc = av[0][1] if av[0][0] == 'addr' else ('d', av[0])
                v = self.load(s, loc)
                if c: c.res = v
                out.append((s, v)); continue
            if len(av) >= 2 and nm.endswith('atomic_store'):
                val = av[2] if len(av) > 2 else av[1]     # clang order: pointer, memory order, value
                loc = av[0][1] if av[0][0] == 'addr' else ('d', av[0])
                self.store(s, loc, val, fr, e[3])
                out.append((s, UNK)); continue
            res = ('call', e[1], tuple(av), self.fresh(s, self.site(fr, e[3], e))[1])
            self.havoc_heap(s)
            if c: c.res = res
            out.append((s, res))
        return out
    def x_lam(self, e, st, fr):
        caps = []
        states = [(st, [])]
        for c in e[2]:
            if c[0] == 'this':
                states = [(s, a + [('this', 0, fr.this if fr.this is not None else UNK)]) for s, a in states]; continue
            if c[0] == -1: continue
            if c[1]:
                ns = []
                for s, a in states:
                    loc = ('v', fr.tu.name, c[0]); r = s.mem.get(('ref', loc))
                    if r is None and loc not in s.mem and c[2] is not None and not (c[2][0] == 'var' and c[2][1] == c[0]):
                        # reference init-capture: bind
                        for s2, l2 in self.lv(c[2], s, fr):
                            ns.append((s2, a + [(c[0], 1, ('addr', l2))]))
                        continue
                    ns.append((s, a + [(c[0], 1, ('addr', r if r is not None else loc))]))
                states = ns
            else:
                ns = []
                for s, a in states:
                    for s2, v in (self.ev(c[2], s, fr) if c[2] is not None else [(s, UNK)]):
                        ns.append((s2, a + [(c[0], 0, v)]))
                states = ns
        fk = tuple(e[1])
        return [(s, ('clo', fr.tu.name, fk, tuple(a), e[3])) for s, a in states]
    def x_init(self, e, st, fr):
        states = [(st, [])]
        for i, a in enumerate(e[2]):
            ns = []
            ft = None
            if i < len(e[3]): ft = fr.tu.types[fr.tu.fields[e[3][i]][1]]
            for s, vs in states:
                if a is None: ns.append((s, vs + [ZERO])); continue
                if ft is not None and ft[1] == 'r' and a is not None:
                    for s2, loc in self.lv(a, s, fr): ns.append((s2, vs + [('addr', loc)]))
                else:
                    for s2, v in self.ev(a, s, fr): ns.append((s2, vs + [v]))
            states = ns
        out = []
        for s, vs in states:
            names = [fr.tu.fields[i][0] for i in e[3]]
            if len(names) >= len(vs) and names:
                out.append((s, ('agg', fr.tu.types[e[1]][0], tuple(sorted(zip(names, vs))), None)))
            else:
                if len(vs) == 1 and fr.tu.types[e[1]][1] != 'a' and fr.tu.types[e[1]][1] != 'c': out.append((s, vs[0]))
                else: out.append((s, ('agg', fr.tu.types[e[1]][0], tuple(enumerate(vs)), None)))
        return out
    def x_cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e[1], st, fr):
            out += self.ev(e[2] if b else e[3], s, fr)
        return out
    def x_cast(self, e, st, fr):
        ck = e[1]
        if self.is_lv(e, fr):
            t = self.etype(e, fr)
            return [(s, self._loadval(s, loc, t)) for s, loc in self.lv(e, st, fr)]
        out = []
        for s, v in self.ev(e[3], st, fr):
            if ck == 'IntegralCast': v = self.int_cast(s, v, fr.tu.types[e[4]], fr.tu.types[e[2]])
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                v = cond_to_val(val_to_cond(v))
            elif ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'): v = ('fcast', v)
            elif ck == 'Dynamic': v = ('dyn', v)
            elif ck == 'ToVoid': v = UNK
            elif ck == 'BooleanToSignedIntegral': pass
            out.append((s, v))
        return out
    def int_cast(self, st, v, a, b):
        if v[0] == 'i':
            n = v[1]
            if b[1] == 'b': return I(1 if n else 0)
            if b[1] in ('u', 'e') and b[2]: n &= (1 << b[2]) - 1
            elif b[1] == 's' and b[2]:
                n &= (1 << b[2]) - 1
                if n >> (b[2] - 1): n -= 1 << b[2]
            return I(n)
        if b[1] == 'b': return cond_to_val(val_to_cond(v))
        ab = a[2] if a[1] != 'b' else 1
        if v[0] == 'cond': return v
        if a[1] == 'b': return v
        if b[2] >= ab:
            if a[1] in ('u', 'e'): self._markv(v, ab)
            if a[1] in ('u', 'e') and b[1] == 's' and b[2] == ab:
                if self.entails_ge(st, sub(I((1 << (ab - 1)) - 1), v)): return v
                return ('sx', ab, v)
            if a[1] == 's' and b[1] in ('u', 'e'):
                if v[0] == 'sx' and v[1] == b[2]: return v[2]
                if self.entails_ge(st, v) or (any(t[0] == 'xd' for t in _lin(v)[1]) and self.prove_ge(st, v, 3)): return v
                if v[0] == 'xd': self.uns.setdefault(v, b[2]); return v     # element count of a container
                r = ('uc', b[2], v); self.uns.setdefault(r, b[2]); return r
            return v
        if b[1] == 'u' or b[1] == 'e':
            mx = I((1 << b[2]) - 1)
            u = self.ub(v)
            if ((u is not None and u <= mx[1]) or self.entails_ge(st, sub(mx, v), 3 if self.wrap_split else False)) and self.entails_ge(st, v, 3 if self.wrap_split else False): return v
            return ('tr', b[2], 'u', v)
        mx = I((1 << (b[2] - 1)) - 1)
        if self.entails_ge(st, sub(mx, v)) and self.entails_ge(st, v): return v
        return ('tr', b[2], 's', v)
    def _markv(self, v, bits):
        if v[0] in ('ld', 'call', 'sym', 'fo', 'op', 'await'): self.uns.setdefault(v, bits)

    def x_un(self, e, st, fr):
        op = e[1]
        if op == '*':
            t = self.etype(e, fr)
            return [(s, self._loadval(s, loc, t)) for s, loc in self.lv(e, st, fr)]
        if op == '&':
            if e[2][0] in ('fn', 'mfn', 'fldref'): return self.ev(e[2], st, fr)
            return [(s, loc[1] if loc[0] == 'd' else ('addr', loc)) for s, loc in self.lv(e[2], st, fr)]
        if op == '!':
            return [(s, FALSE if b else TRUE) for s, b in self.cond(e[2], st, fr)] if self._needs_branch(e[2]) else \
                   [(s, cond_to_val(c_not(val_to_cond(v)))) for s, v in self.ev(e[2], st, fr)]
        if op in ('++', '--'):
            out = []
            for s, loc in self.lv(e[2], st, fr):
                t = self.etype(e, fr)
                old = self.load(s, loc)
                if t is not None: self.mark_type(old, t)
                self._incdec(s, loc, e, fr)
                out.append((s, old if e[3] else self.load(s, loc)))
            return out
        if op == '-': return [(s, neg(v)) for s, v in self.ev(e[2], st, fr)]
        if op == '+' or op == '__extension__': return self.ev(e[2], st, fr)
        if op == '~':
            return [(s, ('i', ~v[1]) if v[0] == 'i' else ('op', '~', v, ZERO)) for s, v in self.ev(e[2], st, fr)]
        return [(s, UNK) for s, v in self.ev(e[2], st, fr)]
    def _incdec(self, s, loc, e, fr):
        old = self.load(s, loc)
        t = self.etype(e, fr)
        n = 1
        if t is not None and t[1] == 'p': n = t[2] or 1
        if t is not None: self.mark_type(old, t)
        self.store(s, loc, add(old, I(n if e[1] == '++' else -n)), fr, e[4])

    def _needs_branch(self, e):
        return e[0] == 'bin' and e[1] in ('&&', '||') or (e[0] == 'un' and e[1] == '!' and self._needs_branch(e[2]))

    def x_bin(self, e, st, fr):
        op = e[1]
        if op in ('&&', '||'):
            return [(s, TRUE if b else FALSE) for s, b in self.cond(e, st, fr)]
        if op == ',':
            out = []
            for s, _ in self.ev(e[2], st, fr): out += self.ev(e[3], s, fr)
            return out
        out = []
        for s, a in self.ev(e[2], st, fr):
            for s2, b in self.ev(e[3], s, fr):
                if self.wrap_split and op in ('+', '-') and (a[0] == 'i') != (b[0] == 'i'):
                    w = self._wrap(s2, op, a, b, e, fr)
                    if w is not None: out += w; continue
                out.append((s2, self.binop(s2, op, a, b, e, fr)))
        return out
    def _wrap(self, st, op, a, b, e, fr):
        t = self.etype(e, fr)
        if t is None or t[1] != 'u' or t[2] != 32: return None
        M = (1 << 32) - 1
        r = add(a, b) if op == '+' else sub(a, b)
        if op == '+':
            x, k = (a, b[1]) if b[0] == 'i' else (b, a[1])
            u = self.ub(x)
            if u is None or u < M - 16 or u > M or k <= 0 or self.entails_ge(st, sub(I(M - k), x), True): return None
            s2 = st.clone(); out = []
            if self.assume(st, c_ge(sub(I(M - k), x))): out.append((st, r))
            if k == 1:
                if self.assume(s2, c_eq(sub(x, I(M)))): out.append((s2, ZERO))
            elif self.assume(s2, c_ge(sub(x, I(M - k + 1)))): out.append((s2, sub(r, I(M + 1))))
            return out
        return None
    def binop(self, st, op, a, b, e, fr):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return cond_to_val(self.cmp(op, a, b))
        if op in ('+', '-'):
            ta = self.etype(e[2], fr); tb = self.etype(e[3], fr)
            pa = ta is not None and ta[1] in ('p', 'a'); pb = tb is not None and tb[1] in ('p', 'a')
            if pa and not pb:
                if a[0] == 'addr' and tuple(a[1][:1]) == ('x',) : 
                    i = add(a[1][2], b if op == '+' else neg(b)); return ('addr', ('x', a[1][1], i))
                if a[0] == 'addr' and ta[1] == 'a': return ('addr', ('x', a[1], b if op == '+' else neg(b)))
                b = mulc(b, ta[2] or 1)
            elif pb and not pa:
                a = mulc(a, tb[2] or 1)
            elif pa and pb and op == '-':
                return xdivc(sub(a, b), ta[2] or 1)
            r = add(a, b) if op == '+' else sub(a, b)
            return r
        if op == '*': return mul(a, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if op == '/': return I(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
                if op == '%': return I(x - (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) * y)
                if op == '&': return I(x & y)
                if op == '|': return I(x | y)
                if op == '^': return I(x ^ y)
                if op == '<<': return I(x << y)
                if op == '>>': return I(x >> y)
            except Exception: return UNK
        if op == '/' and b[0] == 'i': return divc(a, b[1]) if b[1] > 0 else ('op', '/', a, b)
        if op == '<<' and b[0] == 'i' and 0 <= b[1] < 64: return mulc(a, 1 << b[1])
        if op == '>>' and b[0] == 'i' and 0 <= b[1] < 64 and self.is_uns(a): return divc(a, 1 << b[1])
        if op in ('&', '|', '^'):
            if a[0] == 'i' or (b[0] != 'i' and tid(a) > tid(b)): a, b = b, a
            if op == '|' and b == ZERO: return a
            if a == b and op != '^': return a
        return ('op', op, a, b)
    def cmp(self, op, a, b):
        if a[0] in ('fl', 'fcast') or b[0] in ('fl', 'fcast'):
            return ('t', ('op', op, a, b))
        # a none/just comparison
        if op in ('==', '!='):
            if ('none',) in (a, b):
                o = b if a == ('none',) else a
                if o == ('none',): r = True
                elif o[0] == 'just': r = False
                elif o[0] == 'mptrval': r = c_not(self.truth(o[1]))
                else: r = ('f', ('some', o))
                return r if op == '==' else c_not(r)
            if a[0] == 'cond' and b[0] == 'i':
                r = a[1] if b[1] else c_not(a[1]); return r if op == '==' else c_not(r)
            if b[0] == 'cond' and a[0] == 'i':
                r = b[1] if a[1] else c_not(b[1]); return r if op == '==' else c_not(r)
            if a[0] == 'addr' and b == NULL or b[0] == 'addr' and a == NULL: return op == '!='
            if a[0] in ('optr', 'new', 'mptr') or b[0] in ('optr', 'new', 'mptr'):
                if b == NULL: r = c_not(self.truth(a)); return r if op == '==' else c_not(r)
                if a == NULL: r = c_not(self.truth(b)); return r if op == '==' else c_not(r)
            if a[0] == 'addr' and b[0] == 'addr' and a != b and a[1][0] in ('v', 'g') and b[1][0] in ('v', 'g'): return op == '!='
            r = c_eq(sub(a, b))
            return r if op == '==' else c_not(r)
        if op == '<': return c_ge(sub(sub(b, a), ONE))
        if op == '>': return c_ge(sub(sub(a, b), ONE))
        if op == '<=': return c_ge(sub(b, a))
        if op == '>=': return c_ge(sub(a, b))
    def truth(self, v):
        if v[0] == 'mptr':
            m = v[1]
            if m == ('none',): return False
            if m[0] == 'just': return True
            if m[0] == 'mptrval': return self.truth(m[1])
            return ('t', ('some', m))
        return val_to_cond(v)

    def _assign(self, e, st, fr):
        """-> [(st, loc, val)]"""
        op = e[1]; out = []
        if op == '=':
            for s, v in self.ev(e[3], st, fr):
                for s2, loc in self.lv(e[2], s, fr):
                    self.store(s2, loc, v, fr, e[4]); out.append((s2, loc, v))
            return out
        bop = op[:-1]
        for s, v in self.ev(e[3], st, fr):
            for s2, loc in self.lv(e[2], s, fr):
                t = self.etype(e[2], fr)
                old = self.load(s2, loc)
                if t is not None: self.mark_type(old, t)
                nv = self.binop(s2, bop, old, v, e, fr)
                if t is not None and t[1] in ('u', 's') and nv[0] == 'i': nv = self.int_cast(s2, nv, ('', 's', 64, -1), t)
                self.store(s2, loc, nv, fr, e[4]); out.append((s2, loc, nv))
        return out
    def x_asg(self, e, st, fr): return [(s, v) for s, l, v in self._assign(e, st, fr)]

    # ---- calls
    def x_call(self, e, st, fr):
        return self._call_node(e, st, fr, want='val')
    x_mcall = x_call
    def x_icall(self, e, st, fr):
        states = [(s, v, []) for s, v in self.ev(e[1], st, fr)]
        for a in e[2]:
            states = [(s2, c, av + [v]) for s, c, av in states for s2, v in self.ev(a, s, fr)]
        out = []
        for s, c, av in states:
            q = c[1] if c[0] == 'fnp' else '(indirect)'
            self._emit_call(s, q, None, None, [c] + av, e[3], fr, e)
            self.havoc_heap(s)
            out.append((s, ('call', q, tuple([c] + av), self.fresh(s, self.site(fr, e[3], e))[1])))
        return out

    def eval_args(self, argnodes, fn, st, fr):
        states = [(st, [])]
        for i, a in enumerate(argnodes):
            byref = False
            if i < len(fn.params):
                pt = fn.tu.types[fn.params[i][2]] if fn.params[i][2] >= 0 else None
                byref = pt is not None and pt[1] == 'r'
            ns = []
            for s, av in states:
                if byref and a is not None:
                    for s2, loc in self.lv(a, s, fr): ns.append((s2, av + [('addr', loc)]))
                else:
                    for s2, v in self.ev(a, s, fr): ns.append((s2, av + [v]))
            states = ns
        return states

    def _call_node(self, e, st, fr, want):
        tu = fr.tu
        fn = tu.fns[e[1]]
        if e[0] == 'mcall':
            obj, args, virt, arrow, line = e[2], e[3], e[4], e[5], e[6]
            states = []
            if arrow:
                for s, p in self.ev(obj, st, fr): states.append((s, p))
            else:
                for s, loc in self.lv(obj, st, fr): states.append((s, loc[1] if loc[0] == 'd' else ('addr', loc)))
        else:
            args, line = e[2], e[3]; virt = 0
            states = [(st, None)]
        out = []
        for s, this in states:
            for s2, av in self.eval_args(args, fn, s, fr):
                out += self.call(fn, this, av, s2, fr, line, e, virt)
        isref = self.tkind(tu, fn.ret)[1] == 'r'
        if want == 'loc':
            res = []
            for s, v in out:
                if v[0] == 'locref': res.append((s, v[1]))
                elif v[0] == 'addr': res.append((s, v[1]))
                else: res.append((s, ('d', v)))
            return res
        if isref:
            res = []
            t = self._unref(tu, tu.types[fn.ret])
            for s, v in out:
                loc = v[1] if v[0] in ('locref', 'addr') else ('d', v)
                res.append((s, self._loadval(s, loc, t)))
            return res
        return out

    def _emit_call(self, st, q, fn, this, args, line, fr, node):
        if self.quiet: return None
        hs = self.call_hooks.get(q)
        if not hs and not self.any_call_hooks: return None
        c = Call(); c.q = q; c.fn = fn; c.this = this; c.args = args; c.line = line; c.fr = fr; c.node = node; c.res = None; c.kind = 'call'
        if hs:
            for h in hs: h(self, st, c)
        for h in self.any_call_hooks: h(self, st, c)
        return c

    def should_inline(self, fn, fr):
        if fn.body is None: return False
        if fn.q in self.opaque: return False
        if fr.depth >= self.maxdepth: return False
        lim = self.extra_inline_size.get(fn.q, self.maxsize)
        if fn.size() > lim: return False
        if fn.co: return False
        f = fr
        while f:
            if f.fn is fn or f.fn.k == fn.k: return False
            f = f.parent
        if self.inline_extra is not None:
            r = self.inline_extra(fn, fr)
            if r is not None: return r
        if fn.file in NOINLINE_FILES: return False
        return True

    def call(self, fn, this, args, st, fr, line, node, virt=0):
        """returns [(st, val)], val ('locref', loc) for references"""
        self.stats['calls'] += 1
        q = fn.q
        self._emit_call(st, q, fn, this, args, line, fr, node)
        if 'N' in fn.fl or (self.fault_throws and q == 'kj::throwRecoverableException'):
            self._throw(st, fr); return []
        # models
        m = self.models.get(q)
        if m is not None:
            c = Call(); c.q = q; c.fn = fn; c.this = this; c.args = args; c.line = line; c.fr = fr; c.node = node; c.res = None
            r = m(self, st, c)
            if r is not None: return r
        r = self.builtin(fn, q, this, args, st, fr, line, node)
        if r is not None: return r
        if virt and 'F' not in fn.fl:
            return self.opaque_call(fn, this, args, st, fr, line, node)
        d = self.prog.resolve(fn)
        if self.should_inline(d, fr):
            self.stats['inlined'] += 1
            return self.inline(d, this, args, st, fr, line, node)
        return self.opaque_call(fn, this, args, st, fr, line, node)

    def objval(self, st, p):
        """value of the object pointed to by p"""
        loc = p[1] if p[0] == 'addr' else ('d', p)
        return self.load_obj(st, loc)

    def builtin(self, fn, q, this, args, st, fr, line, node):
        if q in IDENT and args:
            a = args[0]
            return [(st, ('locref', a[1]) if a[0] == 'addr' else a)]
        cn = fn.cname or ''
        if cn in self.raw: return None
        if cn.startswith('kj::'):
            if cn == 'kj::_::DebugExpressionStart' :
                a = args[0]; return [(st, self.objval(st, a) if a[0] == 'addr' else a)]
            if cn == 'kj::_::DebugExpression':
                sh = fn.short
                if sh in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                    a = self._unwrap(st, this); b = args[0]
                    if b[0] == 'addr': b = self.objval(st, b)
                    bn = node[3][0] if node[0] == 'mcall' and node[3] else None
                    return [(st, cond_to_val(self.cmp(sh[8:], a, b)))]
                if sh == 'operator conv': return [(st, cond_to_val(self.truth(self._unwrap(st, this))))]
                if sh == 'ctor': return None
            if cn == 'kj::_::DebugComparison' and fn.short == 'operator conv':
                return [(st, self._unwrap(st, this))]
            if cn == 'kj::Maybe' or cn == 'kj::_::NullableValue':
                return self.maybe(fn, this, args, st, fr, line, node)
            if cn == 'kj::Own':
                return self.own(fn, this, args, st, fr, line, node)
            if cn == 'kj::_::Deferred':
                if fn.short == 'cancel':
                    self._store(st, this[1], ('deferred', None)); return [(st, UNK)]
                if fn.short == 'run':
                    v = self.objval(st, this)
                    self._store(st, this[1] if this[0] == 'addr' else ('d', this), ('deferred', None))
                    if v[0] == 'deferred' and v[1] is not None:
                        return [(s, UNK) for s, _ in self.run_closure(v[1], [], st, fr, line)]
                    return [(st, UNK)]
        if q == 'kj::_::readMaybe':
            a = args[0]
            t = self.tkind(fn.tu, fn.ret)
            if t[1] == 'p':
                v = self.objval(st, a) if a[0] == 'addr' else a
                # Maybe<T>& -> T* ; Maybe<T&> -> T*
                pt = fn.params[0][2]
                pts = fn.tu.types[pt][0]
                if pts.rstrip('&').rstrip().endswith('&>'):    # Maybe<T&>
                    if v[0] in ('just', 'mptrval'): return [(st, v[1])]
                    if v == ('none',): return [(st, NULL)]
                    return [(st, ('mptr', v))]
                if v[0] == 'just' or v == ('none',):
                    return [(st, NULL if v == ('none',) else ('addr', ('val', a[1])))] if a[0] == 'addr' else [(st, ('mptr', v))]
                loc = a[1] if a[0] == 'addr' else ('d', a)
                return [(st, ('mloc', loc, v))]
            return [(st, ('locref', a[1]) if a[0] == 'addr' and t[1] == 'r' else (self.objval(st, a) if a[0] == 'addr' else a))]
        if q == 'kj::defer' and args:
            a = args[0]
            v = self.objval(st, a) if a[0] == 'addr' else a
            return [(st, ('deferred', v))]
        if fn.short == 'operator()' and 'L' in fn.fl and this is not None:
            v = self.objval(st, this)
            if v[0] == 'clo':
                return self.run_closure(v, args, st, fr, line, fn)
            return None
        if q in ('kj::runCatchingExceptions', 'kj::evalNow', 'kj::_::runCatchingExceptions') and args:
            v = self.objval(st, args[0]) if args[0][0] == 'addr' else args[0]
            if v[0] == 'clo':
                out = []
                s2 = st.clone()
                for s, r in self.run_closure(v, [], st, fr, line):
                    out.append((s, ('none',) if 'Catching' in q else ('call', q, (r,), 0)))
                self.havoc_heap(s2)
                out.append((s2, ('just', ('sym', 'exception'))if 'Catching' in q else ('call', q, (UNK,), 1)))
                return out
        if q in ('kj::min', 'std::min', 'kj::max', 'std::max') and len(args) == 2:
            a, b = [self.objval(st, x) if x[0] == 'addr' else x for x in args]
            if a[0] == 'i' and b[0] == 'i':
                return [(st, I(min(a[1], b[1]) if 'min' in q else max(a[1], b[1])))] if self.tkind(fn.tu, fn.ret)[1] != 'r' else [(st, ('locref', args[0][1]))]
            if tid(a) > tid(b): a, b = b, a
            v = ('min' if q.endswith('min') else 'max', a, b)
            if self.is_uns(a) and self.is_uns(b): self.uns.setdefault(v, 64)
            if self.tkind(fn.tu, fn.ret)[1] == 'r':
                t = ('t', 'mm%d' % self._nid(node)); self._store(st, t, v); return [(st, ('locref', t))]
            return [(st, v)]
        return None

    def _unwrap(self, st, p):
        v = self.objval(st, p)
        return v

    def maybe(self, fn, this, args, st, fr, line, node):
        sh = fn.short
        if sh == 'ctor': return None
        loc = (this[1] if this[0] == 'addr' else ('d', this)) if this is not None else None
        v = self.load(st, loc)
        isref = fn.cname == 'kj::Maybe' and fn.tu.recs[fn.cls] is not None and fn.tu.types[fn.tu.recs[fn.cls]['t']][0].endswith('&>')
        some = True if v[0] == 'just' else False if v == ('none',) else self.truth(v[1]) if v[0] == 'mptrval' else ('t', ('some', v))
        if sh == 'operator conv':
            t = self.tkind(fn.tu, fn.ret)
            if t[1] == 'b': return [(st, cond_to_val(some))]
            return [(st, ('mloc', loc, v) if v[0] != 'just' and v != ('none',) else (NULL if v == ('none',) else ('addr', ('val', loc))))]
        if sh in ('operator*', 'operator->'):
            l = ('val', loc)
            return [(st, ('locref', l) if sh == 'operator*' else ('addr', l))]
        if sh == 'operator==' and fn.cname == 'kj::Maybe':
            a = args[0]
            if a[0] == 'addr': a = self.objval(st, a)
            if a == ('none',) or 'kj::None' in self.tkind(fn.tu, fn.params[0][2])[0]:
                return [(st, cond_to_val(c_not(some)))]
            return None
        if sh == 'operator!=':
            return [(st, cond_to_val(some))] if 'kj::None' in self.tkind(fn.tu, fn.params[0][2])[0] else None
        if sh == 'operator=':
            pt = self.tkind(fn.tu, fn.params[0][2]) if fn.params else ('', 'o', 0, -1)
            self.store(st, loc, self._maybe_from(st, fn, args), fr, line)
            return [(st, ('locref', loc))]
        if sh == 'emplace':
            nv = ('just', ('call', 'emplace', tuple(args), self.fresh(st, self.site(fr, line, node))[1]))
            self.store(st, loc, nv, fr, line)
            return [(st, ('locref', ('val', loc)))]
        if sh in ('orDefault',) and fn.body is not None:
            a = args[0]
            av = self.objval(st, a) if a[0] == 'addr' else a
            out = []
            s1 = st.clone()
            if self.assume(s1, some): out.append((s1, v[1] if v[0] == 'just' else ('fo', v, 'val')))
            if self.assume(st, c_not(some)):
                if av[0] == 'clo': out += self.run_closure(av, [], st, fr, line)
                else: out.append((st, av))
            if self.tkind(fn.tu, fn.ret)[1] == 'r':
                return None
            return out
        if sh == 'map':
            a = args[0]; av = self.objval(st, a) if a[0] == 'addr' else a
            if av[0] != 'clo': return None
            out = []
            s1 = st.clone()
            if self.assume(s1, some):
                inner = ('addr', ('val', loc))
                for s, r in self.run_closure(av, [inner], s1, fr, line): out.append((s, ('just', r[1] if r[0] == 'locref' else r)))
            if self.assume(st, c_not(some)): out.append((st, ('none',)))
            return out
        return None

    def _maybe_from(self, st, fn, args):
        """value of a Maybe constructed/assigned by fn(args)"""
        if not args: return ('none',)
        pt = self.tkind(fn.tu, fn.params[0][2])
        base = self._unref(fn.tu, pt)[0].replace('const ', '')
        a = args[0]
        if 'kj::None' == base or base == 'std::nullptr_t' or base == 'nullptr_t':
            return ('none',)
        if base.startswith('kj::Maybe<') or base.startswith('kj::_::NullableValue<'):
            cls = fn.tu.types[fn.tu.recs[fn.cls]['t']][0].replace('const ', '')
            v = self.objval(st, a) if a[0] == 'addr' else a
            if base.replace(' ', '') == cls.replace(' ', '') or True:
                # a moved-from Maybe becomes none (kj semantics) unless Maybe<T&>
                if pt[0].endswith('&&') and a[0] == 'addr' and not base.endswith('&>'):
                    self._store(st, a[1], ('none',))
                return v
        if a[0] == 'addr':
            clsn = fn.tu.types[fn.tu.recs[fn.cls]['t']][0]
            if clsn.endswith('&>'): return ('just', a)
            return ('just', self.load_obj(st, a[1]))
        if pt[1] == 'p':  # NullableValue(T*) / Maybe(T*)
            if a == NULL: return ('none',)
            return ('mptrval', a)
        return ('just', a)

    def own(self, fn, this, args, st, fr, line, node):
        sh = fn.short
        if sh == 'ctor' or sh == 'dtor': return None
        loc = (this[1] if this[0] == 'addr' else ('d', this)) if this is not None else None
        v = self.load(st, loc)
        p = v if v[0] == 'new' or v == NULL else (v[1] if v[0] == 'ownptr' else ('optr', v))
        if sh in ('operator->', 'get'): return [(st, p)]
        if sh == 'operator*': return [(st, ('locref', ('d', p)))]
        if sh == 'operator conv': return [(st, p)]
        if sh == 'operator=':
            a = args[0] if args else NULL
            nv = self._own_from(st, a)
            self._emit_call(st, 'kj::Own::assign', fn, this, [nv], line, fr, node)
            self.store(st, loc, nv, fr, line)
            return [(st, ('locref', loc))]
        if sh in ('operator==', 'operator!='):
            a = args[0]
            if a[0] == 'addr': a = self.objval(st, a)
            return [(st, cond_to_val(self.cmp(sh[8:], p, a)))]
        if sh in ('addRef',):
            return [(st, ('ownptr', p))]
        if sh == 'downcast':
            nv = v
            self._store(st, loc, NULL)
            return [(st, nv)]
        return None
    def _own_from(self, st, a):
        if a[0] == 'addr':
            v = self.load(st, a[1])
            self._store(st, a[1], NULL)
            return v
        return a

    def x_ctor(self, e, st, fr):
        fn = fr.tu.fns[e[1]]
        out = []
        for s, av in self.eval_args(e[2], fn, st, fr):
            out += self.construct(fn, av, s, fr, e[4], e, e[3])
        return out

    def construct(self, fn, args, st, fr, line, node, ti=-1):
        self.stats['calls'] += 1
        q = fn.q
        cn = fn.cname or ''
        self._emit_call(st, q, fn, None, args, line, fr, node)
        m = self.models.get(q)
        if m is not None:
            c = Call(); c.q = q; c.fn = fn; c.this = None; c.args = args; c.line = line; c.fr = fr; c.node = node; c.res = None
            r = m(self, st, c)
            if r is not None: return r
        if cn == 'kj::_::Debug::Fault' and self.fault_throws:
            self._throw(st, fr); return []
        raw = cn in self.raw
        if not raw and (cn == 'kj::Maybe' or cn == 'kj::_::NullableValue'):
            return [(st, self._maybe_from(st, fn, args))]
        if not raw and cn == 'kj::Own':
            if not args: return [(st, NULL)]
            if len(args) >= 2 or fn.params and self.tkind(fn.tu, fn.params[0][2])[1] == 'p':
                return [(st, ('ownptr', args[0]) if args[0] != NULL else NULL)]
            return [(st, self._own_from(st, args[0]))]
        if 'c' in fn.fl and args and not (raw and self.prog.resolve(fn).body is not None):
            # copy/move constructor of anything: value copy
            a = args[0]
            v = self.load_obj(st, a[1]) if a[0] == 'addr' else a
            if fn.body is None or fn.size() <= 3 or 'U' in fn.fl or cn.startswith('kj::') or cn.startswith('std::'):
                if cn in MOVED_NULL and a[0] == 'addr' and self.tkind(fn.tu, fn.params[0][2])[0].endswith('&&'):
                    self._store(st, a[1], ZERO)
                return [(st, v)]
            return [(st, v)]
        if cn == 'kj::_::Deferred':
            a = args[0] if args else UNK
            return [(st, ('deferred', self.objval(st, a) if a[0] == 'addr' else a))]
        if cn in ('kj::_::DebugExpression',):
            a = args[0]; return [(st, self.objval(st, a) if a[0] == 'addr' else a)]
        d = self.prog.resolve(fn)
        if d.body is not None and self.should_inline(d, fr) and cn not in NOINLINE_CTOR:
            self.stats['inlined'] += 1
            t = ('t', f'c{self._nid(node)}')
            for k in [k for k in st.mem if k == t or self._desc(k, t) or (k[0] == 'ref' and self._desc(k[1], t))]: del st.mem[k]
            st.mem[t] = ('agg', cn, (), None)
            res = []
            for s, _ in self.inline(d, ('addr', t), args, st, fr, line, node):
                res.append((s, self.load_obj(s, t)))
            return res
        if not args and 'd' in fn.fl:
            return [(st, ('agg', cn, (), None))]
        if not self._pure_ctor(fn): 
            pass
        vals = tuple(args)
        self._escape_args(fn, args, st)
        return [(st, ('call', q, vals, self._uniq_or_epoch(st, fr, line, node)))]

    def _pure_ctor(self, fn): return True
    def _uniq_or_epoch(self, st, fr, line, node):
        return self.fresh(st, self.site(fr, line, node))[1]

    def _escape_args(self, fn, args, st):
        for i, a in enumerate(args):
            if a[0] != 'addr': continue
            if i < len(fn.params):
                t = self.tkind(fn.tu, fn.params[i][2])
                if t[1] == 'r':
                    rt = self._unref(fn.tu, t)
                    if rt[4]: continue  # const T&
                    self._invalidate(st, a[1])
                elif t[1] == 'p':
                    rt = fn.tu.types[t[3]] if t[3] >= 0 else None
                    if rt is not None and rt[4]: continue
                    self._invalidate(st, a[1])
            else: self._invalidate(st, a[1])
    def _invalidate(self, st, loc):
        if loc[0] == 'x': loc = loc[1]
        if loc in st.mem or not self.is_heap(loc):
            n = st.visits.get(('inv', loc), 0) + 1; st.visits[('inv', loc)] = n
            self._store(st, loc, ('sym', f'out{n}:{show(loc)}'))
        else:
            f = self.lastfield(loc); st.fver[f] = st.fver.get(f, 0) + 1

    def is_pure(self, fn):
        if fn.q in self.pure: return True
        if 'C' in fn.fl and 'M' in fn.fl: return True
        for p in PURE_PREFIX:
            if fn.q.startswith(p): return True
        return fn.q in PURE_FNS

    def opaque_call(self, fn, this, args, st, fr, line, node):
        q = fn.q
        t = self.tkind(fn.tu, fn.ret)
        av = (() if this is None else (this,)) + tuple(args)
        # closures passed to opaque functions
        clos = [self.objval(st, a) if a[0] == 'addr' else a for a in args]
        clos = [c for c in clos if c[0] == 'clo']
        if clos: self.on_closure_passed(fn, this, args, clos, st, fr, line)
        if self.is_pure(fn):
            # arguments passed by reference: use their values
            vals = tuple(self.objval(st, a) if a[0] == 'addr' and not self.is_heap(a[1]) else a for a in av)
            r = ('call', q, vals, st.epoch)
        else:
            r = ('call', q, av, self._uniq_or_epoch(st, fr, line, node))
            self._escape_args(fn, args, st)
            if this is not None and this[0] == 'addr' and 'C' not in fn.fl: self._invalidate(st, this[1])
            self.havoc_heap(st)
        if t[1] == 'r': return [(st, ('locref', ('d', r)))]
        self.mark_type(r, t)
        if t[1] == 'b': return [(st, ('cond', ('t', r)))]
        return [(st, r)]

    def on_closure_passed(self, fn, this, args, clos, st, fr, line):
        if not self.detach or self.quiet: return
        for c in clos:
            s = st.clone()
            self.havoc_heap(s)
            s.ts = dict(s.ts); s.ts['async'] = s.ts.get('async', 0) + 1
            self.run_closure(c, None, s, fr, line, detached=True)

    def run_closure(self, clo, args, st, fr, line, fn=None, detached=False):
        _, tuname, fks, caps, _l = clo
        tu = None
        for t in self.prog.tus:
            if t.name == tuname: tu = t
        if fn is None or fn.idx not in fks:
            if not fks: return [(st, UNK)]
            fn = tu.fns[fks[0]]
        d = fn
        if d.body is None: return [(st, UNK)]
        f = fr
        while f:
            if f.fn is d: return [(st, UNK)]
            f = f.parent
        if fr.depth > self.maxdepth + 3: return [(st, UNK)]
        this = None
        for c in caps:
            if c[0] == 'this': this = c[2]
            elif c[1] == 0:
                self._store(st, ('v', tuname, c[0]), c[2])
                st.mem.pop(('ref', ('v', tuname, c[0])), None)
            else:
                if c[2][0] == 'addr' and c[2][1] != ('v', tuname, c[0]): st.mem[('ref', ('v', tuname, c[0]))] = c[2][1]
        if args is None or len(args) < len(d.params):
            args = (args or []) + [('sym', f'{d.file}:{d.line}:{p[1]}') for p in d.params[len(args or []):]]
        return self.inline(d, this, args, st, fr, line, None)

    # -------------------------------------------------------------- function bodies
    def bind_params(self, d, args, st):
        for i, p in enumerate(d.params):
            loc = ('v', d.tu.name, p[0])
            # forget stale activation
            for k in [k for k in st.mem if k == loc or self._desc(k, loc)]: del st.mem[k]
            st.mem.pop(('ref', loc), None)
            t = self.tkind(d.tu, p[2])
            a = args[i] if i < len(args) else ('sym', f'arg{i}')
            if t[1] == 'r':
                st.mem[('ref', loc)] = a[1] if a[0] == 'addr' else ('d', a)
            else:
                if a[0] == 'addr' and t[1] == 'c': a = self.load_obj(st, a[1])
                st.mem[loc] = a
                self.mark_type(a, t)

    def inline(self, d, this, args, st, fr, line, node):
        nf = Frame(d, this, fr, fr.depth + 1, line)
        self.bind_params(d, args, st)
        return self.run_body(d, st, nf)

    def run_body(self, d, st, nf):
        o = Outs()
        self.outs_stack.append(o)
        try:
            states = [st]
            if d.inits:
                for i in d.inits: states = self.run_init(i, states, nf, d)
            normal = self.exec(d.body, states, nf, o)
            rounds = 0
            while o.goto and rounds < 3:
                rounds += 1
                g = o.goto; o.goto = {}
                for lab, sts in g.items():
                    normal += self.seek(d.body, lab, self.limit(sts, nf), nf, o)
        finally:
            self.outs_stack.pop()
        res = o.ret + [(s, UNK) for s in normal]
        if len(self.outs_stack): self.outs_stack[-1].thrown.extend(o.thrown)
        self.last_thrown = o.thrown
        if len(res) > self.cap: res = self.limit_pairs(res, nf)
        return res

    def run_init(self, i, states, nf, d):
        out = []
        for s in states:
            if i[1] is None: out.append(s); continue
            if i[0] == 'base' or i[0] == 'self':
                e = i[1]
                if e[0] == 'ctor':
                    cfn = nf.tu.fns[e[1]]
                    for s2, av in self.eval_args(e[2], cfn, s, nf):
                        self._emit_call(s2, cfn.q, cfn, nf.this, av, e[4], nf, e)
                        dd = self.prog.resolve(cfn)
                        if dd.body is not None and self.should_inline(dd, nf):
                            out += [s3 for s3, _ in self.inline(dd, nf.this, av, s2, nf, e[4], e)]
                        else:
                            if 'c' in cfn.fl and av: pass
                            out.append(s2)
                else: out += [s2 for s2, _ in self.ev(e, s, nf)]
                continue
            fname, ft = nf.tu.fields[i[0]][0], nf.tu.types[nf.tu.fields[i[0]][1]]
            base = nf.this[1] if nf.this[0] == 'addr' else ('d', nf.this)
            loc = ('f', base, fname)
            if ft[1] == 'r':
                for s2, l in self.lv(i[1], s, nf):
                    s2.mem[('ref', loc)] = l; s2.mem[loc] = ('addr', l)
                    out.append(s2)
            else:
                for s2, v in self.ev(i[1], s, nf):
                    self.store(s2, loc, v, nf, i[2]); out.append(s2)
        return out

    def _throw(self, st, fr):
        if self.outs_stack and not self.quiet: self.outs_stack[-1].thrown.append(st)

    # -------------------------------------------------------------- entry
    outs_stack = []
    cur_field = None
    def run(self, fn, setup=None, args=None, this=None):
        """analyse fn as an entry point; returns [(st, retval)]"""
        st = State()
        if this is None and ('M' in fn.fl or 'L' in fn.fl or 'K' in fn.fl or 'D' in fn.fl): this = ('sym', 'this')
        if 'L' in fn.fl: pass
        fr = Frame(fn, this, None, 0)
        if args is None:
            args = []
            for p in fn.params:
                args.append(('sym', p[1] or f'p{p[0]}'))
        self.bind_params(fn, args, st)
        for i, p in enumerate(fn.params):
            t = self.tkind(fn.tu, p[2])
            self.mark_type(args[i], t)
        if setup: setup(self, st, fr)
        self.outs_stack = []
        self.stats['functions'].add(fn.q)
        self.nsteps = 0
        res = self.run_body(fn, st, fr)
        self.stats['paths'] += len(res) + len(self.last_thrown)
        for h in self.ret_hooks:
            for s, v in res: h(self, s, fr, v)
        return res

    def param(self, fn, name):
        for p in fn.params:
            if p[1] == name: return ('sym', name)
        raise AnalysisBroken(f'{fn.q}: parameter {name} not found')

    # -------------------------------------------------------------- conditions
    def cond(self, e, st, fr):
        """-> [(st, bool)]"""
        k = e[0]
        if k == 'bin' and e[1] == '&&':
            out = []
            for s, b in self.cond(e[2], st, fr):
                if b: out += self.cond(e[3], s, fr)
                else: out.append((s, False))
            return out
        if k == 'bin' and e[1] == '||':
            out = []
            for s, b in self.cond(e[2], st, fr):
                if b: out.append((s, True))
                else: out += self.cond(e[3], s, fr)
            return out
        if k == 'un' and e[1] == '!':
            return [(s, not b) for s, b in self.cond(e[2], st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            if v[0] == 'mloc':
                c = ('t', ('some', v[2]))
            else: c = self.truth(v)
            out += self.branch(s, c)
        return out

    def branch(self, s, c):
        d = self.decide(s, c)
        if d is not None: return [(s, d)]
        self.stats['branches'] += 1
        s2 = s.clone()
        out = []
        if self.assume(s, c): out.append((s, True))
        if self.assume(s2, c_not(c)): out.append((s2, False))
        return out

    # -------------------------------------------------------------- statements
    def limit(self, states, fr):
        if len(states) <= self.cap: return states
        return [p[0] for p in self.limit_pairs([(s, None) for s in states], fr)]

    def limit_pairs(self, pairs, fr):
        """merge states (same typestate/events/result) down to the cap"""
        self.stats['merges'] += 1
        groups = {}
        for s, v in pairs:
            groups.setdefault((s.ev, tuple(sorted(s.ts.items(), key=repr)), v if v is None or v[0] in ('i',) else 0), []).append((s, v))
        out = []
        per = max(1, self.cap // max(1, len(groups)) // 2)
        for g in groups.values():
            if len(g) <= per: out += g; continue
            # merge into `per` buckets
            buckets = [[] for _ in range(per)]
            for i, x in enumerate(g): buckets[i * per // len(g)].append(x)
            for b in buckets:
                if b: out.append(self.merge(b))
        return out

    def merge(self, b):
        s0, v0 = b[0]
        n = s0.clone()
        v = v0
        ep = s0.epoch
        for s, w in b[1:]:
            if s.epoch != ep: n.epoch = max(n.epoch, s.epoch) + 1
            for name in ('ges', 'eqs', 'nes'):
                d = getattr(n, name); e = getattr(s, name)
                for k in [k for k in d if k not in e]: del d[k]
            for k in [k for k in n.tr if s.tr.get(k) != n.tr[k]]: del n.tr[k]
            for k in list(n.mem):
                if s.mem.get(k) != n.mem[k]:
                    if k[0] == 'ref': del n.mem[k]; continue
                    if self.is_heap(k):
                        del n.mem[k]
                        f = self.lastfield(k); n.fver[f] = max(n.fver.get(f, 0), s.fver.get(f, 0)) + 1000
                    else: n.mem[k] = ('sym', f'j{len(_tid)}:{show(k)}')
            for f, x in s.fver.items():
                if n.fver.get(f, 0) != x: n.fver[f] = max(n.fver.get(f, 0), x) + 1000
            for k, x in s.visits.items(): n.visits[k] = max(n.visits.get(k, 0), x)
            if v != w: v = ('sym', f'jr{len(_tid)}')
        return n, v

    def exec(self, s, states, fr, o):
        if s is None or not states: return states
        k = s[0]
        m = getattr(self, 's_' + STMT.get(k, k), None)
        if m is None: return states
        return m(s, states, fr, o)

    def s_nop(self, s, states, fr, o): return states
    def s_e(self, s, states, fr, o):
        out = []
        e = s[1]
        for st in states:
            if self.is_lv(e, fr): out += [x for x, _ in self.lv(e, st, fr)]
            else: out += [x for x, _ in self.ev(e, st, fr)]
        return out
    def s_block(self, s, states, fr, o):
        decls = []
        marks = self._marks(o)
        for x in s[1]:
            if not states: break
            if x and x[0] == 'decl':
                for v in x[1]:
                    if v[5] >= 0: decls.append(v)
            states = self.exec(x, states, fr, o)
            if len(states) > self.cap: states = self.limit(states, fr)
        if decls: states = self._scope_exit(decls, states, fr, o, marks)
        return states
    def _marks(self, o): return (len(o.brk), len(o.cont), len(o.ret), {k: len(v) for k, v in o.goto.items()})
    def _scope_exit(self, decls, states, fr, o, marks):
        ds = [v for v in decls if self._dtor_matters(fr.tu.fns[v[5]])]
        if not ds: return states
        for v in reversed(ds):
            states = self._dtor(v, states, fr)
            nb = o.brk[:marks[0]] + self._dtor(v, o.brk[marks[0]:], fr); o.brk = nb
            o.cont = o.cont[:marks[1]] + self._dtor(v, o.cont[marks[1]:], fr)
            nr = []
            for st, val in o.ret[marks[2]:]:
                nr += [(s2, val) for s2 in self._dtor(v, [st], fr)]
            o.ret = o.ret[:marks[2]] + nr
            for lab in o.goto:
                m = marks[3].get(lab, 0)
                o.goto[lab] = o.goto[lab][:m] + self._dtor(v, o.goto[lab][m:], fr)
        return states
    def _dtor_matters(self, fn):
        cn = fn.cname or ''
        return cn == 'kj::_::Deferred' or cn in self.dtor_watch or cn in self.raw
    def _dtor(self, v, states, fr):
        out = []
        fn = fr.tu.fns[v[5]]
        loc = ('v', fr.tu.name, v[0])
        for st in states:
            if loc not in st.mem and ('init', loc) not in st.ts: 
                # declared after an early exit: not constructed
                out.append(st); continue
            if fn.cname == 'kj::_::Deferred':
                val = st.mem.get(loc)
                if val is not None and val[0] == 'deferred' and val[1] is not None and val[1][0] == 'clo':
                    out += [x for x, _ in self.run_closure(val[1], [], st, fr, v[4])]
                else: out.append(st)
                continue
            self._emit_call(st, fn.q, fn, ('addr', loc), [], v[4], fr, None)
            if fn.cname in self.raw:
                d = self.prog.resolve(fn)
                if d.body is not None and self.should_inline(d, fr):
                    out += [s2 for s2, _ in self.inline(d, ('addr', loc), [], st, fr, v[4], None)]; continue
            out.append(st)
        return out
    def s_decl(self, s, states, fr, o):
        for v in s[1]: states = self.decl_var(v, states, fr)
        return states
    def decl_var(self, v, states, fr):
        vid, name, ti, init, line, dt, static = v
        t = self.tkind(fr.tu, ti)
        loc = ('v', fr.tu.name, vid)
        out = []
        for st in states:
            for k in [k for k in st.mem if k == loc or self._desc(k, loc)]: del st.mem[k]
            st.mem.pop(('ref', loc), None)
            if static: 
                st.mem[loc] = ('sym', f'static:{name}')
                out.append(st); continue
            if init is None:
                st.mem[loc] = ('uninit', name, vid)
                out.append(st); continue
            if t[1] == 'r':
                for s2, l in self.lv(init, st, fr):
                    s2.mem[('ref', loc)] = l; out.append(s2)
            else:
                for s2, val in self.ev(init, st, fr):
                    if val[0] == 'locref': val = self.load_obj(s2, val[1])
                    self.store(s2, loc, val, fr, line)
                    out.append(s2)
        return out
    def s_if(self, s, states, fr, o):
        _, init, cv, c, th, el, line = s
        marks = self._marks(o)
        if init is not None: states = self.exec(init, states, fr, o)
        if cv is not None: states = self.decl_var(cv, states, fr)
        T = []; F = []
        for st in states:
            for s2, b in self.cond(c, st, fr):
                (T if b else F).append(s2)
        out = self.exec(th, T, fr, o)
        out = out + (self.exec(el, F, fr, o) if el is not None else F)
        return out
    def s_ret(self, s, states, fr, o):
        isref = self.tkind(fr.tu, fr.fn.ret)[1] == 'r'
        for st in states:
            if s[1] is None: o.ret.append((st, UNK)); continue
            if isref and not fr.fn.co:
                for s2, l in self.lv(s[1], st, fr): o.ret.append((s2, ('locref', l)))
            else:
                for s2, v in self.ev(s[1], st, fr):
                    if v[0] == 'locref': v = self.load_obj(s2, v[1])
                    if v[0] == 'addr' and s[1][0] in ('call', 'mcall') and self.is_lv(s[1], fr): v = self.load_obj(s2, v[1])
                    o.ret.append((s2, v))
        return []
    def s_brk(self, s, states, fr, o): o.brk.extend(states); return []
    def s_cont(self, s, states, fr, o): o.cont.extend(states); return []
    def s_goto(self, s, states, fr, o): o.goto.setdefault(s[1], []).extend(states); return []
    def s_label(self, s, states, fr, o): return self.exec(s[2], states, fr, o)
    def s_case(self, s, states, fr, o): return self.exec(s[3], states, fr, o)
    def s_default(self, s, states, fr, o): return self.exec(s[1], states, fr, o)

    def s_while(self, s, states, fr, o):
        return self.loop(states, fr, o, s[1], s[2], None, s[3], False, s)
    def s_do(self, s, states, fr, o):
        return self.loop(states, fr, o, None, s[2], None, s[1], True, s)
    def s_for(self, s, states, fr, o):
        if s[1] is not None: states = self.exec(s[1], states, fr, o)
        return self.loop(states, fr, o, s[2], s[3], s[4], s[5], False, s)
    def s_rfor(self, s, states, fr, o):
        _, init, rng, beg, end, cond, inc, lv, body, line = s
        if init is not None: states = self.exec(init, states, fr, o)
        for x in (rng, beg, end): states = self.exec(x, states, fr, o)
        return self.loop(states, fr, o, None, cond, inc, ['{', [lv, body]], False, s)

    def loop(self, states, fr, o, cv, cond, inc, body, isdo, node):
        exits = []
        # a body that cannot reach the back edge is not a loop (e.g. the KJ fault idiom)
        for st in states:
            if isdo and cond is not None and cond[0] in ('bool', 'int') and not cond[1]:
                lo = Outs(); lo.ret = o.ret; lo.goto = o.goto; lo.thrown = o.thrown
                exits += self.exec(body, [st], fr, lo) + lo.brk + lo.cont
                continue
            changed, ep = self._dry(st, fr, cv, cond, inc, body)
            if changed is None:
                # straight-line: never reaches back edge
                lo = Outs(); lo.ret = o.ret; lo.goto = o.goto; lo.thrown = o.thrown
                T = [(st, True)]
                if not isdo and cond is not None:
                    ss = self.decl_var(cv, [st], fr) if cv is not None else [st]
                    T = [x for s1 in ss for x in self.cond(cond, s1, fr)]
                exits += [x for x, b in T if not b]
                n = self.exec(body, [x for x, b in T if b], fr, lo) + lo.cont
                if inc is not None:
                    for x in n: self.ev(inc, x, fr)
                elif n and isdo and cond is not None:
                    for x in n: exits += [y for y, b in self.cond(cond, x, fr) if not b]
                exits += lo.brk
                continue
            if not isdo:
                z = st.clone()
                zs = self.decl_var(cv, [z], fr) if cv is not None else [z]
                if cond is not None:
                    for z1 in zs: exits += [x for x, b in self.cond(cond, z1, fr) if not b]
            H = st.clone()
            syms = self._havoc(H, changed, ep, fr, node)
            hv = self._induct(st, H, syms, fr, cv, cond, inc, body, node, isdo)
            lo = Outs(); lo.ret = o.ret; lo.goto = o.goto; lo.thrown = o.thrown
            if isdo: T = [H]
            else:
                hs = self.decl_var(cv, [H], fr) if cv is not None else [H]
                T = [x for h in hs for x, b in (self.cond(cond, h, fr) if cond is not None else [(h, True)]) if b]
            if hv is not None:
                for x in T: self._ne_to_lt(st, x, hv)
            self.on_loop_iter(node, T, fr)
            n = self.exec(body, T, fr, lo) + lo.cont
            n = self.limit(n, fr)
            if isdo:
                for x in n:
                    exits += [y for y, b in (self.cond(cond, x, fr)) if not b]
            else:
                if inc is not None:
                    n = [y for x in n for y, _ in self.ev(inc, x, fr)]
                if cond is not None:
                    for x in self.limit(n, fr):
                        xs = self.decl_var(cv, [x], fr) if cv is not None else [x]
                        for x1 in xs:
                            for y, b in self.cond(cond, x1, fr):
                                if b: continue
                                if hv is not None: self._exit_subst(y, hv)
                                exits.append(y)
            exits += lo.brk
        return self.limit(exits, fr)
    def _ne_to_lt(self, st0, x, hv):
        for L in list(x.nes):
            if L in st0.nes: continue
            c, d = _lin(L)
            if hv not in d: continue
            from math import gcd
            g = 0
            for k in d.values(): g = gcd(g, abs(k))
            if c % g: continue
            L = _mk(c // g, {t: k // g for t, k in d.items()})
            c, d = _lin(L)
            k = d[hv]
            if abs(k) != 1 or any(contains(t, hv) for t in d if t != hv): continue
            L0 = sub(L, mulc(hv, k))
            if k == 1 and self.entails_ge(st0, neg(L0), True): x.ges[sub(neg(L), ONE)] = 1
            if k == -1 and self.entails_ge(st0, L0, True): x.ges[sub(L, ONE)] = 1
    def _exit_subst(self, y, hv):
        sol = None
        for L in list(y.eqs):
            c, d = _lin(L)
            k = d.get(hv)
            if k in (1, -1) and not any(contains(t, hv) for t in d if t != hv):
                sol = mulc(sub(L, mulc(hv, k)), -k); break
        if sol is None:
            for L in list(y.ges):
                c, d = _lin(L)
                k = d.get(hv)
                if k in (1, -1) and neg(L) in y.ges and not any(contains(t, hv) for t in d if t != hv):
                    sol = mulc(sub(L, mulc(hv, k)), -k); break
        if sol is None: return
        for kk, v in list(y.mem.items()):
            if isinstance(v, tuple) and contains(v, hv): y.mem[kk] = subst(v, hv, sol)
        for name in ('ges', 'eqs', 'nes'):
            m = getattr(y, name)
            for L in list(m):
                if contains(L, hv):
                    del m[L]
                    n = subst(L, hv, sol)
                    if n[0] != 'i': m[n] = 1
    def on_loop_iter(self, node, states, fr): pass

    def _dry(self, st, fr, cv, cond, inc, body):
        self.quiet += 1
        save = self.nsteps
        try:
            s = st.clone()
            lo = Outs()
            self.outs_stack.append(lo)
            hs = self.decl_var(cv, [s], fr) if cv is not None else [s]
            T = [x for h in hs for x, b in (self.cond(cond, h, fr) if cond is not None else [(h, True)]) if b]
            n = self.exec(body, T, fr, lo) + lo.cont
            if inc is not None: n = [y for x in n for y, _ in self.ev(inc, x, fr)]
        finally:
            self.quiet -= 1
            self.outs_stack.pop()
        if not n: return None, False
        changed = {}
        ep = False
        for x in n:
            if x.epoch != st.epoch: ep = True
            for k, v in x.mem.items():
                if st.mem.get(k) != v and k in st.mem: changed[k] = 1
                elif k not in st.mem: changed[k] = 2
            for k in st.mem:
                if k not in x.mem: changed[k] = 1
            for f, vv in x.fver.items():
                if st.fver.get(f, 0) != vv: changed[('fver', f)] = 1
        return changed, ep
    def _havoc(self, s, changed, ep, fr, node):
        if ep: self.havoc_heap(s)
        key = ('loop', self._nid(node))
        n = s.visits.get(key, 0); s.visits[key] = n + 1
        tag = f'L{self._nid(node)}.{n}'
        syms = {}
        for k, kind in changed.items():
            if k[0] == 'fver':
                s.fver[k[1]] = s.fver.get(k[1], 0) + 1
                for kk in [kk for kk in s.mem if self.is_heap(kk) and self.lastfield(kk) == k[1]]: del s.mem[kk]
        for k, kind in changed.items():
            if k[0] in ('fver', 'ref'): continue
            if self.is_heap(k):
                s.mem.pop(k, None); continue
            if k[0] == 't': s.mem.pop(k, None); continue
            if k not in s.mem:
                # sub-object of a variable that is live at the loop head, or a variable of the body
                r = k
                while r[0] in ('f', 'x', 'val'): r = r[1]
                if r == k or r not in s.mem: continue
            old = self.load(s, k)
            nv = ('sym', f'{tag}:{show(k)}')
            if self.is_uns(old): self.uns.setdefault(nv, self.uns.get(old, 64))
            syms[k] = (old, nv)
        for k, (old, nv) in syms.items(): s.mem[k] = nv
        return syms

    def _induct(self, st, H, syms, fr, cv, cond, inc, body, node, isdo):
        """affine induction variables: v = v0 + it*delta with a loop-invariant delta"""
        cand = {k: on for k, on in syms.items() if on[0][0] not in ('agg', 'clo', 'just', 'unk', 'none', 'cond', 'addr')}
        if not cand: return None
        self.quiet += 1
        try:
            lo = Outs(); self.outs_stack.append(lo)
            s = H.clone()
            hs = self.decl_var(cv, [s], fr) if cv is not None else [s]
            T = hs if isdo else [x for h in hs for x, b in (self.cond(cond, h, fr) if cond is not None else [(h, True)]) if b]
            n = self.exec(body, T, fr, lo) + lo.cont
            if inc is not None: n = [y for x in n for y, _ in self.ev(inc, x, fr)]
        finally:
            self.quiet -= 1; self.outs_stack.pop()
        if not n: return None
        news = [nv for _, nv in syms.values()]; used = False
        hv = ('sym', f'it{H.visits.get(("loop", self._nid(node)))}.{self._nid(node)}')
        for k, (old, nv) in cand.items():
            ds = set()
            for x in n:
                v = x.mem.get(k)
                if v is None: ds.add(None); break
                d = sub(v, nv)
                if d[0] in ('unk', 'agg', 'clo', 'just', 'none', 'cond', 'addr') or v[0] in ('unk', 'agg', 'clo', 'just', 'none', 'addr'): d = None
                elif any(contains(d, w) for w in news): d = None
                elif find_terms(d, lambda t: t[0] in ('sym',) and isinstance(t[1], str) and t[1].startswith('out')): d = None
                ds.add(d)
            if None in ds: continue
            d = max(ds, key=lambda z: len(_lin(z)[1]))
            if len(ds) > 1 and not all(self.decide(x, c_eq(sub(d, sub(x.mem[k], nv)))) is True for x in n): continue
            self.uns.setdefault(hv, 64)
            H.mem[k] = add(old, mul(hv, d)); used = True
        return hv if used else None

    def s_switch(self, s, states, fr, o):
        _, init, cv, c, body, allenum, line = s
        if init is not None: states = self.exec(init, states, fr, o)
        if cv is not None: states = self.decl_var(cv, states, fr)
        stmts = body[1] if body[0] == '{' else [body]
        # (index, kind, valueexpr, hi)
        labels = []
        for i, x in enumerate(stmts):
            y = x
            while y and y[0] in ('case', 'default'):
                if y[0] == 'case': labels.append((i, y[1], y[2])); y = y[3]
                else: labels.append((i, None, None)); y = y[1]
        lo = Outs(); lo.ret = o.ret; lo.goto = o.goto; lo.thrown = o.thrown; lo.cont = o.cont
        exits = []
        for st in states:
            for s1, v in self.ev(c, st, fr):
                entry = {}
                rest = [s1]
                hasdef = None
                for (i, ve, hi) in labels:
                    if ve is None: hasdef = i; continue
                    nr = []
                    for r in rest:
                        for r2, val in self.ev(ve, r, fr):
                            if hi is not None:
                                for r3, hv in self.ev(hi, r2, fr):
                                    for r4, b in self.branch(r3, c_ge(sub(v, val))):
                                        if not b: nr.append(r4); continue
                                        for r5, b2 in self.branch(r4, c_ge(sub(hv, v))):
                                            if b2: entry.setdefault(i, []).append(r5)
                                            else: nr.append(r5)
                                continue
                            for r3, b in self.branch(r2, self.cmp('==', v, val)):
                                if b: entry.setdefault(i, []).append(r3)
                                else: nr.append(r3)
                    rest = nr
                if hasdef is not None: entry.setdefault(hasdef, []).extend(rest)
                else: exits += rest
                cur = []
                for i, x in enumerate(stmts):
                    cur = cur + entry.get(i, [])
                    if cur:
                        cur = self.exec(x, cur, fr, lo)
                        if len(cur) > self.cap: cur = self.limit(cur, fr)
                exits += cur
        exits += lo.brk
        return self.limit(exits, fr)
    def s_try(self, s, states, fr, o):
        out = []
        for st in states:
            entry = st.clone()
            changed, ep = self._dry(st, fr, None, None, None, s[1])
            out += self.exec(s[1], [st], fr, o)
            for h in s[2]:
                hs = entry.clone()
                if changed: self._havoc(hs, {k: v for k, v in changed.items()}, True, fr, s, 2)
                else: self.havoc_heap(hs)
                if h[0] is not None:
                    hs.mem[('v', fr.tu.name, h[0][0])] = ('sym', 'caught')
                    if self.tkind(fr.tu, h[0][2])[1] == 'r': hs.mem[('ref', ('v', fr.tu.name, h[0][0]))] = ('d', ('sym', 'caught'))
                out += self.exec(h[1], [hs], fr, o)
        return out

    # goto targets
    def has_label(self, s, lab):
        st = [s]
        while st:
            x = st.pop()
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'label' and x[1] == lab: return True
                st.extend(x)
        return False
    def seek(self, s, lab, states, fr, o):
        k = s[0]
        if k == 'label' and s[1] == lab: return self.exec(s[2], states, fr, o)
        if k == '{':
            for i, x in enumerate(s[1]):
                if x and self.has_label(x, lab):
                    states = self.seek(x, lab, states, fr, o)
                    for y in s[1][i + 1:]: states = self.exec(y, states, fr, o)
                    return states
            return []
        if k == 'if':
            for b in (s[4], s[5]):
                if b is not None and self.has_label(b, lab): return self.seek(b, lab, states, fr, o)
        if k in ('while', 'for', 'do', 'switch', 'rfor'):
            lo = Outs(); lo.ret = o.ret; lo.goto = o.goto; lo.thrown = o.thrown
            for x in s:
                if isinstance(x, list) and self.has_label(x, lab):
                    n = self.seek(x, lab, states, fr, lo)
                    return n + lo.brk + lo.cont
        if k in ('case', 'default', 'label'):
            return self.seek(s[-1], lab, states, fr, o)
        if k == 'try': return self.seek(s[1], lab, states, fr, o)
        return []

STMT = {'{': 'block', 'while': 'while', 'if': 'if', 'e': 'e'}
NOINLINE_FILES = {'kj/string.h', 'kj/string.c++', 'kj/debug.h', 'kj/debug.c++', 'kj/exception.h', 'kj/exception.c++', 'kj/string-tree.h',
                  'kj/async-inl.h', 'kj/async-prelude.h', 'kj/hash.h', 'kj/table.h', 'kj/map.h', 'kj/async.c++', 'kj/async.h', 'kj/async-inl.h'}
NOINLINE_CTOR = {'kj::_::Debug::Fault', 'kj::Exception', 'kj::String', 'kj::Promise'}
MOVED_NULL = {'kj::Array', 'kj::String', 'kj::Vector'}
PURE_PREFIX = ('kj::str', 'kj::hashCode', 'kj::_::Debug::', 'std::', 'kj::isDigit')
PURE_FNS = {'memcmp', 'strlen', 'kj::size', 'strcmp', 'strchr', 'memchr', 'isprint', 'isalpha', 'isdigit'}
