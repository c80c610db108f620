"""Path-sensitive typestate/guard dataflow over LLVM IR of instantiation witnesses.

The witness units in witness/ instantiate the header templates; clang lowers them (no optimisation
passes except SROA) and tool/irdump.cc emits the IR.  At this level implicit members, temporaries,
destructors and exceptional control flow are explicit, so the analysis sees exactly what a program
using the header would do.  Functions with a body are analysed inline, functions without one are
events.  Values are canonical linear terms, branches add guard facts, loops are summarised by affine
induction; nothing is executed and no solver is used (see absint.py for the entailment)."""
import json, os, subprocess, re, hashlib, fcntl, tempfile, shutil
from prog import VERIF, BUILD, SRC, AnalysisBroken, flags, relfile, _find
from absint import *
from absint import _lin, _mk

def irdump_path():
    os.makedirs(BUILD, exist_ok=True)
    src = VERIF + '/tool/irdump.cc'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = f'{BUILD}/irdump-{h}'
    if os.path.exists(exe): return exe
    with open(BUILD + '/lock2', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        llvm = _find('/usr/lib/llvm-18/lib/libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so')
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
                            '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, llvm], capture_output=True, text=True)
        if r.returncode != 0: raise AnalysisBroken('irdump build failed:\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe

class IFn:
    __slots__ = ('name', 'dem', 'fl', 'rt', 'args', 'blocks', 'line', 'file', 'loops', 'short', 'bodies')
    def __repr__(s): return f'<{s.dem}>'

class Module:
    def __init__(self):
        self.fns = {}; self.globs = {}; self.files = []; self.bydem = {}
    def find(self, pat):
        r = re.compile(pat)
        return [f for f in self.fns.values() if f.blocks is not None and r.search(f.dem)]

def strip_params(dem):
    """qualified name without parameter list / return type / template arguments"""
    d = 0; out = []
    i = 0
    s = dem.replace('operator()', 'operator@call').replace('operator<=>', 'operator@cmp').replace('operator<<', 'operator@shl').replace('operator<', 'operator@lt').replace('operator>>', 'operator@shr').replace('operator->', 'operator@arrow').replace('operator>', 'operator@gt').replace('(anonymous namespace)', '@anon')
    while i < len(s):
        ch = s[i]
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0:
            if ch == '(': break
            out.append(ch)
        i += 1
    r = ''.join(out).strip()
    if ' ' in r and 'operator' not in r: r = r.split(' ')[-1]
    elif 'operator' in r and ' ' in r[:r.index('operator')]: r = r[:r.index('operator')].split(' ')[-1] + r[r.index('operator'):]
    return r

def load_ir(srcs, extra=()):
    exe = irdump_path()
    d = tempfile.mkdtemp(prefix='vp-ir-')
    m = Module()
    try:
        for n, s in enumerate(srcs):
            p = s if s.startswith('/') else f'{SRC}/{s}'
            bc = f'{d}/{n}.bc'; js = f'{d}/{n}.json'
            r = subprocess.run(['clang++-18'] + flags(['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-discard-value-names', '-emit-llvm', '-c', p, '-o', bc] + list(extra)), capture_output=True, text=True)
            if r.returncode != 0: raise AnalysisBroken(f'cannot compile {s}: ' + '\n'.join(l for l in r.stderr.split('\n') if 'error' in l)[:1500])
            r = subprocess.run([exe, bc, js], capture_output=True, text=True)
            if r.returncode != 0: raise AnalysisBroken('irdump failed: ' + r.stderr[:500])
            _load(m, json.load(open(js)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return m

def _load(m, d):
    files = [relfile(f) for f in d['files']]
    base = len(m.files); m.files += files
    for g in d['globs']:
        o = m.globs.get(g['n'])
        if o is None or 'init' in g: m.globs[g['n']] = g
    for r in d['fns']:
        o = m.fns.get(r['n'])
        if o is not None and (o.blocks is not None or 'b' not in r): continue
        f = IFn(); f.name = r['n']; f.dem = r['d']; f.fl = r['fl']; f.rt = r['rt']; f.args = r['a']; f.line = r.get('l', 0)
        f.file = files[r['f']] if 'f' in r else '?'
        f.blocks = None; f.loops = {}; f.bodies = {}
        f.short = strip_params(f.dem)
        if 'b' in r:
            f.blocks = [b['i'] for b in r['b']]
            for i, b in enumerate(r['b']):
                f.loops[i] = b.get('lp', [])
                for ins in b['i']: ins[3] = files[ins[3]] if ins[3] >= 0 else f.file
            for i, ls in f.loops.items():
                for h in ls: f.bodies.setdefault(h, set()).add(i)
        m.fns[r['n']] = f
        m.bydem.setdefault(f.short, []).append(f)

class IState(State):
    __slots__ = ('ver', 'heap', 'memo')
    def __init__(s):
        State.__init__(s); s.ver = {}; s.heap = {}
    def clone(s):
        n = IState.__new__(IState)
        n.mem = s.mem; n.epoch = s.epoch; n.fver = s.fver; n.ges = dict(s.ges); n.eqs = dict(s.eqs); n.nes = dict(s.nes)
        n.tr = dict(s.tr); n.ev = s.ev; n.ts = dict(s.ts); n.visits = dict(s.visits); n.ver = dict(s.ver)
        n.heap = {k: dict(v) for k, v in s.heap.items()}
        return n

class Ev:
    """an opaque call on a path"""
    __slots__ = ('kind', 'name', 'args', 'ret', 'where', 'fn', 'slot', 'stack', 'snap')
    def __repr__(s): return f'{s.kind}:{s.name}({", ".join(show(a) for a in s.args)})'
    def __init__(s, kind, name, args, ret, where, slot=None, stack=(), snap=None):
        s.kind = kind; s.name = name; s.args = args; s.ret = ret; s.where = where; s.slot = slot; s.stack = stack; s.snap = snap

class Out:
    __slots__ = ('st', 'kind', 'val', 'ev')
    def __init__(s, st, kind, val=None): s.st = st; s.kind = kind; s.val = val
    @property
    def events(s): return s.st.ev

TRACE = os.environ.get('VP_TRACE')
SILENT = re.compile(r'^(llvm\.(lifetime|dbg|assume|experimental|invariant|prefetch|donothing|launder|strip)|kj::_::Debug|__cxa_(begin_catch|end_catch|free_exception|allocate_exception|guard)|std::exception|kj::_::getCaughtExc)')
FAULT = re.compile(r'^kj::_::Debug::Fault::Fault|^kj::_::inlineRequireFailure|^kj::_::inlineAssertFailure')
HALT = re.compile(r'^(abort|std::terminate|__clang_call_terminate|kj::_::unreachable|__cxa_pure_virtual|llvm.trap)')

class IR(Engine):
    aligned = None          # cb(object) -> the alignment of its address
    faults = True           # constructing a Fault is the failure itself
    def __init__(self, mod, opaque=None, throws=None, depth=60, maxpaths=4000, snap=None):
        Engine.__init__(self, None)
        self.mod = mod; self.opaque_re = re.compile(opaque) if opaque else None
        self.throws = throws          # cb(name) -> bool: may an opaque callee throw
        self.depthmax = depth; self.maxpaths = maxpaths
        self.ptrs = set(); self.objs = set(); self.osize = {}
        self.loopinfo = {}; self.nloop = 0; self.npaths = 0
        self.icalls = {}              # model name -> cb
        self.peel = 0
        self.models = []              # [(regex, cb(eng, st, fn_short, args, where))]
        self.load_hooks = []; self.mstore_hooks = []
        self.trial = 0
        self.snap = snap
        self.bounds_hooks = []
        self.ovf_hooks = []          # cb(eng, st, op, a, b, bits, where): an add/mul/shl narrower than 64 bits whose result may not fit
        self.wrap = True; self.recmax = 2
        self.deadline = 400000
        self.sync = False
        self.cells = {}

    def assume(self, st, c):
        if not Engine.assume(self, st, c): return False
        # a deeper refutation than decide() attempts, for the linear facts only
        if isinstance(c, tuple) and c[0] == 'ge' and self.prove_ge(st, sub(neg(c[1]), ONE), 3): return False
        if isinstance(c, tuple) and c[0] == 'eq' and (self.prove_ge(st, sub(c[1], ONE), 3) or self.prove_ge(st, sub(neg(c[1]), ONE), 3)): return False
        return True

    # ---------------- values
    def P(self, name, size=0):
        """a pointer to a distinct object"""
        t = ('sym', name)
        self.ptrs.add(t); self.objs.add(t); self.uns[t] = 64
        if size: self.osize[t] = size
        return t
    def N(self, name, bits=64):
        t = ('sym', name); self.uns[t] = bits
        return t
    def const(self, v):
        k = v[0]
        if k == 'i': return ('i', v[1])
        if k == 'I': return ('i', int(v[1]))
        if k == 'g':
            t = ('G', v[1]); self.ptrs.add(t); self.objs.add(t); self.uns.setdefault(t, 64); return t
        if k == '+': return add(self.const(v[1]), I(v[2]))
        if k == '-': return sub(self.const(v[1]), self.const(v[2]))
        if k == 'a': return ('agg', tuple(self.const(x) for x in v[1]))
        if k == 'f': return ('fl', v[1])
        return ('undef',)
    def val(self, fr, v):
        if v[0] == 'l':
            return fr[v[1]] if v[1] in fr else ('undef',)
        return self.const(v)

    def root(self, a):
        c, d = _lin(a)
        r = None
        for t, k in d.items():
            if k == 1 and t in self.ptrs:
                if r is None: r = t
                elif t[0] != 'ld' and r[0] == 'ld': r = t
        return r
    def split(self, a):
        c, d = _lin(a)
        return _mk(0, d), c
    def mark(self, t, ty):
        if t[0] in ('i', 'lin', 'cond', 'agg'): return t
        if ty[0] == 'p': self.ptrs.add(t); self.uns.setdefault(t, 64)
        elif ty[0] == 'i': self.uns.setdefault(t, ty[1])
        return t

    # ---------------- memory: heap[base][off] = (size, val)
    def ld(self, st, addr, ty, size):
        if ty[0] == 'a': return self.ldagg(st, addr, ty[2])
        base, off = self.split(addr)
        cells = st.heap.get(base)
        if cells:
            e = cells.get(off)
            if e is not None and e[0] == size: return e[1]
            for o, (sz, v) in cells.items():
                if o <= off and off + size <= o + sz:
                    return self.mark(self.part(st, v, off - o, size, sz), ty)
            over = sorted((o, sz, v) for o, (sz, v) in cells.items() if o < off + size and off < o + sz)
            if over:
                # the bytes come from several stores: keep the pieces apart, so that reading one back yields what was stored
                if all(off <= o and o + sz <= off + size for o, sz, v in over):
                    pieces = []; at = off
                    for o, sz, v in over:
                        while at < o:
                            k = 4 if at % 4 == 0 and at + 4 <= o else 2 if at % 2 == 0 and at + 2 <= o else 1
                            pieces.append((at - off, k, self.ld(st, add(base, I(at)), ['i', k * 8], k))); at += k
                        pieces.append((o - off, sz, v)); at = o + sz
                    while at < off + size:
                        k = 4 if at % 4 == 0 and at + 4 <= off + size else 2 if at % 2 == 0 and at + 2 <= off + size else 1
                        pieces.append((at - off, k, self.ld(st, add(base, I(at)), ['i', k * 8], k))); at += k
                    if all(v[0] == 'i' for _, _, v in pieces):
                        return I(sum((v[1] & ((1 << (8 * sz)) - 1)) << (8 * o) for o, sz, v in pieces))
                    return self.mark(('cat', tuple(pieces)), ty)
                return self.mark(('mix', addr, size, self.bump(st)), ty)
        b = base
        if base[0] == 'G':
            g = self.mod.globs.get(base[1])
            if g and 'init' in g:
                for o, sz, v in g['init']:
                    if o == off and sz == size: return self.const(v)
                ov = [(o, sz, self.const(v)) for o, sz, v in g['init'] if o < off + size and off < o + sz]
                if not ov and off + size <= g['s']: return ZERO
                if ov and all(v[0] == 'i' and off <= o and o + sz <= off + size for o, sz, v in ov):
                    return I(sum((v[1] & ((1 << (8 * sz)) - 1)) << (8 * (o - off)) for o, sz, v in ov))
                if len(ov) == 1 and ov[0][2][0] == 'i' and ov[0][0] <= off and off + size <= ov[0][0] + ov[0][1]:
                    return self.part(st, ov[0][2], off - ov[0][0], size, ov[0][1])
        # is there a may-alias symbolic cell?
        r = self.root(base)
        for z in st.ts.get('zero', ()):
            if z[0] == base and z[1] <= off and off + size <= z[1] + z[2]: return ZERO
        for cb in self.load_hooks:
            v = cb(self, st, addr, ty, size)
            if v is not None: return v
        t = ('ld', addr, size, st.ver.get(r, 0))
        if self.root_is_local(r) and st.ver.get(r, 0) == 0: pass
        return self.mark(t, ty)
    def root_is_local(self, r): return r is not None and r[0] == 'al'
    def ldagg(self, st, addr, leaves):
        out = []
        for l in leaves:
            if l[0] == 'n': out.append(self.ldagg(st, addr, l[1]))
            else: out.append(self.ld(st, add(addr, I(l[0])), [l[2], l[1] * 8], l[1]))
        return ('agg', tuple(out))
    def part(self, st, v, off, size, full):
        if v[0] == 'ld': return ('ld', add(v[1], I(off)), size, v[3])
        if v[0] == 'i':
            x = v[1] & ((1 << (8 * full)) - 1)
            return I((x >> (8 * off)) & ((1 << (8 * size)) - 1))
        if v[0] == 'undef': return v
        if v[0] == 'cat':
            for o, sz, x in v[1]:
                if o == off and sz == size: return x
                if o <= off and off + size <= o + sz: return self.part(st, x, off - o, size, sz)
        return ('part', v, off, size)
    def bump(self, st):
        st.visits['mix'] = st.visits.get('mix', 0) + 1
        return st.visits['mix']
    def sto(self, st, addr, v, ty, size):
        if ty[0] == 'a':
            if v[0] != 'agg': v = self.explode(v, ty[2])
            self.stoagg(st, addr, v, ty[2]); return
        base, off = self.split(addr)
        cells = st.heap.setdefault(base, {})
        for o in list(cells):
            sz, ov = cells[o]
            if o < off + size and off < o + sz:
                del cells[o]
                if o < off: cells[o] = (off - o, self.part(st, ov, 0, off - o, sz))
                if o + sz > off + size: cells[off + size] = (o + sz - off - size, self.part(st, ov, off + size - o, o + sz - off - size, sz))
        cells[off] = (size, v)
        # may-alias with other symbolic offsets of the same object
        r = self.root(base)
        if r is not None:
            for b2 in list(st.heap):
                if b2 == base or self.root(b2) != r: continue
                c2 = st.heap[b2]
                for o in list(c2):
                    sz, _ = c2[o]
                    dlt = sub(add(b2, I(o)), addr)      # other - this
                    if self.entails_ge(st, sub(dlt, I(size)), True) or self.entails_ge(st, sub(neg(dlt), I(sz)), True): continue
                    c2[o] = (sz, self.mark(('mix', add(b2, I(o)), sz, self.bump(st)), ['p', 64] if sz == 8 and c2[o][1] in self.ptrs else ['i', sz * 8]))
    def explode(self, v, leaves):
        return ('agg', tuple(('ex', v, i) for i, l in enumerate(leaves)))
    def stoagg(self, st, addr, v, leaves):
        for l, x in zip(leaves, v[1]):
            if l[0] == 'n':
                self.stoagg(st, addr, x if x[0] == 'agg' else self.explode(x, l[1]), l[1])
            else: self.sto(st, add(addr, I(l[0])), x, [l[2], l[1] * 8], l[1])
    def havoc_obj(self, st, r):
        if r is None: return
        st.ver[r] = st.ver.get(r, 0) + 1
        for b in list(st.heap):
            if self.root(b) == r: del st.heap[b]
    def get(self, st, base, off, size=8, kind='p'):
        return self.ld(st, add(base, I(off)), [kind, size * 8], size)
    def put(self, st, base, off, v, size=8, kind='p'):
        self.sto(st, add(base, I(off)), v, [kind, size * 8], size)

    # ---------------- running
    def run(self, fn, args=None, setup=None, st=None):
        if isinstance(fn, str):
            l = self.mod.bydem.get(fn) or []
            l = [f for f in l if f.blocks is not None]
            if not l: raise AnalysisBroken(f'witness function {fn} not found')
            fn = l[0]
        st = st or IState()
        if args is None:
            args = []
            for a in fn.args:
                if a[1][0] == 'p': args.append(self.P(a[3] or f'a{a[0]}'))
                else: args.append(self.N(a[3] or f'a{a[0]}', a[1][1] if a[1][0] == 'i' else 64))
        for o in self.objs: pass
        if setup: setup(self, st, args)
        self.nst = 0
        outs = self.call_fn(fn, args, st, ())
        self.stats['functions'].add(fn.dem); self.stats['paths'] += len(outs)
        return outs

    def call_fn(self, fn, args, st, stack):
        if len(stack) > self.depthmax: raise Budget('depth')
        fr = {}
        for a, v in zip(fn.args, args): fr[a[0]] = v
        self.stats['functions'].add(fn.dem)
        return self.run_from(fn, 0, -1, st, fr, (), stack + (fn,))

    def run_from(self, fn, b, prev, st, fr, active, stack):
        """returns outcomes: Out(kind in ret/throw/halt) and edges ('latch', h, ...) / ('exit', ...)"""
        res = []
        work = [(b, prev, 0, st, fr)]
        while work:
            b, prev, idx, st, fr = work.pop()
            blk = fn.blocks[b]
            n = len(blk)
            if idx == 0 and prev >= 0:
                vals = []
                for ins in blk:
                    if ins[0] != 'phi': break
                    v = ('undef',)
                    for x, pb in ins[4]:
                        if pb == prev: v = self.val(fr, x); break
                    vals.append((ins[1], v))
                for i, v in vals: fr[i] = v
            while idx < n:
                ins = blk[idx]; idx += 1
                op = ins[0]
                self.nst += 1
                if self.nst > self.deadline: raise Budget(f'steps in {fn.dem}')
                if op == 'phi': continue
                if op == 'br':
                    if len(ins) == 5:
                        self.edge(fn, b, ins[4], st, fr, active, stack, work, res); break
                    c = val_to_cond(self.val(fr, ins[4]))
                    for truth, t in ((True, ins[5]), (False, ins[6])):
                        cc = c if truth else c_not(c)
                        s2 = st.clone(); f2 = dict(fr)
                        if TRACE: print('br', f'{ins[3]}:{ins[2]}', fn.short, truth, repr(c)[:200], self.decide(st, c))
                        if self.assume(s2, cc): self.edge(fn, b, t, s2, f2, active, stack, work, res)
                    self.stats['branches'] += 1
                    break
                if op == 'switch':
                    v = self.val(fr, ins[4]); s = st
                    if v[0] == 'i' and v[1] < 0 and ins[6] and len(ins[6][0][0]) > 2: v = I(v[1] + (1 << ins[6][0][0][2]))
                    for cv, t in ins[6]:
                        k = self.const(cv)
                        if k[0] == 'i' and k[1] < 0 and len(cv) > 2: k = I(k[1] + (1 << cv[2]))      # values are unsigned
                        L = c_eq(sub(v, k)); s2 = s.clone()
                        if self.assume(s2, L): self.edge(fn, b, t, s2, dict(fr), active, stack, work, res)
                        s = s.clone()
                        if not self.assume(s, c_not(L)): s = None; break
                    if s is not None: self.edge(fn, b, ins[5], s, dict(fr), active, stack, work, res)
                    break
                if op == 'ret':
                    res.append(Out(st, 'ret', self.val(fr, ins[4]) if len(ins) > 4 else None)); break
                if op == 'unreachable': break
                if op == 'resume': res.append(Out(st, 'throw', self.val(fr, ins[4]))); break
                if op in ('call', 'invoke'):
                    outs = self.do_call(fn, ins, st, fr, stack)
                    if op == 'call' and len(outs) == 1 and outs[0].kind == 'ret' :
                        st = outs[0].st
                        if ins[1] >= 0: fr[ins[1]] = outs[0].val
                        continue
                    cut = True
                    for o in outs:
                        f2 = dict(fr)
                        if o.kind == 'ret':
                            if ins[1] >= 0: f2[ins[1]] = o.val
                            if op == 'call': work.append((b, -1, idx, o.st, f2))
                            else: self.edge(fn, b, ins[8], o.st, f2, active, stack, work, res)
                        elif o.kind == 'throw':
                            if 'n' in ins[7] and op == 'call': continue     # escapes a noexcept call: terminate
                            if op == 'call': res.append(Out(o.st, 'throw', o.val))
                            else:
                                f2['exc'] = o.val
                                self.edge(fn, b, ins[9], o.st, f2, active, stack, work, res)
                        else: res.append(o)
                    break
                r = self.step(fn, ins, st, fr, stack)
                if r is not None:      # forked
                    for s2, v in r:
                        f2 = dict(fr); f2[ins[1]] = v
                        work.append((b, -1, idx, s2, f2))
                    break
            self.npaths += 1
            if len(work) + len(res) > self.maxpaths: raise Budget(f'too many paths in {fn.dem}')
        return res

    def edge(self, fn, frm, to, st, fr, active, stack, work, res):
        if active:
            h = active[-1]
            if to == h: res.append(('latch', frm, st, fr)); return
            if to not in fn.bodies[h]: res.append(('exit', frm, to, st, fr)); return
        if to in fn.bodies:
            for o in self.loop(fn, to, frm, st, fr, active, stack):
                if isinstance(o, Out): res.append(o)
                else: self.edge(fn, o[1], o[2], o[3], o[4], active, stack, work, res)
            return
        work.append((to, frm, 0, st, fr))

    # ---------------- loops
    def loop(self, fn, h, frm, st, fr, active, stack):
        if not self.peel: return self.loop1(fn, h, frm, st, fr, active, stack)
        res = []; cur = [(frm, st, fr)]
        for _ in range(self.peel):       # leading iterations exactly, the rest by induction
            nxt = []
            for pf, s, f in cur:
                for o in self.run_from(fn, h, pf, s.clone(), dict(f), active + (h,), stack):
                    if not isinstance(o, Out) and o[0] == 'latch': nxt.append((o[1], o[2], o[3]))
                    else: res.append(o)
            cur = nxt
        for pf, s, f in cur: res += self.loop1(fn, h, pf, s, f, active, stack)
        return res
    def loop1(self, fn, h, frm, st, fr, active, stack):
        self.nloop += 1
        lid = f'{fn.name}:{h}:{st.visits.get(("lp", fn.name, h), 0)}'
        st = st.clone(); st.visits[('lp', fn.name, h)] = st.visits.get(('lp', fn.name, h), 0) + 1
        tag = lid + f'@{len(stack)}'
        phis = []
        for ins in fn.blocks[h]:
            if ins[0] != 'phi': break
            v = ('undef',)
            for x, pb in ins[4]:
                if pb == frm: v = self.val(fr, x)
            phis.append((ins[1], v, ins[5]))
        first = min((i for i, ins in enumerate(fn.blocks[h]) if ins[0] != 'phi'), default=0)
        W = {}       # (base, off) -> size : cells changed
        R = set()    # roots havocked
        def generic(phival, cellval, s0, mark=None):
            s = s0.clone(); f = dict(fr)
            for r in R: self.havoc_obj(s, r)
            for (bs, of), sz in W.items():
                if self.root(bs) in R: continue
                v = cellval(bs, of, sz)
                self.sto(s, add(bs, I(of)), v, ['p' if v in self.ptrs else 'i', sz * 8], sz)
            for i, v, t in phis: f[i] = phival(i, v, t)
            return s, f
        def body(s, f):
            out = []
            w = [(h, -1, first, s, f)]
            # run from the header with phis fixed
            blk_res = self.run_header(fn, h, first, s, f, active + (h,), stack)
            return blk_res
        def psym(i, v, t):
            if t[0] == 'a': return ('sym', f'{tag}.phi{i}')
            return self.mark(('sym', f'{tag}.phi{i}'), t if t[0] in 'pi' else ['i', 64])
        def csym(bs, of, sz):
            isp = any(e in self.ptrs or _lin(e)[1] and self.root(e) is not None for e in [st.heap.get(bs, {}).get(of, (0, ZERO))[1]]) or (sz == 8 and (bs, of) in cellptr)
            return self.mark(('sym', f'{tag}.cell({show(bs)}+{of})'), ['p', 64] if isp else ['i', sz * 8])
        cellptr = set()
        self.trial += 1
        try:
            for it in range(6):
                s, f = generic(psym, csym, st)
                base_heap = {b: dict(c) for b, c in s.heap.items()}; base_ver = dict(s.ver)
                outs = body(s, f)
                lat = [o for o in outs if not isinstance(o, Out) and o[0] == 'latch']
                psyms = {psym(i, v, t) for i, v, t in phis}
                grew = False
                for o in lat:
                    s2 = o[2]
                    for r, n in s2.ver.items():
                        if base_ver.get(r, 0) != n and r not in R:
                            R.add(r); grew = True
                    for b, cells in s2.heap.items():
                        old = base_heap.get(b, {})
                        for of, (sz, v) in cells.items():
                            if old.get(of) == (sz, v): continue
                            if (b, of) in W: continue
                            rt = self.root(b)
                            if rt in R: continue
                            if rt is not None and rt[0] in ('al', 'new') and self.born_inside(rt, st): continue
                            if any(x in psyms or 'phi' in str(x[1]) and tag in str(x[1]) for x in terms_in(b) if x[0] == 'sym'):
                                if rt is not None and rt in psyms: continue     # object reached through the cursor itself
                                R.add(rt); grew = True; continue
                            ov = self.ld(st.clone(), add(b, I(of)), ['p' if v in self.ptrs else 'i', sz * 8], sz)
                            if v == ov: continue
                            if v in self.ptrs or self.root(v) is not None: cellptr.add((b, of))
                            W[(b, of)] = sz; grew = True
                if not grew: break
            else:
                pass
            # affine detection
            aff = {}; affc = {}
            for i, v, t in phis:
                sy = psym(i, v, t); c = None; ok = t[0] in 'pi' and v[0] != 'undef'
                for o in lat:
                    nv = self.phi_in(fn, h, i, o[1], o[3])
                    d = sub(nv, sy) if nv[0] not in ('agg', 'undef', 'cond') else None
                    if d is None or d[0] != 'i' or (c is not None and c != d[1]): ok = False; break
                    c = d[1]
                if ok and lat and t[1] != 1: aff[i] = c
            for (bs, of), sz in W.items():
                sy = csym(bs, of, sz); c = None; ok = True
                for o in lat:
                    nv = o[2].heap.get(bs, {}).get(of)
                    d = sub(nv[1], sy) if nv is not None and nv[0] == sz and nv[1][0] not in ('agg', 'undef', 'cond') else None
                    if d is None or d[0] != 'i' or (c is not None and c != d[1]): ok = False; break
                    c = d[1]
                if ok and lat: affc[(bs, of)] = c
        finally:
            self.trial -= 1
        k = ('sym', f'{tag}.k'); self.uns[k] = 64
        def aphi(kk):
            def g(i, v, t):
                if i in aff:
                    return add(v, mulc(kk, aff[i]))
                return psym(i, v, t)
            return g
        def acell(kk):
            def g(bs, of, sz):
                if (bs, of) in affc:
                    v0 = self.ld(st, add(bs, I(of)), ['p' if (bs, of) in cellptr else 'i', sz * 8], sz)
                    return add(v0, mulc(kk, affc[(bs, of)]))
                return csym(bs, of, sz)
            return g
        def aptr(s):
            return s
        # generic iteration k >= 0, to learn the guards every completed iteration passed (and writes that
        # only become visible once the cursors are known to be affine)
        self.trial += 1; dropped = set(); badinv = set()
        def invs():
            # candidate invariants: a decreasing unsigned counter stays non-negative
            out = {}
            for i, v, t in phis:
                if aff.get(i, 0) < 0 and t[0] == 'i' and self.root(v) is None: out[('phi', i)] = (v, aff[i])
            for (bs, of), sz in W.items():
                if affc.get((bs, of), 0) < 0 and (bs, of) not in cellptr:
                    v0 = self.ld(st, add(bs, I(of)), ['i', sz * 8], sz)
                    if self.root(v0) is None: out[(bs, of)] = (v0, affc[(bs, of)])
            return {q: x for q, x in out.items() if q not in badinv and self.entails_ge(st, x[0], True)}
        binv = {}        # (location, L) -> bound on a cursor that is not affine, L >= 0 (suggested by the comparisons of the loop, checked by induction)
        def bound_syms():
            out = {}
            for i, v, t in phis:
                if i not in aff and t[0] == 'i' and t[1] > 1 and v[0] != 'undef' and self.root(v) is None: out[psym(i, v, t)] = (('phi', i), v)
            for (bs, of), sz in W.items():
                if (bs, of) not in affc and (bs, of) not in cellptr and self.root(bs) not in R:
                    out[csym(bs, of, sz)] = ((bs, of), self.ld(st.clone(), add(bs, I(of)), ['i', sz * 8], sz))
            return out
        def suggest(lat, base):
            n = 0; sy = bound_syms()
            for o in lat:
                for q in set(o[2].nes) | set(o[2].eqs):
                    d = _lin(q)[1]
                    for t, c in d.items():
                        if t not in sy or abs(c) != 1 or any(x[0] == 'sym' and tag in str(x[1]) for u in d if u != t for x in terms_in(u)): continue
                        L = q if c < 0 else neg(q)
                        if (sy[t][0], L) in binv or (sy[t][0], L) in badinv or len(binv) > 8: continue
                        if self.entails_ge(st, subst(L, t, sy[t][1]), True): binv[(sy[t][0], L)] = t; n += 1
            return n
        def bkeep(lat):
            bad = False
            for (loc, L), t in list(binv.items()):
                for o in lat:
                    if loc[0] == 'phi' and isinstance(loc[1], int): nv = self.phi_in(fn, h, loc[1], o[1], o[3])
                    else:
                        nv = o[2].heap.get(loc[0], {}).get(loc[1]); nv = nv[1] if nv is not None else ('undef',)
                    if nv[0] in ('agg', 'undef', 'cond') or not self.entails_ge(o[2], subst(L, t, nv), True):
                        del binv[(loc, L)]; badinv.add((loc, L)); bad = True; break
            return bad
        def bassume(s):
            sy = bound_syms()
            ok = True
            for (loc, L), t in binv.items():
                if t in sy: ok = ok and self.assume(s, c_ge(L))
            return ok
        try:
            for it in range(12):
                s, f = generic(aphi(k), acell(k), st)
                cand = invs()
                for v0, c in cand.values(): self.assume(s, c_ge(add(v0, mulc(k, c))))
                bassume(s)
                base_heap = {b: dict(c) for b, c in s.heap.items()}; base_ver = dict(s.ver)
                outs = body(s, f)
                lat = [o for o in outs if not isinstance(o, Out) and o[0] == 'latch']
                grew = False
                for o in lat:
                    s2 = o[2]
                    for r, n in s2.ver.items():
                        if base_ver.get(r, 0) != n and r not in R:
                            R.add(r); grew = True
                    for b, cells in s2.heap.items():
                        old = base_heap.get(b, {})
                        for of, (sz, v) in cells.items():
                            if old.get(of) == (sz, v): continue
                            rt = self.root(b)
                            if (b, of) in W or rt in R: continue
                            if rt is not None and rt[0] in ('al', 'new') and self.born_inside(rt, st): continue
                            if contains(b, k): continue       # the element the cursor is at
                            ov = self.ld(st.clone(), add(b, I(of)), ['p' if v in self.ptrs else 'i', sz * 8], sz)
                            if v == ov: continue
                            if v in self.ptrs or self.root(v) is not None: cellptr.add((b, of))
                            W[(b, of)] = sz; grew = True
                # (re)check affinity of every cursor and cell under the current hypothesis
                for i, v, t in phis:
                    if i not in aff: continue
                    cur = aphi(k)(i, v, t)
                    for o in lat:
                        nv = self.phi_in(fn, h, i, o[1], o[3])
                        if nv[0] in ('agg', 'undef', 'cond') or sub(nv, cur) != I(aff[i]): del aff[i]; grew = True; break
                for (bs, of), sz in W.items():
                    if (bs, of) in dropped or self.root(bs) in R: affc.pop((bs, of), None); continue
                    hyp = affc.get((bs, of))
                    cur = base_heap.get(bs, {}).get(of)
                    cur = cur[1] if cur is not None and cur[0] == sz else self.ld(st.clone(), add(bs, I(of)), ['p' if (bs, of) in cellptr else 'i', sz * 8], sz)
                    c = None; ok = bool(lat)
                    for o in lat:
                        nv = o[2].heap.get(bs, {}).get(of)
                        d = sub(nv[1], cur) if nv is not None and nv[0] == sz and nv[1][0] not in ('agg', 'undef', 'cond') else None
                        if d is None or d[0] != 'i' or (c is not None and c != d[1]): ok = False; break
                        c = d[1]
                    if not ok:
                        if (bs, of) in affc: affc.pop((bs, of)); grew = True
                        if it > 1: dropped.add((bs, of))
                    elif hyp != c:
                        if it < 3: affc[(bs, of)] = c
                        else: affc.pop((bs, of), None); dropped.add((bs, of))
                        grew = True
                for q, (v0, c) in cand.items():
                    if not all(self.entails_ge(o[2], add(add(v0, mulc(k, c)), I(c)), True) for o in lat): badinv.add(q); grew = True
                if bkeep(lat): grew = True
                if not grew and suggest(lat, s): grew = True
                if not grew: break
            else: binv.clear()
            learned = []
            if lat:
                for attr in ('ges', 'eqs', 'nes'):
                    com = None
                    for o in lat:
                        x = {q for q in getattr(o[2], attr) if q not in getattr(s, attr)}
                        com = x if com is None else com & x
                    learned += [(attr, q) for q in com]
        finally:
            self.trial -= 1
        res = []
        linfo = self.loopinfo.setdefault(lid, {'fn': fn, 'k': k, 'lat': [], 'entry': st, 'aff': aff, 'affc': affc})
        # first arrival (k = 0) exactly as entered
        s = st.clone(); f = dict(fr)
        for i, v, t in phis: f[i] = v
        for o in body(s, f):
            if isinstance(o, Out) or o[0] == 'exit': res.append(o)
            else: linfo['lat'].append((o[2], len(st.ev), True))
        if lat:
            # later arrivals (k >= 1): previous iteration's guards held at k-1
            s, f = generic(aphi(k), acell(k), st)
            ok = self.assume(s, c_ge(sub(k, ONE)))
            for v0, c in invs().values(): ok = ok and self.assume(s, c_ge(add(v0, mulc(k, c))))
            ok = ok and bassume(s)
            km = sub(k, ONE)
            syms = {psym(i, v, t) for i, v, t in phis if i not in aff} | {csym(b, o_, z) for (b, o_), z in W.items() if (b, o_) not in affc}
            for attr, q in learned:
                if any(x in syms for x in terms_in(q)): continue
                if any(x[0] in ('mix',) or x[0] == 'ld' and x[3] != st.ver.get(self.root(x[1]), 0) for x in terms_in(q) if x): continue
                q2 = subst(q, k, km)
                if any(x[0] == 'sym' and x != k and tag in str(x[1]) for x in terms_in(q2)): continue
                if attr == 'ges': ok = ok and self.assume(s, c_ge(q2))
                elif attr == 'eqs': ok = ok and self.assume(s, c_eq(q2))
                elif attr == 'nes':
                    ok = ok and self.assume(s, c_not(c_eq(q2)))
                    # a cursor that moves by c towards a bound it started on the right side of, in multiples of c, cannot skip it
                    cc, dd = _lin(q2); ck_ = dd.get(k, 0)
                    if ck_ and cc is not None:
                        q0 = subst(q, k, ZERO)       # value at entry
                        c0, d0 = _lin(q0)
                        if all(v % ck_ == 0 for v in d0.values()) and c0 % ck_ == 0 or self.divides(st, q0, abs(ck_)):
                            qk = subst(q2, k, k)
                            if ck_ < 0 and self.entails_ge(st, q0, True): ok = ok and self.assume(s, c_ge(sub(q2, I(-ck_))))
                            elif ck_ > 0 and self.entails_ge(st, neg(q0), True): ok = ok and self.assume(s, c_ge(sub(neg(q2), I(ck_))))
            if ok:
                s.ev = s.ev + (Ev('loop', lid, (k,), None, f'{fn.file}:{fn.line}'),)
                n0 = len(s.ev)
                for o in body(s, f):
                    if isinstance(o, Out) or o[0] == 'exit': res.append(o)
                    else: linfo['lat'].append((o[2], n0, False))
        return res
    def divides(self, st, q, n):
        c, d = _lin(q)
        for t, v in d.items():
            if v % n and self.mult.get(t, 1) % n: return False
        return c % n == 0
    mult = {}
    def born_inside(self, r, st):
        return r not in self.alive(st)
    def alive(self, st):
        return st.ts.get('alive', ())
    def phi_in(self, fn, h, i, frm, fr):
        for ins in fn.blocks[h]:
            if ins[0] != 'phi': break
            if ins[1] == i:
                for x, pb in ins[4]:
                    if pb == frm: return self.val(fr, x)
        return ('undef',)
    def run_header(self, fn, h, first, st, fr, active, stack):
        # run_from starting after the phis
        return self.run_from2(fn, h, first, st, fr, active, stack)
    def run_from2(self, fn, b, idx, st, fr, active, stack):
        save = fn.blocks[b]
        return self._rf(fn, b, idx, st, fr, active, stack)
    def _rf(self, fn, b, idx, st, fr, active, stack):
        # same as run_from but entering block b at instruction idx (phis already bound)
        return self.run_from(fn, b, -1, st, fr, active, stack)

    # ---------------- instructions
    def step(self, fn, ins, st, fr, stack):
        op = ins[0]; i = ins[1]
        V = lambda x: self.val(fr, x)
        if op == 'alloca':
            n = st.visits.get(('al', fn.name, i), 0); st.visits[('al', fn.name, i)] = n + 1
            t = ('al', fn.short.rsplit('::', 1)[-1] + f'.{i}', len(stack), n, fn.name)
            self.ptrs.add(t); self.objs.add(t); self.uns[t] = 64; self.osize[t] = ins[4]
            st.ts['alive'] = st.ts.get('alive', ()) + (t,)
            fr[i] = t; return None
        if op == 'load':
            a = V(ins[4])
            for hk in self.bounds_hooks: hk(self, st, 'load', a, ins[6], self.where(fn, ins, stack))
            fr[i] = self.ld(st, a, ins[5], ins[6])
            if ins[7]: st.ev = st.ev + (Ev('aload', 'aload', (a,), fr[i], self.where(fn, ins, stack), slot=ins[7]),)
            return None
        if op == 'store':
            a = V(ins[4])
            for hk in self.bounds_hooks: hk(self, st, 'store', a, ins[7], self.where(fn, ins, stack))
            v = V(ins[5])
            for hk in self.mstore_hooks: hk(self, st, a, v, ins[7], self.where(fn, ins, stack))
            self.sto(st, a, v, ins[6], ins[7])
            if ins[8]: st.ev = st.ev + (Ev('astore', 'astore', (a, v), None, self.where(fn, ins, stack), slot=ins[8]),)
            return None
        if op == 'gep':
            g = ins[4]
            a = V(g[0])
            r = add(a, I(g[1]))
            for x, sc, bw in g[2]: r = add(r, mulc(V(x), sc))
            fr[i] = r; return None
        if op == 'bin':
            if self.ovf_hooks: self.overflow(st, fn, ins, V(ins[5]), V(ins[6]), stack)
            return self.binop(st, fr, i, ins[4], V(ins[5]), V(ins[6]), ins[7], ins[8])
        if op == 'icmp': return self.icmp(st, fr, i, ins[4], V(ins[5]), V(ins[6]), ins[7])
        if op == 'cast':
            v = V(ins[5]); k = ins[4]; sb = ins[6][1]; db = ins[7][1]
            if k in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): fr[i] = v; return None
            if k == 'zext':
                if v[0] == 'i' and v[1] < 0: v = I(v[1] + (1 << sb))
                fr[i] = v; return None
            if k == 'sext':
                if sb == 1: fr[i] = v if v[0] != 'cond' else ('neg1', v); return None
                if v[0] == 'i' and v[1] >= (1 << (sb - 1)): fr[i] = I((v[1] & ((1 << sb) - 1)) - ((1 << sb) if v[1] >> (sb - 1) & 1 else 0)); return None
                if v[0] == 'tr' and v[1] == sb and v[3][0] == 'sx' and v[3][2] <= sb: fr[i] = v[3]; return None
                if v[0] == 'sx' and v[2] <= sb: fr[i] = v; return None
                fr[i] = v if v[0] in ('i',) or self.ub(v) is not None and self.ub(v) < (1 << (sb - 1)) else self.mark(('sx', v, sb), ['i', 64]); 
                if fr[i][0] == 'sx': self.uns.pop(fr[i], None)
                return None
            if k == 'trunc':
                if v[0] == 'i': fr[i] = I(v[1] & ((1 << db) - 1)); return None
                if v[0] == 'cond': fr[i] = v; return None
                u = self.ub(v)
                if db == 1 and v[0] != 'cond':
                    if u == 1: fr[i] = v
                    else: fr[i] = ('cond', ('ne', ('op', '&', v, ONE))) if u != 1 else v
                    return None
                if u is not None and self.nonneg(v) and u < (1 << db): fr[i] = v; return None
                if self.entails_ge(st, sub(I((1 << db) - 1), v), True) and self.entails_ge(st, v, True): fr[i] = v; return None
                if v[0] == 'cat' and db % 8 == 0 and sb % 8 == 0:
                    q = self.part(st, v, 0, db // 8, sb // 8)
                    if q[0] != 'part': fr[i] = q; return None
                t = ('tr', db, 'u', v); fr[i] = t; return None
            fr[i] = ('cv', k, v, db); return None
        if op == 'select':
            c = V(ins[4]); a, b = V(ins[5]), V(ins[6])
            cc = val_to_cond(c)
            d = self.decide(st, cc)
            if d is not None: fr[i] = a if d else b; return None
            if a == b: fr[i] = a; return None
            if ins[7][0] == 'i' and ins[7][1] == 1 and (a in (TRUE, FALSE) or b in (TRUE, FALSE)):
                pass
            out = []
            for tr, v in ((cc, a), (c_not(cc), b)):
                s2 = st.clone()
                if self.assume(s2, tr): out.append((s2, v))
            return out
        if op == 'extract':
            v = V(ins[4])
            for ix in ins[5]:
                if v[0] == 'agg' and ix < len(v[1]): v = v[1][ix]
                else: v = ('ex', v, ix)
            if v[0] == 'ex': self.mark(v, ins[6])
            fr[i] = v; return None
        if op == 'insert':
            v = V(ins[4]); x = V(ins[5]); n = ins[7]
            def insr(v, ixs, x, n):
                items = list(v[1]) if v[0] == 'agg' else [('ex', v, j) if v[0] != 'undef' else ('undef',) for j in range(n)]
                while len(items) <= ixs[0]: items.append(('undef',))
                items[ixs[0]] = x if len(ixs) == 1 else insr(items[ixs[0]], ixs[1:], x, 0)
                return ('agg', tuple(items))
            fr[i] = insr(v, ins[6], x, n); return None
        if op == 'lpad':
            e = fr.get('exc')
            fr[i] = e if e is not None and e[0] == 'agg' else ('agg', (self.mark(('sym', 'exc'), ['p', 64]), ('sym', 'sel')))
            return None
        if op == 'rmw':
            a = V(ins[5]); v = V(ins[6]); sz = ins[7][1] // 8
            old = self.ld(st, a, ins[7], sz)
            if ins[4] == 'add': nv = add(old, v)
            elif ins[4] == 'sub': nv = sub(old, v)
            elif ins[4] == 'xchg': nv = v
            else: nv = ('op', {'or': '|', 'and': '&', 'xor': '^'}.get(ins[4], ins[4]), old, v)
            st.ev = st.ev + (Ev('rmw', ins[4], (a, v, old), old, self.where(fn, ins, stack), slot=ins[8]),)
            self.sto(st, a, nv, ins[7], sz); fr[i] = old; return None
        if op == 'cmpxchg':
            a = V(ins[4]); cmp_ = V(ins[5]); new = V(ins[6]); sz = ins[7][1] // 8
            old = self.ld(st, a, ins[7], sz); out = []
            L = c_eq(sub(old, cmp_))
            for tr in (True, False):
                s2 = st.clone()
                if self.assume(s2, L if tr else c_not(L)):
                    s2.ev = s2.ev + (Ev('cas', 'ok' if tr else 'fail', (a, cmp_, new, old), old, self.where(fn, ins, stack), slot=ins[8]),)
                    if tr: self.sto(s2, a, new, ins[7], sz)
                    out.append((s2, ('agg', (old, TRUE if tr else FALSE))))
            return out
        if op == 'freeze': fr[i] = V(ins[4]); return None
        if op == 'fence':
            st.ev = st.ev + (Ev('fence', 'fence', (), None, self.where(fn, ins, stack), slot=ins[4]),); return None
        if op == 'fcmp':
            fr[i] = ('cond', ('t', ('fcmp', ins[4], V(ins[5]), V(ins[6])))); return None
        if op == 'un': fr[i] = ('op1', ins[4], V(ins[5])); return None
        if i >= 0: fr[i] = self.fresh(st, f'{fn.name}:{i}', op)
        return None

    def overflow(self, st, fn, ins, a, b, stack):
        op, bits = ins[4], ins[7][1]
        if op not in ('add', 'mul', 'shl') or bits >= 64 or bits < 8 or a[0] in ('cond', 'undef') or b[0] in ('cond', 'undef'): return
        if op == 'shl':
            if b[0] != 'i': return
            b = I(1 << b[1])
        ua, ub = self.ub(a), self.ub(b)
        r = None if ua is None or ub is None else (ua + ub if op == 'add' else ua * ub)
        if r is not None and r < (1 << bits): return
        L = add(a, b) if op == 'add' else mul(a, b)
        if self.entails_ge(st, sub(I((1 << bits) - 1), L), True): return
        for hk in self.ovf_hooks: hk(self, st, op, a, b, bits, self.where(fn, ins, stack))
    def binop(self, st, fr, i, op, a, b, ty, fl):
        bits = ty[1]
        if bits == 1 and op in ('and', 'or', 'xor'):
            ca, cb = val_to_cond(a), val_to_cond(b)
            if op == 'xor':
                if b == TRUE or b == ('i', -1): fr[i] = cond_to_val(c_not(ca)); return None
                da, db = self.decide(st, ca), self.decide(st, cb)
                if db is not None: fr[i] = cond_to_val(c_not(ca) if db else ca); return None
                out = []
                for tr in (True, False):
                    s2 = st.clone()
                    if self.assume(s2, cb if tr else c_not(cb)): out.append((s2, cond_to_val(c_not(ca) if tr else ca)))
                return out
            fr[i] = cond_to_val(self.simp2(st, op, ca, cb)); return None
        if op in ('and', 'or') and (a[0] in ('undef', 'cat') or b[0] in ('undef', 'cat')):
            r = self.bytewise(op, a, b, bits)
            if r is not None: fr[i] = r; return None
        if a[0] == 'undef' or b[0] == 'undef': fr[i] = ('undef',); return None
        if a[0] == 'cond': a = self.c2i(st, a)
        if b[0] == 'cond': b = self.c2i(st, b)
        if op == 'add':
            if b[0] == 'i' and a[0] == 'i': r = I((a[1] + b[1]) & ((1 << bits) - 1) if a[1] >= 0 and b[1] >= 0 else a[1] + b[1])
            else: r = add(a, b)
            if self.wrap and 'u' not in fl and 's' not in fl and a[0] != 'i' and b[0] != 'i' and self.root(a) is None and self.root(b) is None and bits in (32, 64):
                lim = (1 << bits) - 1
                u = self.ub(r)
                if not (u is not None and u <= lim) and not self.entails_ge(st, sub(I(lim), r), True):
                    out = []
                    s2 = st.clone()
                    if self.assume(s2, c_ge(sub(I(lim), r))): out.append((s2, r))
                    s2 = st.clone()
                    if self.assume(s2, c_ge(sub(r, I(lim + 1)))): out.append((s2, sub(r, I(lim + 1))))
                    return out
            fr[i] = r; return None
        if op == 'sub': fr[i] = sub(a, b); return None
        if op == 'mul': fr[i] = mul(a, b); return None
        if op == 'shl':
            if b[0] == 'i' and 0 <= b[1] < 63: fr[i] = mulc(a, 1 << b[1]); return None
            if a[0] == 'i' : fr[i] = self.mark(('op', '<<', a, b), ty); return None
        if op == 'lshr' and a[0] == 'cat' and b[0] == 'i' and b[1] % 8 == 0:
            k = b[1] // 8; rest = [(o - k, sz, x) for o, sz, x in a[1] if o >= k]
            if rest and rest[0][0] == 0 and len(rest) == 1: fr[i] = rest[0][2]; return None
        if op in ('lshr', 'udiv', 'urem') and a[0] == 'i' and a[1] < 0 and bits <= 64: a = I(a[1] + (1 << bits))
        if op in ('lshr', 'ashr', 'udiv', 'sdiv'):
            if b[0] == 'i' and b[1] > 0:
                n = (1 << b[1]) if op in ('lshr', 'ashr') else b[1]
                if a[0] == 'i' and a[1] >= 0: fr[i] = I(a[1] // n); return None
                fr[i] = xdivc(a, n) if 'e' in fl else divc(a, n)
                if fr[i][0] in ('div', 'xd') and (self.nonneg(a) or self.entails_ge(st, a, True)): self.uns.setdefault(fr[i], bits)
                return None
        if op in ('urem', 'and') and b[0] == 'i' and b[1] > 0 and (op == 'urem' or (b[1] & (b[1] + 1)) == 0):
            n = b[1] if op == 'urem' else b[1] + 1; c0, d0 = _lin(a)
            if c0 >= 0 and d0 and all(k > 0 and k % n == 0 for k in d0.values()) and self.nonneg(a): fr[i] = I(c0 % n); return None
        if op == 'urem' and self.aligned and b[0] == 'i' and b[1] > 0 and self.root(a) is not None:
            r0, off = self.split(a)
            if isinstance(off, int) and self.aligned(r0) % b[1] == 0: fr[i] = I(off % b[1]); return None
        if op in ('urem', 'srem') and b[0] == 'i' and b[1] > 0:
            if a[0] == 'i' and a[1] >= 0: fr[i] = I(a[1] % b[1]); return None
            fr[i] = self.mark(('op', '%', a, b), ty); return None
        nm = {'and': '&', 'or': '|', 'xor': '^', 'lshr': '>>', 'ashr': '>>', 'shl': '<<', 'urem': '%', 'udiv': '/'}.get(op, op)
        if a[0] == 'i' and b[0] == 'i':
            m = (1 << bits) - 1
            if nm == '&': fr[i] = I(a[1] & m & b[1]); return None
            if nm == '|': fr[i] = I((a[1] | b[1]) & m); return None
            if nm == '^': fr[i] = I((a[1] ^ b[1]) & m); return None
        if nm == '&' and b[0] == 'i' and b[1] >= 0 and (b[1] & (b[1] + 1)) == 0:
            u = self.ub(a)
            if u is not None and self.nonneg(a) and u <= b[1]: fr[i] = a; return None
        if nm == '&' and self.aligned and b[0] == 'i' and self.root(a) is not None:
            r0, off = self.split(a); al = self.aligned(r0); m = b[1] & ((1 << bits) - 1); inv = ~m & ((1 << bits) - 1)
            if isinstance(off, int) and al > 1:
                if m & (m + 1) == 0 and m < al: fr[i] = I(off & m); return None
                if inv & (inv + 1) == 0 and inv < al: fr[i] = add(r0, I(off & ~inv)); return None
        if nm == '&' and (a == ZERO or b == ZERO): fr[i] = ZERO; return None
        if nm in ('|', '^') and b == ZERO: fr[i] = a; return None
        if nm in ('|', '^') and a == ZERO: fr[i] = b; return None
        if nm in ('&', '|') and a == b: fr[i] = a; return None
        if nm == '^' and a == b: fr[i] = ZERO; return None
        if nm in ('&', '|', '^') and (tid(a) > tid(b) or a[0] == 'i') and b[0] != 'i': a, b = b, a
        fr[i] = self.mark(('op', nm, a, b), ty); return None
    def bytesof(self, v, nb):
        """the bytes of a value: constants, undefined bytes, or (term, index, size)"""
        if v[0] == 'i': return [('i', (v[1] >> (8 * k)) & 255) for k in range(nb)]
        if v[0] == 'undef': return [v] * nb
        if v[0] == 'cat':
            out = [None] * nb
            for o, sz, x in v[1]:
                for k in range(sz):
                    if o + k < nb: out[o + k] = ('i', (x[1] >> (8 * k)) & 255) if x[0] == 'i' else x if x[0] == 'undef' else ('b', x, k, sz)
            return None if None in out else out
        if v[0] in ('agg', 'fp'): return None
        if v[0] == 'cond': return [('b', v, 0, 1)] + [('i', 0)] * (nb - 1)
        c, d = _lin(v)
        if c or len(d) != 1: return None
        (x, k), = d.items(); u = self.ub(x)
        if u is None or u > 255 or not self.nonneg(x): return None
        for j in range(nb):
            if k == 1 << (8 * j): return [('b', x, 0, 1) if q == j else ('i', 0) for q in range(nb)]
        return None
    def bytewise(self, op, a, b, bits):
        if bits % 8 or bits > 64: return None
        nb = bits // 8; x = self.bytesof(a, nb); y = self.bytesof(b, nb)
        if x is None or y is None: return None
        z, f = (('i', 0), ('i', 255)) if op == 'and' else (('i', 255), ('i', 0))      # absorbing, neutral
        out = []
        for p, q in zip(x, y):
            if p == z or q == z: out.append(z)
            elif p == f: out.append(q)
            elif q == f: out.append(p)
            elif p[0] == 'i' and q[0] == 'i': out.append(('i', p[1] & q[1] if op == 'and' else p[1] | q[1]))
            else: return None
        if all(p[0] == 'undef' for p in out): return ('undef',)
        if all(p[0] == 'i' for p in out): return I(sum(p[1] << (8 * k) for k, p in enumerate(out)))
        pieces = []; k = 0
        while k < nb:
            p = out[k]
            if p[0] == 'b':
                if p[2] != 0 or k + p[3] > nb or any(out[k + j] != ('b', p[1], j, p[3]) for j in range(p[3])): return None
                pieces.append((k, p[3], p[1])); k += p[3]
            else: pieces.append((k, 1, I(p[1]) if p[0] == 'i' else p)); k += 1
        if pieces[0][2][0] not in ('i', 'undef') and all(x == ZERO for _, _, x in pieces[1:]): return pieces[0][2]
        return self.mark(('cat', tuple(pieces)), ('i', bits))
    def c2i(self, st, v):
        d = self.decide(st, v[1])
        return v if d is None else (ONE if d else ZERO)
    def simp2(self, st, op, a, b):
        if op == 'and':
            if a is False or b is False: return False
            if a is True: return b
            if b is True: return a
            return ('and', a, b)
        if a is True or b is True: return True
        if a is False: return b
        if b is False: return a
        return ('or', a, b)

    def objdist(self, L, st=None):
        """L == 0 impossible because it compares addresses of distinct live objects or a null with an object"""
        c, d = _lin(L)
        obj = [(t, k) for t, k in d.items() if t in self.objs]
        if len(obj) == 2 and len(d) == 2 and obj[0][1] == -obj[1][1]: return True
        if len(obj) == 1 and len(d) == 1 and c >= 0: return True
        if len(obj) == 1 and obj[0][1] == 1 and st is not None:
            # an address inside an object is not null
            rest = sub(L, obj[0][0])
            if self.entails_ge(st, rest, True): return True
        return False
    def icmp(self, st, fr, i, pred, a, b, ty):
        bits = ty[1]
        if a[0] == 'undef' or b[0] == 'undef': fr[i] = ('cond', ('t', self.fresh(st, 'undefcmp'))); return None
        if a[0] == 'cond' or b[0] == 'cond':
            if a[0] == 'i': a, b = b, a
            if a[0] == 'cond' and b[0] == 'i' and pred in ('eq', 'ne'):
                c = a[1] if (b[1] != 0) == (pred == 'eq') else c_not(a[1])
                fr[i] = cond_to_val(c); return None
            if a[0] == 'cond': a = self.c2i(st, a)
            if b[0] == 'cond': b = self.c2i(st, b)
        if ty[0] == 'i' and pred[0] != 's' and bits <= 64:
            if a[0] == 'i' and a[1] < 0: a = I(a[1] + (1 << bits))
            if b[0] == 'i' and b[1] < 0: b = I(b[1] + (1 << bits))
        if pred in ('eq', 'ne'):
            if a[0] == 'i' and b[0] == 'sx': a, b = b, a
            if a[0] == 'sx':
                n = a[2]
                if b[0] == 'sx' and b[2] == n: a, b = a[1], b[1]
                elif b[0] == 'i':
                    c0 = b[1] - (1 << bits) if bits <= 64 and b[1] >= 1 << (bits - 1) else b[1]
                    if -(1 << (n - 1)) <= c0 < 1 << (n - 1): a, b = a[1], I(c0 & ((1 << n) - 1))
            if 'agg' in (a[0], b[0]): c = ('t', ('aggeq', a, b))
            else:
                L = sub(a, b)
                if self.objdist(L, st) or self.objdist(neg(L), st): c = False
                else: c = c_eq(L)
            fr[i] = cond_to_val(c if pred == 'eq' else c_not(c)); return None
        if pred[0] == 's':
            def full(x):
                return any(t in self.uns and self.uns[t] >= bits and t[0] in ('ld', 'sym', 'mix', 'op', 'tr') and t not in self.small for t, k in _lin(x)[1].items()) and self.root(x) is None
            if full(a) or full(b):
                x, y = (a, b)
                s = pred[1:]
                key = {'lt': ('slt', x, y, True), 'ge': ('slt', x, y, False), 'gt': ('slt', y, x, True), 'le': ('slt', y, x, False)}[s]
                fr[i] = ('cond', ('t' if key[3] else 'f', key[:3])); return None
        d = {'gt': c_ge(sub(sub(a, b), ONE)), 'ge': c_ge(sub(a, b)), 'lt': c_ge(sub(sub(b, a), ONE)), 'le': c_ge(sub(b, a))}[pred[1:]]
        if pred[0] == 'u' and ty[0] == 'i':
            # ideal-integer comparison is only right for non-negative sides
            for x, y, lo in ((a, b, True), (b, a, False)):
                if any(k < 0 for _, k in _lin(x)[1].items()) or _lin(x)[0] < 0:
                    if not (self.nonneg(x) or self.entails_ge(st, x, True)):
                        out = []
                        s2 = st.clone()
                        if self.assume(s2, c_ge(x)): out.append((s2, cond_to_val(d)))
                        s2 = st.clone()
                        if self.assume(s2, c_ge(sub(neg(x), ONE))):
                            # wrapped: huge value
                            huge = {'gt': lo, 'ge': lo, 'lt': not lo, 'le': not lo}[pred[1:]]
                            out.append((s2, cond_to_val(huge)))
                        if len(out) == 1:
                            st.__dict__ if False else None
                        return out
        fr[i] = cond_to_val(d); return None
    small = set()

    # ---------------- calls
    def where(self, fn, ins, stack):
        return f'{ins[3]}:{ins[2]} ({fn.short})'
    def do_call(self, fn, ins, st, fr, stack):
        cal = ins[4]; fl = ins[7]
        args = [self.val(fr, a) for a in ins[5]]
        self.stats['calls'] += 1
        where = self.where(fn, ins, stack)
        tgt = None; slot = None; obj = None
        cv = self.val(fr, cal)
        if cv[0] == 'G':
            tgt = self.mod.fns.get(cv[1])
            if tgt is not None and tgt.blocks is None and re.search(r'[CD]1E', cv[1]):
                t2 = self.mod.fns.get(re.sub(r'([CD])1E', r'\g<1>2E', cv[1]))     # complete-object variant is an alias of the base-object one
                if t2 is not None and t2.blocks is not None: tgt = t2
        elif cv[0] == 'ld':
            vp = cv[1]; b, off = self.split(vp)
            slot = off; obj = b
        name = tgt.short if tgt is not None else ('vcall' if slot is not None else 'icall')
        dem = tgt.dem if tgt is not None else name
        if tgt is not None and tgt.name.startswith('llvm.'): return self.intrinsic(fn, ins, tgt.name, args, st, where)
        if tgt is not None:
            if self.faults and FAULT.match(name):
                st.ev = st.ev + (Ev('fault', name, tuple(args), None, where, stack=stack),)
                return [Out(st, 'throw', None)]
            if HALT.match(name): return [Out(st, 'halt', None)]
            for rx, cb in self.models:
                if rx.match(name):
                    r = cb(self, st, tgt, args, where)
                    if r is not None: return r
            if tgt.blocks is not None and not (self.opaque_re and self.opaque_re.search(name)) and stack.count(tgt) < self.recmax and len(stack) < self.depthmax:
                self.stats['inlined'] += 1
                return self.call_fn(tgt, args, st, stack)
            if name in ('__cxa_rethrow', '__cxa_throw'): 
                st.ev = st.ev + (Ev('call', name, tuple(args), None, where, stack=stack),)
                return [Out(st, 'throw', None)]
            if name == '__cxa_begin_catch':
                return [Out(st, 'ret', args[0])]
            if SILENT.match(name):
                return [Out(st, 'ret', self.mark(self.fresh(st, where, name), ins[6]) if ins[6][0] != 'v' else None)]
            if name in ('operator new', 'operator new[]', 'malloc'):
                n = st.visits.get(('new', where), 0); st.visits[('new', where)] = n + 1
                t = ('new', where, n, len(stack)); self.ptrs.add(t); self.objs.add(t); self.uns[t] = 64
                st.ts['alive'] = st.ts.get('alive', ()) + (t,)
                st.ev = st.ev + (Ev('new', name, tuple(args), t, where, stack=stack),)
                st.ts[('size', t)] = args[0]
                return [Out(st, 'ret', t)]
        ret = None
        if ins[6][0] == 'a':
            sy = self.fresh(st, where + name, 'ret:' + name.rsplit('::', 1)[-1])
            ret = ('agg', tuple(self.mark(('ex', sy, j), [l[2], l[1] * 8]) if l[0] != 'n' else ('ex', sy, j) for j, l in enumerate(ins[6][2])))
        elif ins[6][0] != 'v':
            ret = self.mark(self.fresh(st, where + name, 'ret:' + name.rsplit('::', 1)[-1]), ins[6])
            if ins[6][1] == 1 and ins[6][0] == 'i': self.uns[ret] = 1
        kind = 'vcall' if slot is not None else 'call' if tgt is not None else 'icall'
        ev = Ev(kind, name if tgt is not None else name, tuple(args), ret, where, slot=slot, stack=stack)
        if tgt is None: ev.fn = cv
        else: ev.fn = tgt
        if self.snap: ev.snap = self.snap(self, st, ev)
        st.ev = st.ev + (ev,)
        ro = 'o' in fl or (tgt is not None and 'o' in tgt.fl)
        if not ro:
            for a in args:
                r = self.root(a) if a[0] not in ('agg', 'undef', 'cond') else None
                if r is not None and r[0] == 'al' and self.split(a)[0] == r:
                    if self.keep_local(name, r, a, st): continue
                    self.havoc_obj(st, r)
        outs = []
        noret = 'r' in fl or (tgt is not None and 'r' in tgt.fl)
        nothrow = 'n' in fl or (tgt is not None and 'n' in tgt.fl)
        if not nothrow:
            if noret or self.throws is None or self.throws(name, ev):
                s2 = st.clone() if not noret else st
                s2.ev = s2.ev + (Ev('thrown', name, tuple(args), None, where, stack=stack),)
                outs.append(Out(s2, 'throw', None))
        elif noret: return [Out(st, 'halt', None)]
        if not noret: outs.append(Out(st, 'ret', ret))
        return outs
    def keep_local(self, name, r, a, st): return False

    def intrinsic(self, fn, ins, nm, args, st, where):
        R = lambda v=None: [Out(st, 'ret', v)]
        if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = args[0], args[1], args[2]
            for hk in self.bounds_hooks:
                hk(self, st, 'load', s, n, where); hk(self, st, 'store', d, n, where)
            if n[0] == 'i' and n[1] <= 512: self.copy(st, d, s, n[1])
            elif n != ZERO:
                st.ev = st.ev + (Ev('memcpy', nm.split('.')[1], (d, s, n), None, where),)
                self.havoc_range(st, d)
            return R()
        if nm.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            for hk in self.bounds_hooks: hk(self, st, 'store', d, n, where)
            if n[0] == 'i' and n[1] <= 1024 and v[0] == 'i' and v != ZERO:
                pat = v[1] & 255; o = 0
                while o < n[1]:
                    sz = 8 if o + 8 <= n[1] else 4 if o + 4 <= n[1] else 1
                    self.sto(st, add(d, I(o)), I(int.from_bytes(bytes([pat]) * sz, 'little')), ['i', sz * 8], sz); o += sz
            elif n[0] == 'i' and n[1] <= 4096 and v == ZERO:
                base, off = self.split(d)
                cells = st.heap.setdefault(base, {})
                for o in list(cells):
                    if o < off + n[1] and off < o + cells[o][0]:
                        sz, ov = cells.pop(o)
                if n[1] <= 256:
                    o = off
                    while o < off + n[1]:
                        sz = 8 if o % 8 == 0 and o + 8 <= off + n[1] else 4 if o % 4 == 0 and o + 4 <= off + n[1] else 1
                        cells[o] = (sz, ZERO); o += sz
                else: st.ts['zero'] = st.ts.get('zero', ()) + ((base, off, n[1]),)
            else:
                st.ev = st.ev + (Ev('memset', 'memset', (d, v, n), None, where),)
                self.havoc_range(st, d)
            return R()
        if nm.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            k = 'max' if 'max' in nm else 'min'
            a, b = args
            if self.entails_ge(st, sub(a, b), True): return R(a if k == 'max' else b)
            if self.entails_ge(st, sub(b, a), True): return R(b if k == 'max' else a)
            return R(self.mark((k, a, b), ins[6]))
        if '.with.overflow' in nm:
            op = nm.split('.')[1]
            a, b = args; bits = ins[6][2][0][1] * 8
            r = {'uadd': add, 'usub': sub, 'umul': mul}.get(op, lambda x, y: ('op', op, x, y))(a, b)
            if op == 'usub': c = c_ge(sub(neg(r), ONE))
            else: c = c_ge(sub(r, I(1 << bits)))
            return R(('agg', (r, cond_to_val(c))))
        if nm.startswith('llvm.expect'): return R(args[0])
        if nm.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')) and args[0][0] == 'i':
            w = int(re.search(r'\.i(\d+)$', nm).group(1)); x = args[0][1] & ((1 << w) - 1)
            if 'ctpop' in nm: return R(I(bin(x).count('1')))
            return R(I(w - x.bit_length() if 'ctlz' in nm else w if x == 0 else (x & -x).bit_length() - 1))
        if nm.startswith('llvm.eh.typeid'): return R(self.mark(self.fresh(st, where, 'typeid'), ['i', 32]))
        if nm.startswith('llvm.is.constant'): return R(FALSE)
        if nm.startswith('llvm.objectsize'): return R(I(-1))
        if nm.startswith(('llvm.launder', 'llvm.strip', 'llvm.ptr.annotation')): return R(args[0])
        if nm.startswith('llvm.assume'):
            c = val_to_cond(args[0])
            if not self.assume(st, c): return []
            return R()
        if nm.startswith(('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')): return [Out(st, 'halt', None)]
        if nm.startswith('llvm.lifetime'):
            if 'end' in nm or 'start' in nm:
                r = args[1]
                if r[0] == 'al':
                    for b in list(st.heap):
                        if self.root(b) == r: del st.heap[b]
            return R()
        if ins[6][0] == 'v': return R()
        return R(self.mark(('call', nm, tuple(args)), ins[6]))
    def copy(self, st, d, s, n):
        sb, so = self.split(s)
        vals = []
        cells = dict(st.heap.get(sb, {}))
        o = so
        while o < so + n:
            e = cells.get(o)
            if e is not None and o + e[0] <= so + n: sz = e[0]
            else:
                nx = min([x for x in cells if x > o] + [so + n])
                sz = 8 if o + 8 <= nx else 4 if o + 4 <= nx else 2 if o + 2 <= nx else 1
            v = self.ld(st, add(sb, I(o)), ['p', 64] if e is not None and e[1] in self.ptrs or (e is None and sz == 8) else ['i', sz * 8], sz)
            vals.append((o - so, sz, v)); o += sz
        for off, sz, v in vals: self.sto(st, add(d, I(off)), v, ['p' if v in self.ptrs else 'i', sz * 8], sz)
    def havoc_range(self, st, d):
        self.havoc_obj(st, self.root(d))
