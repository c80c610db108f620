"""Loading of the type-resolved program emitted by tool/extract.cc."""
import json, os, subprocess, sys, hashlib, fcntl, tempfile, concurrent.futures, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/c++/src'
BUILD = os.environ.get('VP_BUILD', VERIF + '/.build')

class AnalysisBroken(Exception):
    pass

def _find(*cands):
    for c in cands:
        if os.path.exists(c):
            return c
    raise AnalysisBroken('missing tool/library: ' + ' '.join(cands))

def tool_path():
    """Builds the extractor if it is missing or older than its source."""
    os.makedirs(BUILD, exist_ok=True)
    src = VERIF + '/tool/extract.cc'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = f'{BUILD}/extract-{h}'
    if os.path.exists(exe):
        return exe
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cpp = _find('/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1',
                    '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '/usr/lib/llvm-18/lib/libclang-cpp.so')
        llvm = _find('/usr/lib/llvm-18/lib/libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so')
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
                            '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, cpp, llvm],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('extractor build failed:\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe

BASE_FLAGS = ['-std=gnu++2b', '-stdlib=libc++', '-pthread', '-DKJ_USE_FIBERS', '-DKJ_HAS_ZLIB',
              '-DKJ_HAS_OPENSSL', '-DKJ_HAS_BROTLI=1', '-w',
              '-DCAPNP_INCLUDE_DIR="/usr/local/include"', '-DVERSION="2.0-dev"',
              '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']

def flags(extra=()):
    return BASE_FLAGS + [f'-I{SRC}', f'-I{VERIF}/gen'] + list(extra)

class TU:
    __slots__ = ('name', 'fns', 'recs', 'fields', 'types', 'files', 'prog', 'garr')

class Fn:
    __slots__ = ('tu', 'idx', 'k', 'q', 'file', 'line', 'ret', 'fl', 'cls', 'ov', 'enc', 'params', 'co', 'inits', 'body', 'ta', 'cname', '_size', '_calls', 'short')
    def __repr__(self):
        return f'<{self.q}@{self.file}:{self.line}>'
    @property
    def loc(self):
        return f'{self.file}:{self.line}'
    def isMethod(self): return 'M' in self.fl
    def size(self):
        if self._size is None:
            self._size = _count(self.body)
        return self._size

def _count(x):
    n = 0
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            n += 1
            st.extend(y)
    return n

def relfile(p):
    for pre in (SRC + '/', REPO + '/', VERIF + '/'):
        if p.startswith(pre):
            return p[len(pre):]
    return p

def walk(x):
    """all AST nodes (lists with a string tag) below x"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str): yield y
            st.extend(reversed(y))

CALLS = {'call', 'mcall', 'ctor', 'fn', 'mfn'}

class Program:
    """A set of translation units."""
    def __init__(self):
        self.tus = []
        self.bykey = {}
        self.byname = {}
        self.overriders = None

    def fn(self, q, **kw):
        l = self.fns(q)
        if not l:
            raise AnalysisBroken(f'anchor function {q} not found (or has no body)')
        return l[0]

    def fns(self, q):
        return [f for f in self.byname.get(q, []) if f.body is not None]

    def all_fns(self):
        seen = set()
        for tu in self.tus:
            for f in tu.fns:
                if f.body is None: continue
                key = (f.k, f.file, f.line)
                if key in seen: continue
                seen.add(key)
                yield f

    def calls(self, f):
        """(callee Fn, node) for each direct call/construct/function reference in f's own body"""
        r = getattr(f, '_calls', None)
        if r is None:
            r = []
            for root in (f.body, f.inits):
                for n in walk(root):
                    if n[0] in CALLS and isinstance(n[1], int) and n[1] >= 0: r.append((f.tu.fns[n[1]], n))
            f._calls = r
        return r
    def callees(self, f):
        return {g.q for g, _ in self.calls(f)}

    def resolve(self, f):
        """definition of f (maybe in another TU)"""
        if f.body is not None: return f
        g = self.bykey.get(f.k)
        return g if g is not None else f

    def overrides(self, f):
        if self.overriders is None:
            self.overriders = {}
            for tu in self.tus:
                for g in tu.fns:
                    for o in g.ov:
                        self.overriders.setdefault(tu.fns[o].k, {})[g.k] = g
        out = []
        st = [f.k]; seen = set()
        while st:
            k = st.pop()
            for kk, g in self.overriders.get(k, {}).items():
                if kk not in seen:
                    seen.add(kk); out.append(self.resolve(g)); st.append(kk)
        return out

def _intern_strings(d):
    return d

def load_tu(prog, name, path):
    with open(path) as fh:
        d = json.load(fh)
    tu = TU(); tu.name = name; tu.prog = prog
    tu.files = [relfile(x) for x in d['files']]
    tu.garr = d.get('garr', {}); tu.types = d['types']; tu.recs = d['recs']; tu.fields = d['fields']
    tu.fns = []
    for i, r in enumerate(d['fns']):
        f = Fn(); f.tu = tu; f.idx = i
        f.k = sys.intern(r['k']); f.q = sys.intern(r['q']); f.file = tu.files[r['f']]; f.line = r['l']; f.ret = r['ret']
        f.fl = r['fl']; f.cls = r.get('c', -1); f.ov = r.get('ov', ()); f.enc = r.get('enc', -1)
        f.params = r['p']; f.co = 'co' in r; f.inits = r.get('in'); f.body = r.get('b'); f.ta = r.get('ta'); f._size = None
        f.cname = d['recs'][f.cls]['q'] if 0 <= f.cls < len(d['recs']) else None
        f.short = f.q.rsplit('::', 1)[-1]
        tu.fns.append(f)
        if f.body is not None and f.k not in prog.bykey:
            prog.bykey[f.k] = f
        prog.byname.setdefault(f.q, []).append(f)
    # dedup byname on key
    prog.tus.append(tu)
    return tu

def extract(srcs, extra=(), outdir=None, allh=False, tag=''):
    """srcs: list of paths relative to SRC or absolute. Returns {src: json path}."""
    exe = tool_path()
    outdir = outdir or tempfile.mkdtemp(prefix='vp-ex-')
    res = {}
    def one(s):
        p = s if s.startswith('/') else f'{SRC}/{s}'
        if not os.path.exists(p):
            return s, None, f'no such file {p}'
        o = f'{outdir}/{tag}' + s.strip('/').replace('/', '__') + '.json'
        cmd = [exe, SRC, VERIF + '/witness', o, p] + (['-all'] if allh else []) + ['--'] + flags(extra)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(o):
            return s, None, r.stderr[-2000:]
        return s, o, None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, o, err in ex.map(one, srcs):
            if o is None:
                raise AnalysisBroken(f'cannot parse {s}: {err}')
            res[s] = o
    return res, outdir

def load(srcs, extra=(), allh=False):
    paths, d = extract(srcs, extra, allh=allh)
    prog = Program()
    try:
        for s in srcs:
            load_tu(prog, s, paths[s])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    # dedupe byname
    for q, l in prog.byname.items():
        seen = set(); out = []
        for f in sorted(l, key=lambda f: f.body is None):
            if f.k in seen and not ('L' in f.fl): continue
            seen.add(f.k); out.append(f)
        prog.byname[q] = out
    return prog
