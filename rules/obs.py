"""Witness functions that state what must hold on each of their paths (witness/obs.h), decided over the lowered code of the headers."""
from kern import *
import os, resource, concurrent.futures, multiprocessing, traceback

USER = re.compile(r'^vp::')
class Heap:
    """ghost allocation state: each allocation freed once, not used afterwards, not accessed outside"""
    DEL = re.compile(r'^(operator delete|free$)')
    def __init__(s, e):
        e.models.append((s.DEL, s.delete)); e.bounds_hooks.append(s.bounds)
    def delete(s, e, st, tgt, args, where):
        if tgt.blocks is not None: return None
        x = args[0]
        if x == ZERO: return [Out(st, 'ret', None)]
        st.ev = st.ev + (Ev('call', tgt.short, tuple(args), None, where),)
        if x not in st.ts.get('alive', ()):
            if x[0] in ('new', 'al', 'G') or e.root(x)[0] in ('new', 'al', 'G'): s.bad(st, 'free', f'frees {show(x)}, which is not a live allocation', where)
        else:
            st.ts['alive'] = tuple(y for y in st.ts['alive'] if y != x)
            st.ts['freed'] = st.ts.get('freed', ()) + (x,)
        return [Out(st, 'ret', None)]
    def bad(s, st, k, t, w): st.ts['heapbad'] = st.ts.get('heapbad', ()) + ((k, t, w),)
    def bounds(s, e, st, kind, a, n, where):
        if a[0] in ('agg', 'undef', 'cond'): return
        b, off = e.split(a)
        if kind == 'store' and b[0] == 'G' and 'init' in (e.mod.globs.get(b[1]) or {}) and n != ZERO: s.bad(st, 'const', f'writes to the constant {show(a)}', where)
        if b in st.ts.get('freed', ()): s.bad(st, 'uaf', f'touches {show(a)} after it was freed', where)
        elif b[0] == 'new' and isinstance(n, int) and ('size', b) in st.ts:
            sz = st.ts[('size', b)]
            if sz[0] == 'i' and (off < 0 or off + n > sz[1]): s.bad(st, 'oob', f'touches {show(a)}, outside the allocation', where)

class Unwind:
    """kj::UnwindDetector: an exception is in flight exactly on exceptional edges"""
    def __init__(s, e):
        e.models += [(re.compile(r'^__cxa_begin_catch$'), s.caught), (re.compile(r'^kj::UnwindDetector::isUnwinding$'), s.ask), (re.compile(r'^kj::UnwindDetector::UnwindDetector$'), s.nop)]
    def nop(s, e, st, tgt, args, where): return [Out(st, 'ret', None)]
    def caught(s, e, st, tgt, args, where):
        st.ts['caught'] = len(st.ev)
        return None
    def ask(s, e, st, tgt, args, where):
        return [Out(st, 'ret', ONE if any(x.kind in ('thrown', 'fault') for x in st.ev[st.ts.get('caught', 0):]) else ZERO)]

class Tr:
    """what one path did"""
    def __init__(s, e, o):
        s.e, s.o, s.st = e, o, o.st
        s.it = []
        for x in o.events:
            if x.kind == 'thrown' and s.it and s.it[-1][0] == x.name: s.it[-1][3] = True
            elif x.kind in ('call', 'vcall', 'icall', 'new', 'fault'): s.it.append([x.name, x.args, x.ret, False, x.where])
    def named(s, n): return [i for i in s.it if i[0] == n or i[0].rsplit('::', 1)[-1] == n]
    def pos(s, n): return [j for j, i in enumerate(s.it) if i[0] == n or i[0].rsplit('::', 1)[-1] == n]
    def truth(s, v): return s.e.decide(s.st, s.e.truth(v))
    def eq(s, a, b): return a == b or s.e.entails_eq(s.st, sub(a, b))

class Recorder:
    """collects, in a worker process, what one witness established"""
    def __init__(s): s.calls = []; s.notes = {}; s.eng = []
    def obl(s, ok, rule, where, detail='', construct=''): s.calls.append((bool(ok), rule, where, detail if not ok else '', construct)); return ok
    def engine_stats(s, e): s.eng.append(Stats({k: (list(v) if isinstance(v, set) else v) for k, v in e.stats.items()}))
class Stats:
    def __init__(s, d): s.stats = d
_suite = None
def _work(name):
    s = _suite; r = Recorder(); s.ck = r
    try: s.one(name)
    except AnalysisBroken as b: return str(b), [], {}, []
    except BaseException as b: return f'{name}: {type(b).__name__}: {b}\n{traceback.format_exc()[-600:]}', [], {}, []
    return None, r.calls, r.notes, r.eng

def callees(x):
    if isinstance(x, str): return
    if isinstance(x, (list, tuple)):
        if len(x) > 1 and x[0] == 'g' and isinstance(x[1], str): yield x[1]
        for y in x: yield from callees(y)

class Suite:
    def __init__(s, ck, witness, rule, cfgs=((), ('-DDEBUG',)), merge=(), opaque=None, throws=None, heap=False, extra=None, setup=None, peel=2, recmax=4, maxpaths=4000, userthrow=None, home=None, deadline=None, bad=None, nohalt=False):
        s.nohalt = nohalt
        s.bad = bad and re.compile(bad)
        s.deadline = deadline
        s.home = re.compile(home) if home else None
        s.ck, s.witness, s.rule = ck, witness, rule
        s.heap, s.extra, s.setup, s.peel, s.recmax, s.throws, s.opaque, s.maxpaths = heap, extra, setup, peel, recmax, throws, opaque, maxpaths
        s.userthrow = userthrow or (lambda n: USER.match(n))
        s.src = open(f'{VERIF}/witness/{witness}').read().split('\n')
        for cfg in cfgs: s.run(cfg, merge)
    def text(s, line):
        t = s.src[line - 1]; return t.strip()[:160]
    def run(s, cfg, merge):
        ck = s.ck
        K = Kern(ck, s.witness, extra=cfg)
        if merge: K.merge(list(merge), cfg)
        s.K = K; s.cfg = cfg
        only = os.environ.get('VP_ONLY')
        names = [n for n in sorted(K.ws) if '__' in n and not (only and not re.search(only, n))]
        names = [n for n in names if n.split('__')[0] in ('all', 'rej', 'any') or n.split('__')[0] == 'rejD' and '-DDEBUG' in cfg]
        jobs = min(len(names), 1 if os.environ.get('VP_DBG') or os.environ.get('VP_TRACE') else int(os.environ.get('VP_JOBS', os.cpu_count() or 1)))
        if jobs <= 1:
            for n in names: s.one(n)
            return
        global _suite
        _suite = s
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        try: resource.setrlimit(resource.RLIMIT_STACK, (1 << 29 if hard == resource.RLIM_INFINITY else min(hard, 1 << 29), hard))     # deep terms
        except (ValueError, OSError): pass
        with concurrent.futures.ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context('fork')) as pool:
            for err, calls, notes, eng in pool.map(_work, names):
                if err: raise AnalysisBroken(err)
                for a in calls: ck.obl(*a)
                for k, v in notes.items():
                    if isinstance(v, dict): ck.notes.setdefault(k, {}).update(v)
                for st in eng: ck.engine_stats(st)
    def one(s, name):
            ck, K = s.ck, s.K
            kind = name.split('__')[0]
            e = K.engine(throws=s.throws or (lambda n, ev: n.startswith('vp::')), opaque=s.opaque, maxpaths=s.maxpaths)
            e.peel = s.peel; e.recmax = s.recmax
            if s.deadline: e.deadline = s.deadline
            Unwind(e)
            if s.heap: Heap(e)
            if s.setup: s.setup(s, e)
            f = K.ws[name]; w0 = src_where(f)
            s.w0 = s.anchor(f) or w0
            named = {}
            args = []
            for a in f.args:
                t = e.P(a[3]) if a[1][0] == 'p' else e.N(a[3], a[1][1]); named[a[3]] = t; args.append(t)
            e.named = named
            try: outs = e.run(f, args)
            except Budget as b: raise AnalysisBroken(f'{name}: analysis budget exceeded ({b})')
            ck.engine_stats(e)
            if os.environ.get('VP_DBG'):
                for o in outs: print('  --', name, o.kind, ', '.join(repr(x)[:90] for x in o.events)[:1500], '|', (o.st.facts_str() or '')[:300])
            reached = False; n = 0
            for o in outs:
                if any(x.kind == 'call' and x.name == 'vp::skip' for x in o.events): continue
                t = Tr(e, o); P = pathinfo(o)
                for i in t.named('vp::must'):
                    n += 1
                    line = i[1][1][1] if i[1][1][0] == 'i' else 0
                    ck.obl(t.truth(i[1][0]) is True, s.rule, s.at(o), f'{name}: not on every path: {s.stmt(line)}' + P, f'{name}:{s.key(line)}')
                for i in t.named('vp::never'):
                    ck.obl(False, s.rule, s.at(o), f'{name}: must not be reached: {s.text(i[1][0][1])}' + P, f'{name}:never')
                for i in t.it:
                    if s.bad and s.bad.search(i[0]): ck.obl(False, s.rule, i[4] or s.at(o), f'{name}: {i[0]} is reached although the history is valid' + P, f'{name}:bad')
                fin = bool(t.named('vp::done')); reached |= fin
                user = any(x.kind == 'thrown' and s.userthrow(x.name) for x in o.events)
                if kind == 'all':
                    n += 1
                    if o.kind != 'ret': ck.obl(user and not (s.nohalt and o.kind == 'halt'), s.rule, s.at(o), f'{name}: fails ({o.kind}) although the request is valid' + P, f'{name}:fails')
                elif kind in ('rej', 'rejD'):
                    n += 1; ck.obl(not fin, s.rule, s.at(o), f'{name}: an invalid request is accepted' + P, f'{name}:accepted')
                for k, txt, w in o.st.ts.get('heapbad', ()): ck.obl(False, s.rule, w or s.at(o), f'{name}: {txt}' + P, f'{name}:{k}')
                if s.heap and (o.kind == 'ret' or o.kind == 'throw' and user):
                    left = [x for x in o.st.ts.get('alive', ()) if x[0] == 'new']
                    n += 1; ck.obl(not left, s.rule, s.at(o), f'{name}: at exit {[show(x) for x in left]} still allocated' + P, f'{name}:leak')
                if s.extra: n += s.extra(s, name, t) or 0
            if kind in ('all', 'any'): ck.obl(reached, s.rule, s.w0, f'{name}: no path gets to the end', f'{name}:some')
            ck.notes.setdefault('paths_checked', {}); ck.notes['paths_checked'][name] = n
    def anchor(s, f):
        """the last repository function the witness calls: the construct a violation is reported at"""
        if not s.home: return None
        todo, seen = [f], {f.name}; found = any_ = None
        while todo and not any_:
            nxt = []
            for g in todo:
                for blk in g.blocks or ():
                    for ins in blk:
                        for nm in callees(ins):
                            c = s.K.mod.fns.get(nm)
                            if c is None or nm in seen: continue
                            seen.add(nm)
                            if c.blocks is not None: nxt.append(c)
                            if s.home.search(c.file or ''):
                                any_ = c
                                if not re.search(r'(^|::)(begin|end|size|~\w+|(\w+)::\3|operator.*|asPtr)$', re.sub(r'<.*>', '', c.short)): found = c
            todo = nxt
        found = found or any_
        return found and f'{found.file}:{found.line} ({found.short})'
    def at(s, o):
        if not s.home: return inrepo(o, s.w0)
        for ev in reversed(o.events):
            if ev.where and s.home.search(ev.where): return ev.where
        return s.w0
    def stmt(s, line):
        m = re.findall(r'(?:MUST)\((.*?)\);', s.src[line - 1])
        return ' / '.join(m)[:240] if m else s.text(line)
    def key(s, line): return re.sub(r'\W+', '', s.stmt(line))[:60]
