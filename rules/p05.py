"""P05: size and offset arithmetic in the wire layer cannot overflow."""
from lay import *
import prog as P
import subprocess, re, concurrent.futures

SPEC = {
 'explanation': 'Type-level encoding: the wire-format sources are re-type-checked with CAPNP_DEBUG_TYPES=1, under which every '
   'size/offset is a Bounded<max, T> quantity whose arithmetic statically asserts that the maximum result fits its type; any '
   'expression that could overflow or silently narrow for some input fails to type-check at that line. The escape hatches that '
   'assert a bound without testing it (assumeBits, assumeMax ...) are separate obligations: the bound must follow from the '
   'dataflow on every path or the site must be one whose justification was reviewed.',
 'assumptions': ['Bounded<> arithmetic in kj/units.h is the repository\'s own encoding and is itself checked by rule bounded:kernel'],
}
FILES = ['capnp/layout.c++', 'capnp/arena.c++', 'capnp/message.c++', 'capnp/any.c++', 'capnp/serialize.c++', 'capnp/list.c++', 'capnp/blob.c++']
OVERFLOW = re.compile(r'possible overflow detected|possible underflow')
NARROW = re.compile(r"no viable conversion from .*Bounded<.*to .*Bounded<|no viable (overloaded|conversion).*Bounded<.*Bounded<")

# reviewed: the bound holds because of a check that is not visible at the call (see DESIGN.md)
REVIEWED = {
  'capnp::_::WireHelpers::setListPointer': 'newTotalSize <= totalSize asserted just before',
  'capnp::_::OrphanBuilder::concat': 'sum of element counts checked up front',
  'capnp::_::OrphanBuilder::truncate': 'offsets below sizes already bounded',
  'capnp::_::OrphanBuilder::truncateText': 'checked inside truncate', 'capnp::_::OrphanBuilder::truncateData': 'checked inside truncate',
  'capnp::_::SegmentReader::getSize': 'segment sizes verified when the segment is added',
  'capnp::MessageSizeCounts::operator+=': '2^61 words exceed any address space', 'capnp::MessageSizeCounts::addWords': '2^61 words exceed any address space',
  'capnp::_::MessageSizeCounts::operator+=': '2^61 words exceed any address space', 'capnp::_::MessageSizeCounts::addWords': '2^61 words exceed any address space',
  'capnp::_::StructReader::ctor': 'canonical blob constructor used with constants only',
  'capnp::_::StructBuilder::setDataField': 'bit index modulo 8',
}

def check(ck):
    ck.units = FILES
    types(ck, FILES)
    ck.need('types:no-overflow', 5)
    assumes(ck)
    kernel(ck)

def types(ck, files):
    def one(f):
        r = subprocess.run(['clang++-18'] + P.flags(['-fsyntax-only', '-DCAPNP_DEBUG_TYPES=1', '-ferror-limit=60', '-fno-caret-diagnostics', f'{P.SRC}/{f}']), capture_output=True, text=True)
        return f, r.returncode, r.stderr
    skipped = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, rc, err in ex.map(one, files):
            bad = []
            lines = err.split('\n')
            for i, l in enumerate(lines):
                if ': error:' in l or ': fatal error:' in l:
                    if OVERFLOW.search(l) or NARROW.search(l):
                        loc = l
                        for m in lines[i + 1:i + 14]:
                            if ': error:' in m: break
                            if 'note: in instantiation' in m and f.split('/')[-1] in m: loc = m; break
                        bad.append((P.relfile(loc.split(': ')[0]), l.split('error:')[-1].strip()))
            if rc != 0 and not bad: skipped.append(f + ': ' + next((l for l in lines if 'error' in l), '')[:200])
            ck.obl(not bad, 'types:no-overflow', f'{bad[0][0] if bad else f}', '; '.join(f'{a}: {b}' for a, b in bad[:4]), f)
    if skipped: ck.note('not_type_checkable', skipped)
    if len(skipped) > 2: raise AnalysisBroken('sources do not type-check: ' + '; '.join(skipped)[:400])

def assumes(ck):
    prog = P.load(['capnp/layout.c++', 'capnp/arena.c++', 'capnp/message.c++', 'capnp/any.c++', 'capnp/list.c++', 'capnp/blob.c++'])
    A = {'capnp::assumeBits', 'capnp::assumeMax', 'capnp::assumeMaxBits', 'capnp::_::assumeBits', 'capnp::_::assumeMax'}
    seen = set()
    for f in prog.all_fns():
        if not f.file.startswith('capnp/') or f.file in ('capnp/common.h',) or 'L' in f.fl: continue
        sites = [(g, n) for g, n in prog.calls(f) if g.q in A]
        if not sites: continue
        if f.q in REVIEWED:
            for g, n in sites: ck.obl(True, 'assume:justified', f'{f.file}:{f.line} ({f.q})', '', 'reviewed: ' + REVIEWED[f.q])
            continue
        ok_sites = {}
        eng = Engine(prog, cap=200, depth=4, size=400)
        def hook(eng, st, c):
            if c.q in A and c.fr.fn.k == f.k:
                b = bound(c.fn)
                u = eng.ub(c.args[0]); ok = b is not None and (u is not None and u <= b or eng.entails_ge(st, sub(I(b), c.args[0]), True))
                ck.obl(ok, 'assume:justified', at(c), f'assumes {show(c.args[0])} <= {b} without a check' + path(st), f.q)
        eng.any_call_hooks.append(hook)
        eng.run(f)
        ck.engine_stats(eng)
    ck.need('assume:justified', 6)
    # the asserting conversions return only values within the bound they promise
    for f in prog.all_fns():
        if f.q in ('capnp::assertMax', 'capnp::assertMaxBits') and f.body is not None:
            b = bound(f)
            eng = Engine(prog, cap=32, depth=4, size=100)
            fq = lambda st, fr=None: None
            for st, v in eng.run(f):
                if v is None: continue
                # paths on which the failure callback returned are the caller's responsibility
                called = any(t[0] in ('call', 'icall') for t in terms_in(tuple(st.ges)))
                m = None
                for i, p in enumerate(f.params):
                    if b is None and i == 0 and len(f.params) == 3: m = ('sym', p[1])
                lim = I(b) if m is None and b is not None else m
                if lim is None: continue
                ok = eng.entails_ge(st, sub(lim, v), True) or st.ts.get('cb')
                ck.obl(ok, 'assert:kernel', f'{f.file}:{f.line} ({f.q})', f'returns {show(v)} without establishing the promised maximum {show(lim)}' + path(st), f.q)
    ck.need('assert:kernel', 1)

def bound(fn):
    if not fn.ta: return None
    for a in fn.ta:
        try:
            v = int(str(a).rstrip('uUlL'))
        except ValueError: continue
        return (1 << v) - 1 if 'Bits' in fn.q.rsplit('::', 1)[-1] else v
    return None

def kernel(ck):
    """the Bounded type really asserts: a compile-fail witness that must not type-check"""
    import tempfile, os
    progs = {
      'narrowing': 'kj::Bounded<1000, uint> a = kj::bounded<1000>(); kj::Bounded<999, uint> b = a;',
      'product': 'kj::Bounded<0x1fffffff, uint> a = kj::bounded<5>(); auto b = a * a;',
      'sum': 'kj::Bounded<0xffffffff, uint> a = kj::bounded<5>(); auto b = a + a;',
    }
    good = 'kj::Bounded<999, uint> a = kj::bounded<999>(); kj::Bounded<1000, uint> b = a; kj::Bounded<0x7fff, uint> p = kj::bounded<5>(); auto q = p * p;'
    d = tempfile.mkdtemp(prefix='vp-p05-')
    try:
        def comp(name, body):
            p = f'{d}/{name}.cc'
            open(p, 'w').write('#define CAPNP_DEBUG_TYPES 1\n#define CAPNP_PRIVATE\n#include <capnp/layout.h>\nnamespace capnp { void f() { %s } }\n' % body)
            return subprocess.run(['clang++-18'] + P.flags(['-fsyntax-only', p]), capture_output=True, text=True)
        g = comp('good', good)
        if g.returncode != 0: raise AnalysisBroken('bounded witness does not compile: ' + g.stderr[:300])
        for k, b in progs.items():
            r = comp(k, b)
            ck.obl(r.returncode != 0, 'bounded:kernel', 'kj/units.h (kj::Bounded)', f'out-of-range {k} type-checks', k)
    finally:
        import shutil; shutil.rmtree(d, ignore_errors=True)
