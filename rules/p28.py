"""P28: arena allocation."""
import obs
SPEC = {
 'explanation': 'the lowered code of arena.h, arena.c++ and array.c++ is run over a ghost memory (chunks of arbitrary default alignment, arbitrary order of small, large, over-aligned and non-trivially-destructible allocations, '
   'arrays, owned objects, user constructors and destructors that throw); what is handed out must be aligned, inside a live chunk or the scratch space, disjoint from everything handed out before; every constructed object is destroyed exactly once, '
   'in reverse order of construction (owned ones by their owner only); every chunk is freed exactly once and the scratch space never.',
 'assumptions': ['memory allocation succeeds', 'operator new returns memory aligned to 16 bytes', 'the scratch space is aligned to 8 bytes', 'sizes do not overflow size_t'],
}
def setup(s, e):
    e.aligned = lambda r: 4096 if r[0] == 'G' and r[1].startswith('_ZN2vp3mem') else 1
def check(ck):
    ck.units = ['witness/arena.cc', 'kj/arena.h', 'kj/arena.c++', 'kj/array.c++']
    obs.Suite(ck, 'arena.cc', 'arena:objects', merge=['kj/arena.c++', 'kj/array.c++'], setup=setup, home=r'kj/(arena|array|memory|common)\.(h|c\+\+)', peel=40, recmax=12, deadline=4000000, maxpaths=20000)
    ck.need('arena:objects', 60)
