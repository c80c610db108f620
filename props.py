"""Source of properties.jsonl and MANIFEST.json (python3 props.py regenerates both)."""
import json, os
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))
def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))

G = 'path-sensitive guard dataflow over the type-resolved AST (clang LibTooling extraction, helpers inlined)'

prop('P01', 'Reading a hostile message never touches memory outside it',
 'Whatever bytes a message contains, reading it through the reader API (struct, list, text, data, pointer, copy, size computation) only accesses memory inside the segments supplied for that message. Malformed pointers, sizes, tags, element counts and cross-segment references are rejected or read as defaults, never followed out of bounds.',
 ['inputs'], 'all byte contents and segment layouts of a message, all reader calls', 'tests sample a few corrupt messages; the guarantee is about every bit pattern of every pointer word',
 ['c++/src/capnp/layout.c++', 'c++/src/capnp/layout.h', 'c++/src/capnp/arena.h', 'c++/src/capnp/arena.c++'],
 [('segment bounds checks before every reader is produced', 'c++/src/capnp/layout.c++ read*/copy*/totalSize'), ('offset clamp and object check', 'c++/src/capnp/arena.h')],
 G + '; every reader construction / pointer-word load / raw copy must be covered by a dominating bounds check', 'all paths of every reader-side function; loops by affine induction; trusted defaults and unchecked messages excluded by design')
prop('P02', 'The traversal limit bounds all work a message can cause',
 'Every object reached while reading a message is charged against the configured traversal limit by at least its size, including lists whose elements occupy no space, which are charged per element. Once the limit is used up, further pointer traversal fails instead of succeeding, and the remaining limit never grows beyond what was refunded.',
 ['inputs', 'histories'], 'all messages (in particular amplification attacks) and all traversal orders', 'tests exercise two amplification shapes; the guarantee covers every pointer kind and encoding',
 ['c++/src/capnp/layout.c++', 'c++/src/capnp/arena.h', 'c++/src/capnp/arena.c++'],
 [('read limiter charged by every object check', 'c++/src/capnp/arena.h'), ('element-count charge for zero-size lists', 'c++/src/capnp/layout.c++')],
 G + '; limiter kernel equations and must-charge obligations at list construction', 'lost updates between racing reader threads are documented behaviour and not counted')
prop('P03', 'Nesting depth of a message is bounded by the configured limit',
 'Following a chain of pointers deeper than the configured nesting limit fails rather than recursing further: every struct or list reached through a pointer carries a strictly smaller remaining depth than its parent, and no reader operation recurses without consuming depth.',
 ['inputs'], 'all messages including cyclic and self-overlapping pointer structures', 'tests check one deep message; every pointer kind and recursive operation must consume depth',
 ['c++/src/capnp/layout.c++', 'c++/src/capnp/layout.h', 'c++/src/capnp/message.c++'],
 [('positive-limit guard and decrement', 'c++/src/capnp/layout.c++')],
 G + '; strict-decrease obligation at each construction and recursive call', 'all reader-side functions')
prop('P04', 'Fields missing from a shorter struct read as their defaults',
 'Reading a field of a struct encoded by an older or newer schema yields the stored bits when the encoded struct is long enough to contain the whole field and exactly the default otherwise; no bytes beyond the encoded section are ever interpreted. Defaults are applied by exclusive-or identically on the reading and the writing side.',
 ['inputs', 'configurations'], 'all data/pointer section sizes, all field widths and offsets', 'tests use a handful of schema pairs; the guarantee covers every offset and section size',
 ['c++/src/capnp/layout.h'],
 [('section-size guard in field accessors', 'c++/src/capnp/layout.h')],
 'path-complete symbolic dataflow over the compiled accessors (LLVM IR); two-sided (present iff loaded, absent iff default), bit provenance of every value', 'all primitive widths, bool, float, enum and pointers; structs below 2^16 words')
prop('P05', 'Size and offset arithmetic in the wire layer cannot overflow',
 'No combination of encoded counts, sizes and offsets can make a size or offset computation of the message layer wrap around or be silently truncated.',
 ['inputs'], 'all values of every count, size and offset field', 'overflow needs extreme values no test constructs',
 ['c++/src/capnp/layout.c++', 'c++/src/capnp/layout.h', 'c++/src/capnp/arena.h', 'c++/src/capnp/common.h', 'c++/src/kj/units.h'],
 [('bounded quantity types', 'c++/src/kj/units.h'), ('asserting conversions', 'c++/src/capnp/common.h')],
 'type-level encoding: sources re-type-checked with every quantity carrying its static maximum; compile-fail witnesses for the encoding; dataflow for unchecked bound assumptions', 'files that cannot be type-checked in this mode for unrelated reasons are reported as not covered')

if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_more.py')):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_more.py')).read())

def line(p):
    return dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
if __name__ == '__main__':
    d = os.path.dirname(os.path.abspath(__file__))
    allp = sorted(P + NA, key=lambda p: p['id'])
    for p in allp:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert len(set(q['id'] for q in allp)) == len(allp)
    with open(d + '/properties.jsonl', 'w') as f:
        for p in allp: f.write(json.dumps(line(p)) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['id'], quick_cmd=f'bash check.sh {p["id"]} quick', thorough_cmd=f'bash check.sh {p["id"]} thorough',
                          evidence_file=f'evidence/{p["id"]}.json', technique='static analysis: ' + p['technique'], level='other', level_note=p['note']) for p in sorted(P, key=lambda p: p['id'])],
             not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
    json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'claimed', len(NA), 'not applicable')
