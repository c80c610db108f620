"""Properties settled by the type checker: static_asserts that must hold, snippets that must not compile."""
import os, re, subprocess, tempfile, shutil, concurrent.futures
import prog as P
from prog import AnalysisBroken
def _cc(path, extra=()):
    return subprocess.run(['clang++-18'] + P.flags(['-fsyntax-only', '-fconstexpr-steps=800000000', '-ferror-limit=0', '-fno-caret-diagnostics', *extra, path]), capture_output=True, text=True, timeout=600)
def asserts(ck, fname, rule, where):
    """every static_assert of the witness is one obligation"""
    src = os.path.join(P.VERIF, 'witness', fname)
    al = {i: re.search(r', "([^"]*)"\);\s*$', l).group(1) for i, l in enumerate(open(src), 1) if l.startswith('static_assert(')}
    r = _cc(src); bad = {}; other = []; cur = None
    for l in r.stderr.split('\n'):
        m = re.match(r'(.*?):(\d+):\d+: (error|fatal error|note): (.*)', l)
        if not m: continue
        ln = int(m.group(2))
        if m.group(3) == 'note':
            if m.group(1).endswith(fname) and ln in al and cur in other and cur[0] is None: bad.setdefault(ln, [cur[1], '']); other.remove(cur); cur = ln
            elif cur in bad and P.SRC in m.group(1) and not bad[cur][1]: bad[cur][1] = P.relfile(m.group(1)) + ':' + m.group(2) + ': ' + m.group(4)
            continue
        if m.group(1).endswith(fname) and ln in al and 'static assertion' in m.group(4): cur = ln; bad[ln] = [m.group(4), '']
        else: cur = (None if P.SRC in m.group(1) else 0, l[:300]); other.append(cur)
    other = [x for x in other if not isinstance(x, int)]
    if r.returncode != 0 and not bad or any(x[0] == 0 for x in other) and not bad: raise AnalysisBroken(f'{fname} does not compile: ' + '; '.join(x[1] for x in other[:3]) + r.stderr[:200])
    for ln, msg in al.items():
        b = bad.get(ln)
        ck.obl(b is None, rule, where, '' if b is None else f'{msg}: {b[0][:300]} {b[1]}', msg)
def rejects(ck, rule, where, prelude, cases):
    """(name, must not compile, must compile)"""
    d = tempfile.mkdtemp(prefix='vp-ct-')
    try:
        def one(c):
            out = []
            for tag, body in (('bad', c[1]), ('good', c[2])):
                p = f'{d}/{c[0]}-{tag}.cc'; open(p, 'w').write(prelude + '\nvoid vp_f() { ' + body + ' }\n'); r = _cc(p); out.append(r)
            return c, out
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for c, (b, g) in ex.map(one, cases):
                ck.obl(g.returncode == 0, rule, where, 'legitimate use rejected: ' + c[2] + ' :: ' + next((l for l in g.stderr.split('\n') if 'error' in l), '')[:200], c[0] + ':accepts')
                ck.obl(b.returncode != 0, rule, where, 'accepted by the type checker: ' + c[1], c[0] + ':rejects')
    finally:
        shutil.rmtree(d, ignore_errors=True)
