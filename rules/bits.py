"""Bit provenance: the value of each bit of a term as an exclusive-or of input bits (None: not determined)."""
from ir import *
from ir import _lin
Z = frozenset(); ONEB = frozenset(['1'])
W = 64

def const(n):
    n &= (1 << W) - 1
    return [ONEB if (n >> j) & 1 else Z for j in range(W)]
def shl(b, k): return ([Z] * k + b)[:W]
def shr(b, k): return b[k:] + [Z] * k
def bxor(a, b): return [None if x is None or y is None else x ^ y for x, y in zip(a, b)]
def band(a, b):
    r = []
    for x, y in zip(a, b):
        if x == Z or y == Z: r.append(Z)
        elif x == ONEB: r.append(y)
        elif y == ONEB: r.append(x)
        elif x is not None and x == y: r.append(x)
        else: r.append(None)
    return r
def bor(a, b):
    r = []
    for x, y in zip(a, b):
        if x == ONEB or y == ONEB: r.append(ONEB)
        elif x == Z: r.append(y)
        elif y == Z: r.append(x)
        elif x is not None and x == y: r.append(x)
        else: r.append(None)
    return r
def bnot1(x): return None if x is None else x ^ ONEB

def log2(n): return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None

def bits(e, t, st=None):
    """list of 64 bits of term t (unsigned interpretation; leaves are zero above their width)"""
    k = t[0]
    if k == 'i': return const(t[1])
    if k == 'lin':
        c, d = t[1], dict(t[2])
        r = const(c) if c else const(0)
        first = c == 0
        for x, m in d.items():
            s = log2(m)
            if s is None: return [None] * W
            y = shl(bits(e, x, st), s)
            if any(p != Z and q != Z for p, q in zip(r, y)): return [None] * W
            r = bor(r, y)
        return r
    if k == 'div':
        s = log2(t[2][1])
        return shr(bits(e, t[1], st), s) if s is not None else [None] * W
    if k == 'tr':
        b = bits(e, t[3], st); return b[:t[1]] + [Z] * (W - t[1])
    if k == 'sx':
        b = bits(e, t[1], st); return b[:t[2]] + [b[t[2] - 1]] * (W - t[2])
    if k == 'op':
        o = t[1]
        a, b = bits(e, t[2], st), bits(e, t[3], st)
        if o == '&': return band(a, b)
        if o == '|': return bor(a, b)
        if o == '^': return bxor(a, b)
        if o in ('<<', '>>') and t[3][0] == 'i': return shl(a, t[3][1]) if o == '<<' else shr(a, t[3][1])
        if o == '%' and t[3][0] == 'i' and log2(t[3][1]) is not None: n = log2(t[3][1]); return a[:n] + [Z] * (W - n)
        return [None] * W
    if k == 'call' and t[1].startswith('llvm.fsh') and t[2][2][0] == 'i':
        n = int(t[1].rsplit('i', 1)[1]); hi, lo = bits(e, t[2][0], st)[:n], bits(e, t[2][1], st)[:n]; c = t[2][2][1] % n
        x = lo + hi
        x = x[n - c:2 * n - c] if 'fshl' in t[1] else x[c:c + n]
        return x + [Z] * (W - n)
    if k == 'call' and t[1].startswith('llvm.bswap'):
        b = bits(e, t[2][0], st); w = int(t[1].rsplit('i', 1)[1]); n = w // 8
        return sum((b[8 * (n - 1 - j):8 * (n - j)] for j in range(n)), []) + [Z] * (W - w)
    if k == 'part':
        b = shr(bits(e, t[1], st), 8 * t[2]); return b[:8 * t[3]] + [Z] * (W - 8 * t[3])
    if k == 'cond': return [cbit(e, t[1], st)] + [Z] * (W - 1)
    if k == 'ld':
        n = 8 * t[2]
        u = e.uns.get(t, n)
        n = min(n, u) if u else n
        # name the bits by byte so that differently sized loads of the same memory agree
        return [frozenset([(add(t[1], I(j // 8)), t[3], j % 8)]) for j in range(n)] + [Z] * (W - n)
    if k in ('sym', 'n', 'ex', 'fr'):
        n = e.uns.get(t) or W
        return [frozenset([(t, 0, j)]) for j in range(n)] + [Z] * (W - n)
    return [None] * W

def cbit(e, c, st=None):
    if c is True: return ONEB
    if c is False: return Z
    k = c[0]
    if k == 'f': return bnot1(cbit(e, ('t', c[1]), st))
    if k == 'ne' or k == 'eq':
        b = bits(e, c[1], st)
        nz = [x for x in b if x != Z]
        if len(nz) == 0: r = Z
        elif len(nz) == 1: r = nz[0]
        elif any(x == ONEB for x in nz): r = ONEB
        else: r = None
        return r if k == 'ne' else bnot1(r)
    if k == 'not': return bnot1(cbit(e, c[1], st))
    if k == 't': return bits(e, c[1], st)[0] if c[1][0] != 'fcmp' else None
    return None
