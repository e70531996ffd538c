"""Canonical form for bitwise cones: every maximal and/or/xor cone with few leaves becomes one truth-table node,
so any two ways of writing Ch, Maj, Parity, ... become the same term."""
from . import terms as t

MAXL = 6
_VARS = []


def _vt(k):
    # truth-table columns for k variables (as 2^k-bit ints)
    out = []
    n = 1 << k
    for i in range(k):
        v = 0
        for r in range(n):
            if r >> i & 1:
                v |= 1 << r
        out.append(v)
    return out


def islut(x):
    return x.op == "uf" and x.a[0].startswith("lut:")


# ---------------------------------------------------------------- GF(2)-linear words (xor of rotated / shifted / sliced words)
_LIN = {}
_BITS = {}
_ALIGN = {}
MAXSET = 96


def bits(x):
    """per bit (lsb first): (constant, frozenset of (leaf, bit))"""
    r = _BITS.get(x)
    if r is not None:
        return r
    o = x.op
    if o == "c":
        r = [(x.a[0] >> i & 1, frozenset()) for i in range(x.w)]
    elif o == "xor":
        r = bits(x.a[0])
        for y in x.a[1:]:
            r = [(c ^ d, a ^ b) for (c, a), (d, b) in zip(r, bits(y))]
        if max(len(q) for _, q in r) > MAXSET:
            r = [(0, frozenset([(x, i)])) for i in range(x.w)]
    elif o == "cat":
        r = []
        for y in reversed(x.a):
            r = r + bits(y)
    elif o == "ex":
        r = bits(x.a[0])[x.a[2]:x.a[1] + 1]
    else:
        r = [(0, frozenset([(x, i)])) for i in range(x.w)]
    _BITS[x] = r
    return r


def lin(x):
    b = bits(x)
    if all(len(s) == 1 and not c for c, s in b) or all(not s for c, s in b):
        return x
    key = tuple(b)
    r = _LIN.get(key)
    if r is not None:
        return r
    ls = sorted({l for c, s in b for l, _ in s}, key=lambda y: y.id)
    al = all(not c for c, s in b) or all(c for c, s in b)
    if al:
        first = {l for l, _ in b[0][1]}
        al = all(l.w == x.w for l in ls) and all({l for l, _ in s} == first and all(k == i for _, k in s) and len(s) == len(first)
                                                 for i, (c, s) in enumerate(b))
    r = t.uf("lin:%d" % len(_LIN), ls, x.w)
    _LIN[key] = r
    _BITS[r] = b
    if al:
        _ALIGN[r] = (b[0][0], ls)
    return r


def islin(x):
    return x.op == "uf" and x.a[0].startswith("lin:")


def _leaves(x, acc, w):
    if x in _ALIGN:
        for c in _ALIGN[x][1]:
            acc[c] = 1
        return
    if x.op in ("and", "or", "xor"):
        for c in x.a:
            _leaves(c, acc, w)
    elif islut(x):
        for c in x.a[1:]:
            acc[c] = 1
    elif x.op == "c" and x.a[0] in (0, t.mask(w)):
        pass
    else:
        acc[x] = 1


def _eval(x, env, full, w):
    if x in env:
        return env[x]
    if x.op == "c":
        return full if x.a[0] else 0
    if x in _ALIGN:
        r = full if _ALIGN[x][0] else 0
        for c in _ALIGN[x][1]:
            r ^= env[c]
        env[x] = r
        return r
    if islut(x):
        _, k, tt = x.a[0].split(":")
        k, tt = int(k), int(tt, 16)
        cols = [env[c] for c in x.a[1:]]
        r = 0
        for row in range(1 << k):
            if tt >> row & 1:
                m = full
                for i in range(k):
                    m &= cols[i] if row >> i & 1 else (full ^ cols[i])
                r |= m
        env[x] = r
        return r
    vs = [_eval(c, env, full, w) for c in x.a]
    r = vs[0]
    for v in vs[1:]:
        r = (r & v) if x.op == "and" else (r | v) if x.op == "or" else (r ^ v)
    env[x] = r
    return r


def canon(x):
    acc = {}
    _leaves(x, acc, x.w)
    ls = sorted(acc, key=lambda y: y.id)
    if len(ls) > MAXL:
        return lin(x) if x.op == "xor" else x
    k = len(ls)
    full = (1 << (1 << k)) - 1
    env = dict(zip(ls, _vt(k)))
    tt = _eval(x, env, full, x.w)
    # support reduction
    i = 0
    while i < len(ls):
        k = len(ls)
        col = _vt(k)[i]
        sh = 1 << i
        fullk = (1 << (1 << k)) - 1
        hi = (tt & col) >> sh
        lo = tt & (fullk ^ col)
        if hi == lo:
            # drop variable i
            n = 0
            rr = 0
            for r in range(1 << k):
                if not r >> i & 1:
                    if tt >> r & 1:
                        n |= 1 << rr
                    rr += 1
            tt = n
            ls.pop(i)
        else:
            i += 1
    k = len(ls)
    if k == 0:
        return t.const(t.mask(x.w) if tt else 0, x.w)
    if k == 1 and tt == 2:
        return ls[0]
    # affine?
    vt = _vt(k)
    full = (1 << (1 << k)) - 1
    acc = full if tt & 1 else 0
    inc = [l for i, l in enumerate(ls)]
    for v in vt:
        acc ^= v
    if acc == tt:
        return lin(t._mk("xor", tuple(ls) + ((t.const(t.mask(x.w), x.w),) if tt & 1 else ()), x.w))
    return t.uf("lut:%d:%x" % (k, tt), ls, x.w)


def normalise(roots):
    val = {}
    for x in t.topo(roots):
        r = t.rebuild(x, val) if t.children(x) else x
        if r.op in ("and", "or", "xor") and r.w > 1:
            r = canon(r)
        elif r.op in ("cat", "ex") and any(islin(y) for z in (r.a if r.op == "cat" else r.a[:1]) for y in [z.a[0] if z.op == "ex" else z]):
            r = lin(r)
        val[x] = r
    return [val[r] for r in roots]
