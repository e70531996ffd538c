"""Hash-consed fixed-width bit-vector terms with a normalising constructor set.

Width-1 terms double as booleans.  Pointers are terms `ptr(objid, offset)` of width 64.
Every rewrite below is an identity of (SMT-LIB style) bit-vector arithmetic.
"""
import random
import sys

sys.setrecursionlimit(1000000)


class T:
    __slots__ = ("op", "a", "w", "id", "_ub", "_lb", "_z", "sup", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = [0]


def _mk(op, a, w):
    k = (op, a, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.w = op, a, w
        _cnt[0] += 1
        t.id = _cnt[0]
        t._ub = t._lb = t._z = None
        _tab[k] = t
    return t


def const(v, w):
    return _mk("c", (v & ((1 << w) - 1),), w)


TRUE, FALSE = const(1, 1), const(0, 1)
_fresh = [0]


def var(name, w):
    return _mk("v", (name,), w)


def fresh(name, w):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), w)


def isc(t):
    return t.op == "c"


def cv(t):
    return t.a[0]


def mask(w):
    return (1 << w) - 1


def ptr(obj, off):
    return _mk("ptr", (obj, off), 64)


NULL = None  # set below


def uf(name, args, w):
    return _mk("uf", (name,) + tuple(args), w)


# ---------------------------------------------------------------- slices
def concat(parts):
    """parts: most significant first"""
    fl = []
    for p in parts:
        if p.op == "cat":
            fl.extend(p.a)
        elif p.w:
            fl.append(p)
    out = []
    for p in fl:
        if out:
            q = out[-1]
            if q.op == "c" and p.op == "c":
                out[-1] = const((q.a[0] << p.w) | p.a[0], q.w + p.w)
                continue
            qb, qh, ql = (q.a if q.op == "ex" else (q, q.w - 1, 0))
            pb, ph, pl = (p.a if p.op == "ex" else (p, p.w - 1, 0))
            if qb is pb and ql == ph + 1:
                out[-1] = rawex(qb, qh, pl)
                continue
        out.append(p)
    ch = False
    for i, p in enumerate(out):
        if p.op == "ex" and p.a[0].op in _BITW:
            r = extract(*p.a)
            if r is not p:
                out[i] = r
                ch = ch or len(out) > 1
    if ch:
        return concat(out)
    if len(out) > 1 and out[1].op == "add" and out[0].op == "c" and out[0].a[0] == 0 and not any(
            x.op == "base" for _, x in out[1].a[1]):
        c, prs = out[1].a
        if c + sum(k * ubound(x) for k, x in prs) <= mask(out[1].w):
            w = out[0].w + out[1].w
            return concat([add_n([(k, zext(x, w)) for k, x in prs], c, w)] + out[2:])
    if len(out) == 1:
        return out[0]
    w = sum(p.w for p in out)
    return _mk("cat", tuple(out), w)


_BITW = ("and", "or", "xor")


def rawex(t, hi, lo):
    """slice of a bitwise word without pushing the slice inwards (used for bytes in memory)"""
    if t.op in _BITW and hi - lo + 1 != t.w:
        return _mk("ex", (t, hi, lo), hi - lo + 1)
    return extract(t, hi, lo)


def renorm(x):
    if x.op == "ex" and x.a[0].op in _BITW:
        return extract(*x.a)
    return x


_exc = {}


def extract(t, hi, lo):
    if hi - lo + 1 == t.w:
        return t
    k = (t.id, hi, lo)
    r = _exc.get(k)
    if r is None:
        r = _exc[k] = _extract(t, hi, lo)
    return r


def _extract(t, hi, lo):
    w = hi - lo + 1
    if w == t.w:
        return t
    o = t.op
    if o == "c":
        return const(t.a[0] >> lo, w)
    if o == "ex":
        return extract(t.a[0], t.a[2] + hi, t.a[2] + lo)
    if o == "cat":
        pos = t.w
        res = []
        for p in t.a:
            pos -= p.w  # p occupies [pos, pos+p.w-1]
            if pos > hi:
                continue
            if pos + p.w - 1 < lo:
                break
            res.append(extract(p, min(hi - pos, p.w - 1), max(lo - pos, 0)))
        return concat(res)
    if o == "sext":
        x = t.a[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo == 0:
            return sext(x, w)
    if o == "ite":
        a, b = t.a[1], t.a[2]
        if (a.op in ("c",) or b.op in ("c",) or (a.op == "cat" and b.op == "cat")):
            return ite(t.a[0], extract(a, hi, lo), extract(b, hi, lo))
    if lo == 0 and o == "add":
        c, prs = t.a
        if all(_narrow(x, w) for _, x in prs):
            r = const(c, w)
            return add_n([(k, extract(x, w - 1, 0)) for k, x in prs], c, w)
    if o in ("and", "or", "xor"):
        # push through when an operand is sliced/constant (masking idioms)
        if any(x.op in ("c", "cat") for x in t.a) and len(t.a) <= 6:
            ps = [extract(x, hi, lo) for x in t.a]
            return {"and": band, "or": bor, "xor": bxor}[o](*ps)
    if o == "mul" and lo == 0 and all(_narrow(x, w) for x in t.a):
        return mul(*[extract(x, w - 1, 0) for x in t.a])
    return _mk("ex", (t, hi, lo), w)


def _narrow(x, w):
    """x fits in w bits structurally"""
    if x.op == "c":
        return x.a[0] >> w == 0
    return x.op == "cat" and x.a[0].op == "c" and x.a[0].a[0] == 0 and x.w - x.a[0].w <= w


def zext(t, w):
    if w == t.w:
        return t
    return concat([const(0, w - t.w), t])


def sext(t, w):
    if w == t.w:
        return t
    if t.op == "c":
        v = t.a[0]
        if v >> (t.w - 1):
            v |= mask(w) ^ mask(t.w)
        return const(v, w)
    if ubound(t) < (1 << (t.w - 1)):
        return zext(t, w)
    if t.op == "sext":
        return sext(t.a[0], w)
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    return _mk("sext", (t,), w)


# ---------------------------------------------------------------- bounds
def ubound(t):
    if t._ub is None:
        t._ub = _ub(t)
    return t._ub


def lbound(t):
    if t._lb is None:
        t._lb = _lb(t)
    return t._lb


def _ub(t):
    o = t.op
    m = mask(t.w)
    if o == "c":
        return t.a[0]
    if o == "cat":
        v = 0
        for p in t.a:
            v = (v << p.w) | ubound(p)
        return v
    if o == "ex":
        b, hi, lo = t.a
        u = ubound(b)
        if u <= mask(hi + 1):
            return u >> lo
        return m
    if o == "add":
        c, prs = t.a
        s = c
        for k, x in prs:
            s += k * ubound(x)
        return s if s <= m else m
    if o == "and":
        return min(ubound(x) for x in t.a)
    if o in ("or", "xor"):
        b = max(ubound(x).bit_length() for x in t.a)
        return mask(b) if b < t.w else m
    if o == "ite":
        return max(ubound(t.a[1]), ubound(t.a[2]))
    if o == "urem":
        if isc(t.a[1]) and cv(t.a[1]):
            return min(ubound(t.a[0]), cv(t.a[1]) - 1)
        return ubound(t.a[0])
    if o == "udiv":
        if isc(t.a[1]) and cv(t.a[1]):
            return ubound(t.a[0]) // cv(t.a[1])
        return m
    if o == "lshr":
        return ubound(t.a[0])
    if o == "mul":
        s = 1
        for x in t.a:
            s *= ubound(x)
        return min(s, m)
    if o == "tab":
        return max(t.a[0])
    return m


def _lb(t):
    o = t.op
    if o == "c":
        return t.a[0]
    if o == "cat":
        v = 0
        for p in t.a:
            v = (v << p.w) | lbound(p)
        return v
    if o == "add":
        c, prs = t.a
        s = c
        u = c
        for k, x in prs:
            s += k * lbound(x)
            u += k * ubound(x)
        return s if u <= mask(t.w) else 0
    if o == "ite":
        return min(lbound(t.a[1]), lbound(t.a[2]))
    if o == "or":
        return max(lbound(x) for x in t.a)
    return 0


# ---------------------------------------------------------------- slice merge
def _merge_disjoint(ops, w):
    """ops: terms whose nonzero slices do not overlap -> concat, else None"""
    segs = []  # (lo, hi, term)
    for t in ops:
        parts = t.a if t.op == "cat" else (t,)
        pos = w
        for p in parts:
            pos -= p.w
            if p.op == "c":
                v = p.a[0]
                if v == 0:
                    continue
                # split constant in runs of nonzero? keep as nonzero bits: use its significant span
                lo = (v & -v).bit_length() - 1
                hi = v.bit_length() - 1
                segs.append((pos + lo, pos + hi, const(v >> lo, hi - lo + 1)))
            else:
                segs.append((pos, pos + p.w - 1, p))
    segs.sort(key=lambda s: s[0])
    prev = -1
    for lo, hi, _ in segs:
        if lo <= prev:
            return None
        prev = hi
    out = []
    pos = w
    for lo, hi, p in reversed(segs):
        if hi + 1 < pos:
            out.append(const(0, pos - hi - 1))
        out.append(p)
        pos = lo
    if pos:
        out.append(const(0, pos))
    return concat(out)


def _sliced(t):
    return t.op == "cat" and any(p.op == "c" for p in t.a)


# ---------------------------------------------------------------- bitwise
def bnot(t):
    return bxor(t, const(-1, t.w))


def bxor(*ts):
    w = ts[0].w
    c = 0
    s = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.op == "c":
            c ^= t.a[0]
        elif t.op == "xor":
            st.extend(t.a)
        elif t in s:
            del s[t]
        else:
            s[t] = 1
    if not s:
        return const(c, w)
    if len(s) == 1 and c == 0:
        return next(iter(s))
    ks = sorted(s)
    if all(_sliced(k) for k in ks):
        r = _merge_disjoint(ks + ([const(c, w)] if c else []), w)
        if r is not None:
            return r
        if len(ks) <= 4 and c == 0:
            r = _slicewise(ks, w, bxor)
            if r is not None:
                return r
    if len(ks) == 1 and w == 1 and c == 1:
        pass
    if len(ks) == 1 and ks[0].op == "ite" and c and ks[0].a[1].op == "c" and ks[0].a[2].op == "c":
        i = ks[0]
        return ite(i.a[0], bxor(i.a[1], const(c, w)), bxor(i.a[2], const(c, w)))
    if c:
        # cat with constants: push the constant into slices when a single sliced operand
        if len(ks) == 1 and ks[0].op == "cat":
            pos = w
            out = []
            for p in ks[0].a:
                pos -= p.w
                out.append(bxor(p, const(c >> pos, p.w)))
            return concat(out)
        ks.append(const(c, w))
    return _mk("xor", tuple(ks), w)


def _bounds_of(t):
    s = set()
    pos = t.w
    for p in (t.a if t.op == "cat" else (t,)):
        s.add(pos)
        pos -= p.w
    return s


def _slicewise(ks, w, f):
    """apply bitwise f slice by slice if all operands share slice boundaries"""
    b = _bounds_of(ks[0])
    for k in ks[1:]:
        if _bounds_of(k) != b:
            return None
    if len(b) == 1:
        return None
    out = []
    for i in range(len(ks[0].a)):
        out.append(f(*[k.a[i] for k in ks]))
    return concat(out)


def band(*ts):
    w = ts[0].w
    c = mask(w)
    s = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.op == "c":
            c &= t.a[0]
        elif t.op == "and":
            st.extend(t.a)
        else:
            s[t] = 1
    if c == 0 or not s:
        return const(c, w)
    if c != mask(w):
        # slicing by constant mask
        runs = _runs(c, w)
        if len(runs) <= 5:
            x = band(*s) if len(s) > 1 else next(iter(s))
            out = []
            for bit, hi, lo in runs:
                out.append(extract(x, hi, lo) if bit else const(0, hi - lo + 1))
            return concat(out)
    ks = sorted(s)
    if len(ks) == 1 and c == mask(w):
        return ks[0]
    for k in ks:
        if bnot_quick(k) in s:
            return const(0, w)
    if len(ks) >= 2 and any(_sliced(k) for k in ks) and len(ks) <= 4 and c == mask(w):
        # distribute over slices of the first sliced operand
        bs = sorted(set().union(*[_bounds_of(k) for k in ks]), reverse=True) + [0]
        if len(bs) <= 20:
            out = []
            for i in range(len(bs) - 1):
                out.append(band(*[extract(k, bs[i] - 1, bs[i + 1]) for k in ks]))
            return concat(out)
    if c != mask(w):
        ks.append(const(c, w))
    return _mk("and", tuple(ks), w)


def bnot_quick(t):
    """existing complement term or None"""
    if t.op == "xor" and t.a[-1].op == "c" and t.a[-1].a[0] == mask(t.w):
        if len(t.a) == 2:
            return t.a[0]
    return _tab.get(("xor", (t, const(-1, t.w)), t.w))


def _runs(c, w):
    out = []
    pos = w - 1
    while pos >= 0:
        bit = (c >> pos) & 1
        j = pos
        while j >= 0 and ((c >> j) & 1) == bit:
            j -= 1
        out.append((bit, pos, j + 1))
        pos = j
    return out


def bor(*ts):
    w = ts[0].w
    c = 0
    s = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.op == "c":
            c |= t.a[0]
        elif t.op == "or":
            st.extend(t.a)
        else:
            s[t] = 1
    if c == mask(w) or not s:
        return const(c, w)
    ks = sorted(s)
    if len(ks) == 1 and c == 0:
        return ks[0]
    for k in ks:
        if bnot_quick(k) in s:
            return const(-1, w)
    if all(_sliced(k) for k in ks):
        r = _merge_disjoint(ks + ([const(c, w)] if c else []), w)
        if r is not None:
            return r
        if len(ks) <= 4 and c == 0:
            r = _slicewise(ks, w, bor)
            if r is not None:
                return r
    if c:
        runs = _runs(c, w)
        if len(runs) <= 4 and len(ks) == 1:
            return concat([const(-1, hi - lo + 1) if bit else extract(ks[0], hi, lo) for bit, hi, lo in runs])
        ks.append(const(c, w))
    return _mk("or", tuple(ks), w)


# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """-> (const, [(coef, term)])"""
    if t.op == "c":
        return t.a[0], ()
    if t.op == "add":
        return t.a
    if t.op == "cat" and len(t.a) == 2 and t.a[1].op == "c" and t.a[1].a[0] == 0:
        h = t.a[0]
        k = t.a[1].w
        if h.op == "ex" and h.a[2] == 0 and h.a[0].w == t.w:
            c, prs = _lin(h.a[0])
            return c << k, tuple((q << k, x) for q, x in prs)
    if t.op == "cat" and t.a[-1].op == "c":
        a = t.a
        s = a[-1].w
        if len(a) == 2:
            c, prs = _lin(a[0])
            return (c << s) | a[1].a[0], tuple((q << s, _lift(x, t.w)) for q, x in prs)
        if len(a) == 3 and a[0].op == "c" and a[0].a[0] == 0:
            return a[-1].a[0], ((1 << s, zext(a[1], t.w)),)
    if t.op == "xor" and len(t.a) == 2 and t.a[1].op == "c" and t.a[1].a[0] == mask(t.w):
        c, prs = _lin(t.a[0])  # ~x = -x - 1
        return -c - 1, tuple((-q, x) for q, x in prs)
    return 0, ((1, t),)


def _lift(y, w):
    if y.op == "ex" and y.a[2] == 0 and y.a[0].w == w:
        return y.a[0]
    return zext(y, w)


def add_n(prs, c, w):
    """sum coef*term + c"""
    d = {}
    m = mask(w)
    bases = []
    for k, t in prs:
        if t.op == "ptr":
            bases.append((k, t))
            continue
        c2, p2 = _lin(t)
        c += k * c2
        for k2, x in p2:
            if x.op == "ptr":
                bases.append((k * k2, x))
                continue
            v = (d.get(x, 0) + k * k2) & m
            if v:
                d[x] = v
            else:
                d.pop(x, None)
    c &= m
    if bases:
        net = {}
        for k, t in bases:
            o = t.a[0]
            net[o] = (net.get(o, 0) + k) & m
            c2, p2 = _lin(t.a[1])
            c += k * c2
            for k2, x in p2:
                v = (d.get(x, 0) + k * k2) & m
                if v:
                    d[x] = v
                else:
                    d.pop(x, None)
        c &= m
        live = [(o, k) for o, k in net.items() if k]
        if len(live) == 1 and live[0][1] == 1:
            return ptr(live[0][0], _mkadd(d, c, w))
        if live:
            for o, k in live:
                x = _mk("base", (o,), 64)
                d[x] = (d.get(x, 0) + k) & m
    return _mkadd(d, c, w)


def _mkadd(d, c, w):
    if not d:
        return const(c, w)
    if len(d) == 1:
        (x, k), = d.items()
        if c == 0:
            if k == 1:
                return x
            if k & (k - 1) == 0:
                s = k.bit_length() - 1
                return concat([extract(x, w - 1 - s, 0), const(0, s)])
        if k == mask(w) and c == mask(w):
            return bnot(x)
    # disjoint bits -> concat
    if len(d) + (1 if c else 0) <= 16:
        ops = []
        ok = True
        for x, k in d.items():
            if k & (k - 1):
                ok = False
                break
            s = k.bit_length() - 1
            y = concat([extract(x, w - 1 - s, 0), const(0, s)]) if s else x
            if not _sliced(y):
                ok = False
                break
            ops.append(y)
        if ok:
            r = _merge_disjoint(ops + ([const(c, w)] if c else []), w)
            if r is not None:
                return r
    s = min((k & -k).bit_length() - 1 for k in d.values())
    if s and not any(x.op == "base" for x in d):
        hi = add_n([(k >> s, extract(x, w - 1 - s, 0)) for x, k in d.items()], c >> s, w - s)
        return concat([hi, const(c, s)])
    prs = tuple(sorted(((k, x) for x, k in d.items()), key=lambda p: p[1].id))
    return _mk("add", (c, prs), w)


def add(*ts):
    if all(t.op == "c" for t in ts):
        return const(sum(t.a[0] for t in ts), ts[0].w)
    return add_n([(1, t) for t in ts], 0, ts[0].w)


def sub(a, b):
    if a.op == "ite" and b.op == "c" and a.w == 64 and (a.a[1].op == "ptr" or a.a[2].op == "ptr"):
        return ite(a.a[0], sub(a.a[1], b), sub(a.a[2], b))
    return add_n([(1, a), (-1, b)], 0, a.w)


def neg(a):
    return add_n([(-1, a)], 0, a.w)


def mul(*ts):
    w = ts[0].w
    c = 1
    st = list(ts)
    vs = []
    while st:
        t = st.pop()
        if t.op == "c":
            c = (c * t.a[0]) & mask(w)
        elif t.op == "mul":
            st.extend(t.a)
        else:
            k, prs = _lin(t)
            if k == 0 and len(prs) == 1 and prs[0][0] != 1:
                c = (c * prs[0][0]) & mask(w)
                st.append(prs[0][1])
            else:
                vs.append(t)
    if c == 0 or not vs:
        return const(c, w) if not vs else const(0, w)
    vs.sort()
    x = vs[0] if len(vs) == 1 else _mk("mul", tuple(vs), w)
    if c == 1:
        return x
    return add_n([(c, x)], 0, w)


def shl(a, b):
    if isc(b):
        s = cv(b)
        if s >= a.w:
            return const(0, a.w)
        if s == 0:
            return a
        return concat([extract(a, a.w - 1 - s, 0), const(0, s)])
    if isc(a) and cv(a) == 0:
        return a
    return _mk("shl", (a, b), a.w)


def lshr(a, b):
    if isc(b):
        s = cv(b)
        if s >= a.w:
            return const(0, a.w)
        return concat([const(0, s), extract(a, a.w - 1, s)]) if s else a
    if isc(a) and cv(a) == 0:
        return a
    return _mk("lshr", (a, b), a.w)


def ashr(a, b):
    if isc(b):
        s = min(cv(b), a.w - 1)
        if s == 0:
            return a
        return sext(extract(a, a.w - 1, s), a.w)
    return _mk("ashr", (a, b), a.w)


def udiv(a, b):
    if isc(b):
        d = cv(b)
        if isc(a) and d:
            return const(cv(a) // d, a.w)
        if d and d & (d - 1) == 0:
            return lshr(a, const(d.bit_length() - 1, a.w))
        sp = _divsplit(a, d)
        if sp is not None:
            q, rest = sp
            return q if ubound(rest) < d else add(q, _mk("udiv", (rest, b), a.w))
    return _mk("udiv", (a, b), a.w)


def _divsplit(a, d):
    """a = d*q + rest without wrap-around, when the linear form shows it"""
    if not d:
        return None
    c, prs = _lin(a)
    m = mask(a.w)
    c &= m
    prs = [(k & m, x) for k, x in prs]
    if not prs or any(x.op in ("ptr", "base") for _, x in prs):
        return None
    if c + sum(k * ubound(x) for k, x in prs) > m:
        return None
    big = [(k // d, x) for k, x in prs if k >= d]
    if not big and c < d:
        return None
    q = add_n(big, c // d, a.w)
    rest = add_n([(k % d, x) for k, x in prs if k % d], c % d, a.w)
    return q, rest


def urem(a, b):
    if isc(b):
        d = cv(b)
        if isc(a) and d:
            return const(cv(a) % d, a.w)
        if d and d & (d - 1) == 0:
            return band(a, const(d - 1, a.w))
        if ubound(a) < d:
            return a
        sp = _divsplit(a, d)
        if sp is not None:
            return sp[1] if ubound(sp[1]) < d else _mk("urem", (sp[1], b), a.w)
    return _mk("urem", (a, b), a.w)


def _sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(a, b):
    if isc(a) and isc(b) and cv(b):
        x, y = _sgn(cv(a), a.w), _sgn(cv(b), a.w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    h = 1 << (a.w - 1)
    if ubound(a) < h and ubound(b) < h:
        return udiv(a, b)
    return _mk("sdiv", (a, b), a.w)


def srem(a, b):
    if isc(a) and isc(b) and cv(b):
        x, y = _sgn(cv(a), a.w), _sgn(cv(b), a.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    h = 1 << (a.w - 1)
    if ubound(a) < h and ubound(b) < h:
        return urem(a, b)
    return _mk("srem", (a, b), a.w)


# ---------------------------------------------------------------- predicates
def ite(c, a, b):
    if c.op == "c":
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "xor" and c.a[-1] is TRUE:
        return ite(bxor(c, TRUE), b, a)
    if a.w == 1:
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return ptr(a.a[0], ite(c, a.a[1], b.a[1]))
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.w)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return FALSE if a.a[0] != b.a[0] else TRUE
    if a.op == "c":
        a, b = b, a
    if a.w == 1:
        if b.op == "c":
            return a if b.a[0] else bnot(a)
        return bnot(bxor(a, b))
    if a.op == "ptr" or b.op == "ptr":
        r = _ptreq(a, b)
        if r is not None:
            return r
    if b.op == "c":
        v = b.a[0]
        if v > ubound(a) or v < lbound(a):
            return FALSE
        if a.op == "ite":
            x, y = eq(a.a[1], b), eq(a.a[2], b)
            if x.op == "c" or y.op == "c":
                return ite(a.a[0], x, y)
        if a.op == "cat":
            r = []
            pos = a.w
            for p in a.a:
                pos -= p.w
                e = eq(p, const(v >> pos, p.w))
                if e is FALSE:
                    return FALSE
                if e is not TRUE:
                    r.append(e)
            if len(r) == 1:
                return r[0]
            if len(r) < len(a.a):
                return band(*r)
    if a.op in ("add", "c") or b.op in ("add", "c"):
        d = sub(a, b)
        if d.op == "c":
            return TRUE if d.a[0] == 0 else FALSE
        if d.op == "add":
            c, prs = d.a
            # normal form: move everything to one side with sign canonical
            k0 = prs[0][0]
            if k0 > mask(a.w) // 2 + 1:
                d = neg(d)
                if d.op != "add":
                    return eq(d, const(0, a.w))
                c, prs = d.a
            if len(prs) == 1 and prs[0][0] == 1:
                return _mkeq(prs[0][1], const(-c, a.w))
            return _mkeq(d, const(0, a.w))
    return _mkeq(a, b)


def _mkeq(a, b):
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.a[0] > ubound(a) or b.a[0] < lbound(a):
            return FALSE
    elif a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), 1)


def _ptreq(a, b):
    if a.op == "ptr" and b.op == "ptr":
        if a.a[0] == b.a[0]:
            return eq(a.a[1], b.a[1])
        return FALSE
    if b.op == "ptr":
        a, b = b, a
    if b.op == "c":
        if a.a[0] == 0:
            return eq(a.a[1], b)
        return FALSE
    if b.op == "ite":
        x, y = eq(a, b.a[1]), eq(a, b.a[2])
        return ite(b.a[0], x, y)
    return None


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return ult(a.a[1], b.a[1])
    if ubound(a) < lbound(b):
        return TRUE
    if lbound(a) >= ubound(b):
        return FALSE
    if b.op == "c" and b.a[0] == 1:
        return eq(a, const(0, a.w))
    if a.op == "cat" and a.a[0].op == "c" and a.a[0].a[0] == 0:
        k = a.a[0].w
        lo = a.w - k
        if b.op == "c":
            if b.a[0] >> lo:
                return TRUE
            return ult(extract(a, lo - 1, 0), const(b.a[0], lo))
        if b.op == "cat" and b.a[0].op == "c" and b.a[0].a[0] == 0:
            k = min(k, b.a[0].w)
            return ult(extract(a, a.w - k - 1, 0), extract(b, a.w - k - 1, 0))
    elif a.op == "c" and b.op == "cat" and b.a[0].op == "c" and b.a[0].a[0] == 0:
        lo = b.w - b.a[0].w
        if a.a[0] >> lo:
            return FALSE
        return ult(const(a.a[0], lo), extract(b, lo - 1, 0))
    if b.op == "c" and a.op == "ite" and a.a[1].op == "c" and a.a[2].op == "c":
        return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    if a.w == 1:
        return band(bnot(a), b)
    return _mk("ult", (a, b), 1)


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if _sgn(a.a[0], a.w) < _sgn(b.a[0], a.w) else FALSE
    h = 1 << (a.w - 1)
    if ubound(a) < h and ubound(b) < h:
        return ult(a, b)
    if b.op == "c" and b.a[0] == 0:
        return extract(a, a.w - 1, a.w - 1)
    if a.op == "c" and a.a[0] == mask(a.w):
        return bnot(extract(b, b.w - 1, b.w - 1))
    if a.op == "ite" and b.op == "c" and (a.a[1].op == "c" or a.a[2].op == "c"):
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    return _mk("slt", (a, b), 1)


def sle(a, b):
    return bnot(slt(b, a))


def implies(a, b):
    return bor(bnot(a), b)


_taffine = {}


def tab(values, w, idx):
    """constant table lookup values[idx] (idx assumed < len(values)); values: tuple"""
    if isc(idx):
        return const(values[cv(idx)], w)
    n = len(values)
    if n & (n - 1) == 0:
        k = (values, w)
        if k not in _taffine:
            b = n.bit_length() - 1
            ok = True
            c0 = values[0]
            cols = [values[1 << j] ^ c0 for j in range(b)]
            for i in range(n):
                v = c0
                for j in range(b):
                    if i >> j & 1:
                        v ^= cols[j]
                if v != values[i]:
                    ok = False
                    break
            _taffine[k] = (ok, c0, cols)
        ok, c0, cols = _taffine[k]
        if ok:
            r = const(c0, w)
            for j, cl in enumerate(cols):
                r = bxor(r, ite(extract(idx, j, j), const(cl, w), const(0, w)))
            return r
    return _mk("tab", (values, idx), w)


NULL = ptr(0, const(0, 64))


# ---------------------------------------------------------------- evaluation
def children(t):
    o = t.op
    if o in ("c", "v", "base"):
        return ()
    if o == "add":
        return tuple(x for _, x in t.a[1])
    if o == "ex":
        return (t.a[0],)
    if o == "uf":
        return t.a[1:]
    if o == "tab":
        return (t.a[1],)
    if o == "ptr":
        return (t.a[1],)
    return t.a


def topo(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, d = st.pop()
        if d:
            out.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        st.append((t, True))
        for c in children(t):
            if c not in seen:
                st.append((c, False))
    return out


def evaluate(roots, env, ufs=None):
    """env: callable(var term)->int ; ufs: callable(name, argvals, w)->int"""
    val = {}
    for t in topo(roots):
        val[t] = eval1(t, val, env, ufs)
    return val


def eval1(t, val, env, ufs):
    o = t.op
    m = mask(t.w)
    a = t.a
    if o == "c":
        return a[0]
    if o == "v":
        return env(t) & m
    if o == "cat":
        v = 0
        for p in a:
            v = (v << p.w) | val[p]
        return v
    if o == "ex":
        return (val[a[0]] >> a[2]) & m
    if o == "sext":
        x = val[a[0]]
        if x >> (a[0].w - 1):
            x |= m ^ mask(a[0].w)
        return x
    if o == "xor":
        v = 0
        for p in a:
            v ^= val[p]
        return v
    if o == "and":
        v = m
        for p in a:
            v &= val[p]
        return v
    if o == "or":
        v = 0
        for p in a:
            v |= val[p]
        return v
    if o == "add":
        v = a[0]
        for k, x in a[1]:
            v += k * val[x]
        return v & m
    if o == "mul":
        v = 1
        for x in a:
            v = v * val[x] & m
        return v
    if o == "ite":
        return val[a[1]] if val[a[0]] else val[a[2]]
    if o == "eq":
        return int(val[a[0]] == val[a[1]])
    if o == "ult":
        return int(val[a[0]] < val[a[1]])
    if o == "slt":
        return int(_sgn(val[a[0]], a[0].w) < _sgn(val[a[1]], a[0].w))
    if o == "shl":
        s = val[a[1]]
        return (val[a[0]] << s) & m if s < t.w else 0
    if o == "lshr":
        s = val[a[1]]
        return val[a[0]] >> s if s < t.w else 0
    if o == "ashr":
        s = min(val[a[1]], t.w - 1)
        return (_sgn(val[a[0]], t.w) >> s) & m
    if o == "udiv":
        return val[a[0]] // val[a[1]] if val[a[1]] else m
    if o == "urem":
        return val[a[0]] % val[a[1]] if val[a[1]] else val[a[0]]
    if o == "sdiv":
        x, y = _sgn(val[a[0]], t.w), _sgn(val[a[1]], t.w)
        if y == 0:
            return m if x >= 0 else 1
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if o == "srem":
        x, y = _sgn(val[a[0]], t.w), _sgn(val[a[1]], t.w)
        if y == 0:
            return val[a[0]]
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & m
    if o == "tab":
        i = val[a[1]]
        return a[0][i] if i < len(a[0]) else 0
    if o == "uf":
        return ufs(a[0], tuple(val[x] for x in a[1:]), t.w) & m
    if o == "ptr":
        return (a[0] * 0x100000000000 + val[a[1]]) & m
    if o == "base":
        return (a[0] * 0x100000000000) & m
    raise Exception("eval " + o)


def substitute(roots, mp):
    """mp: dict term->term"""
    val = dict(mp)
    for t in topo(roots):
        if t in val:
            continue
        val[t] = rebuild(t, val)
    return [val[r] for r in roots]


def rebuild(t, val):
    o = t.op
    a = t.a
    if o in ("c", "v", "base"):
        return t
    ch = children(t)
    if all(val[c] is c for c in ch):
        return t
    if o == "cat":
        return concat([val[x] for x in a])
    if o == "ex":
        return extract(val[a[0]], a[1], a[2])
    if o == "sext":
        return sext(val[a[0]], t.w)
    if o == "add":
        return add_n([(k, val[x]) for k, x in a[1]], a[0], t.w)
    if o == "uf":
        return uf(a[0], [val[x] for x in a[1:]], t.w)
    if o == "tab":
        return tab(a[0], t.w, val[a[1]])
    if o == "ptr":
        return ptr(a[0], val[a[1]])
    f = {"xor": bxor, "and": band, "or": bor, "mul": mul, "ite": ite, "eq": eq, "ult": ult, "slt": slt,
         "shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[o]
    return f(*[val[x] for x in a])


def show(t, depth=6):
    o = t.op
    if o == "c":
        return "%#x:%d" % (t.a[0], t.w) if t.w > 8 else str(t.a[0])
    if o == "v":
        return t.a[0]
    if depth == 0:
        return ".."
    if o == "ex":
        return "%s[%d:%d]" % (show(t.a[0], depth - 1), t.a[1], t.a[2])
    if o == "add":
        return "(%s)" % " + ".join(
            ([] if t.a[0] == 0 else [hex(t.a[0]) if _sgn(t.a[0], t.w) >= 0 else str(_sgn(t.a[0], t.w))]) +
            [(str(_sgn(k, t.w)) + "*" if k != 1 else "") + show(x, depth - 1) for k, x in t.a[1]])
    if o == "uf":
        return "%s(%s)" % (t.a[0], ", ".join(show(x, depth - 1) for x in t.a[1:]))
    if o == "ptr":
        return "&%s+%s" % (t.a[0], show(t.a[1], depth - 1))
    if o == "tab":
        return "tab[%s]" % show(t.a[1], depth - 1)
    if o == "base":
        return "base%s" % t.a[0]
    return "%s(%s)" % (o, ", ".join(show(x, depth - 1) for x in t.a))
