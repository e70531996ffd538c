"""Complete evaluation of terms over small finite domains (all assignments at once, numpy)."""
import numpy as np
from . import terms as t

U = np.uint64


def sgn(x, w):
    """signed value of a w-bit pattern, as int64"""
    k = U(64 - w)
    return (x << k).view(np.int64) >> np.int64(64 - w) if x.ndim else np.int64(((int(x) << (64 - w)) & (1 << 64) - 1) - (1 << 64) * (int(x) >> (w - 1))) >> np.int64(64 - w)


def evalall(roots, env, n):
    """env: variable term -> array of n values; -> {term: array}"""
    val = {}
    full = lambda v: np.full(n, v, dtype=U)
    for x in t.topo(roots):
        o, a, w = x.op, x.a, x.w
        if w > 64:
            raise ValueError("width")
        m = U(t.mask(w))
        if o == "c":
            r = full(a[0])
        elif o == "v":
            r = env[x]
        elif o == "cat":
            r = full(0)
            for p in a:
                r = (r << U(p.w) if p.w < 64 else full(0)) | val[p]
        elif o == "ex":
            r = val[a[0]] >> U(a[2])
        elif o == "sext":
            r = sgn(val[a[0]], a[0].w).view(U)
        elif o in ("xor", "and", "or"):
            r = val[a[0]]
            for p in a[1:]:
                r = r ^ val[p] if o == "xor" else r & val[p] if o == "and" else r | val[p]
        elif o == "add":
            r = full(a[0])
            for k, p in a[1]:
                r = r + U(k) * val[p]
        elif o == "mul":
            r = val[a[0]]
            for p in a[1:]:
                r = r * val[p]
        elif o == "ite":
            r = np.where(val[a[0]] != 0, val[a[1]], val[a[2]])
        elif o == "eq":
            r = (val[a[0]] == val[a[1]]).astype(U)
        elif o == "ult":
            r = (val[a[0]] < val[a[1]]).astype(U)
        elif o == "slt":
            r = (sgn(val[a[0]], a[0].w) < sgn(val[a[1]], a[0].w)).astype(U)
        elif o in ("shl", "lshr"):
            s = val[a[1]]
            k = np.minimum(s, U(63))
            r = np.where(s < U(w), val[a[0]] << k if o == "shl" else val[a[0]] >> k, U(0))
        elif o == "ashr":
            r = (sgn(val[a[0]], w) >> np.minimum(val[a[1]], U(w - 1)).view(np.int64)).view(U)
        elif o in ("udiv", "urem"):
            d = val[a[1]]
            z = d == 0
            dd = np.where(z, U(1), d)
            r = np.where(z, m, val[a[0]] // dd) if o == "udiv" else np.where(z, val[a[0]], val[a[0]] % dd)
        elif o in ("sdiv", "srem"):
            p, q = sgn(val[a[0]], w), sgn(val[a[1]], w)
            if (q == 0).any():
                raise ValueError("division by zero")
            ap, aq = np.abs(p), np.abs(q)
            if o == "sdiv":
                r = np.where((p < 0) == (q < 0), ap // aq, -(ap // aq)).view(U)
            else:
                r = np.where(p < 0, -(ap % aq), ap % aq).view(U)
        elif o == "tab":
            tb = np.array(list(a[0]), dtype=U)
            i = val[a[1]]
            r = np.where(i < U(len(tb)), tb[np.minimum(i, U(len(tb) - 1)).astype(np.int64)], U(0))
        else:
            raise ValueError(o)
        val[x] = r & m
    return val


def variables(x):
    return {y for y in t.topo([x]) if y.op == "v"}


def satisfying(cs, vs, dom, n, more=()):
    env, rep = {}, 1
    for v in sorted(vs, key=lambda v: str(v.a[0])):
        arr = np.array(dom[v], dtype=U)
        env[v] = np.tile(np.repeat(arr, rep), n // (rep * len(arr)))
        rep *= len(arr)
    val = evalall(list(more) + cs, env, n)
    ok = np.ones(n, dtype=bool)
    for c in cs:
        ok &= val[c] != 0
    return val, ok


def zero(d, pcs, dom, limit=4000000):
    """is the term d zero for every assignment of its variables (dom: variable -> list of values) that satisfies pcs?
    The sum is split into parts without common variables; each part must be constant over all its assignments.
    -> True, False (a part varies) or None (too large / unsupported)"""
    sup = [(c, variables(c)) for c in pcs]
    try:
        # conditions on few variables that exclude each other: nothing to show
        for vs in {frozenset(u) for _, u in sup if u and u <= set(dom)}:
            cs = [c for c, u in sup if u and u <= vs]
            n = 1
            for v in vs:
                n *= len(dom[v])
            if len(cs) > 1 and n <= 20000 and not satisfying(cs, vs, dom, n)[1].any():
                return True
    except ValueError:
        pass
    parts = [(k, x, variables(x)) for k, x in d.a[1]] if d.op == "add" else [(1, d, variables(d))] if not t.isc(d) else []
    c0 = d.a[0] if d.op == "add" else t.cv(d) if t.isc(d) else 0
    groups = []
    for k, x, vs in parts:
        if not vs <= set(dom):
            return None
        g = [(k, x)], set(vs)
        rest = []
        for ps, ws in groups:
            if ws & g[1]:
                g = (ps + g[0], ws | g[1])
            else:
                rest.append((ps, ws))
        groups = rest + [g]
    tot = c0
    try:
        for ps, vs in groups:
            vs = sorted(vs, key=lambda v: str(v.a[0]))
            n = 1
            for v in vs:
                n *= len(dom[v])
            if n > limit:
                return None
            cs = [c for c, u in sup if u and u <= set(vs)]
            val, ok = satisfying(cs, vs, dom, n, [x for _, x in ps])
            s = np.zeros(n, dtype=U)
            for k, x in ps:
                s = s + U(k) * val[x]
            s = s[ok]
            if not len(s):
                return True
            if (s != s[0]).any():
                return False
            tot += int(s[0])
    except ValueError:
        return None
    return tot & t.mask(d.w) == 0
