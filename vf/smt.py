"""z3 back end for terms."""
import os
import time
import z3
from . import terms as t_, lia

z3.set_param("memory_max_size", 6000)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.syntactic = 0
        self.by = {}

    def hit(self, k, dt=0.0):
        n, s = self.by.get(k, (0, 0.0))
        self.by[k] = (n + 1, s + dt)


STATS = Stats()

_full = ({}, {})
_abst = ({}, {})
_bv, _bo = _full
_abs_on = False
_absfacts = {}
_ufs = {}
LIA = True
HARD = ("udiv", "urem", "sdiv", "srem")


def _mode(a):
    global _bv, _bo, _abs_on
    _abs_on = a
    _bv, _bo = _abst if a else _full


def has_hard(ts):
    return any(t.op in HARD or (t.op == "mul" and t.w > 8) for t in t_.topo(ts))


def _uff(name, ws, w):
    k = (name, ws, w)
    if k not in _ufs:
        _ufs[k] = z3.Function("%s_%s_%d" % (name, "_".join(map(str, ws)), w), *[z3.BitVecSort(x) for x in ws],
                              z3.BitVecSort(w))
    return _ufs[k]


BOOLOPS = ("eq", "ult", "slt")


def tobool(t):
    r = _bo.get(t)
    if r is None:
        _trans([t])
        r = _bool(t)
        _bo[t] = r
    return r


def tobv(t):
    r = _bv.get(t)
    if r is None:
        _trans([t])
        r = _bv[t] if t in _bv else _getbv(t)
    return r


def _getbv(t):
    r = _bv.get(t)
    if r is None:
        r = z3.If(_bo[t], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        _bv[t] = r
    return r


def _bool(t):
    r = _bo.get(t)
    if r is None:
        r = _bv[t] == 1
        _bo[t] = r
    return r


def _trans(roots):
    for t in t_.topo(roots):
        if t in _bv or t in _bo:
            continue
        o, a = t.op, t.a
        if t.w == 1 and o in ("eq", "ult", "slt", "and", "or", "xor", "ite", "c"):
            if o == "c":
                r = z3.BoolVal(bool(a[0]))
            elif o == "eq":
                r = _getbv(a[0]) == _getbv(a[1])
            elif o == "ult":
                r = z3.ULT(_getbv(a[0]), _getbv(a[1]))
            elif o == "slt":
                r = _getbv(a[0]) < _getbv(a[1])
            elif o == "and":
                r = z3.And(*[_bool(x) for x in a])
            elif o == "or":
                r = z3.Or(*[_bool(x) for x in a])
            elif o == "xor":
                r = _bool(a[0])
                for x in a[1:]:
                    r = z3.Not(r) if x is t_.TRUE else z3.Xor(r, _bool(x))
            else:
                r = z3.If(_bool(a[0]), _bool(a[1]), _bool(a[2]))
            _bo[t] = r
            continue
        if _abs_on and (o in HARD or (o == "mul" and t.w > 8)):
            r = z3.BitVec("abs!%d" % len(_absfacts), t.w)
            f = []
            if o == "urem" and a[1].op == "c":
                f.append(z3.ULT(r, _getbv(a[1])))
            _absfacts[t] = f
        elif o == "c":
            r = z3.BitVecVal(a[0], t.w)
        elif o == "v":
            r = z3.BitVec(a[0], t.w)
        elif o == "cat":
            r = z3.Concat(*[_getbv(x) for x in a])
        elif o == "ex":
            r = z3.Extract(a[1], a[2], _getbv(a[0]))
        elif o == "sext":
            r = z3.SignExt(t.w - a[0].w, _getbv(a[0]))
        elif o == "xor":
            r = _getbv(a[0])
            for x in a[1:]:
                r = r ^ _getbv(x)
        elif o == "and":
            r = _getbv(a[0])
            for x in a[1:]:
                r = r & _getbv(x)
        elif o == "or":
            r = _getbv(a[0])
            for x in a[1:]:
                r = r | _getbv(x)
        elif o == "add":
            c, prs = a
            r = None
            for k, x in prs:
                y = _getbv(x)
                if k == t_.mask(t.w):
                    r = -y if r is None else r - y
                    continue
                if k != 1:
                    y = y * z3.BitVecVal(k, t.w)
                r = y if r is None else r + y
            if c:
                r = r + z3.BitVecVal(c, t.w)
        elif o == "mul":
            r = _getbv(a[0])
            for x in a[1:]:
                r = r * _getbv(x)
        elif o == "ite":
            r = z3.If(_bool(a[0]), _getbv(a[1]), _getbv(a[2]))
        elif o == "shl":
            r = _getbv(a[0]) << _getbv(a[1])
        elif o == "lshr":
            r = z3.LShR(_getbv(a[0]), _getbv(a[1]))
        elif o == "ashr":
            r = _getbv(a[0]) >> _getbv(a[1])
        elif o == "udiv":
            r = z3.UDiv(_getbv(a[0]), _getbv(a[1]))
        elif o == "urem":
            r = z3.URem(_getbv(a[0]), _getbv(a[1]))
        elif o == "sdiv":
            r = _getbv(a[0]) / _getbv(a[1])
        elif o == "srem":
            r = z3.SRem(_getbv(a[0]), _getbv(a[1]))
        elif o == "uf":
            if len(a) == 1:
                r = z3.BitVec(a[0], t.w)
            else:
                r = _uff(a[0], tuple(x.w for x in a[1:]), t.w)(*[_getbv(x) for x in a[1:]])
        elif o == "tab":
            vals, ix = a
            n = max(1, (len(vals) - 1).bit_length())
            i = _getbv(ix)
            r = _mux(vals, i, n, 0, 1 << n, t.w)
        elif o == "ptr":
            r = z3.BitVec("base%s" % a[0], 64) + _getbv(a[1])
        elif o == "base":
            r = z3.BitVec("base%s" % a[0], 64)
        else:
            raise Exception("z3 " + o)
        _bv[t] = r


def _mux(vals, i, n, lo, hi, w):
    if lo >= len(vals):
        return z3.BitVecVal(0, w)
    if hi - lo == 1:
        return z3.BitVecVal(vals[lo], w)
    mid = (lo + hi) // 2
    n -= 1
    a = _mux(vals, i, n, lo, mid, w)
    b = _mux(vals, i, n, mid, hi, w)
    if a.eq(b):
        return a
    return z3.If(z3.Extract(n, n, i) == 0, a, b)


def check(conds, timeout=60.0, want_model=False, approx=False, bv=False):
    """satisfiability of the conjunction: 'sat' | 'unsat' | 'unknown' (+ model)"""
    cs = []
    for c in conds:
        if c is t_.FALSE:
            return ("unsat", None) if want_model else "unsat"
        if c is not t_.TRUE:
            cs.append(c)
    if not cs:
        if not want_model:
            return "sat"
    stages = ()
    if LIA and lia.worth(cs):
        stages = ("lia", 0.4), ("bv", 1.5), ("lia", 3.0)
    for kind, lim in stages:
        t0 = time.time()
        if kind == "bv":
            if has_hard(cs):
                continue
            s = z3.Solver()
            s.set("timeout", int(min(timeout, lim) * 1000))
            for c in cs:
                s.add(tobool(c))
            r = str(s.check())
            dt = time.time() - t0
            STATS.queries += 1
            STATS.time += dt
            STATS.hit("z3:" + r, dt)
            if r != "unknown":
                return (r, s.model() if r == "sat" else None) if want_model else r
            continue
        u = lia.solve(cs, min(timeout, lim))
        dt = time.time() - t0
        STATS.queries += 1
        STATS.time += dt
        STATS.hit("z3lia:" + ("no" if u is None else u if u == "unsat" else "sat"), dt)
        if u == "unsat":
            return ("unsat", None) if want_model else "unsat"
        if u and not bv:
            return u if want_model else "sat"
    if has_hard(cs):
        # division and products as opaque values first: unsat carries over
        _mode(True)
        try:
            s = z3.Solver()
            s.set("timeout", int(min(timeout, 10) * 1000))
            t0 = time.time()
            for c in cs:
                s.add(tobool(c))
            for u in t_.topo(cs):
                for f in _absfacts.get(u, ()):
                    s.add(f)
            r = str(s.check())
        finally:
            _mode(False)
        dt = time.time() - t0
        STATS.queries += 1
        STATS.time += dt
        STATS.hit("z3abs:" + r, dt)
        if r == "unsat":
            return ("unsat", None) if want_model else "unsat"
        if approx:
            return r
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    t0 = time.time()
    for c in cs:
        s.add(tobool(c))
    r = str(s.check())
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.hit("z3:" + r, dt)
    if want_model:
        return r, (s.model() if r == "sat" else None)
    return r


def model_env(model):
    """term-var evaluator from a z3 model"""
    def env(t):
        v = model.eval(z3.BitVec(t.a[0], t.w), model_completion=True)
        return v.as_long()
    return env


def model_val(model, t):
    v = model.eval(tobv(t), model_completion=True)
    return v.as_long()


def model_dict(m, lim=60):
    out = {}
    for d in m.decls()[:400]:
        if d.arity() == 0 and len(out) < lim:
            out[d.name()] = str(m[d])
    return out
