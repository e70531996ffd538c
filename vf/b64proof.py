"""base64 encoding and decoding.

Encoding is described by ghosts (l, c): 57 l + c input bytes have been read (c concrete, below 57), i.e. l complete lines of 19
groups.  Decoding is described by (k, q, r): of the first k characters 4 q + r are base64 digits; V(i) is the value of the i-th digit."""
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Unsupported
from .loops import LoopEngine, Template

C64 = lambda v: const(v, 64)
AZ = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
SETS = [AZ + b"+/", AZ + b"+,", AZ + b"-_"]
VAL = [255] * 256
for _s in SETS:
    for _i, _c in enumerate(_s):
        VAL[_c] = _i


def tabv(vals, w, idx):
    return t.tab(tuple(vals), w, idx)


def mk(mod, dem):
    ex = Executor(mod)
    ex.dem = dem
    stdmodel.install(ex)
    return ex


def encode(mod, dem, nl, omit, cs):
    ex = mk(mod, dem)
    st = State(ex)
    n = t.zext(t.var("n", 50), 64)
    D = lambda j: t.uf("D", [j], 8)
    do = ex.new_obj(st, n, "data", base=lambda s_, j: D(j))
    do.ro = True
    dp = t.ptr(do.id, C64(0))
    out = ex.new_obj(st, 32, "result")
    OUT = lambda j: t.uf("OUT", [j], 8)
    per = 77 if nl else 76
    enc = lambda v6: tabv(SETS[cs], 8, v6)
    K = lambda g: t.add(t.mul(g["l"], C64(57)), C64(g["c"]))
    LEN = lambda g: t.add(t.mul(g["l"], C64(per)), C64(4 * (g["c"] // 3)))

    def at(g, c):
        return D(t.add(t.mul(g["l"], C64(57)), C64(c)))

    def group(g, c):
        """characters of the complete group whose first byte is at 57 l + c"""
        v = t.concat([at(g, c), at(g, c + 1), at(g, c + 2)])
        r = [enc(t.extract(v, 23 - 6 * i, 18 - 6 * i)) for i in range(4)]
        return r + ([const(10, 8)] if nl and c == 54 else [])

    def tail(g):
        r = g["c"] % 3
        if r == 0:
            o = []
        else:
            v = t.concat([at(g, g["c"] - r + i) for i in range(r)] + [const(0, 4 if r == 1 else 2)])
            o = [enc(t.extract(v, v.w - 1 - 6 * i, v.w - 6 - 6 * i)) for i in range(r + 1)]
            if not omit:
                o += [const(61, 8)] * (3 - r)
        return o + ([const(10, 8)] if nl else [])
    cases = {}

    def advance(g, d):
        c = g["c"] + d
        return {"l": t.add(g["l"], C64(c // 57)), "c": c % 57}

    class Tm(Template):
        name = "base64"

        def __init__(s, ex, st, f, H, lp, env):
            s.strs = []
            for i, o in st.mem.items():
                if o.alive and isc(o.size) and cv(o.size) == 32 and not o.ro:
                    try:
                        b, ln = stdmodel.string_view(ex, st.fork(), t.ptr(i, C64(0)))
                    except Exception:
                        continue
                    if b.op == "ptr" and b.a[0] in st.mem and st.mem[b.a[0]].meta == "strbuf" and isc(ln):
                        s.strs.append(i)
            s.cur = None

        def modes(s):
            return [(i, g, o) for o in (0, 1) for i in s.strs for g in (1, 3)]

        def ghosts(s, ex, st, mode):
            r = []
            for c in range(0, 57, mode[1]):
                lv = t.fresh("l", 44)
                l = t.zext(lv, 64)
                g = {"l": l, "c": c}
                cases[lv] = g
                r.append((g, [t.ule(K(g), n)]))
            return r

        def enter(s, g):
            s.cur = g

        def of(s, k):
            if s.cur is not None:
                d = t.sub(k, K(s.cur))
                if isc(d) and cv(d) <= 57:
                    return dict(advance(s.cur, cv(d)), frm=s.cur, d=cv(d))
            if isc(k) and cv(k) == 0:
                return {"l": C64(0), "c": 0, "frm": None}
            return None

        def drivers(s, ex, st, v, mode):
            s.cur = None
            if v.op == "ptr":
                return [("ptr", lambda x: s.of(x.a[1]) if x.op == "ptr" and x.a[0] == do.id else None)] if v.a[0] == do.id else []
            if v.w != 64:
                return []
            return [("consumed", lambda x: s.of(x)), ("remaining", lambda x: s.of(t.sub(n, x)))]

        def invert(s, g, b):
            lab = b["desc"].split("~")[1].split("/")[0]
            return {"ptr": lambda: t.add(dp, K(g)), "consumed": lambda: K(g), "remaining": lambda: t.sub(n, K(g))}[lab]()

        def gconds(s, ex, st, g, mode):
            return [("range", t.ule(K(g), n)), ("aligned", TRUE if g["c"] % mode[1] == 0 else FALSE)]

        def phi_cands(s, ex, st, mode):
            def val(g, m, reset):
                """last m bytes, newest lowest; bytes before the start are 0"""
                xs = []
                for i in range(m):
                    if reset and i >= g["c"] % 3:
                        xs.append(const(0, 8))
                    elif g["c"] >= i + 1:
                        xs.append(at(g, g["c"] - 1 - i))
                    else:
                        xs.append(t.ite(t.eq(g["l"], C64(0)), const(0, 8), at(g, g["c"] - 1 - i)))
                return t.concat(xs[::-1])
            r0 = [("ptr", lambda g: t.add(dp, K(g))), ("consumed", K), ("remaining", lambda g: t.sub(n, K(g)))]
            r = []
            for w in (64, 32):
                r += [("count%d" % w, lambda g, w=w: const(g["c"] % 3, w)), ("blocks%d" % w, lambda g, w=w: const(g["c"] // 3, w)),
                      ("groups%d" % w, lambda g, w=w: t.extract(t.add(t.mul(g["l"], C64(19)), C64(g["c"] // 3)), w - 1, 0)),
                      ("col%d" % w, lambda g, w=w: const(4 * (g["c"] // 3), w)),
                      ("value%d" % w, lambda g, w=w: val(g, w // 8, None)), ("group%d" % w, lambda g, w=w: val(g, w // 8, True)),
                      ("left%d" % w, lambda g, w=w: const(19 - g["c"] // 3, w)), ("left76_%d" % w, lambda g, w=w: const(76 - 4 * (g["c"] // 3), w))]
            return r0 + r if mode[2] else r + r0

        def apply(s, ex, st, g, mode):
            p = t.ptr(mode[0], C64(0))
            o = ex.new_obj(st, t.add(LEN(g), C64(1)), "string-buffer", "heap")
            o.meta = "strbuf"
            o.w_range(C64(0), LEN(g), lambda s_, j: OUT(j))
            o.w_sym(LEN(g), [const(0, 8)])
            ex.store(st, p, t.ptr(o.id, C64(0)), 8, "base64")
            ex.store(st, t.add(p, C64(8)), LEN(g), 8, "base64")
            s.buf = o.id

        def conds(s, ex, st, g, mode):
            def chk(st):
                b, ln = stdmodel.string_view(ex, st, t.ptr(mode[0], C64(0)))
                if not ex.prove(st, t.eq(ln, LEN(g)), "output-length", "base64"):
                    return False
                if g["frm"] is None:
                    return True
                f = g["frm"]
                new = []
                for c in range(f["c"] // 3 * 3, (f["c"] + g["d"]) // 3 * 3, 3):
                    new += group(*((f, c) if c < 57 else (dict(l=t.add(f["l"], C64(1))), c - 57)))
                return grown(ex, st, b, LEN(f), new, "base64")
            return [("string", chk)]

        def measure(s, g):
            return K(g)

        def managed(s, st):
            return set(s.strs) | {s.buf}

    def grown(ex, st, b, old, new, where):
        o = st.mem[b.a[0]]
        for i, x in enumerate(new):
            if not ex.prove(st, t.eq(o.rd(st, t.add(b.a[1], old, C64(i))), x), "output-characters", where):
                return False
        j = t.fresh("j", 64)
        s2 = st.fork()
        s2.assume(t.ult(j, old))
        if not s2.feasible():
            return True
        return ex.prove(s2, t.eq(o.rd(s2, t.add(b.a[1], j)), OUT(j)), "earlier-output", where)

    ex.loop_hook = LoopEngine([Tm])
    m = 0
    w = "base64(%s, %s, set %d)" % ("newlines" if nl else "one line", "no padding" if omit else "padding", cs)
    for oc in ex.start(st, "vf_enc", [dp, n, const(nl, 1), const(omit, 1), const(cs, 32), t.ptr(out.id, C64(0))]):
        s = oc.st
        if oc.kind != "ret":
            ex.prove(s, FALSE, "no-throw", w)
            continue
        m += 1
        b, ln = stdmodel.string_view(ex, s, t.ptr(out.id, C64(0)))
        g = None
        if b.op == "ptr" and b.a[0]:
            for u in t.topo([ln]):
                if u in cases:
                    g = cases[u]
        if g is None:
            # the loop was never entered: no input bytes
            if not ex.prove(s, t.eq(n, C64(0)), "output", w):
                continue
            want = tail({"l": C64(0), "c": 0})
            if ex.prove(s, t.eq(ln, C64(len(want))), "output-length", w):
                for i, x in enumerate(want):
                    ex.prove(s, t.eq(s.mem[b.a[0]].rd(s, t.add(b.a[1], C64(i))), x), "output-characters", w)
            continue
        for r in range(3):
            s2 = s.fork()
            s2.assume(t.eq(n, t.add(K(g), C64(r))))
            if not s2.feasible():
                continue
            g1 = {"l": g["l"], "c": g["c"] + r}
            new = []
            if g1["c"] // 3 > g["c"] // 3:
                new = group(g, g["c"] // 3 * 3)
            if g1["c"] == 57:
                g1 = {"l": t.add(g["l"], C64(1)), "c": 0}
            new = new + tail(g1)
            if ex.prove(s2, t.eq(ln, t.add(LEN(g), C64(len(new)))), "output-length", w):
                grown(ex, s2, b, LEN(g), new, w)
        ex.prove(s, t.ule(t.sub(n, K(g)), C64(2)), "all-input-read", w)
    if not m:
        raise Unsupported("no returning path")
    return [ex]


def decode(mod, dem):
    ex = mk(mod, dem)
    st = State(ex)
    n = t.zext(t.var("n", 50), 64)
    S = lambda j: t.uf("S", [j], 8)
    V = lambda i: t.uf("V", [i], 6)
    OUT = lambda j: t.uf("OUT", [j], 8)
    do = ex.new_obj(st, n, "text", base=lambda s_, j: S(j))
    do.ro = True
    dp = t.ptr(do.id, C64(0))
    out = ex.new_obj(st, 24, "result")
    val = lambda c: tabv(VAL, 8, c)
    digit = lambda c: t.bnot(t.eq(val(c), const(255, 8)))
    IDX = lambda g, i: t.add(t.mul(g["q"], C64(4)), C64(i))
    LEN = lambda g: t.mul(g["q"], C64(3))
    vof = {}

    def bytes_of(g, r):
        v = [V(IDX(g, i)) for i in range(r)]
        x = t.concat(v)
        return [t.extract(x, x.w - 1 - 8 * i, x.w - 8 - 8 * i) for i in range(x.w // 8)]

    class Tm(Template):
        name = "base64d"

        def __init__(s, ex, st, f, H, lp, env):
            def empty(i):
                ws = stdmodel.vec(ex, st, t.ptr(i, C64(0)))
                return all((isc(x) and cv(x) == 0) or (x.op == "ptr" and x.a[0] == 0) for x in ws)
            s.vecs = []
            for i, o in st.mem.items():
                if o.alive and isc(o.size) and cv(o.size) == 24:
                    try:
                        if empty(i):
                            s.vecs.append(i)
                    except Exception:
                        pass
            s.cur = None
            s.buf = None

        def modes(s):
            return s.vecs

        def ghosts(s, ex, st, mode):
            rs = []
            for r in range(4):
                for zero in (True, False):
                    k = t.zext(t.fresh("k", 50), 64)
                    qv = t.fresh("q", 46)
                    q = C64(0) if zero else t.zext(qv, 64)
                    g = {"k": k, "q": q, "r": r}
                    vof[k] = g
                    rs.append((g, [t.ule(k, n), t.ule(IDX(g, r), k)] + ([] if zero else [t.ult(C64(0), q)])))
            return rs

        def enter(s, g):
            s.cur = g

        def memdrivers(s, ex, st, mode):
            s.cur = None
            return [("chars", {"k": C64(0), "q": C64(0), "r": 0, "frm": None}, s.nxt)]

        def nxt(s, st):
            g = s.cur
            d = st.decide(digit(S(g["k"])))
            if d is None:
                return None
            k = t.add(g["k"], C64(1))
            if not d:
                return {"k": k, "q": g["q"], "r": g["r"], "frm": g, "new": 0}
            # definition of V: this character is digit number 4 q + r
            st.assume(t.eq(V(IDX(g, g["r"])), t.extract(val(S(g["k"])), 5, 0)))
            r = g["r"] + 1
            return {"k": k, "q": t.add(g["q"], C64(r // 4)), "r": r % 4, "frm": g, "new": r // 4}

        def drivers(s, ex, st, v, mode):
            return []

        def invert(s, g, b):
            return None

        def gconds(s, ex, st, g, mode):
            return [("range", t.ule(g["k"], n)), ("digits", t.ule(IDX(g, g["r"]), g["k"]))]

        def phi_cands(s, ex, st, mode):
            def vl(g, w, reset):
                xs = []
                for i in range(w // 6 + 1):
                    j = g["r"] - 1 - i
                    if j >= 0:
                        xs.append(V(IDX(g, j)))
                    elif reset:
                        xs.append(const(0, 6))
                    else:
                        xs.append(t.ite(t.ult(C64(-j - 1 >> 2), g["q"]), V(IDX(g, j)), const(0, 6)))
                return t.extract(t.concat(xs[::-1]), w - 1, 0)
            r = [("ptr", lambda g: t.add(dp, g["k"])), ("consumed", lambda g: g["k"]), ("remaining", lambda g: t.sub(n, g["k"]))]
            for w in (64, 32):
                r += [("count%d" % w, lambda g, w=w: const(g["r"], w)), ("value%d" % w, lambda g, w=w: vl(g, w, False)), ("group%d" % w, lambda g, w=w: vl(g, w, True)),
                      ("digits%d" % w, lambda g, w=w: t.extract(IDX(g, g["r"]), w - 1, 0)), ("bits%d" % w, lambda g, w=w: const(6 * g["r"], w))]
            return r

        def apply(s, ex, st, g, mode):
            p = t.ptr(mode, C64(0))
            if isc(g["q"]):
                for k in range(3):
                    ex.store(st, t.add(p, C64(8 * k)), C64(0), 8, "base64d")
                return
            o = ex.new_obj(st, LEN(g), "vector-buffer", "heap")
            o.meta = "vecbuf"
            o.w_range(C64(0), LEN(g), lambda s_, j: OUT(j))
            stdmodel.vec_set(ex, st, p, o.id, LEN(g))
            s.buf = o.id

        def conds(s, ex, st, g, mode):
            def chk(st):
                p = t.ptr(mode, C64(0))
                _, ln = stdmodel.vec_parts(ex, st, p)
                if not ex.prove(st, t.eq(ln, LEN(g)), "output-length", "base64d"):
                    return False
                if g["frm"] is None:
                    return True
                f = g["frm"]
                return grown(ex, st, p, LEN(f), bytes_of(f, 4) if g["new"] else [], "base64d")
            return [("vector", chk)]

        def measure(s, g):
            return g["k"]

        def managed(s, st):
            return set(s.vecs) | ({s.buf} if s.buf else set())

    def grown(ex, st, p, old, new, where):
        oid, _ = stdmodel.vec_parts(ex, st, p)
        if not oid:
            return not new
        o = st.mem[oid]
        for i, x in enumerate(new):
            if not ex.prove(st, t.eq(o.rd(st, t.add(old, C64(i))), x), "output-bytes", where):
                return False
        j = t.fresh("j", 64)
        s2 = st.fork()
        s2.assume(t.ult(j, old))
        if not s2.feasible():
            return True
        return ex.prove(s2, t.eq(o.rd(s2, j), OUT(j)), "earlier-output", where)
    ex.loop_hook = LoopEngine([Tm])
    m = 0
    p = t.ptr(out.id, C64(0))
    for oc in ex.start(st, "vf_dec", [dp, n, p]):
        s = oc.st
        if oc.kind != "ret":
            ex.prove(s, FALSE, "no-throw", "base64d")
            continue
        m += 1
        _, ln = stdmodel.vec_parts(ex, s, p)
        # the ghosts of the loop exit this path came through: the unique k whose path condition says k == n
        g = None
        for c in s.pc:
            for u in t.topo([c]):
                if u in vof:
                    g = vof[u]
        if g is None:
            if ex.prove(s, t.eq(n, C64(0)), "output", "base64d"):
                ex.prove(s, t.eq(ln, C64(0)), "output-length", "base64d")
            continue
        ex.prove(s, t.eq(g["k"], n), "all-input-read", "base64d")
        new = bytes_of(g, g["r"]) if g["r"] > 1 else []
        if ex.prove(s, t.eq(ln, t.add(LEN(g), C64(len(new)))), "output-length", "base64d"):
            grown(ex, s, p, LEN(g), new, "base64d")
    if not m:
        raise Unsupported("no returning path")
    return [ex]


def roundtrip(mod, dem):
    """lemma over the two specifications: decoding what encoding produced gives the input back"""
    ex = mk(mod, dem)
    st = State(ex)
    x = t.var("x", 6)
    for cs in SETS:
        ex.prove(st, t.eq(tabv(VAL, 8, tabv(cs, 8, x)), t.zext(x, 8)), "digit-values", "decode(encode(x)) = x")
    for c in (10, 61):
        ex.prove(st, t.eq(tabv(VAL, 8, const(c, 8)), const(255, 8)), "line breaks and padding are not digits", "decode(encode(x)) = x")
    b = [t.var("b%d" % i, 8) for i in range(3)]
    for r in (1, 2, 3):
        v = t.concat(b[:r] + ([const(0, (4, 2)[r - 1])] if r < 3 else []))
        ds = [t.extract(v, v.w - 1 - 6 * i, v.w - 6 - 6 * i) for i in range(v.w // 6)]
        y = t.concat(ds)
        for i in range(r):
            ex.prove(st, t.eq(t.extract(y, y.w - 1 - 8 * i, y.w - 8 - 8 * i), b[i]), "digit-groups", "decode(encode(x)) = x")
    return [ex]
