"""X.509: the ASN.1 reader, scalar DER values and certificate verification.

asn1_view::read() is proved against the definition of a definite-length TLV element at the current offset and then enters as that
contract everywhere else."""
import re
from . import terms as t, stdmodel, smt, enumer
from .terms import const, isc, cv, T, TRUE, FALSE
from .exec import Executor, State, Outcome, Failure, Unsupported
from .loops import LoopEngine, Template
from .rsaproof import Counting, vecs
from .hkdfproof import Proof, Seq, by, txt, ufseq, mem, vecseq, C64, C8

A = lambda j: t.uf("DER", [j], 8)
HDR = lambda o: t.zext(t.uf("hdr", [o], 8), 64)      # header bytes of the element at o
LEN = lambda o: t.uf("len", [o], 64)      # its content length


class X509:
    def __init__(self, mod, dem):
        self.mod, self.dem = mod, dem

    def fn(self, name):
        for n, d in self.dem.items():
            if d.startswith(name + "("):
                return n
        raise Unsupported("no entry point " + name)

    def begin(self):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        ex.loop_hook = LoopEngine([])
        self.calls(ex, r"^(printf|puts|putchar)$", lambda ex, st, name, args, where: [Outcome("ret", st, const(0, 32))])
        return ex, State(ex)

    def calls(self, ex, rx, handler):
        r = re.compile(rx)
        ex.contracts.insert(0, ((lambda n, d: bool(r.search(d))), handler))

    def view(self, ex, st, n=None):
        """a reader over n bytes at an arbitrary offset, built by the real constructor"""
        n = n if n is not None else t.zext(t.var("n", 60), 64)
        d = ex.new_obj(st, n, "der", base=lambda s_, j: A(j))
        d.ro = True
        v = ex.new_obj(st, 24, "view")
        vp = t.ptr(v.id, C64(0))
        oc = [o for o in ex.start(st, self.fn("vf_view"), [vp, t.ptr(d.id, C64(0)), n])]
        if len(oc) != 1 or oc[0].kind != "ret":
            raise Unsupported("reader construction")
        st = oc[0].st
        # the member that holds the position is the one that is 0 now and is not the data span
        w = [ex.load(st, t.add(vp, C64(8 * i)), 8, "view") for i in range(3)]
        pos = [i for i, x in enumerate(w) if isc(x) and cv(x) == 0]
        if len(pos) != 1 or not any(x is n for x in w) or not any(x.op == "ptr" and x.a[0] == d.id for x in w):
            raise Unsupported("reader layout")
        self.posoff = 8 * pos[0]
        off = t.zext(t.var("off", 60), 64)
        st.assume(t.ule(off, n))
        ex.store(st, t.add(vp, C64(self.posoff)), off, 8, "view")
        return st, d, vp, n, off

    def pos(self, ex, st, vp):
        return ex.load(st, t.add(vp, C64(self.posoff)), 8, "view")

    def read(self):
        ex, st = self.begin()
        st, d, vp, n, off = self.view(ex, st)
        e = ex.new_obj(st, 24, "element")
        w = "asn1_view::read"
        P = self
        rem = t.sub(n, off)
        b1 = A(t.add(off, C64(1)))
        long = t.eq(t.extract(b1, 7, 7), const(1, 1))
        B = t.zext(t.extract(b1, 6, 0), 64)
        lb = lambda j: A(t.add(t.add(off, C64(2)), j))
        # value of the first i length bytes and whether it fits 64 bits (definitions by recursion, unfolded where needed)
        V = lambda i: C64(0) if isc(i) and cv(i) == 0 else t.uf("V", [i], 64)
        FIT = lambda i: TRUE if isc(i) and cv(i) == 0 else t.uf("FIT", [i], 1)
        small = lambda x: t.ult(x, C64(1 << 56))

        def unfold(i):
            i1 = t.add(i, C64(1))
            return [t.eq(V(i1), t.bor(t.shl(V(i), C64(8)), t.zext(lb(i), 64))), t.eq(FIT(i1), t.band(FIT(i), small(V(i)))),
                    t.bor(t.bnot(t.band(FIT(B), t.ule(i1, B))), FIT(i1))]

        class Tm(Counting):
            name = "length"

            def __init__(s, ex, st, f, H, lp, env):
                pass

            def modes(s):
                return ["position in the reader", "position elsewhere"]

            def ghosts(s, ex, st, mode):
                return [({"i": C64(0)}, unfold(C64(0))), ((lambda i: ({"i": i}, [t.ult(C64(0), i), t.ule(i, B), t.ule(t.add(i, C64(2)), rem), FIT(i)] + unfold(i)))(t.zext(t.fresh("i", 8), 64)))]

            def gconds(s, ex, st, g, mode):
                i = g["i"]
                return [] if isc(i) and cv(i) == 0 else [("range", t.band(t.ule(i, B), t.ule(t.add(i, C64(2)), rem))), ("fits", FIT(i))]

            def phi_cands(s, ex, st, mode):
                at = lambda g: t.add(t.add(off, C64(2)), g["i"])
                return [("value", lambda g: V(g["i"])), ("left", lambda g: t.sub(B, g["i"])), ("left-1", lambda g: t.sub(t.sub(B, g["i"]), C64(1))), ("i", lambda g: g["i"]), ("left+1", lambda g: t.add(t.sub(B, g["i"]), C64(1))),
                        ("at", at), ("ptr", lambda g: t.ptr(d.id, at(g))), ("i32", lambda g: t.extract(g["i"], 31, 0)), ("left32", lambda g: t.extract(t.sub(B, g["i"]), 31, 0))]

            def apply(s, ex, st, g, mode):
                s.reader = mode.endswith("reader")
                if s.reader:
                    ex.store(st, t.add(vp, C64(P.posoff)), t.add(t.add(off, C64(2)), g["i"]), 8, w)

            def conds(s, ex, st, g, mode):
                if not mode.endswith("reader"):
                    return []
                return [("position", t.eq(P.pos(ex, st, vp), t.add(t.add(off, C64(2)), g["i"])))]

            def managed(s, st):
                return {vp.a[0]} if s.reader else set()
        ex.loop_hook = LoopEngine([Tm])
        nret = nthrow = 0
        two = t.ule(C64(2), rem)
        hs = t.add(t.ite(long, B, C64(0)), C64(2))
        ln = t.ite(long, V(B), t.zext(t.extract(b1, 6, 0), 64))
        good = t.band(t.band(two, t.ule(hs, rem)), t.band(t.bor(t.bnot(long), t.bor(t.eq(B, C64(0)), FIT(B))), t.ule(ln, t.sub(rem, hs))))
        V0 = [t.bor(t.bnot(t.eq(B, C64(0))), t.eq(V(B), C64(0)))]
        for oc in ex.start(st, self.fn("vf_read"), [vp, t.ptr(e.id, C64(0))]):
            s = oc.st
            for c in V0:
                s.assume(c)
            if not s.feasible():
                continue
            if oc.kind == "ret":
                nret += 1
                ex.prove(s, good, "only-well-formed-elements", w)
                ep = t.ptr(e.id, C64(0))
                ex.prove(s, t.eq(ex.load(s, ep, 4, w), t.zext(A(off), 32)), "element-id", w)
                q = ex.load(s, t.add(ep, C64(8)), 8, w)
                ex.prove(s, t.eq(q.a[1], t.add(off, hs)) if q.op == "ptr" and q.a[0] == d.id else FALSE, "content-start", w)
                ex.prove(s, t.eq(ex.load(s, t.add(ep, C64(16)), 8, w), ln), "content-length", w)
                ex.prove(s, t.eq(self.pos(ex, s, vp), t.add(off, t.add(hs, ln))), "next-position", w)
            else:
                nthrow += 1
                ex.prove(s, t.bnot(good), "rejected-only-if-malformed", w)
        if not nret or not nthrow:
            raise Unsupported("reader has no %s path" % ("returning" if not nret else "rejecting"))
        return [ex]

    def small(self):
        """peek() and empty()"""
        ex, st = self.begin()
        st, d, vp, n, off = self.view(ex, st)
        for f in ("vf_peek", "vf_empty"):
            k = 0
            for oc in ex.start(st.fork(), self.fn(f), [vp]):
                s = oc.st
                if oc.kind == "ret":
                    k += 1
                    if f == "vf_empty":
                        ex.prove(s, t.eq(t.zext(oc.val, 32) if oc.val.w < 32 else oc.val, t.zext(t.ite(t.eq(off, n), const(1, 1), const(0, 1)), 32)), "empty-at-end", f)
                    else:
                        ex.prove(s, t.ult(off, n), "peek-in-data", f)
                        ex.prove(s, t.eq(oc.val, t.zext(A(off), 32)), "peek-value", f)
                    ex.prove(s, t.eq(self.pos(ex, s, vp), off), "position-unchanged", f)
                else:
                    ex.prove(s, t.eq(off, n) if f == "vf_peek" else FALSE, "rejected-only-at-end", f)
            if not k:
                raise Unsupported("no returning path")
        return [ex]

    # -- callers
    def read_contract(self, ex, limit=None):
        """read() on any reader: the element at its position, or an exception when there is none.  Content and header lengths are
        functions of the data and position (limit: assumed bound on the content length of the elements met)"""
        P = self
        self.reads = []

        def h(ex, st, name, args, where):
            sret = args[0] if len(args) == 2 else None
            vp = args[-1]
            words = [ex.load(st, t.add(vp, C64(8 * i)), 8, where) for i in range(3)]
            k = P.posoff // 8
            dp = [x for i, x in enumerate(words) if i != k and x.op == "ptr"]
            nn = [x for i, x in enumerate(words) if i != k and x.op != "ptr"]
            if len(dp) != 1 or len(nn) != 1:
                raise Unsupported("reader state")
            dp, n, off = dp[0], nn[0], words[k]
            ex.prove(st, t.ule(off, n), "reader-position", where)
            key = (dp, n, off)
            for kk, v in P.reads:
                if kk == key:
                    hs, ln, ok = v
                    break
            else:
                m = len(P.reads)
                hs, ln, ok = t.zext(t.var("hdr%d" % m, 8), 64), t.zext(t.var("len%d" % m, 60), 64), t.var("elem%d" % m, 1)
                P.reads.append((key, (hs, ln, ok)))
            outs = []
            s2 = st.fork()
            s2.assume(t.eq(ok, const(0, 1)))
            if s2.feasible():
                outs.append(Outcome("throw", s2, "std::runtime_error"))
            st.assume(t.eq(ok, const(1, 1)))
            st.assume(t.ule(C64(2), hs))
            st.assume(t.ule(hs, t.sub(n, off)))
            st.assume(t.ule(ln, t.sub(t.sub(n, off), hs)))
            if limit is not None:
                st.assume(t.ule(ln, C64(limit)))
            if not st.feasible():
                return outs
            ids = t.zext(ex.load(st, t.add(dp, off), 1, where), 32)
            p = t.add(dp, t.add(off, hs))
            ex.store(st, t.add(vp, C64(P.posoff)), t.add(off, t.add(hs, ln)), 8, where)
            if sret is None:
                raise Unsupported("element returned in registers")
            ex.store(st, sret, ids, 4, where)
            ex.store(st, t.add(sret, C64(8)), p, 8, where)
            ex.store(st, t.add(sret, C64(16)), ln, 8, where)
            outs.append(Outcome("ret", st, None))
            return outs
        self.calls(ex, r"^Caligo::asn1_view::read\(\)", h)


    def one(self):
        """a reader positioned before one arbitrary element; -> state, reader, tag, content length, byte(j)"""
        ex, st = self.begin()
        st, d, vp, n, off = self.view(ex, st)
        self.read_contract(ex)
        hs, m, ok = t.zext(t.var("hdr0", 8), 64), t.zext(t.var("len0", 60), 64), t.var("elem0", 1)
        at = t.add(off, hs)
        return ex, st, d, vp, off, A(off), m, at, (lambda j: A(t.add(at, j))), ok

    def date(self, kind, digits):
        ex, st, d, vp, off, tag, m, at, c, ok = self.one()
        lens = {10: 0, 12: 0, 14: 0}
        if kind == "utc":
            st.assume(t.eq(tag, C8(23)))
        elif kind == "gen":
            st.assume(t.eq(tag, C8(24)))
        else:
            st.assume(t.bnot(t.bor(t.eq(tag, C8(23)), t.eq(tag, C8(24)))))
        if kind != "other":
            ls = [x + 1 - (2 if kind == "utc" else 0) for x in lens]
            e = [t.eq(m, C64(x)) for x in ls]
            st.assume(e[list(lens).index(digits)] if digits in lens else t.bnot(t.bor(e[0], t.bor(e[1], e[2]))))
        w = "parseDer<x509date>"
        digit = lambda b: t.band(t.ule(C8(0x30), b), t.ule(b, C8(0x39)))
        nd = t.sub(m, C64(1))                       # bytes before the final Z
        W = t.zext(t.var("witness", 60), 64)        # a non-digit among them, if there is one
        BAD = t.band(t.ult(W, nd), t.bnot(digit(c(W))))
        isbad = lambda k: t.bor(BAD, t.bor(t.bnot(t.ult(k, nd)), digit(c(k))))

        class Tm(Counting):
            name = "scan"

            def __init__(s, ex, st, f, H, lp, env):
                s.obj = [(b, C64(0), n) for a, b, n in vecs(ex, st) if b] + [(d.id, at, nd), (d.id, at, m)]
                s.vals = []
                for I in f.blocks[H].insts:
                    if I.op != "phi":
                        break
                    v = env[I.res]
                    if isinstance(v, T) and v.w in (32, 64) and v not in s.vals:
                        s.vals.append(v)

            def modes(s):
                return s.obj

            def apply(s, ex, st, g, mode):
                pass

            def facts(s, i):
                rd = lambda j: s.snap.rd(s.st, t.add(s.s0, j))
                r = [t.bor(t.ule(i, C64(p)), digit(rd(C64(p)))) for p in range(14)]
                return r + [t.bor(t.ule(i, t.add(W, C64(k))), digit(rd(t.add(W, C64(k))))) for k in (0, 2)]

            def gconds(s, ex, st, g, mode):
                s.st, s.snap, s.s0 = st, st.mem[mode[0]], mode[1]
                return [("range", t.ule(g["i"], mode[2]))]

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 61), 64)
                s.st, s.snap, s.s0 = st, st.mem[mode[0]], mode[1]
                inst = lambda i: [isbad(i), isbad(t.sub(i, C64(2)))]
                return [({"i": C64(0)}, inst(C64(0)) + [t.eq(mode[2], mode[2])]), ({"i": i}, [t.ult(C64(0), i), t.ule(i, mode[2])] + s.facts(i) + inst(i))]

            def phi_cands(s, ex, st, mode):
                return [("+%d" % k, lambda g, v=v: t.add(v, g["i"] if v.w == 64 else t.extract(g["i"], 31, 0))) for k, v in enumerate(s.vals)] + \
                    [("-%d" % k, lambda g, v=v: t.sub(v, g["i"] if v.w == 64 else t.extract(g["i"], 31, 0))) for k, v in enumerate(s.vals) if v.op != "ptr"]

            def conds(s, ex, st, g, mode):
                if isc(g["i"]):
                    return []
                return [("digits", lambda st, x=x: ex.prove(st, x, "loop-invariant", "bytes passed are digits")) for x in s.facts(g["i"])]
        ex.loop_hook = LoopEngine([Tm])
        n = 0
        utc = t.eq(tag, C8(23))
        D = lambda k: t.ite(utc, c(C64(k - 2)) if k >= 2 else None, c(C64(k))) if k >= 2 else None
        L = t.add(nd, t.ite(utc, C64(2), C64(0)))
        pre = t.ule(C8(0x35), c(C64(0)))
        for oc in ex.start(st, self.fn("vf_date"), [vp]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, t.eq(ok, const(0, 1)), "rejected-only-if-malformed", w)
                continue
            n += 1
            s.assume(isbad(C64(0)))
            v = oc.val
            if v.w != 64:
                raise Unsupported("date type")
            shape = t.band(t.band(t.ult(C64(0), m), t.eq(c(nd), C8(0x5a))), t.band(t.bor(utc, t.eq(tag, C8(24))), t.band(t.bnot(BAD), t.ule(C64(10), L))))
            for u, q in ((True, utc), (False, t.eq(tag, C8(24)))):
                s2 = s.fork()
                s2.assume(q)
                s2.assume(shape)
                for k in range(14):
                    s2.assume(isbad(C64(k)))
                if not s2.feasible():
                    continue
                for l in (10, 12, 14):
                    s3 = s2.fork()
                    s3.assume(t.eq(L, C64(l)))
                    if not s3.feasible():
                        continue
                    y2 = [c(C64(k)) for k in range(l - 2 if u else l)]
                    for cent in ((0x31, 0x39), (0x32, 0x30)) if u else (None,):
                        s4 = s3.fork()
                        if cent:
                            s4.assume(pre if cent[0] == 0x31 else t.bnot(pre))
                        if s4.feasible():
                            self.formula(ex, s4, v, ([C8(x) for x in cent] if cent else []) + y2, w + (" UTCTime" if u else " GeneralizedTime") + " %d digits" % l)
            s2 = s.fork()
            s2.assume(t.bnot(shape))
            if s2.feasible():
                ex.prove(s2, t.eq(v, C64(0)), "malformed-is-zero", w)
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def formula(self, ex, s, v, ds, w):
        mp, dom, dg = {}, {}, []
        for i, b in enumerate(ds):
            if isc(b):
                dg.append(C64(cv(b) - 0x30))
            else:
                x = t.var("digit%d" % i, 4)
                dom[x] = list(range(10))
                mp[b] = t.concat([const(3, 4), x])
                s.assume(t.band(t.ule(C8(0x30), b), t.ule(b, C8(0x39))))
                dg.append(t.zext(x, 64))
        *pcs, v = t.substitute(list(s.pc) + [v], mp)
        pcs = [c for c in pcs if c is not TRUE]

        def check(extra, want, kind):
            """v == want for all digits allowed by the path and the extra conditions"""
            if any(c is FALSE for c in pcs + extra):
                return
            ex.oblig += 1
            ex.obkinds[kind] = ex.obkinds.get(kind, 0) + 1
            r = enumer.zero(t.sub(v, want), pcs + extra, dom)
            if r is None or r is False:
                # parts are joint: give it to the solver, over the digits only
                q = [c for c in pcs if enumer.variables(c) <= set(dom) and not any(u.op == "uf" for u in t.topo([c]))]
                q += [t.ult(x, const(10, 4)) for x in dom] + extra
                r, m = smt.check(q + [t.bnot(t.eq(v, want))], 60, True)
                if r != "unsat":
                    ex.failures.append(Failure(kind, w, "", m, s, "refuted" if r == "sat" else "unknown"))
                    return
            else:
                smt.STATS.hit("complete evaluation")
            ex.discharged += 1
        num = lambda i, k: t.add(t.mul(num(i, k - 1), C64(10)), dg[i + k - 1]) if k else C64(0)
        Y, M, Dd, h = num(0, 4), num(4, 2), num(6, 2), num(8, 2)
        mi = num(10, 2) if len(ds) >= 12 else C64(0)
        se = num(12, 2) if len(ds) >= 14 else C64(0)
        le = lambda a, b: t.ule(a if not isinstance(a, int) else C64(a), b if not isinstance(b, int) else C64(b))
        q = lambda x, d: t.udiv(x, C64(d))
        leaps = lambda y: t.add(t.sub(q(y, 4), q(y, 100)), q(y, 400))
        z = lambda x, d: t.eq(t.urem(x, C64(d)), C64(0))
        leap = t.band(z(Y, 4), t.bor(t.bnot(z(Y, 100)), z(Y, 400)))
        LENS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        days = lambda M_, lp: t.add(t.mul(t.sub(Y, C64(1970)), C64(365)), t.sub(leaps(t.sub(Y, C64(1))), C64(477)), C64(sum(LENS[:M_ - 1]) + (1 if lp and M_ > 2 else 0)), t.sub(Dd, C64(1)))
        for i in range(1, 13):
            for lp in (True, False):
                extra = [t.eq(M, C64(i)), leap if lp else t.bnot(leap), le(1970, Y), le(1, Dd), le(Dd, LENS[i - 1] + (1 if lp and i == 2 else 0)), le(h, 23), le(mi, 59), le(se, 59)]
                spec = t.add(t.mul(days(i, lp), C64(86400)), t.mul(h, C64(3600)), t.mul(mi, C64(60)), se)
                check(extra, spec, "seconds-since-epoch")
        for c in (le(Y, 1969), t.eq(M, C64(0)), le(13, M), t.eq(Dd, C64(0)), le(32, Dd), le(24, h), le(60, mi), le(61, se)):
            check([c], C64(0), "field-range-is-zero")

    # -- numbers
    def int_(self):
        """parseDer<int>: the content as a big-endian number modulo 2^32; 0 for another tag"""
        ex, st, d, vp, off, tag, m, at, c, ok = self.one()
        w = "parseDer<int>"
        V = lambda i: const(0, 32) if isc(i) and cv(i) == 0 else t.uf("VAL", [i], 32)
        unfold = lambda i: [t.eq(V(t.add(i, C64(1))), t.bor(t.shl(V(i), const(8, 32)), t.zext(c(i), 32)))]

        class Tm(Counting):
            name = "number"

            def __init__(s, ex, st, f, H, lp, env):
                pass

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 60), 64)
                return [({"i": C64(0)}, unfold(C64(0))), ({"i": i}, [t.ult(C64(0), i), t.ule(i, m)] + unfold(i))]

            def gconds(s, ex, st, g, mode):
                return [("range", t.ule(g["i"], m))]

            def phi_cands(s, ex, st, mode):
                a = lambda g: t.add(at, g["i"])
                return [("value", lambda g: V(g["i"])), ("value64", lambda g: t.zext(V(g["i"]), 64)), ("i", lambda g: g["i"]), ("ptr", lambda g: t.ptr(d.id, a(g))), ("left", lambda g: t.sub(m, g["i"])), ("i32", lambda g: t.extract(g["i"], 31, 0))]

            def apply(s, ex, st, g, mode):
                pass

            def conds(s, ex, st, g, mode):
                return []
        ex.loop_hook = LoopEngine([Tm])
        n = 0
        for oc in ex.start(st, self.fn("vf_int"), [vp]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, t.eq(ok, const(0, 1)), "rejected-only-if-malformed", w)
                continue
            n += 1
            s.assume(t.bor(t.bnot(t.eq(m, C64(0))), t.eq(t.uf("VAL", [m], 32), const(0, 32))))
            ex.prove(s, t.eq(oc.val, t.ite(t.eq(tag, C8(2)), t.uf("VAL", [m], 32), const(0, 32))), "value", w)
            ex.prove(s, t.eq(self.pos(ex, s, vp), t.add(at, m)), "next-position", w)
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    def bn(self, W):
        """parseBignumDer<W>: the content as a big-endian number (one leading zero byte dropped), low W bits"""
        ex, st, d, vp, off, tag, m, at, c, ok = self.one()
        w = "parseBignumDer<%d>" % W
        B = W // 8
        rev = lambda j: c(t.sub(t.sub(m, j), C64(1)))

        class Tm(Counting):
            name = "reverse"

            def __init__(s, ex, st, f, H, lp, env):
                s.v = [a for a, b, n in vecs(ex, st) if not b]

            def modes(s):
                return s.v

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 60), 64)
                return [({"i": C64(0)}, []), ({"i": i}, [t.ult(C64(0), i), t.ule(i, m)])]

            def gconds(s, ex, st, g, mode):
                return [("range", t.ule(g["i"], m))]

            def phi_cands(s, ex, st, mode):
                a = lambda g: t.add(at, g["i"])
                z = lambda g: t.sub(t.add(at, m), g["i"])
                return [("i", lambda g: g["i"]), ("ptr", lambda g: t.ptr(d.id, a(g))), ("left", lambda g: t.sub(m, g["i"])), ("left-1", lambda g: t.sub(t.sub(m, g["i"]), C64(1))), ("end", lambda g: t.ptr(d.id, z(g))),
                        ("endv", lambda g: t.sub(t.sub(m, g["i"]), C64(1)))]

            def apply(s, ex, st, g, mode):
                push(ex, st, mode, g["i"], rev)
                s.buf = stdmodel.vec_parts(ex, st, t.ptr(mode, C64(0)))[0]

            def conds(s, ex, st, g, mode):
                return [("vector", lambda st: holds(ex, st, mode, g["i"], rev))]

            def managed(s, st):
                return {s.cand} if False else set(s.v[:]) | {getattr(s, "buf", 0)}
        ex.loop_hook = LoopEngine([Tm])

        def ctor(ex, st, name, args, where):
            o, p, n = args
            q = mem(ex, st, p, n, where)
            bs = [t.ite(t.ult(C64(k), n), q.at(st, C64(k)), C8(0)) if q.p else C8(0) for k in range(B)]
            ex.access(st, st.mem[o.a[0]], o.a[1], C64(B), where, True)
            st.wobj(o.a[0]).w_conc(cv(o.a[1]), bs)
            return [Outcome("ret", st, None)]
        self.calls(ex, r"^Caligo::bignum<%dul>::bignum\(std::span<unsigned char const" % W, ctor)
        n = 0
        zero = t.band(t.ult(C64(0), m), t.eq(c(C64(0)), C8(0)))
        o = ex.new_obj(st, B, "number")
        for oc in ex.start(st, self.fn("vf_bn%d" % W), [vp, t.ptr(o.id, C64(0))]):
            s = oc.st
            if oc.kind != "ret":
                ex.prove(s, t.eq(ok, const(0, 1)), "rejected-only-if-malformed", w)
                continue
            n += 1
            ln = t.ite(zero, t.sub(m, C64(1)), m)
            ex.prove(s, t.eq(self.pos(ex, s, vp), t.add(at, m)), "next-position", w)
            got = [s.mem[o.id].rd(s, C64(k)) for k in range(B)]
            for right in (TRUE, FALSE):
                s2 = s.fork()
                s2.assume(t.eq(tag, C8(2)) if right is TRUE else t.bnot(t.eq(tag, C8(2))))
                if not s2.feasible():
                    continue
                for k in range(B):
                    want = t.ite(t.ult(C64(k), ln), rev(C64(k)), C8(0)) if right is TRUE else C8(0)
                    if not ex.prove(s2, t.eq(got[k], want), "value" if right is TRUE else "wrong-tag-is-zero", w):
                        break
        if not n:
            raise Unsupported("no returning path")
        return [ex]

    # -- certificates
    def verify(self, lay):
        ex, st = self.begin()
        w = "x509certificate::verify"
        # the object identifiers, by the real initialisers
        self.calls(ex, r"^__cxa_atexit$", lambda ex, st, name, args, where: [Outcome("ret", st, const(0, 32))])
        ini = [n for n in self.dem if n.startswith("_GLOBAL__sub_I")]
        for f in ini:
            oc = list(ex.start(st, f, []))
            if len(oc) != 1 or oc[0].kind != "ret":
                raise Unsupported("initialisation")
            st = oc[0].st
        # reader layout
        _, _, vp, _, _ = self.view(ex, st.fork())
        self.read_contract(ex)
        size, rows = lay["Caligo::x509certificate"]
        top = min(i for _, i, _ in rows)
        off = {x.split()[-1]: o for o, i, x in rows if i == top}
        N = t.zext(t.var("n", 60), 64)
        d = ex.new_obj(st, N, "derCert", "heap", base=lambda s_, j: A(j))
        d.meta = "vecbuf"
        pk = ex.new_obj(st, lay["Caligo::RsaPubkey"][0], "public key", "heap", base=lambda s_, j: t.uf("PUB", [j], 8))
        vt = [n for n in self.mod.globals if self.demname(n) == "vtable for Caligo::RsaPubkey" or n == "_ZTVN6Caligo9RsaPubkeyE"]
        ex.store(st, t.ptr(pk.id, C64(0)), t.add(ex.global_ptr(st, vt[0]), C64(16)), 8, w)
        HAS = t.var("issuer_has_key", 1)
        objs = []
        for k in range(2):
            o = ex.new_obj(st, size, "certificate" if k == 0 else "issuer", base=lambda s_, j, k=k: t.uf("CERT%d" % k, [j], 8))
            objs.append(t.ptr(o.id, C64(0)))
        stdmodel.vec_set(ex, st, t.add(objs[0], C64(off["derCert"])), d.id, N)
        D = [[t.var("%s%d" % (x, k), 64) for x in ("from", "to")] for k in range(2)]
        for k in range(2):
            ex.store(st, t.add(objs[k], C64(off["validity_start"])), D[k][0], 8, w)
            ex.store(st, t.add(objs[k], C64(off["validity_end"])), D[k][1], 8, w)
        P = self
        base = t.ptr(d.id, C64(0))

        def elem(p, n, o):
            for (a, b, c), v in P.reads:
                if a is p and b is n and c is o:
                    hs, ln, ok = v
                    return ok, A(t.add(p.a[1], o)), t.add(p, t.add(o, hs)), ln, t.add(o, t.add(hs, ln))
            return None
        self.sigs = 0
        sgn = {}

        class Tm(Counting):
            name = "signature"

            def __init__(s, ex, st, f, H, lp, env):
                s.v = [a for a, b, n in vecs(ex, st) if not b]
                s.e = [(v[1], t.add(k[0], t.add(k[2], v[0]))) for k, v in P.reads]

            def modes(s):
                return [(a, e) for e in s.e[::-1] for a in s.v]

            def ghosts(s, ex, st, mode):
                i = t.zext(t.fresh("i", 60), 64)
                return [({"i": C64(0)}, []), ({"i": i}, [t.ult(C64(0), i), t.ult(i, mode[1][0])])]

            def src(s, mode):
                return lambda j: A(t.add(t.add(mode[1][1].a[1], C64(1)), j))

            def gconds(s, ex, st, g, mode):
                return [("range", t.ult(g["i"], mode[1][0]))]

            def phi_cands(s, ex, st, mode):
                ln, p = mode[1]
                return [("i", lambda g: g["i"]), ("i+1", lambda g: t.add(g["i"], C64(1))), ("left", lambda g: t.sub(t.sub(ln, C64(1)), g["i"])), ("ptr", lambda g: t.add(p, g["i"])), ("ptr+1", lambda g: t.add(p, t.add(g["i"], C64(1))))]

            def apply(s, ex, st, g, mode):
                push(ex, st, mode[0], g["i"], s.src(mode))
                s.buf = stdmodel.vec_parts(ex, st, t.ptr(mode[0], C64(0)))[0]

            def conds(s, ex, st, g, mode):
                return [("vector", lambda st: holds(ex, st, mode[0], g["i"], s.src(mode)))]

            def managed(s, st):
                return set(s.v) | {getattr(s, "buf", 0)}
        ex.loop_hook = LoopEngine([Tm])

        def chain():
            root = elem(base, N, C64(0))
            if not root:
                return []
            tbs = elem(root[2], root[3], C64(0))
            if not tbs:
                return [root]
            alg = elem(root[2], root[3], tbs[4])
            if not alg:
                return [root, tbs]
            sig = elem(root[2], root[3], alg[4])
            oid = elem(alg[2], alg[3], C64(0))
            return [x for x in (root, tbs, alg, sig, oid) if x]

        def vs(ex, st, name, args, where):
            this, ty, mp, mn, sp, sn = args
            ch = chain()
            ok = len(ch) == 5 and this is t.ptr(pk.id, C64(0))
            if ok:
                tbs, sig = ch[1], ch[3]
                want = lambda p, n: Seq([(n, lambda s_, j: A(t.add(p.a[1], j)))])
                ok = mem(ex, st, mp, mn, where).same(ex, st, want(tbs[2], tbs[3])) and mem(ex, st, sp, sn, where).same(ex, st, want(t.add(sig[2], C64(1)), t.sub(sig[3], C64(1))))
            P.sigs += 1
            return [Outcome("ret", st, t.uf("VALID", [t.zext(ty, 64)], 1) if ok else t.var("OTHER%d" % P.sigs, 1))]
        self.calls(ex, r"^Caligo::RsaPubkey::validateSignature\(", vs)
        nested = t.band(t.ule(D[1][0], D[0][0]), t.ule(D[0][1], D[1][1]))
        is_ = lambda x, v: t.eq(x, C8(v))
        OIDS = [(bytes.fromhex("2a864886f70d01010b"), 0x401), (bytes.fromhex("2a864886f70d01010c"), 0x501), (bytes.fromhex("2a864886f70d01010d"), 0x601)]
        nret = 0
        for have in (True, False):
            s1 = st.fork()
            ex.store(s1, t.add(objs[1], C64(off["pubkey"])), t.ptr(pk.id, C64(0)) if have else C64(0), 8, w)
            for oc in ex.start(s1, self.fn("vf_verify"), objs):
                s = oc.st
                ch = chain()
                if oc.kind != "ret":
                    bad = FALSE
                    for x in ch:
                        bad = t.bor(bad, t.eq(x[0], const(0, 1)))
                    ex.prove(s, bad, "rejected-only-if-malformed", w)
                    continue
                nret += 1
                b = oc.val if oc.val.w == 1 else t.extract(oc.val, 0, 0)
                if s.decide(t.eq(b, const(0, 1))) is True and s.decide(nested) is False:
                    ex.prove(s, t.bnot(nested), "validity-period", w)
                    continue
                if len(ch) < 5:
                    # refused before all elements were read
                    root = ch[0] if ch else None
                    spec = t.bnot(nested)
                    for x, v in zip(ch[:4], (48, 48, 48, 3)):
                        spec = t.bor(spec, t.bnot(is_(x[1], v)))
                    if len(ch) == 4:
                        spec = t.bor(spec, t.eq(ch[3][3], C64(0)))
                    if not have:
                        spec = TRUE
                    ex.prove(s, t.band(t.eq(b, const(0, 1)), spec), "decision", w)
                    continue
                root, tbs, alg, sig, oid = ch
                eqs = [t.band(t.eq(oid[3], C64(len(o))), *[is_(A(t.add(oid[2].a[1], C64(j))), x) for j, x in enumerate(o)]) for o, _ in OIDS]
                ty = C64(0)
                for e, (_, v) in zip(eqs, OIDS):
                    ty = t.ite(e, C64(v), ty)
                acc = t.band(nested, is_(root[1], 48), is_(tbs[1], 48), is_(alg[1], 48), is_(sig[1], 3), t.bnot(t.eq(sig[3], C64(0))), *[t.eq(x[0], const(1, 1)) for x in ch])
                accept = t.band(acc, t.eq(t.uf("VALID", [ty], 1), const(1, 1))) if have else FALSE
                ex.prove(s, t.eq(b, t.ite(accept, const(1, 1), const(0, 1))), "decision", w)
        if not nret or not self.sigs:
            raise Unsupported("no deciding path")
        return [ex]

    def demname(self, n):
        return self.dem.get(n, n)


def push(ex, st, v, i, f):
    """vector object v holds the i bytes f"""
    p = t.ptr(v, C64(0))
    if isc(i) and cv(i) == 0:
        for k in range(3):
            ex.store(st, t.add(p, C64(8 * k)), C64(0), 8, "vector")
        return
    o = ex.new_obj(st, i, "vector-buffer", "heap")
    o.meta = "vecbuf"
    o.w_range(C64(0), i, lambda s_, j: f(j))
    stdmodel.vec_set(ex, st, p, o.id, i)


def holds(ex, st, v, i, f):
    a = vecseq(ex, st, t.ptr(v, C64(0)))
    if not ex.prove(st, t.eq(a.len(), i), "loop-invariant", "vector length"):
        return False
    if isc(i) and cv(i) == 0:
        return True
    last = t.sub(i, C64(1))
    j = t.fresh("j", 64)
    s2 = st.fork()
    s2.assume(t.ult(j, last))
    return (not s2.feasible() or ex.prove(s2, t.eq(a.at(s2, j), f(j)), "loop-invariant", "vector bytes")) and ex.prove(st, t.eq(a.at(st, last), f(last)), "loop-invariant", "last vector byte")
