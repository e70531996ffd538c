"""Truststore::trust(): the chain of verified issuers.

std::map enters through an abstraction with this invariant: every entry of the local map refers to a trusted certificate, or to element k of
the untrusted chain with ghost IN[k], which is only set when VER[k] holds, i.e. after x509certificate::verify(element k, some certificate of the
map) was true; an element with IN[k] is present under its own subject.  The obligations keep that invariant at every store into the map and
every overwritten element; the result may only be true when VER[0] holds and element 0 is valid at the given time."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, T, TRUE, FALSE
from .exec import Executor, State, Outcome, Failure, Unsupported
from .loops import LoopEngine, Template
from .rsaproof import Counting
from .hkdfproof import C64, C8

KEEP = [r"std::map<.*>::(find|operator\[\]|at|insert|emplace|try_emplace|insert_or_assign|count|contains|begin|end|cbegin|cend|erase|lower_bound|~map)\(", r"std::_Rb_tree_(const_)?iterator<.*>::operator",
        r"std::operator==\(std::_Rb_tree_", r"^Caligo::x509certificate::"]
LOCAL = r"Caligo::x509certificate\*"


class Trust:
    def __init__(self, mod, dem, lay):
        self.mod, self.dem, self.lay = mod, dem, lay

    def fn(self, name):
        for n, d in self.dem.items():
            if d.startswith(name + "("):
                return n
        raise Unsupported("no entry point " + name)

    def calls(self, ex, rx, handler):
        r = re.compile(rx)
        ex.contracts.insert(0, ((lambda n, d: bool(r.search(d))), handler))

    def setup(self):
        ex = Executor(self.mod)
        ex.dem = self.dem
        stdmodel.install(ex)
        st = State(ex)
        size, rows = self.lay["Caligo::x509certificate"]
        top = min(i for _, i, _ in rows)
        self.off = {x.split()[-1]: o for o, i, x in rows if i == top}
        self.S = size
        N = self.N = t.zext(t.var("n", 32), 64)
        M = self.M = t.zext(t.var("trusted", 32), 64)
        self.K = {}
        bit = lambda nm: (lambda s_, j: t.zext(t.uf(nm, [j], 1), 8))
        zero = lambda s_, j: C8(0)
        arr = ex.new_obj(st, t.mul(N, C64(size)), "chain", "heap", base=lambda s_, j: t.uf("CHAIN", [j], 8))
        PS = 32 + size                                     # std::pair<const std::string, x509certificate>
        tr = ex.new_obj(st, t.mul(M, C64(PS)), "trusted certificates", "heap", base=lambda s_, j: t.uf("TRUSTED", [j], 8))
        ver = ex.new_obj(st, N, "VER", base=zero)
        inm = ex.new_obj(st, N, "IN", base=zero)
        it = ex.new_obj(st, t.add(M, C64(1)), "iterator")
        end = ex.new_obj(st, 1, "end of the local map")
        store = ex.new_obj(st, 48, "trusted_certs", base=lambda s_, j: t.uf("STORE", [j], 8))
        self.arr, self.tr, self.ver, self.inm, self.it, self.end, self.store, self.PS = arr.id, tr.id, ver.id, inm.id, it.id, end.id, store.id, PS
        st.ghost["ver"] = 0
        st.ghost["found"] = ()
        st.ghost["slots"] = ()
        st.ghost["idx"] = (C64(0),)
        self.uniq = 0
        self.contracts(ex)
        v = ex.new_obj(st, 24, "untrusted")
        vp = t.ptr(v.id, C64(0))
        e = t.mul(N, C64(size))
        for k, x in enumerate((t.ptr(arr.id, C64(0)), t.ptr(arr.id, e), t.ptr(arr.id, e))):
            ex.store(st, t.add(vp, C64(8 * k)), x, 8, "setup")
        return ex, st, vp

    def cert(self, st, p, off=0):
        """index of the chain element whose member at `off` p points to"""
        if p.op != "ptr" or p.a[0] != self.arr:
            return None
        o = t.sub(p.a[1], C64(off))
        for k in st.ghost["idx"]:
            e = t.eq(o, t.mul(k, C64(self.S)))
            if e is TRUE or e is not FALSE and st.decide(e) is True:
                return k
        return None

    def trustedkey(self, p):
        return p.op == "ptr" and p.a[0] == self.tr

    def bump(self, st):
        self.uniq += 1
        st.ghost["ver"] = self.uniq
        st.ghost["found"] = ()

    def get(self, st, oid, k):
        return t.eq(t.extract(st.mem[oid].rd(st, k), 0, 0), const(1, 1))

    def put(self, st, oid, k, v):
        st.wobj(oid).w_sym(k, [C8(v)])

    def close(self, ex, st, where):
        """the values stored through references into the map are what its invariant asks for"""
        sl = st.ghost["slots"]
        if not sl:
            return True
        st.ghost["slots"] = ()
        ok = True
        for oid, key, absent in sl:
            p = ex.load(st, t.ptr(oid, C64(0)), 8, where)
            if p.op == "ptr" and p.a[0] == self.tr:
                # the entry found under a name is a trusted one
                ok = ex.prove(st, TRUE, "map-entry", where) and ok
                continue
            k = self.cert(st, p) if p.op == "ptr" else None
            if k is None:
                ok = ex.prove(st, FALSE, "map-entry", where)
                continue
            ok = ex.prove(st, self.get(st, self.ver, k), "map-entry-verified", where) and ok
            kk = self.cert(st, key, self.off["subject"])
            ok = ex.prove(st, t.eq(kk, k) if kk is not None else FALSE, "map-entry-name", where) and ok
            ok = ex.prove(st, TRUE if absent else FALSE, "trusted-name-not-replaced", where) and ok
            self.put(st, self.inm, k, 1)
        self.bump(st)
        return ok

    def contracts(self, ex):
        P = self
        ret = lambda st, v=None: [Outcome("ret", st, v)]

        def maps(args):
            p = args[0]
            return p.op == "ptr" and p.a[0] == P.store

        def begin(ex, st, name, args, where):
            if not maps(args):
                raise Unsupported("iteration over the local map")
            return ret(st, t.ptr(P.it, C64(0)))

        def end(ex, st, name, args, where):
            return ret(st, t.ptr(P.it, P.M) if maps(args) else t.ptr(P.end, C64(0)))

        def look(ex, st, args, where):
            """-> [(state, 'end' | node pointer)]"""
            P.close(ex, st, where)
            key = args[1]
            for k, v in st.ghost["found"]:
                if k is key:
                    return [(st, v)]
            outs = []
            for case in ("end", "trusted", "chain"):
                s = st.fork()
                if case == "end":
                    k = P.cert(s, key, P.off["subject"])
                    if k is not None:
                        s.assume(t.bnot(P.get(s, P.inm, k)))
                    v = "end"
                else:
                    P.uniq += 1
                    if case == "trusted":
                        j = t.zext(t.var("trusted%d" % P.uniq, 32), 64)
                        s.assume(t.ult(j, P.M))
                        p = t.ptr(P.tr, t.add(t.mul(j, C64(P.PS)), C64(32)))
                    else:
                        j = t.zext(t.var("elem%d" % P.uniq, 32), 64)
                        s.assume(t.ult(j, P.N))
                        s.assume(P.get(s, P.inm, j))
                        s.ghost["idx"] = s.ghost["idx"] + (j,)
                        p = t.ptr(P.arr, t.mul(j, C64(P.S)))
                    o = ex.new_obj(s, 40, "map node")
                    ex.store(s, t.ptr(o.id, C64(32)), p, 8, where)
                    v = t.ptr(o.id, C64(0))
                s.ghost["found"] = s.ghost["found"] + ((key, v),)
                if s.feasible():
                    outs.append((s, v))
            return outs

        def find(ex, st, name, args, where):
            if maps(args):
                P.uniq += 1
                s2 = st.fork()
                j = t.zext(t.var("trusted%d" % P.uniq, 32), 64)
                st.assume(t.ult(j, P.M))
                return ret(st, t.ptr(P.it, j)) + ret(s2, t.ptr(P.it, P.M))
            return [Outcome("ret", s, t.ptr(P.end, C64(0)) if v == "end" else v) for s, v in look(ex, st, args, where)]

        def count(ex, st, name, args, where):
            if maps(args):
                raise Unsupported("count in the trusted map")
            w = 1 if "contains" in ex.dem.get(name, name) else 64
            return [Outcome("ret", s, const(0 if v == "end" else 1, w)) for s, v in look(ex, st, args, where)]

        def at(ex, st, name, args, where):
            if maps(args):
                raise Unsupported("at in the trusted map")
            return [Outcome("throw", s, "std::out_of_range") if v == "end" else Outcome("ret", s, t.add(v, C64(32))) for s, v in look(ex, st, args, where)]

        def index(ex, st, name, args, where):
            if maps(args):
                raise Unsupported("operator[] of the trusted map")
            P.close(ex, st, where)
            o = ex.new_obj(st, 8, "map slot")
            ex.store(st, t.ptr(o.id, C64(0)), C64(0), 8, where)
            key = args[1]
            st.ghost["slots"] = st.ghost["slots"] + ((o.id, key, any(k is key and v == "end" for k, v in st.ghost["found"])),)
            return ret(st, t.ptr(o.id, C64(0)))

        def eq(ex, st, name, args, where):
            a, b = (ex.load(st, x, 8, where) for x in args)
            if a.op != "ptr" or b.op != "ptr":
                raise Unsupported("iterator")
            return ret(st, t.eq(a.a[1], b.a[1]) if a.a[0] == b.a[0] else FALSE)

        def deref(ex, st, name, args, where):
            p = ex.load(st, args[0], 8, where)
            if p.op != "ptr":
                raise Unsupported("iterator")
            if p.a[0] == P.it:
                ex.prove(st, t.ult(p.a[1], P.M), "iterator-dereferenceable", where)
                return ret(st, t.ptr(P.tr, t.mul(p.a[1], C64(P.PS))))
            ex.prove(st, FALSE if p.a[0] == P.end else TRUE, "iterator-dereferenceable", where)
            if p.a[0] == P.end:
                return []
            return ret(st, p)

        def inc(ex, st, name, args, where):
            p = ex.load(st, args[0], 8, where)
            if p.op != "ptr" or p.a[0] != P.it:
                raise Unsupported("iterator")
            ex.prove(st, t.ult(p.a[1], P.M), "iterator-incrementable", where)
            ex.store(st, args[0], t.add(p, C64(1)), 8, where)
            if len(args) > 1:
                return ret(st, p)
            return ret(st, args[0])

        def verify(ex, st, name, args, where):
            P.close(ex, st, where)
            c, i = args
            P.uniq += 1
            outs = [Outcome("throw", st.fork(), "std::runtime_error")]
            k = P.cert(st, c)
            good = False
            if i.op == "ptr" and i.a[0] == P.tr:
                good = True
            else:
                j = P.cert(st, i)
                if j is not None and st.decide(P.get(st, P.inm, j)) is True:
                    good = True
            b = t.var("verified%d" % P.uniq, 1)
            s2 = st.fork()
            s2.assume(t.eq(b, const(0, 1)))
            outs.append(Outcome("ret", s2, FALSE))
            st.assume(t.eq(b, const(1, 1)))
            if good and k is not None:
                P.put(st, P.ver, k, 1)
            outs.append(Outcome("ret", st, TRUE))
            return outs

        def assign(ex, st, name, args, where):
            P.close(ex, st, where)
            if args[0].op == "ptr" and args[0].a[0] == P.arr:
                k = P.cert(st, args[0])
                if k is None:
                    raise Unsupported("assignment to some element")
                ex.prove(st, t.bnot(P.get(st, P.inm, k)), "verified-element-kept", where)
                P.put(st, P.ver, k, 0)
                P.uniq += 1
                nm = "NEW%d" % P.uniq
                st.wobj(P.arr).w_range(t.mul(k, C64(P.S)), C64(P.S), lambda s_, j: t.uf(nm, [j], 8))
                P.bump(st)
            elif args[0].op == "ptr" and args[0].a[0] == P.tr:
                ex.prove(st, FALSE, "trusted-certificate-kept", where)
            return ret(st, args[0])
        m = r"std::map<.*>::"
        for rx, h in ((m + r"begin\(|" + m + r"cbegin\(", begin), (m + r"c?end\(", end), (m + r"find\(", find), (m + r"(count|contains)\(", count), (m + r"at\(", at), (m + r"operator\[\]\(", index),
                      (m + r"~map\(", lambda ex, st, name, args, where: ret(st)), (r"operator==\(std::_Rb_tree_", eq), (r"_Rb_tree_(const_)?iterator<.*>::operator(\*|->)\(\)", deref),
                      (r"_Rb_tree_(const_)?iterator<.*>::operator\+\+\(", inc), (r"^Caligo::x509certificate::verify\(", verify), (r"^Caligo::x509certificate::operator=\(", assign),
                      (r"^Caligo::x509certificate::~x509certificate\(", lambda ex, st, name, args, where: ret(st)),
                      (r"^Caligo::x509certificate::x509certificate\(\)", lambda ex, st, name, args, where: ret(st))):
            self.calls(ex, rx, h)

    def trust(self):
        ex, st, vp = self.setup()
        P = self
        w = "Truststore::trust"
        now = t.var("now", 64)
        frm, to = (t.concat([t.uf("CHAIN", [C64(self.off[x] + i)], 8) for i in range(7, -1, -1)]) for x in ("validity_start", "validity_end"))

        class Names(Counting):
            """the local map starts with the trusted certificates"""
            name = "names"

            def __init__(s, ex, st, f, H, lp, env):
                s.v = [i for i, o in st.mem.items() if o.alive and isc(o.size) and cv(o.size) == 8 and s.val(ex, st, i)]

            def val(s, ex, st, i):
                try:
                    p = ex.load(st, t.ptr(i, C64(0)), 8, w)
                except Exception:
                    return False
                return p.op == "ptr" and p.a[0] == P.it and isc(p.a[1]) and cv(p.a[1]) == 0

            def modes(s):
                return s.v

            def ghosts(s, ex, st, mode):
                return [({"i": t.zext(t.fresh("i", 33), 64)}, [])]

            def gconds(s, ex, st, g, mode):
                return [("range", t.ule(g["i"], P.M))]

            def apply(s, ex, st, g, mode):
                st.assume(t.ule(g["i"], P.M))
                ex.store(st, t.ptr(mode, C64(0)), t.ptr(P.it, g["i"]), 8, w)
                P.bump(st)

            def conds(s, ex, st, g, mode):
                return [("map", lambda st: P.close(ex, st, w)), ("iterator", lambda st: ex.prove(st, t.eq(ex.load(st, t.ptr(mode, C64(0)), 8, w).a[1], g["i"]), "loop-invariant", w))]

            def managed(s, st):
                return set(s.v)

        class Search(Template):
            """any position; verified elements, the map and the chain's content are arbitrary within the invariant"""
            name = "search"

            def drivers(s, ex, st, val, mode):
                return [("n", lambda v: {"n": v})] if val.w == 64 and val.op != "ptr" else []

            def ghosts(s, ex, st, mode):
                n = t.zext(t.fresh("n", 33), 64)
                return [({"n": n}, [t.ule(n, P.N)])]

            def invert(s, g, b):
                return g["n"]

            def gconds(s, ex, st, g, mode):
                return [("range", t.ule(g["n"], P.N))]

            def phi_cands(s, ex, st, mode):
                return [("n", lambda g: g["n"])]

            def apply(s, ex, st, g, mode):
                P.uniq += 1
                for oid, nm in ((P.ver, "VER"), (P.inm, "IN")):
                    o = st.wobj(oid)
                    o.layers = ()
                    o.base = (lambda nm: lambda s_, j: t.zext(t.uf(nm, [j], 1), 8))("%s%d" % (nm, P.uniq))
                o = st.wobj(P.arr)
                o.layers = ()
                o.base = (lambda nm: lambda s_, j: t.uf(nm, [j], 8))("CHAIN%d" % P.uniq)
                st.ghost["idx"] = (C64(0), g["n"])
                P.bump(st)

            def conds(s, ex, st, g, mode):
                return [("map", lambda st: P.close(ex, st, w))]

            def managed(s, st):
                return {P.ver, P.inm, P.arr}
        ex.loop_hook = LoopEngine([Names, Search()])
        yes = 0
        for oc in ex.start(st, self.fn("vf_trust"), [t.ptr(self.store, C64(0)), vp, now]):
            s = oc.st
            if oc.kind != "ret":
                continue
            P.close(ex, s, w)
            b = oc.val if oc.val.w == 1 else t.extract(oc.val, 0, 0)
            s.assume(t.eq(b, const(1, 1)))
            if not s.feasible():
                continue
            yes += 1
            ex.prove(s, t.ult(C64(0), self.N), "chain-not-empty", w)
            ex.prove(s, self.get(s, self.ver, C64(0)), "verified-to-a-trusted-issuer", w)
            ex.prove(s, t.band(t.ule(frm, now), t.ule(now, to)), "valid-now", w)
        if not yes:
            raise Unsupported("trust never returns true")
        return [ex]
