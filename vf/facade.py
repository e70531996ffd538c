"""The run-time hash selector: every operation is the selected algorithm's own operation on its own state.

Contracts of the algorithm classes (proved in C01-C04) are ghost-state transformers: a constructed object carries the 64-bit ghost
state init_A, add maps state s to add_A(s, source, length), reading the digest gives the bytes D_A(s, k)."""
import re
from . import terms as t, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported
from .loops import LoopEngine

ALGS = {"MD5": (16, "3020300c06082a864886f70d020505000410", ("md5",)),
        "SHA1": (20, "3021300906052b0e03021a05000414", ("sha1", "sha")),
        "SHA2<224ul>": (28, "302d300d06096086480165030402040500041c", ("sha224", "sha2-224")),
        "SHA2<256ul>": (32, "3031300d060960864801650304020105000420", ("sha256", "sha2-256")),
        "SHA2<384ul>": (48, "3041300d060960864801650304020205000430", ("sha384", "sha2-384")),
        "SHA2<512ul>": (64, "3051300d060960864801650304020305000440", ("sha512", "sha2-512")),
        "SHA3<224ul>": (28, "302d300d06096086480165030402070500041c", ("sha3-224",)),
        "SHA3<256ul>": (32, "3031300d060960864801650304020805000420", ("sha3-256",)),
        "SHA3<384ul>": (48, "3041300d060960864801650304020905000430", ("sha3-384",)),
        "SHA3<512ul>": (64, "3051300d060960864801650304020a05000440", ("sha3-512",))}
BASE = {"SHA2<224ul>": "SHA2<256ul>", "SHA2<384ul>": "SHA2<512ul>"}
NAMES = {n: a for a, v in ALGS.items() for n in v[2]}


def init(a):
    return t.uf("init_" + a, [const(0, 8)], 64)


def addst(a, s, d, n):
    b = BASE.get(a, a)
    return t.uf("add_" + b, [s, const(d.a[0], 64), d.a[1], n], 64)


def D(a, s, k):
    return t.uf("D_" + a, [s, const(k, 64)], 8)


def ret_bytes(ex, s, f, args, by, where):
    """return an std::array of the given bytes, by hidden pointer or in registers"""
    if len(args) == 2:
        ex.access(s, s.mem[args[0].a[0]], args[0].a[1], len(by), where, True)
        s.wobj(args[0].a[0]).w_conc(cv(args[0].a[1]), by)
        return [Outcome("ret", s, None)]
    parts, i = [], 0
    while i < len(by):
        k = min(8, len(by) - i)
        parts.append(t.concat(by[i:i + k][::-1]))
        i += k
    return [Outcome("ret", s, tuple(parts) if len(parts) > 1 else parts[0])]


def handler(ex, st, name, args, where):
    d = ex.dem.get(name, name)
    m = re.match(r"^Caligo::((MD5|SHA1|SHA2<\d+ul>|SHA3<\d+ul>))::(.*)$", d)
    a, op = m.group(1), m.group(3)
    if a not in ALGS:
        return NotImplemented
    if re.match(r"(MD5|SHA1|SHA2|SHA3)\(\)$", op):
        ex.store(st, args[0], init(a), 8, where)
        return [Outcome("ret", st, None)]
    if op.startswith("add(std::span"):
        p, dd, n = args
        if dd.op != "ptr":
            return NotImplemented
        s = ex.load(st, p, 8, where)
        ex.store(st, p, addst(a, s, dd, n), 8, where)
        return [Outcome("ret", st, None)]
    m = re.match(r"operator std::array<unsigned char, (\d+)ul>\(\) const", op)
    if m:
        n = int(m.group(1))
        if n != ALGS[a][0]:
            return NotImplemented
        s = ex.load(st, args[-1], 8, where)
        return ret_bytes(ex, st, None, args, [D(a, s, k) for k in range(n)], where)
    if "operator std::__cxx11::basic_string" in op:
        s = ex.load(st, args[-1], 8, where)
        n = 2 * ALGS[a][0]
        o = ex.new_obj(st, n + 1, "string-buffer", "heap")
        o.meta = "strbuf"
        o.w_conc(0, [t.uf("S_" + a, [s, const(k, 64)], 8) for k in range(n)] + [const(0, 8)])
        ex.store(st, args[0], t.ptr(o.id, const(0, 64)), 8, where)
        ex.store(st, t.add(args[0], const(8, 64)), const(n, 64), 8, where)
        ex.store(st, t.add(args[0], const(16, 64)), const(n, 64), 8, where)
        return [Outcome("ret", st, None)]
    return NotImplemented


def mk(mod, dem):
    ex = Executor(mod)
    ex.dem = dem
    stdmodel.install(ex)
    ex.contracts.insert(0, (lambda n, d: bool(re.match(r"^Caligo::(MD5|SHA1|SHA2<\d+ul>|SHA3<\d+ul>)::", d)) and "getAsn1Id" not in d, handler))
    ex.loop_hook = LoopEngine([])
    return ex


def rets(ex, outs, kind, where):
    r = []
    for oc in outs:
        if oc.kind == "ret":
            r.append(oc)
        else:
            ex.prove(oc.st, FALSE, kind, where)
    if not r:
        raise Unsupported("no returning path: " + where)
    return r


def build_obj(ex, st, name, sz):
    o = ex.new_obj(st, sz, "hash")
    nb = ex.new_obj(st, len(name), "name")
    nb.w_conc(0, [const(b, 8) for b in name.encode()])
    oc = rets(ex, ex.start(st, "vf_ctor", [t.ptr(o.id, const(0, 64)), t.ptr(nb.id, const(0, 64)), const(len(name), 64)]), "name-accepted", "Hash(%s)" % name)
    return oc[0].st, o.id


def digest(ex, st, hp, fn, a, s, where):
    v = ex.new_obj(st, 24, "vector")
    out = None
    for oc in rets(ex, ex.start(st, fn, [hp, t.ptr(v.id, const(0, 64))]), "no-throw", where):
        n = ALGS[a][0]
        oid, ln = stdmodel.vec_parts(ex, oc.st, t.ptr(v.id, const(0, 64)))
        if not ex.prove(oc.st, t.eq(ln, const(n, 64)), "digest-length", where):
            continue
        for k in range(n):
            ex.prove(oc.st, t.eq(oc.st.mem[oid].rd(oc.st, const(k, 64)), D(a, s, k)), "digest-is-selected-algorithm", where)
        out = oc.st
    return out


def named(mod, dem, sz, name):
    a = NAMES[name]
    n, asn, _ = ALGS[a]
    ex = mk(mod, dem)
    st = State(ex)
    st, oid = build_obj(ex, st, name, sz)
    hp = t.ptr(oid, const(0, 64))
    w = "Hash(%s)" % name
    for oc in rets(ex, ex.start(st.fork(), "vf_size", [hp]), "no-throw", w):
        ex.prove(oc.st, t.eq(oc.val, const(n, 64)), "hash-size", w)
    for oc in rets(ex, ex.start(st.fork(), "vf_max", [hp]), "no-throw", w):
        ex.prove(oc.st, t.eq(oc.val, const((1 << 61) - 1, 64)), "max-length", w)
    s2 = st.fork()
    v = ex.new_obj(s2, 24, "vector")
    for oc in rets(ex, ex.start(s2, "vf_asn1", [hp, t.ptr(v.id, const(0, 64))]), "no-throw", w):
        vo, ln = stdmodel.vec_parts(ex, oc.st, t.ptr(v.id, const(0, 64)))
        want = bytes.fromhex(asn)
        if ex.prove(oc.st, t.eq(ln, const(len(want), 64)), "digest-info", w):
            for k, b in enumerate(want):
                ex.prove(oc.st, t.eq(oc.st.mem[vo].rd(oc.st, const(k, 64)), const(b, 8)), "digest-info", w)
    # two additions, digest reads in between and afterwards
    s = init(a)
    for step, fn in ((0, "vf_add"), (1, "vf_addsv"), (2, None)):
        st = digest(ex, st, hp, "vf_data" if step != 1 else "vf_conv", a, s, w)
        if st is None:
            return [ex]
        st.owner = object()
        s3 = st.fork()
        so = ex.new_obj(s3, 32, "string")
        for oc in rets(ex, ex.start(s3, "vf_str", [hp, t.ptr(so.id, const(0, 64))]), "no-throw", w):
            dp, ln = stdmodel.string_view(ex, oc.st, t.ptr(so.id, const(0, 64)))
            if ex.prove(oc.st, t.eq(ln, const(2 * n, 64)), "string-length", w):
                for k in range(2 * n):
                    ex.prove(oc.st, t.eq(ex.load(oc.st, t.add(dp, const(k, 64)), 1, w), t.uf("S_" + a, [s, const(k, 64)], 8)), "string-is-selected-algorithm", w)
        if fn is None:
            break
        ln = t.var("len%d" % step, 64)
        d = ex.new_obj(st, ln, "data", base=lambda s_, i: t.uf("M", [i], 8))
        dp = t.ptr(d.id, const(0, 64))
        oc = rets(ex, ex.start(st, fn, [hp, dp, ln]), "no-throw", w)[0]
        st = oc.st
        s = addst(a, s, dp, ln)
    for oc in rets(ex, ex.start(st, "vf_dtor", [hp]), "no-throw", w):
        ex.prove(oc.st, TRUE, "destroyed", w)
    return [ex]


def unknown(mod, dem, sz):
    """an arbitrary name: accepted exactly when it is one of the documented names, and then means that algorithm"""
    ex = mk(mod, dem)
    st = State(ex)
    o = ex.new_obj(st, sz, "hash")
    ln = t.var("namelen", 64)
    st.assume(t.ule(ln, const((1 << 62), 64)))
    nb = ex.new_obj(st, ln, "name", base=lambda s_, i: t.uf("N", [i], 8))

    def isname(nm):
        c = t.eq(ln, const(len(nm), 64))
        for k, b in enumerate(nm.encode()):
            c = t.band(c, t.eq(t.uf("N", [const(k, 64)], 8), const(b, 8)))
        return c
    hp = t.ptr(o.id, const(0, 64))
    nr = 0
    for oc in ex.start(st, "vf_ctor", [hp, t.ptr(nb.id, const(0, 64)), ln]):
        if oc.kind != "ret":
            for nm in NAMES:
                ex.prove(oc.st, t.bnot(isname(nm)), "known-name-accepted", nm)
            continue
        nr += 1
        s2 = oc.st.fork()
        v = ex.new_obj(s2, 24, "vector")
        for od in ex.start(s2, "vf_data", [hp, t.ptr(v.id, const(0, 64))]):
            vo, n = stdmodel.vec_parts(ex, od.st, t.ptr(v.id, const(0, 64)))
            u = od.st.mem[vo].rd(od.st, const(0, 64)) if vo else None
            a = u.a[0][2:] if u is not None and u.op == "uf" and u.a[0].startswith("D_") else None
            c = FALSE
            for nm, b in NAMES.items():
                if a == b and u.a[1] is init(b):
                    c = t.bor(c, isname(nm))
            ex.prove(od.st, c, "name-selects-algorithm", str(a))
    ex.prove(st, TRUE if nr else FALSE, "names-reachable", "Hash(name)")
    return [ex]
