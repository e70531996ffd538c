from . import terms as t, sweep, specs, stdmodel
from .terms import const, isc, cv, TRUE, FALSE
from .exec import Executor, State, Outcome, Unsupported, Failure
from .loops import LoopEngine


def mk(mod, dem):
    ex = Executor(mod)
    ex.dem = dem
    stdmodel.install(ex)
    ex.loop_hook = LoopEngine([])
    return ex


def eqwords(ex, st, got, want, kind, where, budget=120):
    ok, s = sweep.equal(got, want, budget=budget)
    ex.oblig += len(got)
    ex.obkinds[kind] = ex.obkinds.get(kind, 0) + len(got)
    if ok:
        ex.discharged += len(got)
    else:
        ex.failures.append(Failure(kind, where, "differs from the specification", s.cex, st, "refuted" if s.cex else "unknown"))
    return ok


def schedule(mod, dem, bits, size):
    """a key of the right length gives the FIPS 197 round keys; any other length is refused"""
    ex = mk(mod, dem)
    nb = bits // 8
    st = State(ex)
    o = ex.new_obj(st, size, "schedule")
    K = [t.var("k%d" % i, 8) for i in range(nb)]
    d = ex.new_obj(st, nb, "key")
    d.w_conc(0, K)
    nret = 0
    for oc in ex.start(st, "vf_sched%d" % bits, [t.ptr(o.id, const(0, 64)), t.ptr(d.id, const(0, 64)), const(nb, 64)]):
        if oc.kind != "ret":
            ex.prove(oc.st, FALSE, "valid-key-accepted", "key schedule")
            continue
        nret += 1
        rk = sum(specs.aes_expand(K), [])
        got = [oc.st.mem[o.id].rd(oc.st, const(i, 64)) for i in range(len(rk))]
        eqwords(ex, oc.st, got, rk, "round-keys", "key schedule %d" % bits)
    if not nret:
        raise Unsupported("no returning path")
    ex2 = mk(mod, dem)
    st = State(ex2)
    o = ex2.new_obj(st, size, "schedule")
    ln = t.var("klen", 64)
    st.assume(t.bnot(t.eq(ln, const(nb, 64))))
    d = ex2.new_obj(st, ln, "key", base=lambda s_, i: t.uf("K", [i], 8))
    for oc in ex2.start(st, "vf_sched%d" % bits, [t.ptr(o.id, const(0, 64)), t.ptr(d.id, const(0, 64)), ln]):
        ex2.prove(oc.st, TRUE if oc.kind == "throw" else FALSE, "wrong-key-size-refused", "key schedule %d" % bits)
    return [ex, ex2]


def encrypt(mod, dem, bits, size):
    ex = mk(mod, dem)
    nr = bits // 32 + 6
    st = State(ex)
    o = ex.new_obj(st, size, "schedule")
    rk = [[t.var("rk%d_%d" % (r, i), 8) for i in range(16)] for r in range(nr + 1)]
    o.w_conc(0, sum(rk, []))
    o.ro = True
    P = [t.var("p%d" % i, 8) for i in range(16)]
    pi = ex.new_obj(st, 16, "in")
    pi.w_conc(0, P)
    out = ex.new_obj(st, 16, "out")
    nret = 0
    for oc in ex.start(st, "vf_enc%d" % bits, [t.ptr(o.id, const(0, 64)), t.ptr(pi.id, const(0, 64)), t.ptr(out.id, const(0, 64))]):
        if oc.kind != "ret":
            ex.prove(oc.st, FALSE, "no-throw", "encrypt")
            continue
        nret += 1
        got = [oc.st.mem[out.id].rd(oc.st, const(i, 64)) for i in range(16)]
        eqwords(ex, oc.st, got, specs.aes_encrypt(rk, P), "cipher-block", "encrypt %d" % bits)
    if not nret:
        raise Unsupported("no returning path")
    return [ex]
