"""Loop contracts.

A template describes the abstract state of a loop by a small set of ghost values g (e.g. the number of
bytes consumed).  For a loop in the code the engine looks for a binding of the loop's header values to
expressions over g, and then discharges the usual three obligations:

  initiation    the state on loop entry satisfies the template for the bound ghosts g0
  preservation  from an arbitrary state satisfying the template, one iteration re-establishes it for g'
                and strictly increases the bounded measure (termination)
  use           what follows the loop is executed from the template state plus the exit condition

Everything the loop modifies that the template does not describe is havocked.
"""
import time
from . import terms as t
from . import ir, smt
from .terms import const, isc, cv, T, TRUE, FALSE
from .exec import Unsupported, Outcome, State


class ProbeSymbolic(Exception):
    def __init__(self, key):
        self.key = key


class Template:
    name = "template"

    def ghost(self, ex, st, mode):
        """fresh ghost valuation -> (g, [assumptions])"""
        raise NotImplementedError

    def modes(self):
        return [None]

    def drivers(self, ex, st, val):
        """ways in which a header value determines the ghosts: [(label, fn(val)->g)]"""
        return []

    def phi_cands(self, ex, st, g):
        """{label: fn(g)->term}"""
        return {}

    def apply(self, ex, st, g):
        pass

    def conds(self, ex, st, g):
        """what must hold of a state for ghosts g: [(label, term or callable(st)->bool)]"""
        return []

    def measure(self, g):
        return None

    def managed(self, st):
        return set()


def n_phis(f, H):
    n = 0
    for I in f.blocks[H].insts:
        if I.op != "phi":
            break
        n += 1
    return n


def holds_pointers(o):
    if o is None:
        return False
    for l in o.layers:
        d = getattr(l, "d", None)
        if d:
            for x in d.values():
                if isinstance(x, T) and any(u.op in ("ptr", "base") for u in t.topo([x])):
                    return True
    return False


class LoopEngine:
    def __init__(self, templates, applies=None, unroll=True):
        self.templates = templates
        self.applies = applies or (lambda ex, st, f, H: True)
        self.active = set()
        self.log = []
        self.used = {}
        self.lastfails = []

    def __call__(self, ex, st, f, H, lp, env, stops):
        key = (f.name, H)
        if key in self.active:
            return None
        if getattr(self, "force", None) and self.force(ex, st, f, H):
            return self.contract(ex, st, f, H, lp, env, stops)
        # 1. does the loop run concretely?
        save_fail = len(ex.failures)
        ob = (ex.oblig, ex.discharged, dict(ex.obkinds))
        s2 = st.fork()
        e2 = dict(env)
        e2["$allocas"] = list(env["$allocas"])
        probe = ex.probe
        ex.probe = probe + ((key, lp[0]),)
        self.active.add(key)
        try:
            return ex.run(s2, f, e2, H, None, n_phis(f, H), stops)
        except ProbeSymbolic as p:
            if p.key != key:
                raise
            del ex.failures[save_fail:]
            ex.oblig, ex.discharged, ex.obkinds = ob
        finally:
            ex.probe = probe
            self.active.discard(key)
        if not self.applies(ex, st, f, H):
            return None
        return self.contract(ex, st, f, H, lp, env, stops)

    # ------------------------------------------------------------
    def contract(self, ex, st, f, H, lp, env, stops):
        phis = [I for I in f.blocks[H].insts[:n_phis(f, H)]]
        best = None
        tried = []
        for tm in self.templates:
            tm = tm(ex, st, f, H, lp, env) if isinstance(tm, type) or callable(tm) else tm
            if tm is None:
                continue
            for b in self.bindings(ex, st, f, H, env, phis, tm):
                r = self.attempt(ex, st, f, H, lp, env, stops, phis, tm, b)
                tried.append((tm.name, b["desc"], r["bad"]))
                self.lastfails = r["fails"] or self.lastfails
                if not r["bad"]:
                    self.used[(f.name, H)] = (tm.name, b["desc"])
                    self.commit(ex, r)
                    return self.finish(ex, f, H, lp, r["outs"], stops)
                if r["outs"] is not None and (best is None or len(r["bad"]) < len(best["bad"])):
                    best = r
        self.log.append((f.name, H, tried))
        if best is not None and best.get("final"):
            self.commit(ex, best)
            return self.finish(ex, f, H, lp, best["outs"], stops)
        if getattr(self, "force", None) and self.force(ex, st, f, H) and tried:
            from .exec import Failure, Abort
            if best is not None:
                self.commit(ex, best)
            else:
                f0 = [x for x in self.lastfails if x.status == "refuted"] or self.lastfails
                ex.oblig += 1
                ex.failures.append(f0[0] if f0 else Failure("loop-invariant", "%s loop %s" % (ex.dem.get(f.name, f.name)[:80], H), str(tried)[:200], st=st))
            raise Abort(ex)
        # fall back to forking (complete when the trip count is bounded by path conditions)
        import os
        if os.environ.get("VF_DEBUG"):
            print("no loop contract for", f.name, H, [(a, b, [str(x) for x in c][:3]) for a, b, c in tried][:8])
        self.active.add((f.name, H))
        try:
            s2 = st.fork()
            e2 = dict(env)
            e2["$allocas"] = list(env["$allocas"])
            outer = ex.fork_deadline
            if outer is None:
                ex.fork_deadline = time.time() + ex.fork_budget
            try:
                return ex.run(s2, f, e2, H, None, n_phis(f, H), stops)
            except Unsupported as u:
                if best is not None:
                    # the verifier's own reason: the closest contract with its failed obligations
                    self.commit(ex, best)
                    from .exec import Abort
                    raise Abort(ex)
                if not tried:
                    raise
                from .exec import Failure, Abort
                f0 = [x for x in self.lastfails if x.status == "refuted"] or self.lastfails
                ex.oblig += 1
                ex.failures.append(f0[0] if f0 else Failure("loop-invariant", "%s loop %s" % (ex.dem.get(f.name, f.name)[:80], H), str(tried)[:200], st=st))
                raise Abort(ex)
            finally:
                ex.fork_deadline = outer
        finally:
            self.active.discard((f.name, H))

    def finish(self, ex, f, H, lp, outs, stops):
        """the code after the loop, from the contract's exit states"""
        res = []
        for o in outs:
            if o.kind == "stop" and o.tag[0] == "exit" and o.tag[1] == H and o.tag[2] == frozenset(lp[0]):
                res += ex.resume(o, f, stops)
            else:
                res.append(o)
        return res

    def commit(self, ex, r):
        ex.failures.extend(r["fails"])
        ex.oblig += r["oblig"]
        ex.discharged += r["disch"]
        for k, v in r["kinds"].items():
            ex.obkinds[k] = ex.obkinds.get(k, 0) + v

    def bindings(self, ex, st, f, H, env, phis, tm):
        """choose a driver value and consistent candidates for the other header values"""
        for mode in tm.modes():
            seen = False
            for I in phis:
                v = env[I.res]
                if not isinstance(v, T):
                    continue
                for lab, fn in tm.drivers(ex, st, v, mode):
                    g0 = fn(v)
                    if g0 is None:
                        continue
                    yield {"driver": I.res, "fn": fn, "g0": g0, "mode": mode, "desc": "%s~%s/%s" % (I.res, lab, mode)}
            for lab, g0, fn in tm.memdrivers(ex, st, mode) if hasattr(tm, "memdrivers") else ():
                yield {"driver": None, "fn": fn, "g0": g0, "mode": mode, "desc": "mem~%s/%s" % (lab, mode)}

    def attempt(self, ex, st, f, H, lp, env, stops, phis, tm, b):
        fails0, ob0, di0, kinds0 = ex.failures, ex.oblig, ex.discharged, ex.obkinds
        ex.failures, ex.oblig, ex.discharged, ex.obkinds = [], 0, 0, {}
        res = {"bad": [], "outs": None}
        ex.tentative = getattr(ex, "tentative", 0) + 1
        where = "%s loop %s" % (ex.dem.get(f.name, f.name)[:80], H)
        try:
            self._attempt(ex, st, f, H, lp, env, stops, phis, tm, b, res, where)
        except Unsupported as u:
            res["bad"].append("unsupported: " + str(u)[:200])
            res["outs"] = None
        finally:
            ex.tentative -= 1
            res["fails"], res["oblig"], res["disch"], res["kinds"] = ex.failures, ex.oblig, ex.discharged, ex.obkinds
            ex.failures, ex.oblig, ex.discharged, ex.obkinds = fails0, ob0, di0, kinds0
        return res

    def _prove(self, ex, st, c, lab, where, res):
        if callable(c):
            n = len(ex.failures)
            ok = c(st)
            if not ok and len(ex.failures) == n:
                from .exec import Failure
                ex.failures.append(Failure("loop-invariant", where, lab, st=st))
        else:
            ok = ex.prove(st, c, "loop-invariant", where + " " + lab)
        if not ok:
            res["bad"].append(lab)
        return ok

    def _attempt(self, ex, st, f, H, lp, env, stops, phis, tm, b, res, where):
        g0 = b["g0"]
        e_st = st.fork()
        # initiation (cheap rejections first)
        for lab, c in tm.gconds(ex, e_st, g0, b["mode"]):
            if not self._prove(ex, e_st, c, "init:" + lab, where, res):
                return
        cands = tm.phi_cands(ex, e_st, b["mode"])
        choice = {}
        for I in phis:
            v = env[I.res]
            if I.res == b["driver"] or not isinstance(v, T):
                continue
            opts = []
            for lab, fn in cands:
                try:
                    w = fn(g0)
                except Exception:
                    continue
                if w is None or w.w != v.w:
                    continue
                e = t.eq(v, w)
                if e is TRUE or (e is not FALSE and e_st.decide(e) is True):
                    opts.append((lab, fn))
            opts.append(("havoc", None))
            choice[I.res] = opts
        need = getattr(tm, "need", None)
        if need and not any(o[0] in need for v in choice.values() for o in v):
            res["bad"].append("needed value not found")
            return
        for lab, c in tm.conds(ex, e_st, g0, b["mode"]):
            if not self._prove(ex, e_st, c, "init:" + lab, where, res):
                return
        # choose assignments by elimination: start with first options, drop those not preserved
        extra = set()
        for rnd in range(12):
            r2 = {"bad": [], "outs": None}
            keep = (list(ex.failures), ex.oblig, ex.discharged, dict(ex.obkinds))
            drop = self._body(ex, st, f, H, lp, env, stops, phis, tm, b, choice, extra, r2, where)
            if drop is None:
                res["bad"].extend(r2["bad"])
                res["outs"] = r2["outs"]
                res["choice"] = {k: v[0][0] for k, v in choice.items()}
                if need and not need & set(res["choice"].values()):
                    res["bad"].append("needed value not kept")
                return
            ex.failures, ex.oblig, ex.discharged, ex.obkinds = keep[0], keep[1], keep[2], keep[3]
            kind, what = drop
            if kind == "mem" and any(holds_pointers(st.mem.get(i)) for i in what):
                res["bad"].append("loop changes pointers in memory")
                return
            if kind == "phi":
                choice[what].pop(0)
            else:
                extra |= what
        res["bad"].append("no stable binding")

    def _body(self, ex, st, f, H, lp, env, stops, phis, tm, b, choice, extra, res, where):
        cases = tm.ghosts(ex, st, b["mode"]) if hasattr(tm, "ghosts") else [tm.ghost(ex, st, b["mode"])]
        allrest = []
        nfeas = 0
        for g, asm in cases:
            r = self._case(ex, st, f, H, lp, env, stops, phis, tm, b, choice, extra, res, where, g, asm)
            if isinstance(r, tuple):
                return r
            if r is None:
                continue
            nfeas += 1
            allrest += r
            if res["bad"]:
                break
        if not nfeas:
            res["bad"].append("vacuous")  # loop body unreachable under the invariant
        res["outs"] = allrest
        return None

    def _case(self, ex, st, f, H, lp, env, stops, phis, tm, b, choice, extra, res, where, g, asm):
        s2 = st.fork()
        for a in asm:
            s2.assume(a)
        e2 = dict(env)
        e2["$allocas"] = list(env["$allocas"])
        if hasattr(tm, "enter"):
            tm.enter(g)
        tm.apply(ex, s2, g, b["mode"])
        for oid in extra:
            o = s2.wobj(oid)
            nm = "hv%d_%d" % (oid, t._cnt[0])
            o.layers = ()
            o.base = (lambda nm: lambda s_, i: t.uf(nm, [i], 8))(nm)
        inv = tm.invert(g, b)
        for I in phis:
            v = env[I.res]
            if I.res == b["driver"]:
                e2[I.res] = inv
            elif I.res in choice:
                lab, fn = choice[I.res][0]
                e2[I.res] = fn(g) if fn else t.fresh("hv", v.w)
        if not s2.feasible():
            return None
        tag = ("back", H, frozenset(lp[1]))
        self.active.add((f.name, H))
        probe = ex.probe
        ex.probe = tuple(p for p in probe if p[0] != (f.name, H))
        base_mem = dict(s2.mem)
        try:
            outs = ex.run(s2, f, e2, H, None, n_phis(f, H), (tag, ("exit", H, frozenset(lp[0]))) + stops)
        finally:
            self.active.discard((f.name, H))
            ex.probe = probe
        rest = []
        managed = tm.managed(s2)
        backs = []
        newmod = set()
        for o in outs:
            if o.kind == "stop" and o.tag == tag:
                backs.append(o)
                for k, ob in o.st.mem.items():
                    if k in base_mem and base_mem[k] is not ob and k not in managed and k not in extra:
                        if base_mem[k].layers != ob.layers or base_mem[k].size is not ob.size or base_mem[k].alive != ob.alive:
                            newmod.add(k)
            else:
                rest.append(o)
        if newmod:
            return ("mem", newmod)
        for o in backs:
            ex._phis(o.st, f, o.env, o.prev, H)
            g1 = b["fn"](o.env[b["driver"]]) if b["driver"] else b["fn"](o.st)
            if g1 is None:
                res["bad"].append("driver lost")
                continue
            for lab, c in tm.gconds(ex, o.st, g1, b["mode"]):
                self._prove(ex, o.st, c, "step:" + lab, where, res)
            if res["bad"]:
                return rest
            for I in phis:
                if I.res in choice and choice[I.res][0][1] is not None:
                    w = choice[I.res][0][1](g1)
                    e = t.eq(o.env[I.res], w)
                    if not (e is TRUE or (e is not FALSE and o.st.decide(e) is True)):
                        return ("phi", I.res)
                    ex.oblig += 1
                    ex.discharged += 1
                    ex.obkinds["loop-invariant"] = ex.obkinds.get("loop-invariant", 0) + 1
            for lab, c in tm.conds(ex, o.st, g1, b["mode"]):
                self._prove(ex, o.st, c, "step:" + lab, where, res)
            m0, m1 = tm.measure(g), tm.measure(g1)
            if m0 is not None:
                self._prove(ex, o.st, t.ult(m0, m1), "step:progress", where, res)
        return rest
