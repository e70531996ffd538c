"""Word-level equivalence of term DAGs: random simulation finds candidate equal nodes, local z3 queries
(with deeper nodes cut to free variables) prove them bottom-up; the normalising constructors then collapse
the DAGs.  Only proven equalities are ever used."""
import hashlib
import random
import time
from . import terms as t
from . import smt, lut
from .terms import TRUE, FALSE


def ufval(name, args, w):
    h = hashlib.blake2b(repr((name, args)).encode(), digest_size=max(8, (w + 7) // 8)).digest()
    return int.from_bytes(h, "little") & t.mask(w)


def rnd_env(rng):
    vals = {}

    def env(v):
        if v not in vals:
            k = rng.random()
            vals[v] = (rng.getrandbits(v.w) if k < .8 else rng.choice([0, 1, t.mask(v.w)]))
        return vals[v]
    env.vals = vals
    return env


def cut(x, depth, mp):
    """copy of x with nodes deeper than depth replaced by fresh variables"""
    if x.op in ("c", "v"):
        return x
    if depth == 0:
        if x not in mp:
            mp[x] = t.var("cut_%d" % x.id, x.w)
        return mp[x]
    val = {}
    for c in t.children(x):
        val[c] = cut(c, depth - (0 if c.op in ("cat", "ex") else 1), mp) if depth > 0 else c
    return t.rebuild(x, val)


class Sweeper:
    def __init__(self, nsim=24, seed=1, budget=120.0, pc=()):
        self.rng = random.Random(seed)
        self.envs = [rnd_env(self.rng) for _ in range(nsim)]
        self.vals = [dict() for _ in range(nsim)]
        self.deadline = time.time() + budget
        self.rep = {}
        self.bysig = {}
        self.proved = 0
        self.tried = 0
        self.cex = None

    def sig(self, x):
        for tm in t.topo([x]):
            if tm not in self.vals[0]:
                for v, e in zip(self.vals, self.envs):
                    v[tm] = t.eval1(tm, v, e, ufval)
        return tuple(v[x] for v in self.vals)

    def norm(self, roots):
        for x in t.topo(roots):
            if x in self.rep:
                continue
            r = t.rebuild(x, self.rep) if t.children(x) else x
            if r not in self.rep and r is not x:
                # rebuilt term may contain new intermediate nodes; normalise them too
                for y in t.topo([r]):
                    if y not in self.rep:
                        self._place(y)
                r = self.rep[r]
            elif r is x:
                self._place(x)
                r = self.rep[x]
            else:
                r = self.rep[r]
            self.rep[x] = r
        return [self.rep[r] for r in roots]

    def _place(self, x):
        if x.op in ("c", "v"):
            self.rep[x] = x
            return
        s = (x.w, self.sig(x))
        lst = self.bysig.setdefault(s, [])
        for y in lst:
            if y is x:
                self.rep[x] = x
                return
        if time.time() < self.deadline:
            for y in lst[:3]:
                if self.local_equal(x, y):
                    self.rep[x] = y
                    self.proved += 1
                    return
        lst.append(x)
        self.rep[x] = x

    def local_equal(self, x, y):
        self.tried += 1
        for d in (1, 2, 3, 5, 8):
            mp = {}
            a, b = cut(x, d, mp), cut(y, d, mp)
            e = t.eq(a, b)
            if e is TRUE:
                return True
            if e is FALSE:
                continue
            if len(t.topo([e])) > 400:
                break
            if smt.check([t.bnot(e)], 3.0) == "unsat":
                return True
        return False

    def equal(self, a, b):
        """lists of terms; True if all pairs proved equal"""
        pend = [(x, y) for x, y in zip(a, b) if x is not y]
        if not pend:
            smt.STATS.hit("syntactic")
            return True
        for x, y in pend:
            sx, sy = self.sig(x), self.sig(y)
            for k in range(len(sx)):
                if sx[k] != sy[k]:
                    self.cex = self.envs[k].vals
                    return False
        la, lb = lut.normalise([x for x, _ in pend]), lut.normalise([y for _, y in pend])
        if all(x is y for x, y in zip(la, lb)):
            smt.STATS.hit("truth-table")
            return True
        self.norm([x for p in pend for x in p])
        ok = all(self.rep[x] is self.rep[y] for x, y in pend)
        if ok:
            smt.STATS.hit("sweep")
            return True
        for x, y in pend:
            rx, ry = self.rep[x], self.rep[y]
            if rx is ry:
                continue
            if time.time() > self.deadline:
                return False
            if smt.check([t.bnot(t.eq(rx, ry))], 20.0) != "unsat":
                return False
        smt.STATS.hit("sweep+z3")
        return True


def equal(a, b, budget=120.0, seed=1):
    s = Sweeper(seed=seed, budget=budget)
    return s.equal(a, b), s
