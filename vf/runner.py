"""Runs one property check: extraction, proof tasks (in parallel), replay against the real code, evidence."""
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CALIGO_REPO", "/repo")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.cache = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0


class Task:
    """fn() -> list of Executors (or plain dict results)"""

    def __init__(self, name, fn, timeout=300):
        self.name, self.fn, self.timeout = name, fn, timeout


def pack_model(m):
    if m is None:
        return None
    if isinstance(m, dict):
        return {(k if isinstance(k, str) else getattr(k, "a", ("?",))[0]): (hex(v) if isinstance(v, int) else str(v)) for k, v in
                list(m.items())[:400]}
    try:
        from . import smt
        return smt.model_dict(m)
    except Exception:
        return str(m)[:4000]


def pack(exs, name):
    from . import smt
    r = {"task": name, "oblig": 0, "disch": 0, "kinds": {}, "fails": [], "funcs": {}, "trusted": [], "notes": []}
    for ex in exs:
        if isinstance(ex, dict):
            r["oblig"] += ex.get("oblig", 0)
            r["disch"] += ex.get("disch", 0)
            for k, v in ex.get("kinds", {}).items():
                r["kinds"][k] = r["kinds"].get(k, 0) + v
            r["fails"] += ex.get("fails", [])
            for f in ex.get("funcs", ()):
                r["funcs"][f] = 1
            r["notes"] += ex.get("notes", [])
            continue
        r["oblig"] += ex.oblig
        r["disch"] += ex.discharged
        for k, v in ex.obkinds.items():
            r["kinds"][k] = r["kinds"].get(k, 0) + v
        for f in ex.failures[:12]:
            r["fails"].append({"kind": f.kind, "where": str(f.where)[:300], "detail": str(f.detail)[:300], "status": f.status,
                               "model": pack_model(f.model), "hint": getattr(f, "hint", None)})
        for f in ex.funcs_run:
            r["funcs"][ex.dem.get(f, f)[:160]] = 1
        r["trusted"] += sorted(ex.trusted)
    r["funcs"] = sorted(r["funcs"])
    r["trusted"] = sorted(set(r["trusted"]))
    r["solver"] = {k: [n, round(s, 3)] for k, (n, s) in smt.STATS.by.items()}
    return r


def _child(conn, task, budget):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    sys.setrecursionlimit(20000)
    t0 = time.time()
    from . import smt
    smt.STATS.by.clear()
    from .exec import Unsupported, Abort
    from .build import BuildError
    try:
        exs = task.fn()
        r = pack(exs, task.name)
        r["state"] = "done"
    except Abort as a:
        r = pack([a.ex], task.name)
        r["state"] = "done"
    except (Unsupported, BuildError, MemoryError, NotImplementedError) as u:
        r = {"task": task.name, "state": "unsupported", "why": "%s: %s" % (type(u).__name__, str(u)[:1500])}
    except Exception:
        r = {"task": task.name, "state": "unsupported", "why": "verifier error: " + traceback.format_exc()[-3000:]}
    r["secs"] = round(time.time() - t0, 2)
    conn.send(r)
    conn.close()


def run_tasks(tasks, nproc=8, overall=780, t0=None):
    t0 = t0 or time.time()
    ctx = mp.get_context("fork")
    pend = list(tasks)
    run = {}
    res = []
    while pend or run:
        while pend and len(run) < nproc:
            tk = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, tk, tk.timeout))
            p.start()
            b.close()
            run[p] = (tk, a, time.time())
        mp.connection.wait([v[1] for v in run.values()], 0.5)
        for p in list(run):
            tk, a, ts = run[p]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {"task": tk.name, "state": "unsupported", "why": "proof process ended early (exit %s)" % p.exitcode}
            elif not p.is_alive():
                r = {"task": tk.name, "state": "unsupported", "why": "proof process ended early (exit %s)" % p.exitcode}
            elif time.time() - ts > tk.timeout or time.time() - t0 > overall:
                r = {"task": tk.name, "state": "unsupported", "why": "time budget of %d s used up" % (time.time() - ts)}
            if r is not None:
                res.append(r)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    try:
                        p.kill()
                    except OSError:
                        pass
                p.join()
                a.close()
                del run[p]
    return res


# ---------------------------------------------------------------- replay
class Driver:
    """the real code, compiled natively with sanitizers; one command per line on stdin"""

    def __init__(self, ctx, src, extra=(), opt="-O1", san="address,undefined", srcs=()):
        from . import build
        self.ctx = ctx
        self.src = os.path.join(VERIF, "replay", src)
        self.exe = os.path.join(ctx.work, os.path.basename(src) + ".bin")
        link = os.path.join(ctx.work, "inc")
        os.makedirs(link, exist_ok=True)
        if not os.path.islink(link + "/caligo_src"):
            try:
                os.symlink(REPO + "/src", link + "/caligo_src")
            except FileExistsError:
                pass
        cmd = [build.CXX, opt, "-g", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-I", link] + build.cflags(False, extra)
        if san:
            cmd += ["-fsanitize=" + san, "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute,pointer-overflow,alignment,vptr",
                    "-fno-omit-frame-pointer"]
        # every unit is compiled separately (in parallel), then linked
        units = [self.src] + [os.path.join(REPO, "src", x) for x in srcs]
        objs = [self.exe + ".%d.o" % i for i in range(len(units))]
        ps = [subprocess.Popen(cmd + ["-c", u, "-o", o], stderr=subprocess.PIPE, text=True) for u, o in zip(units, objs)]
        errs = [p.communicate()[1] for p in ps]
        for p, e in zip(ps, errs):
            if p.returncode:
                raise build.BuildError("replay driver: " + e[-3000:])
        p = subprocess.run(cmd + objs + ["-o", self.exe], capture_output=True, text=True)
        if p.returncode:
            raise build.BuildError("replay driver: " + p.stderr[-3000:])

    def _run(self, lines, timeout, idle=45):
        """answers until the end, a crash, `timeout` seconds or `idle` seconds without an answer"""
        import selectors
        import tempfile
        import time
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        with tempfile.TemporaryFile(dir=self.ctx.work) as fin, tempfile.TemporaryFile(dir=self.ctx.work) as ferr:
            fin.write(("\n".join(lines) + "\n").encode())
            fin.seek(0)
            p = subprocess.Popen([self.exe], stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=env, cwd=self.ctx.work)
            buf, rc = [], None
            t0 = last = time.time()
            with selectors.DefaultSelector() as sel:
                sel.register(p.stdout, selectors.EVENT_READ)
                while True:
                    now = time.time()
                    if now - t0 > timeout or now - last > idle:
                        rc = "timeout"
                        p.kill()
                        break
                    if not sel.select(1):
                        continue
                    b = os.read(p.stdout.fileno(), 1 << 20)
                    if not b:
                        break
                    buf.append(b)
                    last = time.time()
            p.stdout.close()
            r = p.wait()
            ferr.seek(0)
            return b"".join(buf).decode(errors="replace").split("\n")[:-1], r if rc is None else rc, ferr.read().decode(errors="replace") if rc is None else ""

    def run(self, lines, timeout=120, one=20):
        """-> list of outputs; a crash or hang of one command yields 'CRASH ...' for that command"""
        res = []
        i = 0
        crashes = 0
        while i < len(lines):
            out, rc, err = self._run(lines[i:], timeout)
            res += out[:len(lines) - i]
            i = len(res)
            if i >= len(lines):
                break
            # command i did not answer
            out, rc1, err1 = self._run([lines[i]], one)
            if out:
                res.append(out[0])
            else:
                why = [l for l in (err1 or "").split("\n") if "ERROR" in l or "runtime error" in l or "Assertion" in l or "terminate" in l]
                res.append("CRASH rc=%s %s" % (rc1, (why or [""])[0][:300]))
                crashes += 2 if rc1 == "timeout" else 1
            i += 1
            if crashes > 5:
                res += ["SKIPPED"] * (len(lines) - i)
                break
        return res


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l[len("finding: property=%s " % pid):])
    return out


def main(prop, pid, tier):
    """prop: module with tasks(ctx)->[Task], replay(ctx, fails)->(list of mismatches, info), meta()"""
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    overall = 760 if tier == "quick" else 6 * 3600
    try:
        rc = _main(prop, ctx, ev, overall)
    finally:
        ctx.close()
    return rc


def _main(prop, ctx, ev, overall):
    pid = ctx.pid
    tasks, build_err = [], None
    try:
        tasks = prop.tasks(ctx)
    except Exception as e:
        build_err = "%s: %s" % (type(e).__name__, str(e)[-2500:])
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    # the replay runs next to the proofs
    import threading
    rep = {"mism": [], "info": {}, "err": None}
    hints = []

    def do_replay():
        try:
            rep["mism"], rep["info"] = prop.replay(ctx, hints)
        except Exception as e:
            rep["err"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-2500:])
    known = load_known(pid)

    def fresh():
        return [m for m in rep["mism"] if not any(m.get("key") and x.startswith(m["key"]) for x in known)]
    do_replay()
    # with a failing input in hand the proofs only add detail: give them a minute
    res = run_tasks(tasks, overall=overall if not fresh() else min(overall, ctx.elapsed() + 60), t0=ctx.t0) if tasks else []
    for r in res:
        hints += r.get("fails", [])
    hints += [r for r in res if r["state"] != "done"]
    if hints and not fresh():
        do_replay()
    fails = [dict(f, task=r["task"]) for r in res for f in r.get("fails", [])]
    uns = [r for r in res if r["state"] != "done"]
    obl = sum(r.get("oblig", 0) for r in res)
    dis = sum(r.get("disch", 0) for r in res)
    meta = prop.meta(ctx)
    empty = [r["task"] for r in res if r["state"] == "done" and not r.get("oblig")]
    if empty:
        uns.append({"task": "vacuity", "state": "unsupported", "why": "no obligations generated by: " + ", ".join(empty)})
    if build_err:
        uns.append({"task": "extraction", "state": "unsupported", "why": build_err})
    viol = None
    knownhit = []
    mism = []
    for m in rep["mism"]:
        k = [x for x in known if m.get("key") and x.startswith(m["key"])]
        if k:
            knownhit.append(k[0])
        else:
            mism.append(m)
    real_fails = [f for f in fails if not any(x.startswith("obligation %s" % f.get("kind")) and x.split(" :: ")[0].endswith(f["task"])
                                              for x in known)]
    level = meta.get("level", "proof")
    status = "proved"
    if mism:
        status = "violated"
    elif real_fails:
        status = "violated-no-input"
    elif uns:
        status = "bounded"
    kinds = {}
    solver = {}
    funcs, trusted, notes = set(), set(), []
    for r in res:
        for k, v in r.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + v
        for k, (n, s) in r.get("solver", {}).items():
            a = solver.setdefault(k, [0, 0.0])
            a[0] += n
            a[1] = round(a[1] + s, 3)
        funcs |= set(r.get("funcs", ()))
        trusted |= set(r.get("trusted", ()))
        notes += r.get("notes", [])
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (pid, ctx.tier),
        "trusted_base": meta.get("trusted_base", []) + sorted(trusted),
        "functions_under_contract": sorted(funcs),
        "obligation_kinds": kinds,
        "back_ends": solver,
        "solver_seconds": round(sum(v[1] for v in solver.values()), 2),
        "tasks": [{k: r.get(k) for k in ("task", "state", "oblig", "disch", "secs", "why") if r.get(k) is not None} for r in res],
        "decision": status,
        "replay_against_compiled_code": dict(rep["info"], error=rep["err"]),
        "extraction": "clang++-18 -O1 -Xclang -disable-llvm-passes from /repo working tree, then opt-18 always-inline of std:: glue + "
                      "sroa/early-cse/simplifycfg/instsimplify; dropped: debug info, attributes, lifetime markers",
    }
    if uns:
        cov["not_proved_this_run"] = [{"task": r["task"], "why": r.get("why", "")[:800]} for r in uns]
        cov["bounded_stand_in"] = "differential run of the compiled code against the reference, sizes and counts in replay_against_compiled_code"
    if notes:
        cov["notes"] = notes[:50]
    if level != "proof":
        cov["evaluations"] = rep["info"].get("cases", 0)
        cov["distinct_nontrivial"] = rep["info"].get("distinct", rep["info"].get("cases", 0))
        cov["rule"] = rep["info"].get("rule", "")
        cov["samples"] = rep["info"].get("samples", [])
    evd = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
           "assumptions": meta.get("assumptions", []), "wall_s": round(ctx.elapsed(), 2),
           "violations": len(mism) if mism else len(real_fails)}
    json.dump(evd, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for r in res:
        print("  %-28s %-12s obligations %s/%s  %.1fs %s" % (r["task"], r["state"], r.get("disch", 0), r.get("oblig", 0), r["secs"] if "secs" in r else 0,
                                                         r.get("why", "")[:160].replace("\n", " ")))
    for f in fails[:12]:
        print("  failed obligation: [%s] %s / %s at %s %s" % (f["status"], f["task"], f["kind"], f["where"][:160], f["detail"][:160]))
    print("  replay: %s %s" % ({k: v for k, v in rep["info"].items() if k in ("cases", "distinct")}, (rep["err"] or "")[-600:]))
    rp = os.path.join(ev, "replay", pid + ".json")
    if status in ("violated", "violated-no-input"):
        json.dump({"property": pid, "failing_inputs": mism[:10], "failed_obligations": fails[:20]}, open(rp, "w"), indent=1)
    if status == "violated":
        m = mism[0]
        print("  failing input: %s" % json.dumps(m)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if status == "violated-no-input":
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    if rep["err"] and (uns or build_err):
        # neither the proof nor the stand-in could be run: no answer
        print("ERROR: no verdict: %s" % rep["err"][-1500:])
        return 2
    if uns:
        for r in uns:
            print("  not proved on this tree (bounded stand-in used): %s: %s" % (r["task"], r.get("why", "")[:300]))
        if obl == 0 and not rep["info"].get("cases"):
            return 2
    print("OK property=%s %s: %d/%d obligations, %.1fs" % (pid, status, dis, obl, ctx.elapsed()))
    return 0
