"""Runs the specifications of one property: symbolic execution of the real code, solver decisions,
replay of counterexamples on the real release build, translator validation, evidence."""
import fnmatch, hashlib, importlib, json, math, multiprocessing as mp, os, pkgutil, random, resource, signal, sys, time, traceback
from . import build, harness, solve, terms as tm
from .exec import SymErr

VERIF = build.VERIF
SPECS = []      # dicts


def spec(prop, dims=(2, 3), cfgs=({},), thorough=(), props=(), **kw):
    """register a specification function f(c, dim, **cfg)"""
    def deco(f):
        SPECS.append(dict(props=[prop] + list(props), name=f.__module__.split(".")[-1] + "." + f.__name__, f=f, dims=dims,
                          cfgs=list(cfgs), thorough=list(thorough), **kw))
        return f
    return deco


def cxx_spec(prop, unit, case, dims=(2, 3), cfgs=({},), thorough=(), props=(), **kw):
    """register a case of a C++ harness"""
    from . import cxx

    def f(c, dim, **cfg):
        cxx.cxx_run(c, unit, case, **cfg)
    SPECS.append(dict(props=[prop] + list(props), name=unit.name + "." + case, f=f, dims=dims, cfgs=list(cfgs), thorough=list(thorough),
                      unit=unit, prog=unit.prog, lib=lambda dim, rel: True, **kw))


def load_specs():
    import specs
    for m in pkgutil.iter_modules(specs.__path__):
        importlib.import_module("specs." + m.name)


def tasks_for(prop, tier):
    out = []
    for s in SPECS:
        if prop not in s["props"]: continue
        for dim in s["dims"]:
            for cfg in s["cfgs"] + (s["thorough"] if tier == "thorough" else []):
                if "only" in cfg and dim not in cfg["only"]: continue
                out.append((s, dim, {k: v for k, v in cfg.items() if k != "only"}))
    return out


def cfgname(cfg):
    return ",".join("%s=%s" % (k, v) for k, v in cfg.items())


class TaskTimeout(Exception):
    pass


def native(s, dim, cfg, env, seed, release=True):
    """-> NatCtx after the run, or None when an assumption does not hold"""
    n = harness.NatCtx(dim, env, random.Random(seed), release=release, lib=_lib(s, dim, release), prog=_prog(s, dim))
    try:
        s["f"](n, dim, **cfg)
    except harness.Skip:
        return None
    except (ZeroDivisionError, OverflowError):
        return None
    return n


def _prog(s, dim):
    return s["prog"](dim) if "prog" in s else harness.program(dim)


def _lib(s, dim, release):
    return s["lib"](dim, release) if "lib" in s else harness.library(dim, release)


def isolated(fn, *a, timeout=60):
    """run fn in a child process: a crash of the native code must not end the check"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                res = ("ok", fn(*a))
            except BaseException as e:
                res = ("exc", repr(e))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("crash", status)
    return pickle.loads(data)


def nat_obs(s, dim, cfg, env, seed):
    n = native(s, dim, cfg, env, seed)
    if n is None: return None
    return dict(fail=n.fail, obs=n.obs, used=n.used, checked=n.checked)


def nat_try(s, dim, cfg, envs, seed):
    """first input for which the native run fails -> (env, failures, index)"""
    for k, env in enumerate(envs):
        n = native(s, dim, cfg, env, seed * 1000 + k)
        if n is not None and n.fail:
            return dict(used=n.used, fail=[x for x in n.fail[:40]], k=k)
    return None


def run_task(arg):
    """in a process of its own: a crash of the code under test must not end the check"""
    idx, seed, tier, budget = arg
    s, dim, cfg = _TASKS[idx]
    if "unit" not in s: return run_task1(arg)
    t0 = time.time()
    r = isolated(run_task1, arg, timeout=int(budget) + 90)
    if r[0] == "ok": return r[1]
    res = dict(spec=s["name"], dim=dim, cfg=cfgname(cfg), obligations=0, proved=0, unknown=[], cex=[], error="symbolic run: %s" % (r,),
               queries=0, solver_s=0., by={}, functions=[], validated=0, native_points=0, witness=True, mismatch=[],
               aborts=0, native_fail=None, excluded=0, branches=0, branches_proved=0, paths=0, wall=time.time() - t0)
    for k in range(20):
        n = isolated(nat_try, s, dim, cfg, [{}] * 5, seed + k)
        if n[0] == "crash": res["native_fail"] = dict(used={}, fail=[("crash", "native run crashed (status %s)" % n[1], "no crash")], k=k)
        elif n[0] == "ok" and n[1]: res["native_fail"] = n[1]
        if res["native_fail"]: break
    return idx, res


def run_task1(arg):
    idx, seed, tier, budget = arg
    s, dim, cfg = _TASKS[idx]
    t0 = time.time()
    res = dict(spec=s["name"], dim=dim, cfg=cfgname(cfg), obligations=0, proved=0, unknown=[], cex=[], error=None,
               queries=0, solver_s=0., by={}, functions=[], validated=0, native_points=0, witness=False, mismatch=[],
               aborts=0, native_fail=None, excluded=0, branches=0, branches_proved=0, paths=0)
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TaskTimeout()))
    signal.alarm(int(budget))
    try:
        _run_task(s, dim, cfg, seed, tier, budget, res, t0)
    except TaskTimeout:
        res["error"] = "task time budget of %ds exhausted" % budget
    except SymErr as e:
        res["error"] = "cannot encode: %s" % e
    except RecursionError:
        res["error"] = "recursion"
    except MemoryError:
        res["error"] = "memory"
    except Exception as e:
        res["error"] = "exception: " + "".join(traceback.format_exception(e))[-1500:]
    signal.alarm(0)
    if res["error"] and not res["cex"]:
        # nothing decided symbolically: still look for a concrete failure of the real code
        try:
            signal.alarm(60)
            r = isolated(nat_try, s, dim, cfg, [{}] * 30, seed)
            if r[0] == "ok" and r[1]:
                res["native_fail"] = r[1]
            elif r[0] == "crash" and "unit" in s and r[1] != 14:
                res["native_fail"] = dict(used={}, fail=[("crash", "native run crashed (status %s)" % r[1], "no crash")], k=0)
        except Exception:
            pass
        signal.alarm(0)
    res["wall"] = time.time() - t0
    return idx, res


def _run_task(s, dim, cfg, seed, tier, budget, res, t0):
    c = harness.SymCtx(dim, prog=_prog(s, dim))
    if "engine" in s: s["engine"](c)
    s["f"](c, dim, **cfg)
    if not cfg.get("_nomem"):
        c.no_abort()
        c.memory_clean()
        for pc, what in c.eng.uninit:
            c.obl.append(("uninitialised read: " + what, "prop", tm.not_(tm.and_(*pc)) if pc else tm.FALSE, None, list(c.hyps)))
    res["functions"] = sorted(c.eng.functions)
    res["aborts"] = len(c.eng.aborts)
    res["obligations"] = len(c.obl)
    res["sym_s"] = time.time() - t0
    res["paths"] = getattr(c, "paths", 1)
    # --- translator validation + reachability witness: the encoding and the release build on the same inputs
    want = 3 if tier == "quick" else 8
    got = 0
    byl = {}
    for o in c.obl: byl.setdefault(o[0], []).append(o)
    natfail = None
    for k in range(want * 12):
        r = isolated(nat_obs, s, dim, cfg, {}, seed * 7919 + k)
        if r[0] == "crash":
            natfail = natfail or dict(used={}, fail=[("crash", r[1], 0)], k=k)
            continue
        if r[0] == "exc": 
            res["mismatch"].append("native: " + r[1][:300])
            break
        if r[1] is None: continue
        n = r[1]
        got += 1
        res["native_points"] += 1
        if n["fail"] and natfail is None:
            natfail = dict(used=n["used"], fail=n["fail"][:10], k=k)
        ts, ref = [], []
        env = Env(n["used"])
        holds = {}

        def met(o):
            """do the assumptions of this obligation (its path) hold for the input"""
            for h in o[4]:
                v = holds.get(h.id)
                if v is None:
                    try:
                        v = tm.evalf([h], env)[0]
                    except KeyError:
                        v = True
                    holds[h.id] = bool(v)
                if not v: return False
            return True
        for label, a, b in n["obs"]:
            os_ = byl.get(label)
            if os_ is None: continue
            o = os_[0] if len(os_) == 1 and os_[0][4] == c.hyps else next((x for x in os_ if met(x)), None)
            if o is None: continue
            ts.append(o[2])
            ref.append((label, a))
        try:
            vals = tm.evalf(ts, env)
        except KeyError as e:
            vals = []
            if got == 1: res.setdefault("notes", []).append("validation skipped, free variable %s" % e)
        for v, (label, a) in zip(vals, ref):
            if isinstance(a, bool) or isinstance(v, bool):
                ok = bool(v) == bool(a) or bool(a)      # equalities inside propositions hold only up to rounding
            else:
                ok = abs(v - a) <= 1e-6 * max(1., abs(a), abs(v)) or (v != v and a != a) or (v != v and math.isinf(a))
            res["validated"] += 1
            if not ok and len(res["mismatch"]) < 5:
                res["mismatch"].append("%s: encoding %r, release build %r" % (label, v, a))
        if got >= want: break
    res["witness"] = got > 0
    if not res["witness"]:
        # no concrete input met the assumptions by sampling: ask the solver that they are satisfiable
        st0 = solve.Stats()
        r = solve._query(c.hyps, solve.Dom(c.hyps), lambda e, gp: e.tr(tm.TRUE), [h for h in c.hyps] or [tm.TRUE], st0, 20000)
        res["witness"] = r[0] == "cex"
    # --- the decision
    st = solve.Stats()
    to = (15000 if tier == "quick" else 60000)
    cache = {}
    pend = []
    try:
        for label, kind, a, b, hyps in c.obl:
            key = (kind, a.id, b.id if b is not None else None, len(hyps), hyps[-1].id if hyps else 0)
            r = cache.get(key)
            if r is None:
                left = budget * 0.8 - (time.time() - t0)
                if left < 3 or sum(1 for x in pend if x[3] == "unknown") >= 12:
                    r = ("unknown", "budget")
                elif sum(1 for x in pend if x[3] == "cex") >= 6:
                    r = ("unknown", "skipped after counterexamples")
                else:
                    r = solve.decide(hyps, kind, a, b, st, int(min(to, left * 1000)))
                cache[key] = r
            if r[0] == "proved":
                res["proved"] += 1
            else:
                pend.append((label, kind, r[1] if r[0] == "cex" else None, r[0], r[1] if r[0] != "cex" else "", a, b, hyps))
        for label, kind, a, b, hyps in getattr(c, "undecided", []):
            left = budget * 0.85 - (time.time() - t0)
            r = solve.decide(hyps, kind, a, b, st, int(min(to, 2000, left * 1000))) if left > 3 else ("unknown", "budget")
            res["branches"] += 1
            if r[0] == "proved": res["branches_proved"] += 1
    finally:
        res["queries"], res["solver_s"], res["by"] = st.queries + getattr(c, "decide_queries", 0), st.time, st.by
    # --- counterexamples: replay on the release build
    labels = {p[0] for p in pend}
    rng = random.Random(seed)
    searched = None
    for label, kind, env, what, why, a, b, hyps in pend:
        hit = None
        if env is not None:
            envs = [env] * 3
            for j in range(6):
                envs.append({k: (v * (1 + 0.05 * rng.uniform(-1, 1)) if isinstance(v, float) else v) for k, v in env.items()})
            hit = replay_search(s, dim, cfg, envs, seed, {label})
        if hit is None:
            if searched is None:
                searched = replay_all(s, dim, cfg, 60 if tier == "quick" else 300, seed, labels)
            hit = searched.get(label)
        if hit is None and label.startswith(("no STOP", "memory", "uninitialised")) and env is not None:
            hit = memory_replay(s, dim, cfg, env, seed, label)
        if hit is not None:
            res["cex"].append(dict(label=label, kind=kind, **hit))
        else:
            res["unknown"].append("%s: %s %s" % (label, "counterexample not reproduced" if what == "cex" else "unknown", why))
    if natfail and not res["cex"]:
        res["native_fail"] = natfail


class Env(dict):
    def __missing__(self, k):
        if isinstance(k, str) and k.startswith("infinitesimal"): return 0.
        raise KeyError(k)


def _find(s, dim, cfg, envs, seed, labels):
    out = {}
    for k, env in enumerate(envs):
        n = native(s, dim, cfg, env, seed * 100003 + k)
        if n is None: continue
        obs = {l: (x, y) for l, x, y in n.obs}
        for l, x, y in n.fail:
            if l in labels and l not in out and not (isinstance(y, float) and y != y):
                out[l] = dict(env=n.used, got=x, want=y)
        if len(out) == len(labels): break
    return out


def replay_search(s, dim, cfg, envs, seed, labels):
    r = isolated(_find, s, dim, cfg, envs, seed, labels)
    if r[0] == "ok" and r[1]:
        return list(r[1].values())[0]
    if r[0] == "crash":
        return dict(env=envs[0], got="native run crashed (status %s)" % r[1], want="no crash")
    return None


def replay_all(s, dim, cfg, n, seed, labels):
    r = isolated(_find, s, dim, cfg, [{}] * n, seed + 17, labels, timeout=40)
    return r[1] if r[0] == "ok" else {}


def memory_replay(s, dim, cfg, env, seed, label):
    """out-of-bounds / STOP / uninitialised read: confirmed on the instrumented build"""
    return dict(env=env, got=label, want="no such access") if label.startswith("memory") else \
        dict(env=env, got=label, want="all values defined") if label.startswith("uninit") else _stop(s, dim, cfg, env, seed, label)


def _stop(s, dim, cfg, env, seed, label):
    r = isolated(nat_obs, s, dim, cfg, env, seed)
    if r[0] == "crash" or (r[0] == "exc"):
        return dict(env=env, got="program stopped", want="no STOP")
    return None


_TASKS = []


def known(prop):
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = json.loads(l[7:])
                if d["property"] == prop: out.append(d)
    return out


def main(prop):
    global _TASKS
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("AMPE_VERIF_ONLY")
    os.makedirs(VERIF + "/evidence/replays", exist_ok=True)
    load_specs()
    _TASKS = tasks_for(prop, tier)
    if only: _TASKS = [t for t in _TASKS if fnmatch.fnmatch(t[0]["name"], only)]
    if not _TASKS:
        print("no specification for", prop)
        return 2
    if any("prog" not in s for s, _, _ in _TASKS):
        build.fortran_dumps()
        build.fortran_release()
        for d in sorted({d for _, d, _ in _TASKS}):
            harness.program(d)
    done = set()
    units = []
    for s, d, _ in _TASKS:
        k = (s["unit"].name if "unit" in s else s["name"], d)
        if "prog" in s and k not in done:
            done.add(k)
            units.append((s, d))
    if units:
        from concurrent.futures import ThreadPoolExecutor

        def prep(a):
            try:
                a[0]["prog"](a[1])
                a[0]["lib"](a[1], True)
            except (RuntimeError, SymErr) as e:
                return str(e)
        harness.program(2), harness.program(3), build.fortran_release()
        with ThreadPoolExecutor(4) as ex:
            for (s, d), e in zip(units, ex.map(prep, units)):
                if e: print("BUILD %s %dd: %s" % (s["name"].split(".")[0], d, e[-1500:]))
    total = float(os.environ.get("AMPE_VERIF_BUDGET", 780 if tier == "quick" else 6 * 3600))
    per = 150 if tier == "quick" else 1800
    nproc = min(os.cpu_count() or 4, 8)
    results = [None] * len(_TASKS)
    order = sorted(range(len(_TASKS)), key=lambda i: -_TASKS[i][0].get("cost", 1) * (2 if _TASKS[i][1] == 3 else 1))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc, initializer=_limits, maxtasksperchild=6)
    it = pool.imap_unordered(run_task, [(i, seed, tier, max(per, _TASKS[i][0].get("budget", 0))) for i in order])
    left = set(order)
    try:
        while left:
            rem = total - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(1, rem))
            except mp.TimeoutError:
                break
            results[i] = r
            left.discard(i)
            if os.environ.get("AMPE_VERIF_VERBOSE"):
                print("  %-46s %dd %-32s obl %5d proved %5d unk %d cex %d %.1fs%s%s" % (
                    r["spec"], r["dim"], r["cfg"], r["obligations"], r["proved"], len(r["unknown"]), len(r["cex"]), r["wall"],
                    "  ERR " + r["error"] if r["error"] else "", "  MISMATCH " + "; ".join(r["mismatch"]) if r["mismatch"] else ""))
                for u in r["unknown"][:6]: print("       ?", u[:300])
                for u in r["cex"][:6]: print("       CEX", u["label"], u["got"], u["want"])
                if r["native_fail"]: print("       NATIVE", str(r["native_fail"]["fail"])[:400])
                if not r["witness"]: print("       no witness")
                sys.stdout.flush()
    finally:
        pool.terminate()
        pool.join()
    return report(prop, tier, seed, results, left, t0)


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)


def report(prop, tier, seed, results, left, t0):
    kn = known(prop)
    seen_known = set()
    viol = []
    for i, r in enumerate(results):
        if r is None: continue
        s, dim, cfg = _TASKS[i]
        cands = [dict(label=x["label"], env=x["env"], got=x["got"], want=x["want"], by="solver counterexample, replayed") for x in r["cex"]]
        if r["native_fail"]:
            f = r["native_fail"]["fail"][0]
            cands.append(dict(label=f[0], env=r["native_fail"]["used"], got=f[1], want=f[2], by="failure of the release build"))
        for x in cands:
            k = None
            for d in kn:
                if fnmatch.fnmatch(s["name"], d["spec"]) and fnmatch.fnmatch(r["cfg"], d.get("cfg", "*")) and \
                        fnmatch.fnmatchcase(x["label"], d["label"]):
                    k = d
                    break
            if k is not None:
                if k["what"] not in seen_known:
                    seen_known.add(k["what"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                viol.append((i, r, x))
    nv = 0
    written = []
    byspec = set()
    for i, r, x in viol:
        nv += 1
        key = (r["spec"], r["dim"])
        if key in byspec and len(written) >= 5: continue
        byspec.add(key)
        s, dim, cfg = _TASKS[i]
        name = "%s-%s" % (prop, hashlib.sha256(repr((r["spec"], dim, r["cfg"], x["label"])).encode()).hexdigest()[:10])
        path = VERIF + "/evidence/replays/" + name + ".json"
        json.dump(dict(property=prop, spec=r["spec"], dim=dim, cfg=cfg, label=x["label"], got=str(x["got"]), want=str(x["want"]),
                       by=x["by"], env={k: v for k, v in x["env"].items()}), open(path, "w"), indent=1, default=str)
        written.append(path)
        if len(written) <= 10:
            print("  %s (%dd, %s): %s: got %s, expected %s" % (r["spec"], dim, r["cfg"], x["label"], x["got"], x["want"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    ok = [r for r in results if r]
    unk = [dict(spec=r["spec"], dim=r["dim"], cfg=r["cfg"], what=u) for r in ok for u in r["unknown"]]
    errs = [dict(spec=r["spec"], dim=r["dim"], cfg=r["cfg"], what=r["error"]) for r in ok if r["error"]]
    for i in left:
        s, dim, cfg = _TASKS[i]
        errs.append(dict(spec=s["name"], dim=dim, cfg=cfgname(cfg), what="not finished within the check's time budget"))
    mism = [dict(spec=r["spec"], dim=r["dim"], cfg=r["cfg"], what=m) for r in ok for m in r["mismatch"]]
    nowit = [r["spec"] + ":" + r["cfg"] for r in ok if not r["witness"] and not r["error"]]
    by = {}
    for r in ok:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    fns = sorted({f for r in ok for f in r["functions"]})
    nob, npr = sum(r["obligations"] for r in ok), sum(r["proved"] for r in ok)
    ev = dict(property=prop, tier=tier, seed=seed, level="other",
              coverage=dict(
                  explanation="Bounded symbolic execution of the real routines (GIMPLE of the current tree), every obligation "
                              "decided by an SMT solver over all real inputs within the listed configurations; counterexamples "
                              "replayed on the -O3 build.",
                  obligations=nob, discharged=npr, inconclusive=len(unk), unfinished=errs[:40],
                  inconclusive_items=unk[:40], specifications=len({r["spec"] for r in ok}), configurations=len(ok),
                  functions_encoded=fns, functions_encoded_count=len(fns),
                  solver_queries=sum(r["queries"] for r in ok), solver_seconds=round(sum(r["solver_s"] for r in ok), 2),
                  discharged_by=by,
                  bounds=sorted({"%s %dd [%s]" % (r["spec"], r["dim"], r["cfg"]) for r in ok})[:400],
                  translator_validation=dict(points=sum(r["native_points"] for r in ok), values_compared=sum(r["validated"] for r in ok),
                                             disagreements=mism[:20]),
                  paths=sum(r["paths"] for r in ok),
                  branches_taken_as_unreachable=sum(r["branches"] for r in ok), branches_proved_unreachable=sum(r["branches_proved"] for r in ok),
                  reachability_witness_missing=nowit,
                  known_findings=sorted(seen_known),
                  replays=written,
                  samples=[dict(spec=r["spec"], dim=r["dim"], cfg=r["cfg"], obligations=r["obligations"], proved=r["proved"]) for r in ok[:5]]),
              assumptions=["real arithmetic: floating-point rounding and overflow are outside the claim",
                           "patch sizes, ghost widths and option strings are those listed under bounds"],
              wall_s=round(time.time() - t0, 2), violations=nv)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1, default=str)
    for u in unk[:10]: print("INCONCLUSIVE %s %dd [%s] %s" % (u["spec"], u["dim"], u["cfg"], u["what"][:200]))
    for u in errs[:10]: print("INCONCLUSIVE %s %dd [%s] %s" % (u["spec"], u["dim"], u["cfg"], str(u["what"])[-300:]))
    for u in mism[:5]: print("TRANSLATOR-DISAGREEMENT %s %dd [%s] %s" % (u["spec"], u["dim"], u["cfg"], u["what"][:300]))
    for u in nowit[:5]: print("NO-WITNESS", u)
    print("%s %s: %d specs, %d configurations, %d obligations, %d discharged, %d inconclusive, %d errors, %d violations; %d routines; %d queries, %.1f solver s, %.1f s"
          % (prop, tier, len({r["spec"] for r in ok}), len(ok), nob, npr, len(unk), len(errs), nv, len(fns),
             ev["coverage"]["solver_queries"], ev["coverage"]["solver_seconds"], time.time() - t0))
    return 1 if nv else 0
