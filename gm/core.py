"""Run-time monitoring harness.

A check module provides
    PROP, RULE, TOL notes ...
    corpus(tier)          -> list of fixed (hand picked, hostile) cases
    draw(rng, i, tier)    -> one random case (a JSON-able dict)
    COUNT = {"quick": n, "thorough": m}
    run(case, mon)        -> drives the real code and reports to the monitor
The harness forks a pool of workers, executes every case in the real library
(imported from /repo/src) and merges what the monitors observed.
"""
import os, sys, json, time, random, hashlib, signal, traceback, pathlib, math, multiprocessing as mp
import concurrent.futures as cf

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"
REPO_SRC = pathlib.Path("/repo/src/gggears")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Skip(Exception):
    """The case is outside the property's domain (not a verdict)."""


class Timeout(BaseException):
    pass


def jsonable(x, depth=0):
    import numpy as np
    if depth > 14:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size < 60 else repr(x)[:300]
    if isinstance(x, (np.floating,)):
        x = float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Mon:
    """Monitor of one execution: counts observed events, records refutations."""

    def __init__(self):
        self.events = {}
        self.cov = {}
        self.viol = []
        self.worst = {}

    def _ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def cover(self, *labels):
        for l in labels:
            self.cov[l] = self.cov.get(l, 0) + 1

    def fail(self, name, **ctx):
        self._ev(name)
        if len(self.viol) < 8:
            self.viol.append({"monitor": name, **jsonable(ctx)})

    def true(self, name, cond, **ctx):
        self._ev(name)
        ok = bool(cond)
        if not ok and len(self.viol) < 8:
            self.viol.append({"monitor": name, **jsonable(ctx)})
        return ok

    def near(self, name, got, want, tol, **ctx):
        """max |got - want| <= tol, NaN refutes."""
        import numpy as np
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self._ev(name, max(1, int(np.broadcast(got, want).size)) if got.shape == want.shape or want.size == 1 else 1)
        if got.shape != want.shape and want.size != 1:
            self.viol.append({"monitor": name, "error": f"shape {got.shape} != {want.shape}", **jsonable(ctx)})
            return False
        err = np.abs(got - want)
        m = float(np.max(err)) if err.size else 0.0
        if m == m:
            self.worst[name] = max(self.worst.get(name, 0.0), m / tol if tol else 0.0)
        if not (m <= tol):
            if len(self.viol) < 8:
                k = int(np.nanargmax(err)) if np.any(err == err) else 0
                self.viol.append({"monitor": name, "error": m, "tol": tol,
                                  "got": jsonable(got.ravel()[k:k + 3]) if got.size > 12 else jsonable(got),
                                  "want": jsonable(want) if want.size <= 12 else jsonable(want.ravel()[k:k + 3]),
                                  **jsonable(ctx)})
            return False
        return True

    def le(self, name, a, b, **ctx):
        """a <= b everywhere; NaN refutes."""
        import numpy as np
        a = np.asarray(a, dtype=float)
        self._ev(name, max(1, a.size))
        bb = np.broadcast_to(np.asarray(b, dtype=float), a.shape)
        bad = ~(a <= bb)
        if bb.size and np.all(bb > 0):
            self.worst[name] = max(self.worst.get(name, 0.0), float(np.nanmax(a / bb)))
        if np.any(bad):
            if len(self.viol) < 8:
                d = np.where(bad, a - bb, -np.inf)
                k = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
                self.viol.append({"monitor": name, "value": jsonable(a.ravel()[k]), "limit": jsonable(bb.ravel()[k]),
                                  "count": int(bad.sum()), **jsonable(ctx)})
            return False
        return True


_CHECK = None
_CASE_TIMEOUT = 120


def _alarm(signum, frame):
    raise Timeout()


def _exec(idx, case):
    mon = Mon()
    status = "ok"
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, _CASE_TIMEOUT)
    try:
        _CHECK.run(case, mon)
    except Skip as e:
        status = "skip:" + str(e)
    except Timeout:
        status = "timeout"
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # an in-domain call that raises is a refutation
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{pathlib.Path(f.filename).name}:{f.lineno}:{f.name}" for f in tb][-8:]
        mon.viol.append({"monitor": "no_exception", "exception": f"{type(e).__name__}: {e}"[:300], "where": where})
        mon._ev("no_exception")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(idx=idx, status=status, events=mon.events, cov=mon.cov, viol=mon.viol, worst=mon.worst,
                dt=time.time() - t0)


def _worker(args):
    import warnings
    warnings.simplefilter("ignore")
    return _exec(*args)


def case_key(case):
    return hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()


def load_known(prop):
    """Entries 'known: property=<id> monitor=<name> where=<substring> :: <description>'"""
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                head, _, desc = line.partition("::")
                kv = dict(tok.split("=", 1) for tok in head[6:].split() if "=" in tok)
                out.append((kv, desc.strip()))
    return out


def run_pool(cases, nproc, deadline):
    results = {}
    todo = list(range(len(cases)))
    crashed = []
    attempt = 0
    while todo and attempt < 4:
        attempt += 1
        ex = cf.ProcessPoolExecutor(max_workers=nproc if attempt < 3 else 2, mp_context=mp.get_context("fork"))
        pend = {}
        it = iter(todo)
        broken = False
        try:
            done_feeding = False
            while True:
                while not done_feeding and len(pend) < nproc * 3:
                    if time.time() > deadline:
                        done_feeding = True
                        break
                    try:
                        i = next(it)
                    except StopIteration:
                        done_feeding = True
                        break
                    pend[ex.submit(_worker, (i, cases[i]))] = i
                if not pend:
                    break
                done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED, timeout=5)
                for f in done:
                    i = pend.pop(f)
                    try:
                        results[i] = f.result()
                    except cf.process.BrokenProcessPool:
                        broken = True
                if broken:
                    break
        except cf.process.BrokenProcessPool:
            broken = True
        finally:
            ex.shutdown(wait=not broken, cancel_futures=True)
        if not broken:
            break
        # a native crash took the pool down: find the culprit among the pending cases
        suspects = list(pend.values())
        suspects = [i for i in suspects if i not in results]
        for i in suspects[: 3 * nproc]:
            r = run_isolated(i, cases[i])
            if r is None:
                crashed.append(i)
                results[i] = dict(idx=i, status="ok", events={"no_crash": 1}, cov={}, worst={}, dt=0,
                                  viol=[{"monitor": "no_crash", "error": "the process died while executing this case"}])
            else:
                results[i] = r
        todo = [i for i in todo if i not in results]
        if time.time() > deadline:
            break
    return results


def _iso(q, i, case):
    q.put(_worker((i, case)))


def run_isolated(i, case):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_iso, args=(q, i, case))
    p.start()
    t0 = time.time()
    r = None
    while time.time() - t0 < _CASE_TIMEOUT + 20:
        try:
            r = q.get(timeout=0.5)
            break
        except Exception:
            if not p.is_alive():
                break
    p.join(1)
    if p.is_alive():
        p.kill()
        if r is None:
            return dict(idx=i, status="timeout", events={}, cov={}, viol=[], worst={}, dt=_CASE_TIMEOUT)
    return r


def main(check, argv):
    global _CHECK, _CASE_TIMEOUT
    _CHECK = check
    prop = check.PROP
    _CASE_TIMEOUT = getattr(check, "CASE_TIMEOUT", 120)
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    import gggears
    src = pathlib.Path(gggears.__file__).resolve().parent
    if src != REPO_SRC:
        print(f"ERROR: gggears imported from {src}, not from {REPO_SRC}")
        return 2
    if "--replay" in argv:
        rep = json.loads(pathlib.Path(argv[argv.index("--replay") + 1]).read_text())
        r = _exec(0, rep["case"])
        print(json.dumps(r, indent=1))
        return 1 if r["viol"] else 0
    cases = []
    seen = set()
    for c in check.corpus(TIER):
        c = jsonable(c)
        k = case_key(c)
        if k not in seen:
            seen.add(k)
            cases.append(c)
    ncorp = len(cases)
    n = check.COUNT[TIER]
    for i in range(n):
        rng = random.Random(f"{prop}:{SEED}:{i}")
        c = jsonable(check.draw(rng, i, TIER))
        k = case_key(c)
        if k not in seen:
            seen.add(k)
            cases.append(c)
    nproc = len(os.sched_getaffinity(0)) or 1
    budget = float(os.environ.get("VERIF_BUDGET", "0") or 0) or (420 if TIER == "quick" else 3000)
    results = run_pool(cases, min(nproc, 8), t0 + budget)
    events, cov, worst, skips = {}, {}, {}, {}
    viols = []
    ntime = ok = nontriv = 0
    for i in sorted(results):
        r = results[i]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["cov"].items():
            cov[k] = cov.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        if r["status"].startswith("skip"):
            skips[r["status"]] = skips.get(r["status"], 0) + 1
        elif r["status"] == "timeout":
            ntime += 1
        else:
            ok += 1
            if r["events"]:
                nontriv += 1
        for v in r["viol"]:
            viols.append((i, v))
    known = load_known(prop)
    hit_known, new = {}, []
    for i, v in viols:
        blob = json.dumps(v)
        for kv, desc in known:
            if kv.get("monitor") == v["monitor"] and kv.get("where", "") in blob:
                hit_known[desc] = hit_known.get(desc, 0) + 1
                break
        else:
            new.append((i, v))
    EVID.mkdir(exist_ok=True)
    for f in EVID.glob(f"replay-{prop}-*.json"):
        f.unlink()
    printed = {}
    for i, v in new:
        m = v["monitor"]
        if m in printed:
            printed[m][1] += 1
            continue
        path = EVID / f"replay-{prop}-{len(printed)}.json"
        path.write_text(json.dumps({"property": prop, "seed": SEED, "tier": TIER, "case": cases[i], "violation": v}, indent=1))
        printed[m] = [path, 1, v]
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": nontriv,
            "rule": check.RULE,
            "samples": [cases[i] for i in sorted(results)[:2]] + [cases[i] for i in sorted(results)[ncorp:ncorp + 3]],
            "monitor_events": events,
            "situations_seen": cov,
            "worst_error_over_tolerance": {k: round(v, 6) for k, v in worst.items()},
            "corpus_cases": ncorp, "random_cases": len(cases) - ncorp,
            "outside_domain": skips, "inconclusive_timeouts": ntime,
            "not_run_budget": len(cases) - len(results),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "known_findings_hit": hit_known,
        "assumptions": getattr(check, "ASSUME", ["numpy/scipy/shapely/OpenCASCADE arithmetic", "verdict covers only the executions listed"]),
    }
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for d in hit_known:
        print(f"KNOWN-FINDING: property={prop} {d}")
    total_ev = sum(events.values())
    print(f"{prop} [{TIER} seed={SEED}] cases={len(results)}/{len(cases)} nontrivial={nontriv} events={total_ev} "
          f"skipped={sum(skips.values())} timeouts={ntime} violations={len(new)} wall={ev['wall_s']}s")
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps({k: v for k, v in ev["coverage"].items() if k not in ("samples", "rule")}))
        print("slowest:", sorted(((round(r["dt"], 2), i, json.dumps(cases[i])[:150]) for i, r in results.items()), reverse=True)[:4])
    if new:
        for m, (path, cnt, v) in printed.items():
            print(f"VIOLATION property={prop} replay={path} monitor={m} count={cnt} {json.dumps(v)[:400]}")
        return 1
    need = getattr(check, "REQUIRED", [])
    missing = [m for m in need if not events.get(m) and not cov.get(m)]
    if not nontriv or missing:
        print(f"INCONCLUSIVE: monitors observed nothing ({missing})")
        return 2
    if ntime > max(3, 0.1 * len(results)):
        print("INCONCLUSIVE: too many cases timed out")
        return 2
    return 0
