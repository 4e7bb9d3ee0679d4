"""Verdict discipline shared by every check: deterministic cases, forked
workers, observation counters, violation records with replays, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import select
import signal
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Stop(Exception):
    """The case cannot usefully continue (a violation was recorded)."""


class Inconclusive(Exception):
    """The oracle could not decide this case (e.g. every solver gave up)."""


class CaseTimeout(BaseException):
    """The case used up its (very generous) CPU budget."""


def crc(s):
    return zlib.crc32(s.encode())


def _short(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return f"array{x.shape}:" + np.array2string(
                x.ravel()[:8], precision=17, separator=","
            )
        return np.array2string(x, precision=17, separator=",", max_line_width=10**6)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (list, tuple)) and depth < 3:
        return "[" + ",".join(_short(y, depth + 1) for y in list(x)[:24]) + "]"
    if isinstance(x, dict) and depth < 3:
        return "{" + ",".join(f"{k}:{_short(v, depth + 1)}" for k, v in x.items()) + "}"
    s = repr(x)
    return s if len(s) < 600 else s[:600] + "..."


class Case:
    """One generated scenario; the property code reports to it."""

    def __init__(self, prop, group, index, tier, seed):
        self.prop, self.group, self.index = prop, group, index
        self.tier, self.seed = tier, seed
        self.rng = np.random.default_rng([seed, crc(prop), crc(group), index])
        self.obs = {}
        self.viol = []
        self.desc = []
        self.inconclusive = None
        self.nontrivial = False
        self.excuse = None

    # -- reporting -------------------------------------------------------
    def say(self, **kw):
        """Describe the case (goes into its fingerprint and the samples)."""
        for k, v in kw.items():
            self.desc.append(f"{k}={_short(v)}")

    def seen(self, what, n=1):
        """The oracle judged ``n`` observations of kind ``what``."""
        if n:
            self.obs[what] = self.obs.get(what, 0) + int(n)
            self.nontrivial = True

    def fail(self, tag, mech=None, /, **detail):
        if mech is None and self.excuse is not None:
            mech = self.excuse()  # is it a recorded finding at work?
        if len(self.viol) < 8:
            self.viol.append(
                dict(tag=tag, mech=mech, detail={k: _short(v) for k, v in detail.items()})
            )

    def check(self, ok, tag, /, n=1, mech=None, **detail):
        """Record one oracle decision."""
        self.seen(tag, n)
        if not bool(ok):
            self.fail(tag, mech, **detail)
            return False
        return True

    def close(self, a, b, tag, /, tol=1e-9, scale=None, n=1, **detail):
        """Oracle: two arrays agree to ``tol`` relative to ``scale`` (which may be an array)."""
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except Exception:
            self.seen(tag)
            self.fail(tag, got=a, want=b, why="not numeric", **detail)
            return False
        if a.shape != b.shape:
            self.seen(tag)
            self.fail(tag, got=a, want=b, why=f"shape {a.shape} != {b.shape}", **detail)
            return False
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
        err = float(np.max(np.abs(a - b))) if b.size else 0.0
        return self.check(
            bool(np.all(np.abs(a - b) <= tol * np.asarray(scale))), tag, n=n, got=a, want=b, err=err, **detail
        )

    def call(self, fn, *args, **kw):
        """Call the library: an exception it has no business raising is a
        violation of the property whose valid input provoked it."""
        try:
            return fn(*args, **kw)
        except (CaseTimeout, Stop, Inconclusive):
            raise
        except BaseException as e:  # noqa
            if type(e).__name__ in ("SolverError", "PanicException"):
                raise Inconclusive(f"solver: {e}")
            if isinstance(e, RuntimeError) and "inconsistency" in str(e):
                raise Inconclusive(f"cdd: {e}")
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-3:]
            name = getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn)))
            self.seen("calls that must succeed")
            self.fail("unexpected exception", call=name, error=f"{type(e).__name__}: {e}", at=where)
            raise Stop()

    def raises(self, exc, fn, *args, tag="invalid input is refused", **kw):
        """Oracle: the call must raise one of ``exc``."""
        self.seen(tag)
        try:
            r = fn(*args, **kw)
        except exc:
            return True
        except (CaseTimeout,):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if type(e).__name__ == "PanicException":
                raise Inconclusive(f"solver: {e}")
            if isinstance(e, RuntimeError) and "inconsistency" in str(e):
                raise Inconclusive(f"cdd: {e}")
            self.fail(tag, got=f"{type(e).__name__}: {e}", want=str(exc))
            return False
        self.fail(tag, got=r, want=str(exc))
        return False


class Group:
    def __init__(self, name, fn, quick, thorough, cpu):
        self.name, self.fn, self.quick, self.thorough, self.cpu = name, fn, quick, thorough, cpu


class Prop:
    """A property: a set of scenario groups."""

    def __init__(self, pid, rule, technique, note, assumptions=(), min_conclusive=0.8):
        self.pid, self.rule = pid, rule
        self.technique, self.note = technique, note
        self.assumptions = list(assumptions)
        self.groups = {}
        self.min_conclusive = min_conclusive
        self.setup = None

    def group(self, quick, thorough, cpu=120, name=None):
        def deco(fn):
            g = Group(name or fn.__name__, fn, quick, thorough, cpu)
            self.groups[g.name] = g
            return fn

        return deco


# -- worker -------------------------------------------------------------------


def _alarm(sig, frame):
    raise CaseTimeout()


def run_case(prop, g, index, tier, seed):
    c = Case(prop.pid, g.name, index, tier, seed)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, g.cpu)
    try:
        g.fn(c, c.rng, index)
    except Stop:
        pass
    except Inconclusive as e:
        c.inconclusive = str(e)
    except CaseTimeout:
        c.seen("cases ended within the CPU budget")
        c.fail("no answer within the CPU budget", budget_s=g.cpu)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if type(e).__name__ in ("SolverError", "PanicException"):
            c.inconclusive = f"solver: {e}"
        elif isinstance(e, RuntimeError) and "inconsistency" in str(e):
            # cdd refuses ill-conditioned floating-point input out loud
            c.inconclusive = f"cdd: {e}"
        else:
            # valid inputs only: an exception out of the library, or a result
            # so malformed that the oracle cannot even read it
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-5:]
            c.seen("cases that must complete")
            c.fail("unexpected exception or unreadable result",
                   error=f"{type(e).__name__}: {e}", at=where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return c


def _case_result(c):
    h = hashlib.sha1("|".join(c.desc).encode()).hexdigest()[:16]
    return dict(
        group=c.group, index=c.index, obs=c.obs, viol=c.viol, fp=h,
        inc=c.inconclusive, nt=c.nontrivial,
        desc="; ".join(c.desc)[:1500] if (c.index < 2 or c.viol) else None,
    )


def _worker(prop, g, idxs, tier, seed, conn):
    from . import hooks

    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    err = None
    try:
        hooks.install()
        for i in idxs:
            conn.send(("start", i))
            hooks.reset()
            c = run_case(prop, g, i, tier, seed)
            conn.send(("done", _case_result(c)))
        conn.send(("end", hooks.counts()))
    except BaseException:
        err = traceback.format_exc()
        conn.send(("harness", err))
    finally:
        conn.close()
        os._exit(0)


def run(pid, tier, seed, only=None):
    t0 = time.time()
    mod = importlib.import_module(f"vf.props.{pid}")
    prop = mod.P
    from . import hooks  # noqa: F401  (imports rigeo once, before forking)

    ncpu = max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    jobs = []
    for g in prop.groups.values():
        n = g.thorough if tier == "thorough" else g.quick
        if only and g.name not in only:
            continue
        chunk = max(1, min(200, -(-n // (ncpu * (2 if tier != "thorough" else 6)))))
        for s in range(0, n, chunk):
            jobs.append((g, list(range(s, min(n, s + chunk)))))
    # interleave so that long groups start early
    jobs.sort(key=lambda j: -j[0].cpu * len(j[1]))
    budget = 840 if tier != "thorough" else float(os.environ.get("VERIF_BUDGET_S", 3000))
    running = {}
    results, harness_err, events = [], [], {}
    skipped = 0
    while jobs or running:
        while jobs and len(running) < ncpu:
            g, idxs = jobs.pop(0)
            if time.time() - t0 > budget:
                skipped += len(idxs)
                continue
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(prop, g, idxs, tier, seed, b))
            p.start()
            b.close()
            running[a] = dict(p=p, g=g, idxs=idxs, cur=None, done=0, t=time.time(), ended=False)
        if not running:
            break
        ready = select.select(list(running), [], [], 1.0)[0]
        for a in ready:
            st = running[a]
            try:
                kind, val = a.recv()
            except (EOFError, OSError):
                st["p"].join()
                code = st["p"].exitcode
                del running[a]
                a.close()
                if not st["ended"]:
                    if st["cur"] is None:
                        harness_err.append(f"worker for {st['g'].name} died at start ({code})")
                        continue
                    # the process died inside a case: memory limit or a crash
                    results.append(dict(
                        group=st["g"].name, index=st["cur"], obs={"calls that must return": 1},
                        viol=[dict(tag="the process died during the case", mech=None,
                                   detail=dict(exitcode=str(code)))],
                        fp=f"crash{st['cur']}", inc=None, nt=True, desc="crash"))
                    rest = st["idxs"][st["done"] + 1:]
                    if rest:
                        jobs.append((st["g"], rest))
                continue
            st["t"] = time.time()
            if kind == "start":
                st["cur"] = val
            elif kind == "done":
                st["done"] += 1
                results.append(val)
            elif kind == "end":
                st["ended"] = True
                for k, v in val.items():
                    events[k] = events.get(k, 0) + v
            elif kind == "harness":
                st["ended"] = True
                harness_err.append(val)
        now = time.time()
        for a, st in list(running.items()):
            # wall watchdog: inconclusive, never a verdict
            if now - st["t"] > max(300, 4 * st["g"].cpu):
                st["p"].kill()
                st["p"].join()
                del running[a]
                harness_err.append(f"watchdog: {st['g'].name} case {st['cur']} hung")
        if time.time() - t0 > budget + 50:
            for a, st in list(running.items()):
                st["p"].kill()
                st["p"].join()
                skipped += len(st["idxs"]) - st["done"]
                del running[a]
            break
    return prop, results, harness_err, events, skipped, time.time() - t0


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(p.split("=", 1) for p in line.split() if "=" in p and p.split("=", 1)[0] in ("property", "mechanism"))
                f["text"] = line.split("what=", 1)[1] if "what=" in line else line
                out.append(f)
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else None
    prop, results, herr, events, skipped, wall = run(pid, tier, seed, only)
    results.sort(key=lambda r: (r["group"], r["index"]))
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)

    known = [k for k in load_known() if k["property"] == pid]
    obs, per_group, fps = {}, {}, set()
    n_inc, viols, kf = 0, [], {}
    inc_reasons = {}
    for r in results:
        pg = per_group.setdefault(r["group"], dict(cases=0, inconclusive=0, observations=0))
        pg["cases"] += 1
        pg["observations"] += sum(r["obs"].values())
        for k, v in r["obs"].items():
            obs[k] = obs.get(k, 0) + v
        if r["inc"]:
            pg["inconclusive"] += 1
            n_inc += 1
            inc_reasons[r["inc"][:200]] = inc_reasons.get(r["inc"][:200], 0) + 1
        if r["nt"]:
            fps.add((r["group"], r["fp"]))
        for v in r["viol"]:
            m = [k for k in known if v["mech"] and k.get("mechanism") == v["mech"]]
            if m:
                kf.setdefault(v["mech"], [m[0], 0])[1] += 1
            else:
                viols.append((r, v))
    samples, ns = [], {}
    for r in results:
        if r["desc"] and ns.get(r["group"], 0) < 2:
            ns[r["group"]] = ns.get(r["group"], 0) + 1
            samples.append(f"{r['group']}#{r['index']}: {r['desc'][:700]}")

    # a group in which most cases get no answer from any solver has lost the
    # property ("there is an answer"), rather than being merely unlucky
    for gname, pg in per_group.items():
        if pg["cases"] >= 3 and pg["inconclusive"] > (1 - prop.min_conclusive) * pg["cases"] + 2:
            r = next(r for r in results if r["group"] == gname and r["inc"])
            viols.append((r, dict(tag="no solver answers most cases of this group", mech=None,
                                  detail=dict(reason=r["inc"], group=gname,
                                              inconclusive=str(pg["inconclusive"]), cases=str(pg["cases"])))))

    for k, (f, n) in kf.items():
        print(f"KNOWN-FINDING: property={pid} mechanism={k} {f['text']} ({n} cases)")
    shown = set()
    for r, v in viols:
        key = (r["group"], v["tag"])
        if key in shown:
            continue
        shown.add(key)
        path = os.path.join(REPLAYS, f"{pid}-{r['group']}-{r['index']}-{tier}-{seed}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=pid, tier=tier, seed=seed, group=r["group"], index=r["index"],
                           tag=v["tag"], detail=v["detail"], case=r["desc"]), fh, indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {r['group']}#{r['index']}: {v['tag']}: {json.dumps(v['detail'])[:1200]}")

    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(fps), rule=prop.rule,
            samples=samples[:24], oracle_observations=obs, per_group=per_group,
            monitored_calls=dict(sorted(events.items())),
            inconclusive_cases=n_inc, inconclusive_reasons=inc_reasons,
            known_finding_cases={k: n for k, (f, n) in kf.items()},
            skipped_by_time_budget=skipped, harness_errors=len(herr),
        ),
        assumptions=prop.assumptions, wall_s=round(wall, 2),
        violations=len(viols),
    )
    with open(os.path.join(EVID, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    total = sum(obs.values())
    print(f"{pid} tier={tier} seed={seed}: {len(results)} cases, {len(fps)} distinct, {total} observations, "
          f"{n_inc} inconclusive, {skipped} skipped, {len(viols)} violations, {wall:.1f}s")
    if viols:
        return 1
    for e in herr:
        print("HARNESS ERROR", e)
    if herr:
        return 2
    missing = [g for g in prop.groups if (tier == "thorough" or prop.groups[g].quick) and (not only or g in only) and per_group.get(g, {}).get("observations", 0) == 0]
    if missing:
        print("INCONCLUSIVE: no observations in", missing)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(f"vf.props.{d['property']}")
    from . import hooks

    hooks.install()
    g = mod.P.groups[d["group"]]
    c = run_case(mod.P, g, d["index"], d["tier"], d["seed"])
    print("case:", "; ".join(c.desc))
    print("observations:", c.obs)
    known = {k.get("mechanism") for k in load_known() if k["property"] == d["property"]}
    bad = [v for v in c.viol if v["mech"] is None or v["mech"] not in known]
    for v in c.viol:
        print("  ", v["tag"], json.dumps(v["detail"]))
    if bad:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0
