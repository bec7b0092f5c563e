"""Worker process.  usage: worker.py sym|conc MODULE TIER
Reads one JSON job per line on stdin, writes one JSON result per line on stdout.

sym : explore a case symbolically           {"case": name}
conc: run a case natively on given inputs   {"case": name, "runs": [{...inputs}, ...]}
"""
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SX_REPO", "/repo")


def setup(mode):
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(20000)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    # library modules that must not see instrumentation
    import asyncio, zigpy  # noqa
    if mode == "sym":
        from sx import rt
        rt.install(REPO, VERIF)


def classify(exc):
    """('prop', label) if an exception escaping a harness is the code's behaviour."""
    tb = traceback.extract_tb(exc.__traceback__)
    files = [f.filename for f in tb if "/sx/" not in f.filename]
    last = files[-1] if files else ""
    name = type(exc).__name__
    if "/checks/" in last and name in ("AttributeError", "NameError", "ImportError",
                                       "ModuleNotFoundError", "UnboundLocalError"):
        return "error", name
    return "prop", "exception:" + name


def tbtext(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1500:]


class Alarm:
    def __init__(self, seconds, exc):
        self.s = seconds
        self.exc = exc

    def __enter__(self):
        def h(sig, frm):
            raise self.exc
        signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)


def run_sym(case, opts, seed):
    from sx import engine as eng, terms as tm, rt
    from sx.ctx import SymCtx, Stop, norm

    tm.reset(bool(opts.get("raw", True)))
    e = eng.Engine(query_timeout_ms=opts.get("query_ms", 60000), mirror=opts.get("mirror"))
    eng.CUR = e
    e.deadline = time.time() + opts.get("time", 300)
    t0 = time.time()
    rng = random.Random("%s/%s" % (seed, case.name))
    witnesses = []
    seen = 0
    covered = {}
    maxw = opts.get("witnesses", 12)
    res = {"case": case.name, "status": "ok", "error": None}
    tt = {"last": 0.0}
    try:
        while True:
            e.start_path()
            ctx = SymCtx(e)
            end = "done"
            tp = time.time()
            try:
                ctx.begin()
                with Alarm(opts.get("path_s", 60), eng.Hang("path time limit")):
                    try:
                        case.fn(ctx, **case.kw)
                    except Stop:
                        pass
                    except Exception as exc:
                        if e.aborting is not None:
                            raise e.aborting
                        from sx.loop import StepLimit
                        if isinstance(exc, StepLimit):
                            raise eng.Hang("step limit")
                        kind, label = classify(exc)
                        if kind == "error":
                            res["status"] = "error"
                            res["error"] = tbtext(exc)
                            end = "error"
                        else:
                            if os.environ.get("SX_DEBUG"):
                                sys.stderr.write(tbtext(exc))
                            e.violation(label, e.model, tbtext(exc))
                            end = "violation"
                    if e.aborting is not None and end == "done":
                        raise e.aborting
            except eng.PathAbort:
                end = "infeasible"
            except eng.Hang as h:
                e.violation("hang", e.model, str(h))
                end = "violation"
            if end == "done":
                e.stats["paths"] += 1
                for c in ctx.covered:
                    covered[c] = covered.get(c, 0) + 1
                seen += 1
                if len(witnesses) < maxw or rng.random() < maxw / seen:
                    w = {"inputs": ctx.input_values(e.model),
                         "obs": [[l, norm(x, e.value)] for l, x in ctx.observations],
                         "cover": sorted(ctx.covered)}
                    if len(witnesses) < maxw:
                        witnesses.append(w)
                    else:
                        witnesses[rng.randrange(maxw)] = w
            elif end == "infeasible":
                e.stats["paths_infeasible"] += 1
            for viol in e.violations:
                if "inputs" not in viol:
                    viol["inputs"] = ctx.input_values(viol.pop("model"))
            e.end_path()
            ctx.finish()
            if end == "error":
                break
            if len({v["label"] for v in e.violations}) >= 6 or len(e.violations) > 12:
                res["status"] = "truncated"
                break
            if e.stats["paths"] + e.stats["paths_infeasible"] > opts.get("max_paths", 30000):
                raise eng.Inconclusive("more than %d paths" % opts.get("max_paths", 30000))
            if e.violations and time.time() - t0 > opts.get("viol_s", 40):
                res["status"] = "truncated"
                break
            if not e.next_path():
                break
    except eng.Inconclusive as exc:
        res["status"] = "inconclusive"
        res["error"] = "%s\n%s" % (exc, tbtext(exc))
        try:
            e.dead = True
            ctx.finish()
        except Exception:
            pass
    finally:
        e.dead = True
        eng.CUR = None
        e.close()
    for viol in e.violations:
        if "inputs" not in viol:
            viol["inputs"] = ctx.input_values(viol.pop("model"))
    missing = [c for c in case.cover if c not in covered]
    res.update(
        violations=e.violations, stats=e.stats, covered=covered, missing=missing,
        witnesses=witnesses, wall=round(time.time() - t0, 3),
        solver={"queries": e.solver.queries, "time": round(e.solver.time, 3),
                "max": round(e.solver.max_time, 3), "results": e.solver.results,
                "mirror_queries": e.mirror.queries if e.mirror else 0,
                "mirror_time": round(e.mirror.time, 3) if e.mirror else 0},
        entered=sorted(rt.ENTERED), inputs=len(ctx.inputs),
    )
    rt.ENTERED.clear()
    if eng.TRACE:
        for k, n in sorted(eng.TRACE.items(), key=lambda x: -x[1])[:25]:
            sys.stderr.write("%8d %s\n" % (n, k))
        eng.TRACE.clear()
    return res


def run_conc(case, inputs, opts):
    from sx.ctx import ConcCtx, Stop, norm
    from sx.loop import StepLimit

    class Hang(KeyboardInterrupt):
        pass

    ctx = ConcCtx(inputs)
    out = {"failed": [], "tb": None, "assume": False, "error": None}
    try:
        ctx.begin()
        with Alarm(opts.get("path_s", 60) // 2, Hang()):
            try:
                case.fn(ctx, **case.kw)
            except Stop:
                pass
            except StepLimit:
                ctx.failed.append("hang")
            except Exception as exc:
                # what follows a failed check is of no interest
                if not ctx.failed:
                    kind, label = classify(exc)
                    out["tb"] = tbtext(exc)
                    if kind == "error":
                        out["error"] = label
                    ctx.failed.append(label)
    except Hang:
        ctx.failed.append("hang")
    out["failed"] = ctx.failed
    out["assume"] = ctx.assumption_failed
    out["obs"] = [[l, norm(x)] for l, x in ctx.observations]
    out["cover"] = sorted(ctx.covered)
    try:
        ctx.finish()
    except Exception as exc:
        out["error"] = tbtext(exc)
    return out


def main():
    mode, module, tier = sys.argv[1:4]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    setup(mode)
    seed = os.environ.get("VERIF_SEED", "1")
    import importlib
    try:
        mod = importlib.import_module("checks." + module)
        cases = {c.name: c for c in mod.cases(tier)}
    except BaseException as exc:
        out.write(json.dumps({"fatal": tbtext(exc)}) + "\n")
        out.flush()
        return
    opts0 = dict(getattr(mod, "OPTS", {}))
    out.write(json.dumps({"ready": list(cases)}) + "\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        if job.get("quit"):
            break
        case = cases[job["case"]]
        opts = dict(opts0)
        opts.update(case.opts)
        opts.update(job.get("opts", {}))
        try:
            if mode == "sym":
                r = run_sym(case, opts, seed)
            else:
                r = {"case": case.name, "runs": [run_conc(case, i, opts) for i in job["runs"]]}
        except BaseException as exc:
            r = {"case": case.name, "status": "error", "error": tbtext(exc)}
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.path.remove(HERE) if HERE in sys.path else None
    main()
