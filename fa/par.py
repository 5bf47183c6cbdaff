"""Runs one rule over several feature sets in parallel processes and merges the verdicts."""
import multiprocessing
import sys
import traceback

from . import build, report


def _child(job):
    fn, prop, tier, seed, cfg, extra = job
    sys.setrecursionlimit(20000)
    ctx = report.Ctx(prop, tier, seed)
    try:
        fn(ctx, cfg, *extra)
        err = None
    except build.BuildError:
        raise
    except Exception:
        err = traceback.format_exc()[-1500:]
    d = dict(ctx.__dict__)
    return cfg, d, err


def each(ctx, fn, configs, extra=(), dump=True, label=" (feature set %s)"):
    """fn(ctx, config) for every config; verdict keys do not mention the config, so the same construct found in two
    feature sets is one report."""
    configs = list(dict.fromkeys(configs))
    if dump:
        for c in configs:
            build.dump(c)
    jobs = [(fn, ctx.prop, ctx.tier, ctx.seed, c, extra) for c in configs]
    with multiprocessing.get_context("fork").Pool(min(len(jobs), 8)) as pool:
        res = pool.map(_child, jobs, chunksize=1)
    merge(ctx, res, label)


def collect(ctx, fn, items, extra=()):
    """The raw results of fn(ctx, item) for every item."""
    jobs = [(fn, ctx.prop, ctx.tier, ctx.seed, c, extra) for c in items]
    with multiprocessing.get_context("fork").Pool(min(len(jobs), 8)) as pool:
        return [(d, e) for _c, d, e in pool.map(_child, jobs, chunksize=1)]


def merge(ctx, res, label=" (feature set %s)"):
    for cfg, d, err in res:
        if err:
            ctx.undecide("error:%s" % cfg, "analysis of %s stopped: %s" % (cfg, err))
        for k, v in d["violations"].items():
            ctx.violations.setdefault(k, v + (label % (cfg,) if "%s" in label else label))
        for k, v in d["undecided"].items():
            ctx.undecided.setdefault(k, v + (label % (cfg,) if "%s" in label else label))
        for k, n in d["counts"].items():
            ctx.counts[k] = ctx.counts.get(k, 0) + n
        ctx.obligations += d["obligations"]
        ctx.discharged += d["discharged"]
        for s in d["samples"]:
            if len(ctx.samples) < 25 and s not in ctx.samples:
                ctx.samples.append(s)
        for f in d["floors"]:
            if f not in ctx.floors:
                ctx.floors.append(f)
        for a in d["assumptions"]:
            if a not in ctx.assumptions:
                ctx.assumptions.append(a)
        for a in d["trusted"]:
            if a not in ctx.trusted:
                ctx.trusted.append(a)
        ctx.analysed.setdefault(cfg, d["analysed"])
