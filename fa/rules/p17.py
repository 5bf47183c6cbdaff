"""Path-sensitive check of every write that puts progress output on the screen, in every public call and in the ticker:
standard error is held, and after it was acquired the run state was loaded and found running.  On every path that ends
a run, the erase is written while holding standard error, after the run state was cleared."""
from .. import par
from ..prog import *


def scan(ctx, w, name, weak, evs, st):
    """st: {'held': bool, 'load': number of run-state loads since stderr was acquired, 'conf': confirmed}"""
    st = dict(st)
    loads = list(st["loads"])     # for each run-state load so far: made while stderr was held in the current section?
    for e in evs:
        if e.kind == "loop":
            for sub, wk in bodies(e):
                scan(ctx, w, name, wk, sub, dict(st, loads=tuple(loads)))
            continue
        if e.kind == "lock" and e.args[0] == "stderr" and not st["held"]:
            st["held"], st["conf"] = True, False
            loads = [False] * len(loads)
        elif e.kind == "unlock" and e.args[0] == "stderr":
            st["held"], st["conf"] = False, False
            loads = [False] * len(loads)
        elif e.kind in ("aload", "armw") and e.args[0] == w.flags:
            loads.append(st["held"])
            if flags_write(w, e) == "clear":
                st["conf"] = False
        elif e.kind == "test" and e.args[0] == w.flags:
            r = w.running(e)
            age = e.args[4]
            fresh = age < len(loads) and loads[-1 - age]
            if r is True and fresh:
                st["conf"] = True
            elif r is False:
                st["conf"] = False
        elif is_paint(e):
            ctx.count("paints")
            held = "stderr" in e.args[2]
            bad = None if weak else False
            ctx.oblige(True if held else bad, "unlocked|%s" % e.loc[0], "%s: paints without holding standard error [%s]" % (loc(e), name), None)
            if held:
                ctx.oblige(True if st["conf"] else bad, "unconfirmed|%s|%s" % (e.loc[0], name),
                           "%s: paints without having confirmed, after taking standard error, that the run is active [%s]" % (loc(e), name),
                           "%s: confirmed running under stderr [%s]" % (loc(e), name))


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    if w.role is None:
        return
    done = set()
    for name, how, evs, s, v in w.traces():
        if w.kind_of(name) not in ("entry", "thread"):
            continue
        scan(ctx, w, name, s.weak, evs, {"held": False, "conf": False, "loads": ()})
        # ends of runs
        for f in [evs]:
            for i, e in enumerate(f):
                if e.kind != "armw" or flags_write(w, e) != "clear":
                    continue
                pos = positions(w, f)
                old = [w.running(f[j]) for j, l in pos.items() if l == i and w.running(f[j]) is not None]
                if old != [True] and set(old) != {True}:
                    continue
                er = [x for x in f[i:] if is_erase(x)]
                ctx.count("ends")
                bad = None if s.weak else False
                ctx.oblige(True if er else bad, "erase|" + name, "%s: the run is ended without erasing the bar [%s]" % (loc(e), name), "%s: ends, then erases" % loc(e))
                if er:
                    ctx.oblige(True if "stderr" in er[0].args[2] else bad, "erase-lock|" + name, "%s: erases without holding standard error" % loc(er[0]), None)
    ctx.analysed = {"entries": len(w.res)}


def run(ctx):
    par.each(ctx, run_config, ["all", "progress", "sigint", "sigwinch"])
    ctx.floor("paints", 50)
    ctx.floor("ends", 10)
    ctx.assumptions = ["sequentially consistent atomics (the code uses SeqCst only)"]
