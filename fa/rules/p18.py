"""Lock-order analysis.  Every public progress call, Drop impl, thread closure, once-initialiser and signal callback is
executed abstractly along every path (loops generalised); for each lock acquisition the locks held at that point are
known.  Edges held -> acquired (a join counts as acquiring everything the joined thread acquires, a once-cell as a lock
around its initialiser, dropping a shared handle as its destructor) must form an acyclic graph, no lock is acquired
while held, a condition wait holds nothing but its own mutex, and no thread owns a handle whose destructor joins it."""
from .. import par
from ..prog import *

REENTRANT = {"stderr", "stdout"}


def scan(evs, held, visit, weak):
    """visit(event, held) on every event, loop bodies included; returns the locks held afterwards."""
    held = list(held)
    for e in evs:
        if e.kind == "loop":
            for sub, wk in bodies(e):
                scan(sub, held, visit, wk)
            continue
        visit(e, tuple(held), weak)
        if e.kind in ("lock", "trylock"):
            held.append(e.args[0])
        elif e.kind == "unlock" and e.args[0] in held:
            i = len(held) - 1 - held[::-1].index(e.args[0])
            del held[i]
    return held


def owned_types(E, ty, seen=None):
    """Types reachable by ownership (fields, and type arguments of library containers)."""
    seen = set() if seen is None else seen
    if ty in seen or not isinstance(ty, int):
        return seen
    seen.add(ty)
    t = E.tyinfo(ty)
    if t is None or t.get("k") in ("ref", "ptr"):
        return seen
    n = len(E.variants(ty) or [0]) if t.get("k") == "adt" and t.get("adt") == "enum" else 1
    got = False
    for v in range(n):
        for f in (E.field_types(ty, v) or []):
            got = True
            owned_types(E, f, seen)
    if t.get("k") == "adt" and not t.get("local"):
        for a in t.get("args", ()):
            owned_types(E, a, seen)
    return seen


def run_config(ctx, cfg):
    w = World(cfg)
    w.report_gaps(ctx)
    edges = {}
    joining, thread_types = {}, []
    traces = list(w.traces())
    for name, how, evs, s, v in traces:
        E = w.res[name][1]
        for e in walk(evs):
            if e.kind == "join" and "as std::ops::Drop>" in name:
                joining[name] = e
            if e.kind == "spawn":
                thread_types.append((E, E.typeof(e.args[0]), e))
    dropimpl = {}
    for b in w.p.P.list:
        if b["impl_trait"] and "as std::ops::Drop>" in b["impl_trait"] and b["impl_self"]:
            dropimpl[b["impl_self"].split("<")[0]] = b["path"]
    droplocks = {}

    def visitor(node, name):
        def visit(e, held, weak):
            acq = []
            if e.kind in ("lock",):
                acq = [e.args[0]]
                ctx.count("acquisitions")
            elif e.kind == "join":
                acq = ["thread"]
                ctx.count("joins")
            elif e.kind == "once":
                acq = ["once:" + str(e.args[0])]
            elif e.kind == "wait":
                ctx.count("waits")
                others = [h for h in held if h != e.args[1]]
                ctx.oblige((not others) or (None if weak else False), "wait-holding|%s|%s" % (name, ",".join(others)),
                           "%s: waits for a signal while holding %s [%s]" % (loc(e), ", ".join(others), name), "%s: waits with only its own lock" % loc(e))
            elif e.kind == "drop_arc":
                E = w.res[name][1]
                ty = E.typeof(e.args[0])
                for x in owned_types(E, ty):
                    t = E.tyinfo(x)
                    d = dropimpl.get(t.get("path")) if t else None
                    if d:
                        acq.append("drop:" + d)
            for a in acq:
                good = True
                if a in held and a not in REENTRANT and "RwLock read" not in a:
                    good = None if weak else False
                ctx.oblige(good, "relock|%s|%s" % (e.loc[0], a), "%s: %s is acquired while already held [entry %s]" % (loc(e), a, name),
                           "%s: %s acquired holding (%s)" % (loc(e), a, ", ".join(held)))
                for h in list(held) + ([node] if node else []):
                    if h != a and not weak:
                        edges.setdefault((h, a), (name, loc(e)))
        return visit

    for name, how, evs, s, v in traces:
        k = w.kind_of(name)
        node = None
        if k == "thread":
            node = "thread"
        elif k == "init":
            node = None
        elif "as std::ops::Drop>" in name:
            node = "drop:" + name
        scan(evs, (), visitor(node, name), s.weak)
    # A once cell is a lock held during its initialiser.
    inits = {}
    for name, how, evs, s, v in traces:
        for e in walk(evs):
            if e.kind == "once":
                inits.setdefault("once:" + str(e.args[0]), True)
    for name, how, evs, s, v in traces:
        if w.kind_of(name) == "init":
            for cell in inits:
                scan(evs, (cell,), visitor(None, name), s.weak)
    graph = {}
    for (a, b) in edges:
        graph.setdefault(a, set()).add(b)
    # cycles
    state = {}
    stack = []
    cycles = []

    def dfs(n):
        state[n] = 1
        stack.append(n)
        for m in sorted(graph.get(n, ())):
            if state.get(m) == 1:
                cycles.append(stack[stack.index(m):] + [m])
            elif m not in state:
                dfs(m)
        stack.pop()
        state[n] = 2

    for n in sorted(graph):
        if n not in state:
            dfs(n)
    for (a, b), (name, at) in sorted(edges.items()):
        ctx.ok("%s before %s (%s)" % (a, b, at))
    ctx.count("order edges", len(edges))
    for c in cycles:
        what = "; ".join("%s then %s at %s [%s]" % (x, y, edges[(x, y)][1], edges[(x, y)][0]) for x, y in zip(c, c[1:]))
        ctx.violate("cycle|" + "|".join(sorted(set(c))), "locks can be taken in a circle: " + what)
    # Ownership: a thread must not be able to drop the last handle that joins it.
    for E, ty, e in thread_types:
        bad = None
        for x in owned_types(E, ty):
            t = E.tyinfo(x)
            d = dropimpl.get(t.get("path")) if t else None
            if d in joining:
                bad = t["path"]
        ctx.oblige(bad is None, "self-join|" + str(e.loc[0]), "%s: the thread owns %s, whose destructor joins that thread" % (loc(e), bad),
                   "%s: nothing the thread owns joins it" % loc(e))
        ctx.count("threads")
    ctx.analysed = {"entries": sorted(w.res)}


def run(ctx):
    par.each(ctx, run_config, ["all", "progress", "sigint", "sigwinch"])
    ctx.floor("acquisitions", 40)
    ctx.floor("order edges", 8)
    ctx.floor("joins", 4)
    ctx.floor("waits", 2)
    ctx.floor("threads", 2)
    ctx.assumptions = ["stdout and stderr locks are re-entrant per thread", "code outside the library does not hold its private locks"]
