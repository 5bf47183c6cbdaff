"""Effect query over the type-checked HIR of every workspace crate and feature set: every unsafe operation (unsafe
call, raw dereference, mutable static, union read, inline assembly), unsafe impl, unsafe fn and extern block is
listed; the only one allowed is the call that registers a signal callback (signal_hook::low_level::register)."""
import json
import os

from .. import build

ALLOWED_CALLS = {"signal_hook::low_level::register", "signal_hook_registry::register"}
# Emitted by the standard formatting macros; not nameable from stable user code.
MACRO_INTERNAL = ("std::fmt::Arguments::", "core::fmt::Arguments::", "std::fmt::rt::", "core::fmt::rt::")


def run(ctx):
    configs = list(build.CONFIGS) if ctx.thorough else ["all", "bin", "sigint", "progress", "default"]
    for c in configs:
        d = build.dump(c)
        for name in ("fyi_msg.json", "fyi.json", "fyi_ansi.json"):
            p = os.path.join(d, name)
            if not os.path.exists(p):
                continue
            with open(p) as f:
                u = json.load(f)["unsafe"]
            ctx.count("items", u["items"])
            ctx.count("unsafe blocks", u["blocks"])
            for op in u["ops"]:
                what = "%s %s in %s" % (op["kind"], op["what"], op["owner"])
                loc = "%s:%d" % (op["file"], op["line"])
                good = op["kind"] == "call" and (op["what"] in ALLOWED_CALLS or op["what"].startswith(MACRO_INTERNAL))
                if op["what"] in ALLOWED_CALLS:
                    ctx.count("registrations")
                ctx.oblige(good, "%s|%s|%s" % (op["kind"], op["what"], op["owner"]),
                           "%s: %s (feature set %s) is not a SIGINT registration" % (loc, what, c), "%s: %s" % (loc, what))
    ctx.floor("items", 300)
    ctx.floor("registrations", 3)
    ctx.analysed = {"feature sets": configs}
    ctx.trusted = ["rustc type checking (unsafety of resolved callees)"]
