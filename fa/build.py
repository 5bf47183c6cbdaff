"""Builds the MIR driver and dumps the type-checked program of /repo's current working tree."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FYI_REPO", "/repo")
BUILD = os.environ.get("FYI_BUILD", os.path.join(VERIF, "build"))

# name -> cargo arguments of every feature set the project tests.
CONFIGS = {
    "bin": ["-p", "fyi"],
    "all": ["-p", "fyi_msg", "--all-features"],
    "progress": ["-p", "fyi_msg", "--features", "progress"],
    "sigint": ["-p", "fyi_msg", "--features", "signals_sigint"],
    "sigwinch": ["-p", "fyi_msg", "--features", "signals_sigwinch"],
    "default": ["-p", "fyi_msg"],
    "fitted": ["-p", "fyi_msg", "--features", "fitted"],
    "timestamps": ["-p", "fyi_msg", "--features", "timestamps"],
    "fitted,timestamps": ["-p", "fyi_msg", "--features", "fitted,timestamps"],
}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["HOME"] = home
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], "/", _env()).strip()
    return _sysroot


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _tree(root, skip=("target", ".git", "node_modules")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip]
        out += [os.path.join(d, f) for f in fs if os.path.isfile(os.path.join(d, f))]
    return out


def repo_hash():
    return _hash_files(_tree(REPO))


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    src = os.path.join(VERIF, "driver")
    h = _hash_files(_tree(src))
    target = os.path.join(BUILD, "driver")
    binp = os.path.join(target, "debug", "fyimir")
    stamp = os.path.join(target, "stamp")
    with Lock("driver"):
        if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h:
            return binp, h
        env = _env()
        env["CARGO_TARGET_DIR"] = target
        _run(["cargo", "+nightly", "build", "--offline"], src, env)
        with open(stamp, "w") as f:
            f.write(h)
    return binp, h


def _patch_config():
    p = os.path.join(BUILD, "patch-%s.toml" % hashlib.sha256(REPO.encode()).hexdigest()[:8])
    os.makedirs(BUILD, exist_ok=True)
    txt = '[patch.crates-io]\nfyi_ansi = { path = "%s/fyi_ansi" }\n' % REPO
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, "w") as f:
            f.write(txt)
    return p


def _lockfile():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        for c in ("/opt/vp/Cargo.lock", os.path.join(VERIF, "driver", "repo.lock")):
            if os.path.exists(c):
                shutil.copyfile(c, lock)
                return


def _drop_fingerprints(target):
    # Both cargo build-directory layouts: a stale unit would be replayed without running the driver.
    ours = ("fyi", "fyi_msg", "fyi_ansi", "fyi_witness")
    for sub in (".fingerprint", "build"):
        fp = os.path.join(target, "debug", sub)
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n in ours or n.startswith(tuple(o + "-" for o in ours)):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)


def _cargo(args, cwd, out, target):
    binp, _ = driver()
    env = _env()
    env["CARGO_TARGET_DIR"] = target
    env["RUSTC_WORKSPACE_WRAPPER"] = binp
    env["FYIMIR_OUT"] = out
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    return _run(["cargo", "+nightly", "--config", _patch_config(), "check", "--offline"] + args, cwd, env)


def dump(config):
    """Returns the directory holding the dumps of `config` for the current tree."""
    _, dh = driver()
    rh = repo_hash()
    out = os.path.join(BUILD, "dump", "%s-%s" % (rh, dh[:8]), config.replace(",", "+"))
    need = ["fyi_msg.json"] + (["fyi.json"] if config == "bin" else [])
    with Lock("repo"):
        if all(os.path.exists(os.path.join(out, n)) for n in need):
            return out
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        _lockfile()
        target = os.path.join(BUILD, "target")
        _drop_fingerprints(target)
        _cargo(CONFIGS[config], REPO, tmp, target)
        for n in need:
            if not os.path.exists(os.path.join(tmp, n)):
                raise BuildError("no dump of %s for config %s" % (n, config))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        _gc()
        return out


def _gc():
    root = os.path.join(BUILD, "dump")
    ds = sorted((os.path.join(root, d) for d in os.listdir(root)), key=os.path.getmtime)
    for d in ds[:-12]:
        shutil.rmtree(d, ignore_errors=True)


def dump_witness(name, lib_rs, deps):
    """Compiles a generated client crate against /repo's crates and dumps its evaluated constants."""
    with Lock("witness"):
        d = os.path.join(BUILD, "witness", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "src"))
        toml = '[package]\nname = "fyi_witness"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[lib]\npath = "src/lib.rs"\n[dependencies]\n'
        for k, v in deps.items():
            toml += '%s = { path = "%s/%s"%s }\n' % (k, REPO, k, v)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(toml)
        for c in (os.path.join(REPO, "Cargo.lock"),):
            pass
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(lib_rs)
        out = os.path.join(d, "out")
        os.makedirs(out)
        target = os.path.join(BUILD, "target-witness")
        _drop_fingerprints(target)
        log = _cargo([], d, out, target)
        p = os.path.join(out, "fyi_witness.json")
        if not os.path.exists(p):
            raise BuildError("witness dump missing\n" + log[-3000:])
        with open(p) as f:
            return json.load(f)


if __name__ == "__main__":
    driver()
    for c in sys.argv[1:] or CONFIGS:
        print(c, dump(c))
