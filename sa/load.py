"""Builds the rustc_private driver and the program dump of /repo's current tree (both cached by content)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CRATE = "level_db_rust"


def _h(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _walk(root, skip=("target", ".git")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        out += [os.path.join(d, f) for f in fs]
    return out


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], text=True, env=env()).strip()
    return _sysroot


def driver():
    src = os.path.join(VERIF, "driver")
    key = _h([os.path.join(src, "Cargo.toml")] + _walk(os.path.join(src, "src")))
    out = os.path.join(BUILD, "driver-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    td = os.path.join(BUILD, "driver-target")
    r = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml"), "--target-dir", td], env=env())
    if r.returncode:
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    shutil.copy2(os.path.join(td, "debug", "mirdump"), out + ".tmp")
    os.replace(out + ".tmp", out)
    return out


def repo_key(drv):
    files = [f for f in _walk(REPO) if f.endswith((".rs", ".toml", ".lock", ".md")) or "/.cargo/" in f]
    return _h(files) + "-" + os.path.basename(drv)[7:15]


def dump_path():
    """Path of the JSON dump of the current /repo tree; builds it when needed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        out = os.path.join(BUILD, "dump-%s.json" % repo_key(drv))
        if os.path.exists(out):
            return out
        td = os.path.join(BUILD, "repo-target")
        # cargo's freshness cache would skip the wrapper: forget the crate's own fingerprint
        fp = os.path.join(td, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(CRATE + "-") or d.startswith(CRATE.replace("_", "-") + "-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        e = env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_CRATE"] = CRATE
        e["MIRDUMP_OUT"] = out + ".tmp"
        for f in (out + ".tmp",):
            if os.path.exists(f):
                os.unlink(f)
        r = sh(["cargo", "check", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", td],
               env=e, cwd=REPO)
        if r.returncode or not os.path.exists(out + ".tmp"):
            raise BuildError("analysis build of %s failed:\n%s" % (REPO, r.stdout[-6000:]))
        for f in os.listdir(BUILD):  # keep the cache small
            if f.startswith("dump-") and f.endswith(".json"):
                p = os.path.join(BUILD, f)
                if time.time() - os.path.getmtime(p) > 3600:
                    os.unlink(p)
        os.replace(out + ".tmp", out)
        return out


if __name__ == "__main__":
    t = time.time()
    print(dump_path(), "%.1fs" % (time.time() - t))
