"""Planted-bug workshop (not used by any check).
  seeds.py new ID   : read /tmp/seeds/ID.py (FILE edits, demo) and write seeded/ID/
  seeds.py try ID.. : apply to /repo, build, run the stable tests, run the demo, run the property's check; always reverts
"""
import os; os.environ["VDEMO_TARGET"]="/tmp/demotarget"
import json, os, subprocess, sys, importlib.util, shutil, tempfile
V = "/verif"; R = "/repo"
DEMO = r'''#!/bin/bash
# cwd: the repository.  Copies the sources to a scratch directory, appends demo.rs to one file as a test module, runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -r src custom_proc_macro Cargo.toml Cargo.lock benches "$d"/ || exit 2
[ -d .cargo ] && cp -r .cargo "$d"/
rm -rf "$d"/custom_proc_macro/target
# the benches and their dependencies are not needed here
awk '/^\[/{skip=($0 ~ /^\[dev-dependencies\]|^\[\[bench\]\]/)} !skip' Cargo.toml > "$d"/Cargo.toml
cat "$here"/demo.rs >> "$d"/@FILE@
cd "$d" || exit 2
export CARGO_TARGET_DIR="${VDEMO_TARGET:-$d/target}"
timeout 280 cargo test --offline --lib verif_demo@REL@ -- --test-threads 1 > "$d"/log 2>&1
rc=$?
tail -25 "$d"/log
# the demonstration must really have run
[ $rc -eq 0 ] && ! grep -q "[1-9][0-9]* passed" "$d"/log && exit 3
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def new(i):
    sp = importlib.util.spec_from_file_location("s", "/tmp/seeds/%s.py" % i)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty"
    try:
        for f, o, n in m.EDITS:
            p = os.path.join(R, f); s = open(p).read()
            assert s.count(o) == 1, (f, s.count(o), o)
            # every removed line must be an original one
            open(p, "w").write(s.replace(o, n))
        d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        clean()
    open(d + "/demo.sh", "w").write(DEMO.replace("@FILE@", m.DEMO_FILE).replace("@REL@", " --release" if getattr(m, "RELEASE", 0) else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write("\n" + m.DEMO + "\n")
    json.dump(dict(property=m.PROP, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(d + "/meta.json", "w"), indent=1)
    for l in blame(diff):
        print("  NOT ORIGINAL:", l)


def blame(diff):
    out = []; f = None; ln = 0; cache = {}
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            if f not in cache:
                cache[f] = sh("git -C /repo blame -s 438b2a7.. -- %s" % f).stdout.split("\n")
            if not cache[f][ln - 1].startswith("^"):
                out.append("%s:%d %s" % (f, ln, l))
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return out


def tryit(i, check=True, tests=True):
    d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json"))
    res = {}
    res["demo_clean"] = sh("bash %s/demo.sh" % d, cwd=R).returncode
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            return dict(apply=a.stderr)
        if tests:
            t = sh("bash /tmp/t.sh"); res["tests"] = t.stdout.strip().split("\n")[-1][:300]
        p = sh("bash %s/demo.sh" % d, cwd=R)
        res["demo_patched"] = p.returncode
        res["demo_tail"] = p.stdout.strip().split("\n")[-8:] if p.returncode in (2, 3, 124) or "error" in p.stdout[:3000] and "error: test failed" not in p.stdout else ""
        if check:
            c = sh("python3 -m sa.check %s" % meta["property"], cwd=V)
            res["check"] = c.returncode; res["out"] = "\n".join(c.stdout.split("\n")[:6])[:600]
    finally:
        clean()
    return res


if __name__ == "__main__":
    if sys.argv[1] == "new":
        for i in sys.argv[2:]:
            new(i)
    elif sys.argv[1] in ("try", "check"):
        for i in sys.argv[2:]:
            r = tryit(i, tests=sys.argv[1] == "try")
            print("==", i); [print("  ", k, ":", v) for k, v in r.items()]
