"""Mutation and refactoring bench (not used by any check).
  mut.py [-j N] [-p PROPS] FILE.. : FILE defines M = [(name, kind, props, [(file, old, new), ...]), ...], kind 'bug' or 'same'.
Applies each to a copy of /repo under /tmp/mut, runs the named checks on it, prints what they say."""
import importlib.util, os, shutil, subprocess, sys, queue, threading, re

W = os.environ.get("MUTW", "/tmp/mut")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def load(f):
    sp = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.M


def prep(i):
    d = "%s/w%d" % (W, i)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/build"):
        sh("mkdir -p %s/build && cp -a /verif/build/driver-* %s/build/ && cp -a /verif/build/repo-target %s/build/" % (d, d, d))
    else:
        sh("cp -a /verif/build/driver-* %s/build/" % d)
    return d


def run(d, m, only):
    name, kind, props, edits = m
    sh("rm -rf %s/repo && mkdir %s/repo && cd /repo && cp -a src custom_proc_macro Cargo.toml Cargo.lock benches README.md tests .cargo %s/repo/ 2>/dev/null" % (d, d, d))
    for f, old, new in edits:
        p = "%s/repo/%s" % (d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return "EDIT NOT FOUND in %s: %s" % (f, old[:60])
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    out = []
    e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_EVIDENCE=d + "/ev")
    for p in (only or (props.split(",") if isinstance(props, str) else props)):
        r = sh("cd /verif && timeout 900 python3 -m sa.check " + p, env=e)
        ls = r.stdout.strip().split("\n")
        v = [l.strip() for l in ls if l.startswith("  ") and " at " in l]
        if "build|" in r.stdout and "analysis build" in r.stdout:
            er = re.findall(r"error[^\n]*\n[^\n]*\n[^\n]*", r.stdout + r.stderr)
            try:
                import json
                j = json.load(open(d + "/ev/%s.replay.json" % p))
                er = re.findall(r"error[^\n]*\n[^\n]*", j["violations"][0]["detail"])
            except Exception:
                pass
            return "DOES NOT BUILD " + " / ".join(er[:3])[:400]
        und = re.findall(r"(\d+) undecided", r.stdout)
        out.append("%s rc=%d und=%s %s" % (p, r.returncode, und[0] if und else "?", (v[0][:150] + " (+%d)" % (len(v) - 1)) if v else (r.stderr[-200:] if r.returncode else "")))
    ok = any("rc=1 " in o for o in out) == (kind == "bug")
    return ("ok   " if ok else "***  ") + kind + " " + " | ".join(out)


def main():
    a = sys.argv[1:]
    j, only, pat = 6, None, None
    while a and a[0].startswith("-"):
        if a[0] == "-j":
            j = int(a[1])
        if a[0] == "-p":
            only = a[1].split(",")
        if a[0] == "-k":
            pat = a[1]
        a = a[2:]
    ms = [m for f in a for m in load(f)]
    if pat:
        ms = [m for m in ms if re.search(pat, m[0])]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lk = threading.Lock()

    def work(i):
        d = prep(i)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            r = run(d, m, only)
            with lk:
                print("%-28s %s" % (m[0], r), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(j, len(ms)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
