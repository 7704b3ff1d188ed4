"""python3 -m sa.check <PROPERTY> : decide one property on /repo's current tree.

Runs sa/props/<property>.py, writes evidence/<property>.json, prints one line per violated obligation that
known_findings.txt does not list and one KNOWN-FINDING line per listed one.  Exit 0 or 1, nothing else."""
import importlib, json, os, sys, time, traceback

sys.setrecursionlimit(400000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import load

VERIF = load.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obls = {}          # key -> dict(status, where, rule, detail)
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.explanation = ""
        self._P = None
        self.enough = None      # stop after this many violations (they are then looked at again one by one)

    @property
    def P(self):
        if self._P is None:
            from sa.prog import Prog
            self._P = Prog()
        return self._P

    def ob(self, key, ok, where="", rule="", detail="", undecided=False):
        """Record one obligation.  `key` is stable: rule | function | construct, without line numbers."""
        st = "ok" if ok else ("undecided" if undecided else "violated")
        rank = {"ok": 0, "undecided": 1, "violated": 2}
        cur = self.obls.get(key)
        if cur is None or rank[st] > rank[cur["status"]]:
            self.obls[key] = dict(status=st, where=where, rule=rule, detail=detail)
            if self.enough and st == "violated":
                kn = known().get(self.pid, {})
                if sum(1 for k, o in self.obls.items() if o["status"] == "violated" and k not in kn) >= self.enough:
                    raise Confirmed()
        return ok

    def anchor(self, cond, what):
        """Fail closed when something the check speaks about is not there."""
        self.ob("anchor|" + what, bool(cond), rule="anchor", detail="the analysis could not find: " + what)
        return bool(cond)

    def floor(self, what, n, least):
        self.extra.setdefault("counts", {})[what] = n
        return self.anchor(n >= least, "%s (expected at least %d)" % (what, least))

    def need(self, suffix):
        k = self.P.one(suffix)
        if not k:
            self.anchor(False, "function " + suffix)
        return k

    def engine_obls(self, E, kinds=None, rule="abstract interpretation", skip=None):
        """Take over the obligations an Engine run collected."""
        for (root, fn, kind, d), (s, ln, f, ex) in E.obl.items():
            if kinds is not None and not kinds(kind, d, fn):
                continue
            key = "%s|%s|%s|%s" % (root, fn, kind, d)
            if skip and skip(root, fn, kind, d):
                continue
            self.ob(key, s == "ok", "%s:%s" % (f, ln), rule, ex, undecided=(s == "undecided"))
        self.functions |= set(E.inlined)


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: property="):
                pid, key = l[len("finding: property="):].split(" ", 1)
                key, _, why = key.partition(" :: ")
                out.setdefault(pid, {})[key.strip()] = why.strip()
    return out


class Confirmed(Exception):
    pass


def confirm(c, m, pid):
    """A violation the interpreter found where values of several paths or iterations were joined must show on a single path too.
    One confirmed violation is enough to report; the rest stays undecided."""
    bad = {k for k, o in c.obls.items() if o["status"] == "violated"} - set(known().get(pid, {}))
    if not getattr(m, "CONFIRM", False) or not bad:
        return
    from sa import ai, lin
    ai.EXACT, lin.DEADLINE = True, time.time() + 240
    d = Ctx(pid)
    d.tier, d._P = c.tier, c._P
    found = []
    rec = d.ob

    def ob(key, ok, *a, **k):
        rec(key, ok, *a, **k)
        if key in bad and d.obls[key]["status"] == "violated":
            found.append(key)
            if len(found) > 1:
                raise Confirmed()
        return ok
    d.ob = ob
    try:
        m.run(d)
    except Confirmed:
        pass
    except Exception:
        c.notes.append(traceback.format_exc()[-500:])
    finally:
        ai.EXACT, lin.DEADLINE = False, None
    for k in bad:
        o, q = c.obls[k], d.obls.get(k)
        if q and q["status"] == "violated":
            o["detail"] = q["detail"] or o["detail"]
        else:
            o["status"] = "undecided"
            o["detail"] = "not confirmed on a single path: " + o["detail"]


def main(argv):
    pid = argv[0]
    t = time.time()
    c = Ctx(pid)
    level = "other"
    m = None
    from sa import lin
    lin.DEADLINE = t + (360 if c.tier == "quick" else 100000)
    try:
        m = importlib.import_module("sa.props." + pid.lower())
        level = getattr(m, "LEVEL", "other")
        if getattr(m, "CONFIRM", False):
            c.enough = 8
        m.run(c)
    except Confirmed:
        pass
    except load.BuildError as e:
        c.ob("build|" + pid, False, rule="build", detail=str(e))
    except Exception as e:
        tb = traceback.format_exc()
        sys.stderr.write(tb[:600] + "\n ...\n" + tb[-600:] if len(tb) > 1200 else tb)
        # an interpreter that meets code it cannot follow has no verdict on what it had left to look at; anything else is a broken check
        inside = any(fn in tb for fn in ("sa/ai.py", "sa/models.py", "sa/bits.py", "sa/wit.py", "sa/lin.py"))
        c.ob("analysis|" + pid + "|" + type(e).__name__, False, rule="analysis completes", detail=tb[-1500:], undecided=inside)
    confirm(c, m, pid)
    kn = known().get(pid, {})
    viol = [(k, o) for k, o in c.obls.items() if o["status"] == "violated"]
    new = [(k, o) for k, o in viol if k not in kn]
    old = [(k, o) for k, o in viol if k in kn]
    und = [(k, o) for k, o in c.obls.items() if o["status"] == "undecided"]
    okn = sum(1 for o in c.obls.values() if o["status"] == "ok")
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, "%s.replay.json" % pid)
    cov = dict(explanation=c.explanation or (sys.modules.get("sa.props." + pid.lower()).__doc__ or "" if sys.modules.get("sa.props." + pid.lower()) else "") or "static analysis",
               obligations=len(c.obls), discharged=okn, known_findings=len(old), undecided=len(und),
               functions_analysed=len(c.functions), functions=sorted(c.functions)[:400],
               rules=sorted({o["rule"] for o in c.obls.values() if o["rule"]}),
               samples=[dict(key=k, **o) for k, o in list(c.obls.items())[:8]],
               undecided_obligations=[k for k, _ in und][:60],
               known=[k for k, _ in old])
    cov.update(c.extra)
    if level == "proof":
        cov["checker_cmd"] = "python3 -m sa.check " + pid
        cov["trusted_base"] = getattr(m, "TRUSTED", ["rustc's MIR construction", "sa/ai.py, sa/dom.py, sa/lin.py, sa/models.py (abstract interpreter and std models)"])
    ev = dict(property=pid, tier=c.tier, seed=c.seed, level=level, coverage=cov, assumptions=c.assumptions,
              wall_s=round(time.time() - t, 2), violations=len(new))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, o in old:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k, (" :: " + kn[k]) if kn[k] else ""))
    if os.environ.get("SA_VERBOSE"):
        from sa import ai
        print("lost: %s" % sorted(ai.HAVOCS.items(), key=lambda x: -x[1])[:40])
        for k, o in und:
            print("undecided: %s %s %s" % (k, o["where"], o["detail"][:300]))
    print("%s: %d obligations, %d discharged, %d known, %d undecided, %d violated (%.1fs)" % (pid, len(c.obls), okn, len(old), len(und), len(new), time.time() - t))
    if new:
        with open(rp, "w") as f:
            json.dump(dict(property=pid, violations=[dict(key=k, **o) for k, o in new]), f, indent=1, ensure_ascii=False)
        for k, o in new:
            print("  %s at %s\n      rule: %s\n      %s" % (k, o["where"], o["rule"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


if __name__ == "__main__":
    import threading
    threading.stack_size(1 << 30)
    RC = [1]

    def work():
        try:
            RC[0] = main(sys.argv[1:])
        except BaseException:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (sys.argv[1] if len(sys.argv) > 1 else "?", "none"))
    t = threading.Thread(target=work)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0])
