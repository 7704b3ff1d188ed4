"""Lock analysis.  Guards are tracked flow-sensitively from the acquiring call (through unwrap / expect / `?`) to the drop or
move that ends them; the locks each callee may take are computed over the call graph (closures, trait methods and drop glue
included).  No lock class (the type a Mutex or RwLock protects) may be taken while a guard of the same class is held, the
held -> acquired order over all classes must be acyclic, and no guard may be leaked."""
import re
from .. import q

ACQ = re.compile(r"^std::sync::(Mutex|RwLock)::<T>::(lock|read|write)$|^std::sync::(?:poison::)?(?:mutex::)?(?:rwlock::)?(Mutex|RwLock)::<T>::(lock|read|write)$")
LEAK = re.compile(r"mem::forget$|ManuallyDrop::<T>::new$|Box::<T, A>::leak$|Box::<T>::leak$|MaybeUninit::<T>::new$")


def is_guard(t):
    return t["k"] == "adt" and t["def"].split("::")[-1] in ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "MappedMutexGuard", "ReentrantLockGuard")


def guard_class(P, ti):
    """lock classes of the guards a value of this type holds"""
    out = set()

    def f(ti, seen):
        if ti in seen:
            return
        seen.add(ti)
        t = P.types[ti]
        if is_guard(t):
            out.add(("Mutex" if "Mutex" in t["def"] else "RwLock") + "<" + P.types[q.adt_arg(t)]["s"] + ">")
            return
        if t["k"] == "adt":
            # by value only: references to guards do not hold the lock
            for a in t.get("args") or []:
                if "t" in a:
                    f(a["t"], seen)
            for vs in t.get("vf") or []:
                for x in vs:
                    f(x, seen)
        elif t["k"] in ("tuple",):
            for x in t["ts"]:
                f(x, seen)
        elif t["k"] == "array":
            f(t["e"], seen)
        elif t["k"] == "closure":
            for x in t.get("ups") or []:
                f(x, seen)
    f(ti, set())
    return out


def lock_class(P, ti):
    """class of the lock behind the receiver type of lock/read/write"""
    t = P.types[ti]
    while t["k"] in ("ref", "ptr"):
        ti = t["e"]
        t = P.types[ti]
    if t["k"] == "adt" and t["def"].split("::")[-1] in ("Mutex", "RwLock"):
        return t["def"].split("::")[-1] + "<" + P.types[q.adt_arg(t)]["s"] + ">"
    return None


class Locks:
    def __init__(self, P):
        self.P = P
        self.G = q.Calls(P)
        self.direct = {}
        self.gc = {}
        for k in P.local:
            f = P.fns[k]
            s = set()
            for b, t in q.calls(f, True):
                if any(ACQ.match(x) for x in q.names(t)):
                    cl = lock_class(P, t["at"][0])
                    if cl:
                        s.add(cl)
            self.direct[k] = s
        self.may = {k: set(s) for k, s in self.direct.items()}
        ch = True
        while ch:
            ch = False
            for k in P.local:
                for e in self.G.edges(k):
                    x = self.may.get(e)
                    if x and not x <= self.may[k]:
                        self.may[k] |= x
                        ch = True

    def classes(self, ti):
        r = self.gc.get(ti)
        if r is None:
            r = self.gc[ti] = frozenset(guard_class(self.P, ti))
        return r

    def held(self, key):
        """block -> list of (point, held set) ; points are statement indices and 't'"""
        P = self.P
        f = P.fns[key]
        cfg = P.cfg(key)
        lt = [self.classes(l[0]) for l in f["locals"]]
        if not any(lt):
            return None
        ent = {0: frozenset(i for i in range(1, f["argc"] + 1) if lt[i])}
        todo = [0]
        at = {}

        def mv(o, h):
            p = o.get("mv")
            if p and lt[p[0]]:
                # moving the guard (or the payload of the Result/Option that holds it) out of the local
                return h - {p[0]}
            return h
        while todo:
            b = todo.pop()
            h = ent[b]
            blk = f["blocks"][b]
            for s in blk["s"]:
                if s[0] == "=":
                    for o in q.rv_ops(s[2]):
                        h = mv(o, h)
                    if lt[s[1][0]]:
                        src = [o for o in q.rv_ops(s[2])]
                        if len(s[1]) == 1 or any(q.op_place(o) and lt[q.op_place(o)[0]] for o in src):
                            # a constant None / a value with no guard inside does not hold
                            if s[2][0] == "agg" and not s[2][2]:
                                h = h - {s[1][0]}
                            else:
                                h = h | {s[1][0]}
                elif s[0] == "dead":
                    h = h - {s[1]}
            t = blk["t"]
            outs = []
            if isinstance(t, dict):
                for o in t["a"]:
                    h = mv(o, h)
                at[b] = h
                h2 = h | {t["d"][0]} if lt[t["d"][0]] else h
                if t["t"] is not None:
                    outs = [(t["t"], h2)]
            else:
                at[b] = h
                if t[0] == "drop":
                    h = h - {t[1][0]}
                outs = [(s, h) for s in cfg.succ[b]]
                if t[0] == "switch":
                    outs = self.variant(f, blk, t, h, lt)
            for s, hh in outs:
                n = ent.get(s)
                if n is None:
                    ent[s] = frozenset(hh)
                    todo.append(s)
                elif not hh <= n:
                    ent[s] = n | hh
                    todo.append(s)
        return at, lt

    def variant(self, f, blk, t, h, lt):
        """`None`, `Err` arms hold nothing unless the variant carries a guard"""
        P = self.P
        d = None
        p = q.op_place(t[1])
        if p and len(p) == 1:
            for s in reversed(blk["s"]):
                if s[0] == "=" and s[1] == p and s[2][0] == "discr":
                    d = s[2]
                    break
        outs = []
        arms = [(v, b) for v, b in t[2]] + ([(None, t[3])])
        for v, b in arms:
            hh = h
            if d is not None and len(d[1]) == 1 and d[1][0] in h:
                ty = P.types[f["locals"][d[1][0]][0]]
                if ty["k"] == "adt" and v is not None:
                    a = P.adts[ty["def"]]
                    for vi, var in enumerate(a["variants"]):
                        if var["discr"] == v and ty.get("vf") and vi < len(ty["vf"]):
                            if not any(self.classes(x) for x in ty["vf"][vi]):
                                hh = h - {d[1][0]}
            outs.append((b, hh))
        return outs


def run(c):
    P = c.P
    L = Locks(P)
    order = {}
    nacq = 0
    for k in P.local:
        f = P.fns[k]
        if f["path"].startswith("_::"):
            continue
        c.functions.add(k)
        nacq += sum(1 for b, t in q.calls(f) if any(ACQ.match(x) for x in q.names(t)))
        r = L.held(k)
        for b, t in q.calls(f):
            nme = [x for x in q.names(t) if LEAK.search(x)]
            if nme and any(L.classes(ti) for ti in t["at"]):
                c.ob("leak|%s|%s" % (f["path"], nme[0]), False, P.where(k, t["ln"]), "no lock guard is leaked", nme[0] + " of a lock guard: the lock is never released")
        if r is None:
            continue
        at, lt = r
        for b, h in at.items():
            t = f["blocks"][b]["t"]
            hc = set()
            for l in h:
                hc |= lt[l]
            if not hc:
                continue
            acq = {}
            if isinstance(t, dict):
                if any(ACQ.match(x) for x in q.names(t)):
                    cl = lock_class(P, t["at"][0])
                    if cl:
                        acq[cl] = q.cname(t)
                for x in L.G.targets(t) + L.G.fn_args(k, t):
                    for cl in L.may.get(x, ()):
                        acq.setdefault(cl, x)
                ln = t["ln"]
                what = q.cname(t)
            elif t[0] == "drop":
                for x in L.G.drops(t[4]):
                    for cl in L.may.get(x, ()):
                        acq.setdefault(cl, x)
                ln = t[6]
                what = "drop"
            else:
                continue
            bad = hc & set(acq)
            c.ob("held|%s|%s|%s" % (f["path"], "+".join(sorted(hc)), what), not bad, P.where(k, ln), "no lock class is taken while a guard of it is held",
                 "the guard of %s is still held when %s takes the same lock (via %s)" % (sorted(bad), what, [acq[x] for x in bad]))
            for a in hc:
                for x in acq:
                    if a != x:
                        order.setdefault(a, {}).setdefault(x, (f["path"], P.where(k, ln)))
    # acyclic order
    def cyc(a, path):
        for x in order.get(a, {}):
            if x in path:
                return path[path.index(x):] + [x]
            r = cyc(x, path + [x])
            if r:
                return r
        return None
    classes = set(order) | {x for d in order.values() for x in d}
    for a in sorted(classes):
        r = cyc(a, [a])
        c.ob("order|" + a, not r, order.get(a, {}).get(r[1], ("", ""))[1] if r and len(r) > 1 else "", "locks are taken in one global order", "cycle %s" % (r,))
    c.extra["lock_order"] = {a: sorted(d) for a, d in order.items()}
    c.floor("lock acquisitions", nacq, 8)
    c.floor("lock classes", len({x for s in L.direct.values() for x in s}), 2)
