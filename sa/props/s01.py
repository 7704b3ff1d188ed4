"""Auto-trait analysis.  For every type of the crate that carries a manual unsafe `Send`/`Sync` impl (or contains a type
that does) the requirement on its contents is recomputed from the fields, treating raw pointers and NonNull as owning their
pointee; rustc's own answer for the declared impls (probed with u8, Rc, Cell and MutexGuard as contents) must not exceed it.
Raw pointers may only be vouched for by a type that owns and frees them or that keeps them behind a lock.  Shared statics must
not be mutable, and no code may reach through a lock or an Arc without acquiring it, nor turn a shared reference into a
writable pointer it then writes."""
import re
from .. import q

PROBES = {"u8": (True, True), "Rc": (False, False), "Cell": (True, False), "MutexGuard": (False, True)}
LOCKS = ("std::sync::Mutex", "std::sync::RwLock", "std::sync::ReentrantLock")
BYPASS = re.compile(r"(Mutex|RwLock)::<T>::data_ptr$|::get_mut_unchecked$|::force_unlock|::data_ptr$|Arc::<T, A>::get_mut_unchecked|RwLock.*::as_ptr$")


class Req:
    """(send, sync) a type deserves, under an assignment of its parameters"""

    def __init__(self, P, probe, owners):
        self.P, self.probe, self.owners = P, probe, owners
        self.why = []

    def of(self, ti, seen=(), locked=False, owner=None):
        P = self.P
        if ti in seen:
            return (True, True)
        seen = seen + (ti,)
        t = P.types[ti]
        k = t["k"]
        both = (True, True)
        if k in ("int", "uint", "bool", "char", "float", "str", "never", "fnptr", "fndef"):
            return both
        if k == "param":
            return PROBES[self.probe]
        if k == "ref":
            s = self.of(t["e"], seen, locked, owner)
            return (s[0] and (s[1]), s[1]) if t.get("m") else (s[1], s[1])
        if k == "ptr":
            s = self.of(t["e"], seen, locked, None)
            if not (locked or owner):
                self.why.append("raw pointer %s is neither owned (no Drop frees it) nor behind a lock" % t["s"])
                return (False, False)
            return s
        if k in ("array", "slice"):
            return self.of(t["e"], seen, locked, owner)
        if k == "tuple":
            r = both
            for x in t["ts"]:
                s = self.of(x, seen, locked, owner)
                r = (r[0] and s[0], r[1] and s[1])
            return r
        if k == "dyn":
            a = t.get("autos") or []
            return ("std::marker::Send" in a, "std::marker::Sync" in a)
        if k != "adt":
            return both
        d = t["def"]
        args = [x["t"] for x in t.get("args") or [] if "t" in x]
        if d.endswith("::Arc") or d.endswith("sync::Weak"):
            s = self.of(args[0], seen, locked, owner)
            ok = s[0] and s[1]
            return (ok, ok)
        if d in ("std::rc::Rc", "std::rc::Weak"):
            return (False, False)
        if d == "std::sync::Mutex":
            s = self.of(args[0], seen, True, owner)
            return (s[0], s[0])
        if d == "std::sync::RwLock":
            s = self.of(args[0], seen, True, owner)
            return (s[0], s[0] and s[1])
        if d in ("std::cell::Cell", "std::cell::RefCell", "std::cell::UnsafeCell", "std::cell::OnceCell"):
            s = self.of(args[0], seen, locked, owner)
            return (s[0], False)
        if d == "std::sync::MutexGuard" or "ReadGuard" in d or "WriteGuard" in d:
            return (False, self.of(args[0], seen, locked, owner)[1])
        if d == "std::ptr::NonNull":
            s = self.of(args[0], seen, locked, None)
            if not (locked or owner):
                self.why.append("NonNull %s is neither owned (no Drop frees it) nor behind a lock" % t["s"])
                return (False, False)
            return s
        if d == "std::marker::PhantomData":
            e = P.types[args[0]] if args else None
            if e is not None and e["k"] in ("ptr",):
                return self.of(e["e"], seen, locked, owner)
            return self.of(args[0], seen, locked, owner) if args else both
        a = P.adts.get(d)
        if a and a["local"]:
            own = owner or (d if a.get("has_drop") else None)
            r = both
            for vs in t.get("vf") or []:
                for x in vs:
                    s = self.of(x, seen, locked, own)
                    r = (r[0] and s[0], r[1] and s[1])
            return r
        # other std containers own their arguments
        r = both
        for x in args:
            s = self.of(x, seen, locked, owner)
            r = (r[0] and s[0], r[1] and s[1])
        return r


def run(c):
    P = c.P
    manual = {}
    for i in P.impls:
        if i["trait"] in ("std::marker::Send", "std::marker::Sync") and i["unsafe"] and i["polarity"] == "Positive":
            manual.setdefault(P.types[i["self"]].get("def") or P.types[i["self"]]["s"], []).append(i)
    n = 0
    selfty = {}
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and all("t" not in x or P.types[x["t"]]["k"] == "param" for x in t.get("args") or []):
            selfty.setdefault(t["def"], i)
    for i in P.impls:
        t = P.types[i["self"]]
        if t["k"] == "adt":
            selfty[t["def"]] = i["self"] if t["def"] not in selfty else selfty[t["def"]]
    for d, au in P.autos.items():
        for r in au["res"]:
            n += 2
            rq = Req(P, r["probe"], None)
            ti = selfty.get(d)
            tainted = d in manual or ti is not None and q.contains(P, ti, lambda t: t.get("def") in manual)
            for which, declared in (("send", r["send"]), ("sync", r["sync"])):
                key = "auto|%s|%s|%s" % (d, which, r["probe"])
                if not declared or not tainted:
                    c.ob(key, True, rule="declared thread-safety does not exceed what the fields justify")
                    continue
                if ti is None:
                    c.ob(key, False, "%s:%s" % tuple(au["span"]), "fields of a manually thread-safe type are known", "no type information for " + d)
                    continue
                rq.why = []
                s = rq.of(ti)
                good = s[0] if which == "send" else s[1]
                c.ob(key, good, "%s:%s" % tuple(au["span"]), "declared thread-safety does not exceed what the fields justify",
                     "%s is %s with contents of type %s although its fields do not justify it: %s" % (d, which.capitalize(), r["probe"], "; ".join(rq.why[:3]) or "an element type is not"))
    c.floor("type x probe x trait obligations", n, 60)
    for d, l in manual.items():
        for i in l:
            if P.types[i["self"]]["k"] != "adt" or P.types[i["self"]]["def"] not in P.autos:
                c.ob("manual|%s|%s" % (P.types[i["self"]]["s"], i["trait"]), False, "%s:%s" % tuple(i["span"]), "every manual Send/Sync impl is analysed", "not a type of this crate")
    # statics
    for k, v in P.statics.items():
        if v.get("static?"):
            mut = v.get("mut") or "static mut" in str(v.get("static?"))
            c.ob("static|" + k, not mut, "%s" % (v.get("span"),), "no mutable static", "a `static mut` is shared without a lock")
    # lock bypass and writes through shared references
    nf = 0
    for k in P.local:
        f = P.fns[k]
        if not f.get("identity") and not f.get("closure"):
            continue
        nf += 1
        c.functions.add(k)
        for b, t in q.calls(f):
            nme = [x for x in q.names(t) if BYPASS.search(x)]
            if nme:
                c.ob("bypass|%s|%s" % (f["path"], nme[0]), False, P.where(k, t["ln"]), "state behind a lock is reached only through its guard", "call of " + nme[0])
        shared_write(c, P, k, f)
    c.floor("functions", nf, 300)
    # Arc<...> of something whose interior is mutated without a lock: interior mutability types held in shared types
    for d, au in P.autos.items():
        for nme, ti in au["fields"]:
            t = P.types[ti]
            if q.args_contain(P, ti, lambda t: t.get("def") in ("std::cell::UnsafeCell", "std::cell::SyncUnsafeCell")):
                ok = d not in manual
                c.ob("unsafecell|%s|%s" % (d, nme), ok, "%s:%s" % tuple(au["span"]), "UnsafeCell is not declared thread-safe by hand", t["s"])


def shared_write(c, P, key, f):
    """*(&T as *const T as *mut T) = .. : a write through a pointer obtained from a shared reference."""
    fl = None
    for b, j, s in q.stmts(f):
        if s[0] != "=":
            continue
        r = s[2]
        if r[0] == "cast" and r[1] == "PtrToPtr" and P.types[r[3]]["k"] == "ptr" and P.types[r[4]]["k"] == "ptr" \
                and not P.types[r[3]].get("m") and P.types[r[4]].get("m"):
            fl = fl or q.Flow(P, key)
            l = q.op_local(r[2])
            if l is None:
                continue
            src, locs = fl.sources(l, through=lambda t: [])
            froms = [x for x in locs if any(isinstance(d[2], list) and d[2][0] == "rawptr" and d[2][1] == "const" for d in fl.defs.get(x, []) if d[1] != "t")]
            if not froms:
                continue
            # the pointer itself is written through (directly or by &mut *p)
            der = fl.derived(s[1][0], through=lambda t: [])
            for x in der:
                for (bb, jj, kind, u) in fl.uses.get(x, []):
                    w = kind == "store" or (kind == "rv" and u[2][0] in ("ref", "rawptr") and u[2][1] == "mut" and u[2][2][:2] == [x, "*"])
                    if kind == "arg" and re.search(r"(ptr::write|copy_nonoverlapping|\*mut T>::(write|add|copy_from))", q.cname(u[0])) and "::mut_ptr::" in q.cname(u[0]):
                        w = True
                    if w:
                        c.ob("sharedwrite|%s" % f["path"], False, P.where(key, s[3]), "no write through a pointer made from a shared reference",
                             "a *const pointer taken from a shared reference is cast to *mut and written")
