"""E01-E03: one shard of the cache against a reference cache.

Histories of insert, erase and prune on keys that collide (same slot, same hash, one a prefix of another) are run by the abstract
interpreter with unknown values, unknown charges and an unknown capacity; every entry is an object of its own.  After each step every
key is looked up and the total charge is read; then the cache is dropped.  Longer histories make the table grow."""
from .eq import *
from .hist import Hist
from . import ai
from .codec import within
from .lin import const, var

LC = "util::cache::LRUCache::<T>::"
DROP = "<util::cache::LRUCache<T> as std::ops::Drop>::drop"
TT = ("T",)
BIG = 1 << 40
R_UAF = "no entry is used after it has been released, and none is released twice"
R_LEAK = "every entry that has left the cache has been released, and dropping the cache releases the rest"
R_HELD = "an entry that can still be looked up has not been released"
R_SUM = "the total charge is the sum of the charges of the entries held"
R_CAP = "after an insertion the total charge does not exceed the capacity"
R_GET = "a lookup returns the value inserted last under that key, or nothing once it was erased"
R_EVI = "an entry leaves the cache only to make room, oldest first"
R_SHARE = "a value handed out is a share of its own, which outlives the entry"
R_OK = "no operation fails"
KEYS = {"k1": (b"a", 0), "k2": (b"ab", 16), "k3": (b"b", 0), "k4": (b"a\0", 32), "k5": (b"", 1)}
# enough keys to make the table grow, several to a slot before and after
MANY = {"g%d" % i: (bytes([65 + i]), h) for i, h in enumerate((0, 16, 48, 32, 0, 1, 17, 33, 15, 31, 2, 18, 3, 4))}


class Heap:
    E = None

    def event(self, E, st, fr, what, a):
        if what == "box" and entry(E, a[1]):
            st.ghost["made"] = st.ghost.get("made", ()) + (a[0],)
        elif what == "arc_clone":
            st.ghost["shares"] = st.ghost.get("shares", 0) + 1

    def drop(self, E, st, fr, v, ty, where):
        t = E.T[ty] if ty is not None else {}
        if t.get("def") == "std::sync::Arc":
            s = st.copy()
            s.ghost["shares"] = s.ghost.get("shares", 0) - 1
            return [s]
        if t.get("def") == "std::boxed::Box" and isinstance(v, VPtr) and not v.p:
            s = st.copy()
            f = s.ghost.get("freed", ())
            if v.o in f:
                E.fails is not None and E.fails.append((st, "oob", "an entry is released twice", "drop", ""))
                return []
            s.ghost["freed"] = f + (v.o,)
            return [s]
        return None

    def __getattr__(self, n):
        return lambda *a, **k: None


def entry(E, ti):
    return "LRUHandle" in E.T[ti]["s"]


def guard(H):
    E = H.E
    rd, wr = E.read, E.write

    def read(st, o, p, *a, **k):
        if o in st.ghost.get("freed", ()) and E.fails is not None:
            E.fails.append((st, "oob", "an entry is read after its release", "", ""))
        return rd(st, o, p, *a, **k)

    def write(st, o, p, *a, **k):
        if o in st.ghost.get("freed", ()) and E.fails is not None:
            E.fails.append((st, "oob", "an entry is written after its release", "", ""))
        return wr(st, o, p, *a, **k)
    E.read, E.write = read, write


class Cache:
    def __init__(self, c, want):
        self.c, self.want = c, want
        self.P = c.P

    def W(self, f):
        return self.P.where(self.P.one(LC + f))

    def on(self, g):
        return self.want == g

    def start(self, name, keys, bounded):
        H = self.H = Hist(self.c, name, Heap(), exact=True, unroll=80, place_values=True)
        H.E.MAXD = 400
        guard(H)
        self.keys = {}
        self.vt = ty_of_arg(self.P, self.P.one(LC + "insert"), 3)
        st = ai.State()
        sl = ty_of_arg(self.P, self.P.one(LC + "insert"), 1)
        from .props.h01 import carrier
        self.names = keys
        for k, (bs, h) in keys.items():
            st, v = carrier(H, sl, [VInt(const(b)) for b in bs], "key " + k, st)
            if st is None:
                return None
            st, p = H.place(st, "key " + k, v)
            self.keys[k] = (v, p, VInt(const(h)))
        self.cap = H.int("usize", "capacity").l
        out = []
        for s in within([st], f_and(f_le(self.cap - BIG * 100), f_le(const(1 if bounded else BIG * 100) - self.cap))):
            for s, v in H.call([s], LC + "new_with_capacity", [VInt(const(0)), VInt(self.cap), VInt(const(16))]):
                s, p = H.place(s, "cache", v)
                out.append((s, p))
        return out

    def key(self, st, k):
        """a fresh Slice with the bytes of k"""
        return self.keys[k]

    def ob(self, key, s, ok, und, w, rule, detail):
        if ok or und:
            return self.c.ob(key, ok, w, rule, detail, undecided=und)
        self.H.ask(key, s, F, w, rule, detail)

    # ref: tuple of (key, value, charge), oldest first
    def step(self, st, p, ref, op, tag, look=True):
        H, c = self.H, self.c
        H.watch()
        done = []
        if op[0] == "insert":
            k = op[1]
            v = H.E.mk(self.vt, ai.nm("given", "value", tag))
            ch = H.int("usize", "charge" + tag).l
            kv, kp, h = self.key(st, k)
            rs = H.call(within([st], f_le(ch - BIG)), LC + "insert", [p, kv, h, v, VInt(ch)])
            new = tuple(e for e in ref if e[0] != k) + ((k, v, ch),)
        elif op[0] == "erase":
            kv, kp, h = self.key(st, op[1])
            rs = H.call([st], LC + "erase", [p, kp, h])
            new = tuple(e for e in ref if e[0] != op[1])
        else:
            rs = H.call([st], LC + "prune", [p])
            new = ()
        self.fails("%s" % op[0], op[0], tag)
        for s, r in rs:
            n = H.vname(r)
            if n == "Err" and self.on("E03"):
                self.ob("ok|" + op[0], s, False, False, self.W(op[0]), R_OK, "an error after" + tag)
            if n is None:
                self.c.ob("ok|" + op[0], False, self.W(op[0]), R_OK, "result not modelled", undecided=True)
            if n != "Ok":
                continue
            done += self.look(s, p, new, op, tag) if look else [(s, new)]
        return done

    def fails(self, key, f, tag):
        H = self.H
        fs = H.E.fails or []
        H.E.fails = [x for x in fs if (x[1] == "oob") == self.on("E01")]
        if self.on("E01"):
            H.nofail("used|" + key, TT, self.W(f), R_UAF, "after" + tag)
        else:
            H.nofail("ok|" + key, TT, self.W(f), R_OK, "after" + tag)

    def look(self, s, p, ref, op, tag):
        """which keys can be found; -> [(state, reference)]"""
        H = self.H
        cur = [(s, ())]
        w = self.W("look_up")
        for k in self.names:
            nxt = []
            kv, kp, h = self.key(s, k)
            mine = [e for e in ref if e[0] == k]
            for s0, got in cur:
                H.watch()
                rs = H.call([s0], LC + "look_up", [p, kp, h])
                self.fails("look_up", "look_up", tag)
                for s1, r in rs:
                    n = H.vname(r)
                    m = H.vname(r.fs[0]) if n == "Ok" else None
                    if n == "Err" and self.on("E03"):
                        self.ob("ok|look_up", s1, False, False, w, R_OK, "an error after" + tag)
                    if m is None:
                        if n != "Err":
                            self.c.ob("get|" + op[0], False, w, R_GET, "result not modelled", undecided=True)
                        continue
                    if m == "None":
                        nxt.append((s1, got))
                        continue
                    v = r.fs[0].fs[0]
                    if self.on("E01"):
                        d = s1.ghost.get("shares", 0) - s0.ghost.get("shares", 0)
                        arc = self.P.types[getattr(r.fs[0], "ty", None) or 0]["s"].find("std::sync::Arc") >= 0
                        self.ob("share", s1, d >= 1 and arc, not arc or not isinstance(v, VPtr) or any("Arc" in x and "_strong_count" in x for x in H.E.inlined), w, R_SHARE, "after" + tag)
                    v = H.E.read(s1, v.o, v.p) if isinstance(v, VPtr) else v
                    if not mine:
                        if self.on("E03"):
                            self.ob("get|" + op[0], s1, False, False, w, R_GET, "%s is found after%s" % (k, tag))
                        continue
                    if self.on("E03"):
                        same = v == mine[0][1] or H.E.vkey(s1, v) == H.E.vkey(s1, mine[0][1])
                        known = isinstance(v, VOp) and "value" in repr(ai._NMI[v.s] if isinstance(v.s, int) and v.s < len(ai._NMI) else v.s)
                        self.ob("get|" + op[0], s1, same, not same and not known, w, R_GET, "another value for %s after%s" % (k, tag))
                    nxt.append((s1, got + (mine[0],)))
            cur = nxt
        out = []
        for s1, got in cur:
            held = tuple(e for e in ref if e in got)
            if self.want == "E03":
                self.evicted(s1, ref, held, op, tag)
            if self.want == "E02":
                self.charge(s1, p, held, op, tag)
            if self.want == "E01":
                self.owned(s1, p, held, op, tag)
            out.append((s1, held))
        return out

    def evicted(self, s, ref, held, op, tag):
        w = self.W("insert")
        if held == ref:
            return self.c.ob("evict|" + op[0], True, w, R_EVI)
        if op[0] != "insert":
            return self.ob("evict|" + op[0], s, False, False, w, R_EVI, "%d of %d entries left after%s" % (len(held), len(ref), tag))
        if held != ref[len(ref) - len(held):]:
            return self.ob("evict order", s, False, False, w, R_EVI, "kept %s of %s after%s" % ([e[0] for e in held], [e[0] for e in ref], tag))
        tot = const(0)
        for e in ref[len(ref) - len(held) - 1:]:
            tot = tot + e[2]
        self.H.ask("evict|" + op[0], s, f_le(self.cap - tot), w, R_EVI, "dropped below the capacity after" + tag)

    def charge(self, s, p, held, op, tag):
        H = self.H
        w = self.W("total_charge")
        tot = const(0)
        for e in held:
            tot = tot + e[2]
        H.watch()
        for s1, v in H.call([s], LC + "total_charge", [p]):
            H.same_val("sum|" + op[0], s1, v, VInt(tot), w, R_SUM, "after" + tag)
            if op[0] == "insert" and isinstance(v, VInt):
                H.ask("capacity|" + op[0], s1, f_le(v.l - self.cap), w, R_CAP, "after" + tag)
        H.E.fails = None

    def owned(self, s, p, held, op, tag):
        H = self.H
        w = self.W(op[0])
        fr = s.ghost.get("freed", ())
        made = s.ghost.get("made", ())
        alive = [o for o in made if o not in fr]
        hv = bool(s.ghost.get("havoc"))
        self.ob("leak|" + op[0], s, len(alive) <= len(held), hv, w, R_LEAK, "%d entries not released, %d in the cache, after%s" % (len(alive), len(held), tag))
        self.ob("held|" + op[0], s, len(alive) >= len(held), hv, w, R_HELD, "%d entries not released, %d in the cache, after%s" % (len(alive), len(held), tag))
        k = self.P.one(DROP)
        if not k:
            return self.ob("drop|" + op[0], s, not alive, hv, w, R_LEAK, "the cache has no Drop")
        H.watch()
        rs = H.call([s], DROP, [p])
        w = self.P.where(k)
        H.nofail("used|drop", TT, w, R_UAF, "after" + tag)
        for s1, _ in rs:
            left = [o for o in made if o not in s1.ghost.get("freed", ())]
            self.ob("drop|" + op[0], s1, not left, bool(s1.ghost.get("havoc")), w, R_LEAK, "%d entries never released, after%s" % (len(left), tag))


def run(c, want):
    P = c.P
    for f in ("new_with_capacity", "insert", "look_up", "erase", "prune", "total_charge"):
        if not c.need(LC + f):
            return
    quick = c.tier == "quick"
    c.extra["steps"] = 0
    for name, depth, bounded in (("bounded", 3 if quick else 4, True), ("roomy", 5 if quick else 6, False)):
        X = Cache(c, want)
        st = X.start(name, KEYS, bounded)
        if not c.anchor(st, "a new cache and its keys"):
            return
        rec(c, X, [(s, p, ()) for s, p in st], [], "", depth)
        c.extra["operations per history, " + name] = depth
        c.functions |= set(X.H.E.inlined)
    grow(c, want)
    c.floor("operations examined", c.extra["steps"], 100)


def rec(c, X, sts, hist, tag, d):
    """every history: keys are taken into use in one order, since all but the last fall into one slot"""
    if d == 0:
        return
    seen = sorted({o[1] for o in hist if len(o) > 1})
    fresh = [k for k in KEYS if k not in seen][:1]
    ops = [("insert", k) for k in fresh + seen] + [("erase", k) for k in seen + fresh] + ([("prune",)] if seen else [])
    for op in ops:
        t = tag + " " + " ".join(op)
        new = []
        for s, p, ref in sts:
            c.extra["steps"] += 1
            new += [(s2, p, r2) for s2, r2 in X.step(s, p, ref, op, t)]
        rec(c, X, new, hist + [op], t, d - 1)


def grow(c, want):
    X = Cache(c, want)
    st = X.start("growth", MANY, False)
    sts = [(s, p, ()) for s, p in st or []]
    names = list(MANY)
    tag = ""
    for i, k in enumerate(names):
        tag = " %d inserts" % (i + 1)
        new = []
        for s, p, ref in sts:
            c.extra["steps"] += 1
            new += [(s2, p, r2) for s2, r2 in X.step(s, p, ref, ("insert", k), tag, look=i > 10)]
        sts = new
    for k in names if c.tier != "quick" else names[:5] + names[7:8]:
        for op in (("erase", k), ("insert", k)):
            for s, p, ref in sts:
                c.extra["steps"] += 1
                X.step(s, p, ref, op, tag + " " + " ".join(op))
    c.functions |= set(X.H.E.inlined)
