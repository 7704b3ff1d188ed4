"""E04: the locks of the shared cache.

Every public operation of the sharded cache is run by the abstract interpreter on an unknown cache and key.  Each call it makes into a
shard is recorded together with the guards alive at that moment: the guard must be the one of that very shard, and exclusive when the
call may modify the shard.  The operations allowed under a shared guard are those that write nothing a second reader could see; whether
an operation does is read off a run of it over populated shards (the histories of E01-E03).  The shard chosen and the hash passed must
be the same function of the key everywhere."""
from ..eq import *
from ..hist import Hist
from .. import ai, cache
from ..codec import within
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
SH = "util::cache::ShardLRUCache::<T>::"
LC = "util::cache::LRUCache::<T>::"
KEYED = {"insert": "insert", "lookup": "look_up", "erase": "erase"}
WHOLE = {"prune": "prune", "total_charge": "total_charge", "slots": "slots"}
R_HELD = "a shard is touched only while its own lock is held"
R_EXCL = "an operation that modifies a shard holds its lock exclusively"
R_ROUTE = "a key goes to the same shard, with the same hash, in every operation"
R_KEY = "the shard receives the key, value and charge the client gave"
R_ALL = "an operation on the whole cache visits every shard once"
R_OK = "no operation fails"
R_PURE = "an operation run under a shared lock writes nothing another reader could see"


class Guards:
    E = None

    def event(self, E, st, fr, what, a):
        if what == "lock":
            v, ci = a
            kind = "shared" if (ci.get("rpath") or ci.get("path") or "").endswith("read") else "exclusive"
            st.ghost["held"] = st.ghost.get("held", ()) + ((v.o, tuple(v.p), kind),)

    def drop(self, E, st, fr, v, ty, where):
        if isinstance(v, VIter) and v.k == "guard":
            s = st.copy()
            g = v.a[0]
            h = list(s.ghost.get("held", ()))
            for i in range(len(h) - 1, -1, -1):
                if h[i][0] == g.o and h[i][1] == tuple(g.p)[:len(h[i][1])]:
                    del h[i]
                    break
            s.ghost["held"] = tuple(h)
            return [s]
        return None

    def __getattr__(self, n):
        return lambda *a, **k: None


def run(c):
    P = c.P
    for f in list(KEYED) + list(WHOLE):
        if not c.need(SH + f):
            return
    for f in list(KEYED.values()) + list(WHOLE.values()):
        if not c.need(LC + f):
            return
    impure = purity(c)
    routes = {}
    for f in KEYED:
        keyed(c, f, KEYED[f], impure, routes)
    for f in WHOLE:
        whole(c, f, WHOLE[f], impure)


def purity(c):
    """the operations of a shard that write to it, from runs over populated shards"""
    P = c.P
    X = cache.Cache(c, None)
    X.ob = lambda *a, **k: None
    X.c = Mute(c)
    st = X.start("purity", dict(list(cache.KEYS.items())[:3]), False)
    if not c.anchor(st, "a new shard"):
        return {}
    sts = [(s, p, ()) for s, p in st]
    out = {}
    wrote = []
    E = X.H.E
    wr = E.write

    def write(st, o, p, *a, **k):
        if not (isinstance(o, tuple) and o[0] == "L"):
            wrote.append(o)
        return wr(st, o, p, *a, **k)
    for i, k in enumerate(["k1", "k2", "k3"]):
        nxt = []
        for s, p, ref in sts:
            nxt += [(s2, p, r2) for s2, r2 in X.step(s, p, ref, ("insert", k), " %d" % i, look=False)]
        sts = nxt
    for f in ("look_up", "total_charge", "slots"):
        k = P.one(LC + f)
        w = P.where(k)
        calls = [[p, X.keys[n][1], X.keys[n][2]] for n in X.keys] if f == "look_up" else [[p]]
        bad = n = 0
        for s, p, ref in sts:
            for a in calls:
                old = {o for o in s.mem if o[0] != "L"}
                E.write = write
                del wrote[:]
                n += len(X.H.call([s], LC + f, [p] + a[1:]))
                E.write = wr
                bad += any(o in old for o in wrote)
        out[f] = "writes" if bad else "reads" if n else "?"
    return out


class Mute:
    """a context whose obligations do not count"""

    def __init__(self, c):
        self._c = c

    def ob(self, *a, **k):
        return None

    def __getattr__(self, n):
        return getattr(self._c, n)


def hashed(E, st, fr, a, ci):
    v = a[0]
    for _ in range(3):
        if isinstance(v, VPtr):
            v = E.read(st, v.o, v.p)
    seed = [x for x in a[1:]]
    return [(st, VInt(var(E.isym(ai.nm("hash", E.vkey(st, v), *[E.vkey(st, x) for x in seed]), ci["dty"]))))]


def setup(c, f, g):
    P = c.P
    rec = []
    fn = P.fns[P.one(LC + g)]

    def stub(name):
        def m(E, st, fr, a, ci):
            r = E.mk(ci["dty"], ai.nm("shard answers", name, len(rec)))
            if isinstance(a[0], VPtr):
                r = E.mk(ci["dty"], ai.nm("shard answers", name, a[0].o, tuple(a[0].p)))
            rec.append((name, st, a, st.ghost.get("held", ()), r))
            st = st.copy()
            st.ghost["calls"] = st.ghost.get("calls", ()) + (len(rec) - 1,)
            return [(st, r)]
        return m
    models = {LC + n: stub(n) for n in ("insert", "look_up", "erase", "prune", "total_charge", "slots")}
    models["re:^<.* as util::hash::ToHash>::(to_hash|to_hash_with_seed)(<.*)?$"] = hashed
    models["re:^util::hash::Hash::(hash_code|hash)(::<.*)?(<.*)?$"] = hashed
    H = Hist(c, "shard " + f, Guards(), models=models, exact=True, unroll=70)
    H.E.MAXD = 400
    k = P.one(SH + f)
    ts = [P.fns[k]["locals"][i + 1][0] for i in range(P.fns[k]["argc"])]
    return H, rec, k, ts


def lock_ok(c, H, f, r, impure, w):
    name, st, a, held, res = r
    me = a[0]
    if not isinstance(me, VPtr):
        return c.ob("held|" + f, False, w, R_HELD, "the shard is not determined", undecided=True)
    mine = [h for h in held if h[0] == me.o and tuple(me.p)[:len(h[1])] == h[1]]
    excl = [h for h in mine if h[2] == "exclusive"]
    alone = P_mutref(H.P, SH + f) and not mine
    if alone and not held:
        # &mut self: the borrow checker's exclusivity stands in for the lock (get_mut)
        return c.ob("held|" + f, True, w, R_HELD)
    und = bool(st.ghost.get("havoc"))
    if mine or und:
        c.ob("held|" + f, bool(mine), w, R_HELD, undecided=und)
    else:
        H.ask("held|" + f, st, F, w, R_HELD, "%s is called on a shard whose lock is not held (held: %d other)" % (name, len(held)))
    if not mine:
        return
    need = P_mutref(H.P, LC + name)
    if need or impure.get(name) == "writes":
        rule = R_EXCL if need else R_PURE
        if excl or und:
            c.ob("excl|" + f, bool(excl), w, rule, undecided=und)
        else:
            H.ask("excl|" + f, st, F, w, rule, "%s modifies the shard under a shared lock" % name)
    elif name in ("look_up", "total_charge", "slots"):
        c.ob("pure|" + f, impure.get(name) == "reads" or bool(excl), w, R_PURE, "%s not modelled" % name, undecided=True)


def P_mutref(P, suf):
    fn = P.fns[P.one(suf)]
    t = P.types[fn["locals"][1][0]]
    return t["k"] == "ref" and t["s"].startswith("&mut")


def keyed(c, f, g, impure, routes):
    P = c.P
    H, rec, k, ts = setup(c, f, g)
    w = P.where(k)
    st = ai.State()
    st, me = H.place(st, "cache", H.E.mk(P.types[ts[0]]["e"], ai.nm("given", "cache")), P.types[ts[0]]["e"])
    key = H.given(ts[1], "key")
    args = [me, key] + [H.given(t, "argument %d" % i) for i, t in enumerate(ts[2:])]
    H.watch()
    rs = H.call([st], k, args)
    H.nofail("ok|" + f, T, w, R_OK)
    c.functions |= set(H.E.inlined)
    want = [r for r in rec if r[0] == g]
    if not rs or not rec:
        return c.ob("calls|" + f, False, w, R_KEY, "no shard operation is reached", undecided=True)
    for r in rec:
        lock_ok(c, H, f, r, impure, w)
    for s, v in rs:
        mine = [rec[i] for i in s.ghost.get("calls", ())]
        mine = [r for r in mine if r[0] == g]
        if len(mine) != 1:
            n = H.vname(v)
            if n == "Err" or s.ghost.get("havoc"):
                continue
            c.ob("calls|" + f, False, w, R_KEY, "%d calls of %s" % (len(mine), g), undecided=not (len(mine) == 0 and n == "Ok" and not rs_unknown(s)))
            continue
        route(c, H, f, mine[0], key, args, routes, w)


def rs_unknown(s):
    return True


def route(c, H, f, r, key, args, routes, w):
    name, st, a, held, res = r
    idx = [e[1] for e in a[0].p if isinstance(e, tuple) and e[0] == "i"] if isinstance(a[0], VPtr) else []
    h = a[2]
    if len(idx) != 1:
        return c.ob("route|" + f, False, w, R_ROUTE, "the shard's index is not determined", undecided=True)
    H.ask("range|" + f, st, f_and(f_le(-idx[0]), f_le(idx[0] - 31)), w, R_ROUTE, "the shard's index")
    if "first" not in routes:
        routes["first"] = (idx[0], h, f)
    i0, h0, f0 = routes["first"]
    H.same_val("hash|" + f, st, h, h0, w, R_ROUTE, "the hash passed, compared with %s" % f0)
    # the index is the same function of the hash: compare in a state where the hashes agree
    H.same_val("route|" + f, st, VInt(idx[0]), VInt(i0), w, R_ROUTE, "the shard, compared with %s" % f0)
    kb, gb = H.length(st, a[1]), H.length(st, key)
    if kb is None or gb is None:
        return c.ob("key|" + f, False, w, R_KEY, "the key is not determined", undecided=True)
    H.ask("key|" + f, st, f_eq(kb - gb), w, R_KEY, "the key's length")
    j = H.int("usize", "j").l
    for s2 in within([st], f_and(f_and(f_le(-j), f_le(j + 1 - gb)), f_eq(kb - gb))):
        H.same_val("key|" + f, s2, H.at(s2, a[1], j), H.at(s2, key, j), w, R_KEY, "a byte of the key")
    if f == "insert":
        for i, what in ((3, "value"), (4, "charge")):
            got, giv = a[i], args[i - 1]
            if got == giv or H.E.vkey(st, got) == H.E.vkey(st, giv):
                c.ob("%s|insert" % what, True, w, R_KEY)
            elif isinstance(got, VInt) and isinstance(giv, VInt):
                H.same_val("%s|insert" % what, st, got, giv, w, R_KEY, "the " + what)
            else:
                c.ob("%s|insert" % what, False, w, R_KEY, "another " + what, undecided=True)


def whole(c, f, g, impure):
    P = c.P
    H, rec, k, ts = setup(c, f, g)
    w = P.where(k)
    st = ai.State()
    st, me = H.place(st, "cache", H.E.mk(P.types[ts[0]]["e"], ai.nm("given", "cache")), P.types[ts[0]]["e"])
    H.watch()
    rs = H.call([st], k, [me])
    H.nofail("ok|" + f, T, w, R_OK, skip=lambda kind, what, fn: "overflow" in what)
    c.functions |= set(H.E.inlined)
    if not rs or not rec:
        return c.ob("all|" + f, False, w, R_ALL, "no shard operation is reached", undecided=True)
    for r in rec:
        lock_ok(c, H, f, r, impure, w)
    for s, v in rs:
        n = H.vname(v)
        if n == "Err":
            continue
        mine = [rec[i] for i in s.ghost.get("calls", ()) if rec[i][0] == g]
        idx = []
        for r in mine:
            e = [x[1] for x in r[2][0].p if isinstance(x, tuple) and x[0] == "i"] if isinstance(r[2][0], VPtr) else []
            q = s.const_of(e[0]) if len(e) == 1 else None
            idx.append(q)
        if None in idx or n is None or s.ghost.get("havoc"):
            c.ob("all|" + f, False, w, R_ALL, "the shards visited are not determined", undecided=True)
            continue
        # prune stops at the first shard that fails
        failed = f == "prune" and sorted(idx) == list(range(len(idx))) and len(idx) < 32 and H.vname(mine[-1][4]) != "Ok" if mine else False
        good = sorted(idx) == list(range(32))
        if good:
            c.ob("all|" + f, True, w, R_ALL)
        elif failed:
            c.ob("all|" + f, False, w, R_ALL, "stops at a failing shard", undecided=True)
        else:
            H.ask("all|" + f, s, F, w, R_ALL, "shards visited: %s" % idx[:40])
        if good and f != "prune" and n == "Ok":
            tot = const(0)
            for r in mine:
                tot = tot + r[4].l if isinstance(r[4], VInt) else None
            H.same_val("sum|" + f, s, v.fs[0], VInt(tot), w, R_ALL, "the sum over the shards")
