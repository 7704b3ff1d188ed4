"""K02: iterators over every list of up to three keys (four in thorough), in every insertion order and of several heights.

The lists come from sa/skip.py.  A new iterator, one after seek_to_first, seek_to_last and every number of next, are asked whether
they are valid and for their key; reading the key where the iterator is not valid has to fail."""
from ..eq import *
from ..skip import *
from .. import skip

LEVEL = "other"
R_V = "an iterator is valid exactly when it stands on an element"
R_K = "the key is that of the element"
R_FIRST = "seeking to the first lands on the smallest element, or nowhere"
R_LAST = "seeking to the last lands on the largest element, or nowhere"
R_NEXT = "next moves to the next larger element, and stays past the end"
R_KEY = "the key cannot be read where the iterator is not valid"
R_ITER = "iteration yields every element once, in order"
R_OK = "moving an iterator does not fail"


def run(c):
    P = c.P
    for f in ("valid", "seek_to_first", "seek_to_last", "next", "key"):
        if not c.need(IT + f):
            return
    if not (c.need(SL + "iter") and c.need(SL + "insert") and c.need(LINKS) and c.need(ITN)):
        return
    quick = c.tier == "quick"
    W = World(c)
    n = 0
    for have, s, me in lists(c, W, 3 if quick else 4, (1, 2, 8) if quick else (1, 2, 3, 8)):
        n += 1
        try:
            look(c, W, s, me, sorted(r for r, _ in have))
        except Lost as e:
            c.ob("list|%d keys" % len(have), False, P.where(P.one(IT + "valid")), R_V, str(e), undecided=True)
    c.extra["lists"] = n
    c.functions |= set(W.H.E.inlined)
    c.floor("lists", n, 30)


def lists(c, W, top, hs):
    """every list of the bound: (((rank, height), ...), state, list)"""
    def grow(s, me, have):
        yield have, s, me
        if len(have) == top:
            return
        ranks = sorted(r for r, _ in have)
        d = 4096 // 2 ** len(have)
        new = [10000] if not ranks else [ranks[0] - d] + [(a + b) // 2 for a, b in zip(ranks, ranks[1:])] + [ranks[-1] + d]
        for r in new:
            for h in hs if len(have) < 2 else hs[1:]:
                for s1, v in W.insert(s, me, r, h):
                    if W.H.vname(v) == "Ok":
                        yield from grow(s1, me, have + ((r, h),))
    try:
        for s, me in W.new():
            yield from grow(s, me, ())
    except Lost as e:
        c.ob("build", False, "", R_V, str(e), undecided=True)


def look(c, W, s, me, ranks):
    H, P = W.H, W.P
    size = "%d keys" % len(ranks)
    w = lambda f: P.where(P.one(IT + f))
    its = []
    for s1, v in H.call([s], SL + "iter", [me]):
        its.append(H.place(s1, "iterator", v))
    for s1, it in its:
        at(c, W, s1, it, None, ranks, "new", size)
        for seek, i, rule in (("seek_to_first", 0, R_FIRST), ("seek_to_last", len(ranks) - 1, R_LAST)):
            i = i if ranks else None
            for s2 in move(c, W, s1, it, seek, size):
                if not at(c, W, s2, it, i, ranks, seek, size, rule):
                    continue
                j, cur = i, [s2]
                for _ in range(len(ranks) + 1 if i is not None else 1):
                    j = j + 1 if j is not None and j + 1 < len(ranks) else None
                    nx = []
                    for s3 in cur:
                        nx += move(c, W, s3, it, "next", size)
                    cur = [x for x in nx if at(c, W, x, it, j, ranks, "next after " + seek, size, R_NEXT)]
        # next on a new iterator moves to the first element
        cur = [s1]
        for j in list(range(len(ranks))) + [None, None]:
            nx = []
            for s3 in cur:
                nx += move(c, W, s3, it, "next", size)
            cur = [x for x in nx if at(c, W, x, it, j, ranks, "next from the start", size, R_NEXT)]
        # std's iteration
        cur = [s1]
        for j in list(range(len(ranks))) + [None, None]:
            nx = []
            for s3 in cur:
                H.watch()
                rs = H.call([s3], ITN, [it])
                H.nofail("ok|iterate|" + size, T, w("next"), R_OK, skip=skip.console)
                for s4, v in rs:
                    hv = bool(s4.ghost.get("havoc"))
                    vn = H.vname(v)
                    good = vn == ("Some" if j is not None else "None")
                    if good and j is not None:
                        r = krank(W, s4, v.fs[0])
                        good = r == ranks[j]
                        hv = hv or r is None
                    c.ob("iterate|" + size, good, P.where(P.one(ITN)), R_ITER, "step %s yields %s" % (j, vn), undecided=vn is None or hv)
                    if good:
                        nx.append(s4)
            cur = nx


def krank(W, st, k):
    E = W.H.E
    x = E.expand(k) if isinstance(k, VOp) else k
    for f in getattr(x, "fs", ()):
        f = E.mk(f.ty, f.s) if isinstance(f, VOp) and f.ty is not None else f
        if isinstance(f, (VPtr, VFat, VVec)) and f.o in W.rank:
            return W.rank[f.o]
    return None


def move(c, W, s, it, f, size):
    H, P = W.H, W.P
    H.watch()
    rs = H.call([s], IT + f, [it])
    H.nofail("ok|%s|%s" % (f, size), T, P.where(P.one(IT + f)), R_OK, skip=skip.console)
    if not rs:
        c.ob("ok|%s|%s" % (f, size), False, P.where(P.one(IT + f)), R_OK, "it does not return", undecided=True)
    return [x for x, _ in rs]


def at(c, W, s, it, i, ranks, how, size, rule=None):
    """the iterator stands on element i, or nowhere for None"""
    H, P = W.H, W.P
    wv, wk = P.where(P.one(IT + "valid")), P.where(P.one(IT + "key"))
    ok = True
    for s1, v in H.call([s], IT + "valid", [it]):
        hv = bool(s1.ghost.get("havoc"))
        if not isinstance(v, VBool) or not (s1.holds(v.f) or s1.holds(f_not(v.f))):
            c.ob("valid|%s|%s" % (how, size), False, wv, R_V, "not determined", undecided=True)
            continue
        got = s1.holds(v.f)
        # where it stands decides validity; what valid says about that is its own rule
        c.ob("valid|%s|%s" % (how, size), got == (i is not None), wv, R_V if rule is None else rule, "%s in a list of %s: valid is %s" % (how, size, got), undecided=hv)
        ok = ok and got == (i is not None)
        H.watch()
        rs = H.call([s1], IT + "key", [it])
        if i is None:
            H.watch()
            c.ob("nokey|%s|%s" % (how, size), not rs, wk, R_KEY, "%s in a list of %s: a key is returned" % (how, size), undecided=hv)
            continue
        H.nofail("ok|key|" + size, T, wk, R_OK, skip=skip.console)
        for s2, k in rs:
            r = krank(W, s2, k)
            c.ob("key|%s|%s" % (how, size), r == ranks[i], wk, R_K if rule is None else rule, "%s in a list of %s" % (how, size), undecided=r is None or hv)
            ok = ok and r == ranks[i]
    return ok
