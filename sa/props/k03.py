"""K03: containment over every list of up to three keys (four in thorough), in every insertion order and of several heights.

The lists come from sa/skip.py: the comparator is known only through the answers a total order on the history's keys implies.  Every
key inserted is found (through a copy of it), no key of any gap is; the lowest level holds the keys in strictly increasing order; a
duplicate does not enter.  Links above the lowest level are K01's."""
from ..eq import *
from ..skip import *
from .. import skip
from . import k02

LEVEL = "other"
R_IN = "a key inserted is found"
R_OUT = "a key not inserted is not found"
R_ORD = "the elements are sorted and unique"
R_OK = "a search does not fail"
HAS = SL + "contains"


def run(c):
    P = c.P
    for f in ("contains", "insert", "create"):
        if not c.need(SL + f):
            return
    if not c.need(LINKS):
        return
    quick = c.tier == "quick"
    W = World(c)
    # the instance of contains that takes the list's own key type
    ks = [k for k in P.fns if k.startswith(HAS + "<") and P.types[W.keyty]["s"] in k] or [P.one(HAS)]
    w = P.where(ks[0])
    n = 0
    for have, s, me in k02.lists(c, W, 3 if quick else 4, (1, 2, 8) if quick else (1, 2, 3, 8)):
        n += 1
        try:
            look(c, W, s, me, have, ks[0], w)
        except Lost as e:
            c.ob("list|%d keys" % len(have), False, w, R_IN, str(e), undecided=True)
    c.extra["lists"] = n
    c.functions |= set(W.H.E.inlined)
    c.floor("lists", n, 30)


def look(c, W, s, me, have, fn, w):
    H = W.H
    ranks = sorted(r for r, _ in have)
    size = "%d keys" % len(ranks)
    hv = bool(s.ghost.get("havoc"))
    ch = W.chain(s, me, 0)
    got = None if isinstance(ch, str) else [W.rank_of(s, n) for n in ch]
    c.ob("order|" + size, got is not None and all(a < b for a, b in zip(got, got[1:])), w, R_ORD, "the keys inserted as %s stand as %s" % (have, got), undecided=hv)
    gaps = [5] + [(a + b) // 2 for a, b in zip(ranks, ranks[1:])] + [90000]
    for r, there in [(r, True) for r in ranks] + [(r, False) for r in gaps]:
        k = W.key(r, 7)
        if not W.learn(s, k, r):
            raise Lost("the bytes of a key are not determined")
        s1, kp = H.place(s, "sought", k)
        H.watch()
        rs = H.call([s1], fn, [me, kp])
        H.nofail("ok|" + size, T, w, R_OK, skip=skip.console)
        if not rs:
            c.ob("ok|" + size, False, w, R_OK, "the search does not return", undecided=True)
        for s2, v in rs:
            known = isinstance(v, VBool) and (s2.holds(v.f) or s2.holds(f_not(v.f)))
            c.ob("%s|%s" % ("found" if there else "absent", size), known and s2.holds(v.f) == there, w, R_IN if there else R_OUT,
                 "keys inserted (rank, height) %s, sought rank %d" % (have, r), undecided=not known or bool(s2.ghost.get("havoc")))
