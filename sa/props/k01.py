"""K01: the links of the skip list after every insertion of a bounded history.

Every sequence of up to three insertions (four in thorough) of keys in every order, with nodes of low, middle and full height, and the
insertion of a duplicate, is run by the abstract interpreter (sa/skip.py).  After each insertion every level is walked: the lowest level
holds exactly the keys inserted, in order; each level above holds exactly the nodes tall enough, in the same order; the list's height
reaches the tallest node; and the length is the number of keys."""
import itertools
from ..eq import *
from ..skip import *
from .. import skip

LEVEL = "other"
R_ALL = "every key inserted is in the lowest level, once and in order"
R_UP = "every level holds exactly the nodes of that height, in order"
R_H = "the search starts at or above the tallest node"
R_N = "the length is the number of keys"
R_DUP = "a duplicate is refused and changes nothing"
R_OK = "an insertion of comparable keys succeeds"
INS = SL + "insert"


def run(c):
    P = c.P
    for f in ("create", "insert", "len", "height"):
        if not c.need(SL + f):
            return
    if not c.need(LINKS):
        return
    quick = c.tier == "quick"
    W = World(c)
    w = P.where(P.one(INS))
    n, hs = (3, (1, 2, 8)) if quick else (4, (1, 2, 3, 8))
    c.extra["insertions"], c.extra["heights"] = n, list(hs)
    try:
        starts = W.new()
    except Lost as e:
        return c.ob("start", False, w, R_ALL, str(e), undecided=True)
    c.anchor(starts, "an empty list")
    for s, me in starts:
        grow(c, W, s, me, (), n, hs, w)
    c.functions |= set(W.H.E.inlined)
    c.floor("insertions run", c.extra.get("insertions run", 0), 60)


def grow(c, W, s, me, have, left, hs, w):
    """have: ((rank, height), ...) in the order inserted"""
    H = W.H
    if left == 0:
        return
    ranks = sorted(r for r, _ in have)
    # one rank in every gap: ranks are spread so that a gap always exists
    new = [10000] if not ranks else [ranks[0] - 4096 // 2 ** len(have)] + [(a + b) // 2 for a, b in zip(ranks, ranks[1:])] + [ranks[-1] + 4096 // 2 ** len(have)]
    for r in new:
        for h in hs:
            one(c, W, s, me, have, r, h, left, hs, w, 0)
    if have:
        for r in ranks:
            one(c, W, s, me, have, r, hs[-1], 1, hs, w, 1)


def tagof(have):
    order = sorted(r for r, _ in have)
    return ", ".join("#%d^%d" % (order.index(r) + 1, h) for r, h in have)


def one(c, W, s, me, have, r, h, left, hs, w, copy):
    H = W.H
    c.extra["insertions run"] = c.extra.get("insertions run", 0) + 1
    n = len(have)
    now = have if copy else have + ((r, h),)
    tag = tagof(now) + (" then a duplicate of #%d" % (sorted(x for x, _ in have).index(r) + 1) if copy else "")
    kind = "dup" if copy else "insert"
    size = "%d keys" % len(now)
    H.watch()
    try:
        rs = W.insert(s, me, r, h, copy)
    except Lost as e:
        return c.ob("%s|%s" % (kind, size), False, w, R_ALL, "%s: %s" % (tag, e), undecided=True)
    H.nofail("ok|%s|%s" % (kind, size), T, w, R_OK, tag, skip=console)
    if not rs:
        return c.ob("ok|%s|%s" % (kind, size), False, w, R_OK, tag + ": the insertion does not return", undecided=True)
    for s1, v in rs:
        hv = bool(s1.ghost.get("havoc"))
        vn = H.vname(v)
        c.ob("ok|%s|%s" % (kind, size), vn == "Ok", w, R_DUP if copy else R_OK, "%s: %s" % (tag, vn), undecided=vn is None or hv)
        try:
            bad = look(W, s1, me, now, copy)
        except Lost as e:
            c.ob("links|%s|%s" % (kind, size), False, w, R_ALL, "%s: %s" % (tag, e), undecided=True)
            continue
        for key, rule, why in bad:
            c.ob("%s|%s|%s" % (key, kind, size), why is None, w, R_DUP if copy and why else rule, "%s: %s" % (tag, why), undecided=hv)
        for f, want, key, rule in (("len", len(now), "length", R_N), ("height", max(x for _, x in now), "height", R_H)):
            for s2, x in H.call([s1], SL + f, [me]):
                l = H.E.as_lin(x)
                l = s2.norm(l) if l is not None else None
                if l is None or not l.is_const():
                    c.ob("%s|%s|%s" % (key, kind, size), False, w, rule, tag, undecided=True)
                else:
                    c.ob("%s|%s|%s" % (key, kind, size), l.c == want if f == "len" else l.c >= tallest(W, s2, me), w, rule, "%s: %s is %d" % (tag, f, l.c), undecided=hv)
        if not copy and not any(b[2] for b in bad):
            grow(c, W, s1, me, now, left - 1, hs, w)


def tallest(W, st, me):
    t = 0
    for l in range(MAXL):
        x = W.chain(st, me, l)
        if isinstance(x, list) and x:
            t = l + 1
    return t


def look(W, st, me, now, copy):
    out = []
    ch = W.chain(st, me, 0)
    want = sorted(r for r, _ in now)
    if isinstance(ch, str):
        return [("links", R_ALL, ch)]
    got = [W.rank_of(st, n) for n in ch]
    out.append(("links", R_ALL, None if got == want else "the lowest level holds %s of the keys%s" % ([want.index(g) + 1 for g in got if g in want], "" if len(got) == len(want) else ", %d expected" % len(want))))
    if got != want:
        return out
    lev = {n.o: W.parts(st, n)[2] for n in ch}
    why = None
    for l in range(1, MAXL):
        x = W.chain(st, me, l)
        if isinstance(x, str):
            why = x
            break
        up = [n.o for n in x]
        if up != [n.o for n in ch if lev[n.o] > l]:
            why = "level %d holds %d nodes, %d are of that height" % (l, len(up), sum(v > l for v in lev.values()))
            break
    out.append(("levels", R_UP, why))
    return out
