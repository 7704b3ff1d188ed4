"""Q02: separators and successors.

find_shortest_separator and find_short_successor are run by the abstract interpreter on keys of every shape up to a bound: a shared
prefix of p unknown bytes followed by up to three unknown bytes each, every byte value included.  On every path the result is
compared with the arguments, byte by byte, as unsigned bytes."""
from ..eq import *
from ..dom import f_and as and2
from functools import reduce
from ..hist import Hist
from .. import ai
from ..codec import within
from ..lin import const, var
from .h01 import carrier
from .r01 import consts

LEVEL = "other"
CONFIRM = True
C = "<util::comparator::BytewiseComparatorImpl as traits::comparator_trait::Comparator>::"
SEP, SUC = C + "find_shortest_separator", C + "find_short_successor"
R_LOW = "the separator is not below start"
R_HIGH = "the separator is below limit when start is"
R_LEN = "the separator is no longer than start"
R_SUC = "the successor is not below the key"
R_OK = "shortening never fails"
F, TT = ("F",), ("T",)


def lt(a, b, eq=False):
    """lexicographic a < b (or <=) over lists of Lin"""
    if not a:
        return TT if b or eq else F
    if not b:
        return F
    x, y = a[0], b[0]
    if (x - y).is_const():
        d = (x - y).c
        return lt(a[1:], b[1:], eq) if d == 0 else (TT if d < 0 else F)
    r = lt(a[1:], b[1:], eq)
    return f_or(f_le(x + 1 - y), and2(f_eq(x - y), r) if r != TT else f_eq(x - y)) if r != F else f_le(x + 1 - y)


def unknown(H, tag, n):
    return [VInt(var(H.E.isym(ai.nm("given", tag, i), H.E.intty("u8")))) for i in range(n)]


def result(c, H, key, s, v, w, rule):
    """the result's bytes as Lins, or None (undecided)"""
    a = H.arr(s, v)
    n = s.const_of(a[2]) if a else None
    if n is None:
        c.ob(key, False, w, rule, "the result's length is not known on this path", undecided=True)
        return None
    bs = [H._el(s, a, const(i)) for i in range(n)]
    if not all(isinstance(b, VInt) for b in bs):
        c.ob(key, False, w, rule, "the result's bytes are not modelled", undecided=True)
        return None
    return [b.l for b in bs]


def prefixes(c):
    P = c.P
    r = {0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 255, 256}
    for k in consts(P, [P.one(SEP), P.one(SUC)]):
        r |= {x for x in (k - 1, k, k + 1) if 0 <= x <= 300}
    return sorted(r)


def start(c, name, n):
    H = Hist(c, name, exact=True, unroll=n + 40)
    H.E.MAXD = 400
    return H


def run(c):
    if not c.need(SEP) or not c.need(SUC):
        return
    P = c.P
    ps = prefixes(c)
    top = 3 if c.tier == "quick" else 4
    c.extra["prefixes"] = str(ps)
    c.extra["tails"] = "0..%d bytes each" % top
    w = P.where(P.one(SEP))
    for p in ps:
        t = top if p <= 2 else 1
        for na in range(t + 1):
            for nb in range(t + 1):
                name = "separator|prefix %d, tails %d and %d" % (p, na, nb)
                H = start(c, name, p + t)
                pre = unknown(H, "p", p)
                a, b = pre + unknown(H, "a", na), pre + unknown(H, "b", nb)
                k = P.one(SEP)
                st, va = carrier(H, ty_of_arg(P, k, 1), a, "start")
                st, vb = carrier(H, ty_of_arg(P, k, 2), b, "limit", st) if st is not None else (None, None)
                if st is None:
                    c.ob("operands|" + name, False, w, R_OK, "operands not modelled", undecided=True)
                    continue
                st, sf = H.place(st, "self", H.given(H.E.pointee(ty_of_arg(P, k, 0)), "self"))
                H.watch()
                la, lb = [x.l for x in a], [x.l for x in b]
                for s, v in H.call([st], SEP, [sf, va, vb]):
                    r = result(c, H, "low|" + name, s, v, w, R_LOW)
                    if r is None:
                        continue
                    for s2 in s.assume(lt(la, lb)):
                        H.ask("low|" + name, s2, lt(la, r, True), w, R_LOW, "for start < limit")
                        H.ask("high|" + name, s2, lt(r, lb), w, R_HIGH)
                        c.ob("length|" + name, len(r) <= len(a), w, R_LEN, "%d bytes from %d" % (len(r), len(a)))
                H.nofail("ok|" + name, TT, w, R_OK)
                c.functions |= set(H.E.inlined)
    w = P.where(P.one(SUC))
    for n in sorted({*range(top + 2), *[p for p in ps if p <= 34]}):
        name = "successor|%d bytes" % n
        H = start(c, name, n)
        a = unknown(H, "key", n)
        if n > top + 1:
            # the first bytes cannot be incremented
            a[:n - 2] = [VInt(const(255))] * (n - 2)
        k = P.one(SUC)
        st, va = carrier(H, ty_of_arg(P, k, 1), a, "key")
        if st is None:
            c.ob("operands|" + name, False, w, R_OK, "operands not modelled", undecided=True)
            continue
        st, sf = H.place(st, "self", H.given(H.E.pointee(ty_of_arg(P, k, 0)), "self"))
        H.watch()
        for s, v in H.call([st], SUC, [sf, va]):
            r = result(c, H, "low|" + name, s, v, w, R_SUC)
            if r is not None:
                H.ask("low|" + name, s, lt([x.l for x in a], r, True), w, R_SUC)
        H.nofail("ok|" + name, TT, w, R_OK)
        c.functions |= set(H.E.inlined)
