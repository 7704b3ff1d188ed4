"""G01: histogram operations over unknown samples and unknown histograms.

Floating-point numbers are exact linear expressions in halves here: every sample, statistic and bucket count is an unknown multiple of one
half of either sign, and products of unknowns are uninterpreted (rounding, infinities and NaN are left out).  Histograms are the new one and
an arbitrary one that holds samples; add, merge and clear are run on them by the abstract interpreter and every statistic and every bucket
is compared with what the samples say, the bucket limits being LevelDB's."""
from ..eq import *
from ..hist import Hist
from .. import ai
from ..codec import within
from ..lin import const, var

LEVEL = "other"
CONFIRM = False
H_ = "util::histogram::Histogram::"
R_ADD = "adding a sample updates count, sum, sum of squares, minimum and maximum"
R_BKT = "a sample is counted in exactly one bucket, the one whose limits contain it"
R_MRG = "merging combines every statistic of both histograms"
R_CLR = "a new or cleared histogram holds no sample"
R_OK = "no operation fails"
TT = ("T",)
BIG = int(1e200)
NAMES = ("min", "max", "num", "sum", "sum_squares", "buckets")


def limits():
    out = [1, 2, 3, 4, 5, 6, 7, 8, 9]
    for e in range(1, 10):
        for m in (10, 12, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90):
            out.append(m * 10 ** (e - 1))
    return out + [BIG]


def limits_ok(l):
    return len(l) == 154 and l == sorted(l)


def run(c):
    P = c.P
    LIM = limits()
    assert limits_ok(LIM)
    DEF = "<util::histogram::Histogram as std::default::Default>::default"
    for f in (H_ + "add", H_ + "merge", H_ + "clear", DEF):
        if not c.need(f):
            return
    W = lambda f: P.where(P.one(H_ + f))
    ti = adt_ti(P, "util::histogram::Histogram")
    idx = {n: fidx(P, "util::histogram::Histogram", n) for n in NAMES}
    if any(v is None for v in idx.values()):
        return c.ob("fields", False, "", R_ADD, "a statistic is gone")

    class S:
        """what a histogram holds in a state"""

        def __init__(s, H, st, p):
            s.H, s.st = H, st
            v = H.E.read(st, p.o, p.p)
            if isinstance(v, VOp):
                v = H.E.expand(v)
            s.v = v
            s.b = v.fs[idx["buckets"]]

        def num(s, n):
            return s.H.E.flin(s.v.fs[idx[n]])

        def bucket(s, i):
            x = s.b if not isinstance(s.b, VOp) else s.H.E.expand(s.b)
            return s.H.E.flin(s.H.E.elem(s.st, x, const(i))) if isinstance(x, VArr) else None

    def eq(H, key, st, got, want, w, rule, what):
        if got is None:
            return c.ob(key, False, w, rule, what + " has no known form", undecided=True)
        if got == want:
            return c.ob(key, True, w, rule)
        return H.ask(key, st, f_eq(got - want), w, rule, what)


    def num(t):
        """an unknown number, in halves"""
        return var(L.sym(("n", ai.nm("given", t)), -ai.FBIG, ai.FBIG))

    def make(H, sts, tag, fresh):
        """a histogram: new, or an arbitrary one with samples"""
        out = []
        if fresh:
            for s, v in H.call(sts, DEF, []):
                s, p = H.place(s, tag, v)
                out.append((s, p))
            return out
        fs = {n: VInt(num(tag + "." + n)) for n in NAMES[:-1]}
        for s in sts:
            for s, v in H.call([s], DEF, []):
                b = v.fs[idx["buckets"]]
                els = tuple((i, VInt(num("%s.bucket%d" % (tag, i)))) for i in range(154))
                b2 = VArr(b.ety, b.n, els, b.base)
                v = VAgg(v.ty, tuple(b2 if i == idx["buckets"] else fs[[n for n in NAMES if idx[n] == i][0]] if i in idx.values() else x for i, x in enumerate(v.fs)))
                s, p = H.place(s, tag, v)
                g = [f_le(const(2) - fs["num"].l), f_le(fs["min"].l - fs["max"].l), f_le(-fs["max"].l), f_le(fs["min"].l - 2 * BIG)]
                g += [f_le(-x.l) for _, x in els] + [f_le(-fs["sum_squares"].l)]
                out += [(x, p) for x in within([s], *g)]
        return out

    def empty(H, st, p, key, w):
        h = S(H, st, p)
        for n in ("num", "sum", "sum_squares"):
            eq(H, key + "|" + n, st, h.num(n), const(0), w, R_CLR, n)
        for i in range(154):
            eq(H, key + "|bucket", st, h.bucket(i), const(0), w, R_CLR, "bucket %d" % i)

    # new
    for fresh in (True, False):
        tag = "a new histogram" if fresh else "any histogram"
        H = Hist(c, "clear " + tag, exact=True, fnum=True, unroll=400, maxsteps=10 ** 9)
        H.E.MAXD = 400
        H.watch()
        hs = make(H, [ai.State()], "h", fresh)
        c.anchor([s for s, p in hs], tag)
        for s, p in hs:
            if fresh:
                empty(H, s, p, "new", P.where(P.one(DEF)))
            for s2, v in H.call([s], H_ + "clear", [p]):
                empty(H, s2, p, "clear|" + tag, W("clear"))
                # what a cleared histogram says after one sample is what a new one says: minimum and maximum start over
                a, b = S(H, s2, p), None
                for s3, q in make(H, [s2], "fresh", True):
                    b = S(H, s3, q)
                    for n in ("min", "max"):
                        eq(H, "clear|%s|%s" % (tag, n), s3, a.num(n), b.num(n), W("clear"), R_CLR, n)
        H.nofail("clear|ok|" + tag, TT, W("clear"), R_OK)
        c.functions |= set(H.E.inlined)
    # add
    for fresh in (True, False):
        tag = "first" if fresh else "any"
        H = Hist(c, "add " + tag, exact=True, fnum=True, unroll=400, maxsteps=10 ** 9)
        H.E.MAXD = 400
        v = num("sample")
        H.watch()
        n = 0
        for s, p in make(H, [ai.State()], "h", fresh):
            a = S(H, s, p)
            for s2, _ in H.call([s], H_ + "add", [p, VInt(v)]):
                n += 1
                b = S(H, s2, p)
                k = "add|%s|" % tag
                eq(H, k + "num", s2, b.num("num"), a.num("num") + 2, W("add"), R_ADD, "num")
                eq(H, k + "sum", s2, b.num("sum"), a.num("sum") + v, W("add"), R_ADD, "sum")
                for s3, sq in H.E.fbin(s2, "Mul", VInt(v), VInt(v)):
                    eq(H, k + "sum_squares", s3, b.num("sum_squares"), a.num("sum_squares") + sq.l, W("add"), R_ADD, "sum_squares")
                # the first minimum is the top limit, the first maximum 0: samples between them
                for f, want in ((f_le(a.num("min") - v), a.num("min")), (f_le(v - a.num("min")), v)):
                    for s3 in within([s2], f, f_le(v - 2 * BIG)):
                        eq(H, k + "min", s3, b.num("min"), want, W("add"), R_ADD, "min")
                for f, want in ((f_le(a.num("max") - v), v), (f_le(v - a.num("max")), a.num("max"))):
                    for s3 in within([s2], f, f_le(-v)):
                        eq(H, k + "max", s3, b.num("max"), want, W("add"), R_ADD, "max")
                for i in range(154):
                    d = b.bucket(i)
                    o = a.bucket(i)
                    lo = None if i == 0 else f_le(const(2 * LIM[i - 1]) - v)
                    hi = None if i == 153 else f_le(v + 1 - 2 * LIM[i])
                    inn = hi if lo is None else lo if hi is None else f_and(lo, hi)
                    if d is None:
                        c.ob(k + "bucket", False, W("add"), R_BKT, "bucket %d has no known form" % i, undecided=True)
                        continue
                    dl = s2.norm(d - o)
                    if dl == const(2):
                        H.ask(k + "bucket", s2, inn, W("add"), R_BKT, "bucket %d counts a sample outside its limits" % i)
                    elif dl == const(0):
                        H.ask(k + "bucket", s2, f_not(inn), W("add"), R_BKT, "bucket %d misses a sample inside its limits" % i)
                    else:
                        for s3 in s2.assume(inn):
                            H.ask(k + "bucket", s3, f_eq(dl - 2), W("add"), R_BKT, "bucket %d" % i)
                        for s3 in s2.assume(f_not(inn)):
                            H.ask(k + "bucket", s3, f_eq(dl), W("add"), R_BKT, "bucket %d" % i)
        H.nofail("add|ok|" + tag, TT, W("add"), R_OK)
        c.extra["cases of add, " + tag] = n
        c.floor("cases of add", n, 1)
        c.functions |= set(H.E.inlined)
    # merge
    for fa in (True, False):
        for fb in (True, False):
            tag = "%s with %s" % ("new" if fa else "any", "new" if fb else "any")
            H = Hist(c, "merge " + tag, exact=True, fnum=True, unroll=400, maxsteps=10 ** 9)
            H.E.MAXD = 400
            H.watch()
            for s, p in make(H, [ai.State()], "h", fa):
                for s1, q in make(H, [s], "other", fb):
                    a, o = S(H, s1, p), S(H, s1, q)
                    for s2, _ in H.call([s1], H_ + "merge", [p, q]):
                        b = S(H, s2, p)
                        k = "merge|%s|" % tag
                        for n in ("num", "sum", "sum_squares"):
                            eq(H, k + n, s2, b.num(n), a.num(n) + o.num(n), W("merge"), R_MRG, n)
                        x, y = a.num("min"), o.num("min")
                        for f, want in ((f_le(x - y), x), (f_le(y - x), y)):
                            for s3 in s2.assume(f):
                                eq(H, k + "min", s3, b.num("min"), want, W("merge"), R_MRG, "min")
                        x, y = a.num("max"), o.num("max")
                        for f, want in ((f_le(x - y), y), (f_le(y - x), x)):
                            for s3 in s2.assume(f):
                                eq(H, k + "max", s3, b.num("max"), want, W("merge"), R_MRG, "max")
                        for i in range(154):
                            eq(H, k + "bucket", s2, b.bucket(i), a.bucket(i) + o.bucket(i), W("merge"), R_MRG, "bucket %d" % i)
            H.nofail("merge|ok|" + tag, TT, W("merge"), R_OK)
            c.functions |= set(H.E.inlined)
