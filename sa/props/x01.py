"""X01: the range of every draw, for every seed: histories new -> next .. -> draw, by abstract interpretation over integers
(products modulo 2^32 are exact; an odd factor is invertible)."""
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from ..codec import within
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
R = "util::random::Random::"
R_NEXT = "every draw is in [1, 2^31 - 1]"
R_UNI = "uniform(n) is the draw modulo n, below n"
R_ONE = "one_in(n) tells whether the draw is a multiple of n"
R_SKEW = "skewed(k) is below 2^k"
R_OK = "drawing does not fail"
M = (1 << 31) - 1


def run(c):
    P = c.P
    for f in ("new", "next", "uniform", "one_in", "skewed", "next_bool"):
        if not c.need(R + f):
            return
    W = lambda f: P.where(P.one(R + f))
    # draws
    H, sts, p = start(c, "next")
    for k in range(3 if c.tier == "quick" else 6):
        out = []
        H.watch()
        for s, v in H.call(sts, R + "next", [p]):
            H.ask("next|low|%d" % k, s, f_le(const(1) - v.l), W("next"), R_NEXT, "draw %d" % (k + 1))
            H.ask("next|high|%d" % k, s, f_le(v.l - M), W("next"), R_NEXT, "draw %d" % (k + 1))
            # the next draws start from any such value
            out += within([s], f_le(const(1) - v.l), f_le(v.l - M))
        H.nofail("next|ok|%d" % k, T, W("next"), R_OK)
        sts = out
    c.functions |= set(H.E.inlined)
    ns = [1, 2, 3, 4, 5, 7, 10, 100, 1000, 65536, 1 << 31, (1 << 32) - 1, None]
    for n in ns:
        tag = "n=%s" % ("any" if n is None else n)
        H, sts, p = start(c, "uniform|" + tag)
        na = H.int("u32", "n") if n is None else VInt(const(n))
        sts = within(sts, f_le(const(1) - na.l))
        H.watch()
        for s0 in sts:
            for s1, x in draw(H, s0, p):
                for s, v in H.call([s1], R + "uniform", [p, na]):
                    H.ask("uniform|below|" + tag, s, f_le(v.l + 1 - na.l), W("uniform"), R_UNI, "the value")
                    if n is not None:
                        s2, r = mod(H, s, x, n)
                        H.same_val("uniform|mod|" + tag, s2, v, r, W("uniform"), R_UNI, "the value")
                if n is None:
                    continue
                for s, v in H.call([s1], R + "one_in", [p, na]):
                    s2, r = mod(H, s, x, n)
                    yes(H, "one_in|" + tag, s2, v, f_eq(r.l), W("one_in"), R_ONE)
                if n == 2:
                    for s, v in H.call([s1], R + "next_bool", [p]):
                        s2, r = mod(H, s, x, n)
                        yes(H, "next_bool", s2, v, f_eq(r.l), W("next_bool"), "next_bool is one_in(2)")
        H.nofail("uniform|ok|" + tag, T, W("uniform"), R_OK)
    for k in range(32):
        H, sts, p = start(c, "skewed|%d" % k)
        H.watch()
        for s, v in H.call(sts, R + "skewed", [p, VInt(const(k))]):
            H.ask("skewed|%d" % k, s, f_le(v.l + 1 - (1 << k)), W("skewed"), R_SKEW, "the value")
        H.nofail("skewed|ok|%d" % k, T, W("skewed"), R_OK)


T = ("T",)


def start(c, name):
    H = Hist(c, name)
    H.E.MAXD = 400
    sd = H.int("u32", "seed")
    sts = []
    p = None
    for s, v in H.call([ai.State()], R + "new", [sd]):
        s, p = H.place(s, "random", v)
        sts.append(s)
    c.anchor(sts, "a generator for " + name)
    return H, sts, p


def draw(H, s0, p):
    """the draw a copy of the generator would give, with the generator put back to where it was"""
    out = []
    for s, x in H.call([s0], R + "next", [p]):
        s = s.copy()
        s.mem[p.o] = s0.mem[p.o]
        out.append((s, x))
    return out


def mod(H, s, x, n):
    s, r = H.E.modn(s, x.l, n, False)
    return s, VInt(r)


def yes(H, key, s, v, f, w, rule):
    for g, want in ((f, True), (f_not(f), False)):
        for s2 in s.assume(g):
            H.ask(key, s2, v.f if want else f_not(v.f), w, rule, "the answer")
