"""Integer witnesses: an assignment of the unknowns of a state that refutes a formula.

The states of the interpreter are linear constraints over symbols, some of which are inputs and some derived from inputs (quotients,
remainders, bit operations, bytes).  A refutation found over the rationals, or one that gives a derived symbol a value its definition
does not, is no refutation; this module looks for one in integers that honours every definition."""
from . import ai, bits
from . import lin as L
from .lin import const, var, Lin
from .dom import *


def base_syms(word, out, seen):
    for b in word:
        for a in b:
            if a == 1:
                continue
            if a[0] == "K":
                _node(a[1], out, seen)
            else:
                out.add(a[0])


def _node(k, out, seen):
    if k in seen:
        return
    seen.add(k)
    p = bits._NL[k]
    if p[0] == "and":
        base_syms(p[1], out, seen)
    elif p[0] == "sum":
        for w, q in p[1]:
            base_syms(bits._WL[w], out, seen)
    elif p[0] == "tab":
        base_syms(p[2], out, seen)


HARD = ("op", "numop", "fop", "fcast", "un", "divs", "byte", "le", "cmp", "memcmp", "utf8")


class Search:
    def __init__(self, E, st, budget):
        self.E, self.budget = E, budget
        self.defs = {}
        self.opaque = set()
        self.st = st
        self.B = bits.Bits(E, st)

    def definition(self, s):
        """bit form of a derived symbol, None for an input"""
        if s in self.defs:
            return self.defs[s]
        r = None
        n = L.SYM[s]
        if n[0] == "n" and ai._NMI[n[1]][0] in ("div", "mod", "mods", "divs") and isinstance(ai._NMI[n[1]][2], int):
            p = ai._NMI[n[1]]
            r = ((p[0], p[1], p[2]), set(p[1].syms()))
        elif n[0] == "n":
            try:
                w = self.B.sym(s, 64)
                b = set()
                base_syms(w, b, set())
                if b != {s} and s not in b:
                    r = (w, b)
                elif not b:
                    r = (w, b)
            except (bits.NoBits, RecursionError):
                r = None
            p = ai._NMI[n[1]]
            if r is None and p[0] == "mul":
                r = (("mul", p[1], p[2]), set(p[1].syms()) | set(p[2].syms()))
            elif r is None and p[0] in HARD:
                self.opaque.add(s)
        self.defs[s] = r
        return r

    def closure(self, st, f):
        seeds = set(f_syms(f))
        # the path itself must be possible: integers that only exist by definition take part wherever they constrain it
        for x in {x for l in list(st.les) + list(st.nes) for x in l.syms()} | set(st.sub):
            n = L.SYM[x]
            if n[0] == "n" and ai._NMI[n[1]][0] in ("div", "mod", "mods", "mul", "op", "numop"):
                seeds.add(x)
        for s in list(seeds):
            if s in st.sub:
                seeds |= set(st.sub[s].syms())
        while True:
            n = len(seeds)
            _, seeds = L.slice_rows(st.les, seeds)
            for l in st.nes:
                if set(l.syms()) & seeds:
                    seeds |= set(l.syms())
            for s in list(seeds):
                d = self.definition(s)
                if d:
                    seeds |= d[1]
                if s in st.sub:
                    seeds |= set(st.sub[s].syms())
            for s, e in st.sub.items():
                if s in seeds:
                    continue
                if set(e.syms()) & seeds:
                    d = self.definition(s)
                    if d or True:
                        seeds.add(s)
                elif self.definition(s) and self.definition(s)[1] & seeds:
                    seeds.add(s)
            if len(seeds) == n or len(seeds) > 160:
                return seeds

    def bounds(self, st, s):
        lo, hi = self.E.lower(st, var(s)), self.E.upper(st, var(s))
        return lo, hi

    def extreme(self, st, s, low):
        """LP bound of s by bisection"""
        lo, hi = self.bounds(st, s)
        if lo is None or hi is None:
            return None
        a, b = lo, hi
        while a < b:
            m = (a + b) // 2
            if low:
                if st.holds_le(const(m + 1) - var(s)):
                    a = m + 1
                else:
                    b = m
            else:
                m = (a + b + 1) // 2
                if st.holds_le(var(s) - m + 1):
                    b = m - 1
                else:
                    a = m
        return a

    def quotient(self, st, l, m, q):
        """the range of the quotient q of l by m"""
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.bounds(st, s)
            if a is None or b is None:
                return None, None
            lo, hi = lo + min(k * a, k * b), hi + max(k * a, k * b)
        lo, hi = lo // m - 1, hi // m + 1
        if hi - lo > 8:
            return None, None
        while lo < hi and not st.assume(("eq", var(q) - lo)):
            lo += 1
        while lo < hi and not st.assume(("eq", var(q) - hi)):
            hi -= 1
        return lo, hi

    def inverses(self, st, s):
        """values of s for which a*s + c modulo m is as small or as large as st lets it be"""
        for x, d in list(self.defs.items()):
            if not d or not d[0] or not isinstance(d[0][0], str) or d[0][0] not in ("mod", "div"):
                continue
            l, m = d[0][1], d[0][2]
            if len(l.t) != 1 or l.t[0][0] != s or l.t[0][1] % 2 == 0 or m & (m - 1):
                continue
            q = L.sym(("n", ai.nm("div", l, m)), None, None)
            e = l - var(q).mul(m)
            for low in (True, False):
                a, b = 0, m - 1
                while a < b:
                    z = (a + b + (not low)) // 2
                    if low:
                        a, b = (z + 1, b) if st.holds_le(const(z + 1) - e) else (a, z)
                    else:
                        a, b = (a, z - 1) if st.holds_le(e - z + 1) else (z, b)
                for r in [a, a + 1, a - 1] + [1 << i for i in range(m.bit_length() - 1)]:
                    if 0 <= r < m and st.assume(("eq", e - r)):
                        yield (r - l.c) * pow(l.t[0][1], -1, m) % m

    def values(self, st, s):
        c = st.const_of(var(s))
        if c is not None:
            yield c
            return
        lo, hi = self.bounds(st, s)
        seen = set()
        lo = 0 if lo is None else lo
        hi = (1 << 62) if hi is None else hi
        for v in (lo, hi, (lo + hi) // 2, lo + 1, hi - 1):
            if lo <= v <= hi and v not in seen:
                seen.add(v)
                yield v
        for v in self.inverses(st, s):
            if lo <= v <= hi and v not in seen:
                seen.add(v)
                yield v
        for low in (True, False):
            v = self.extreme(st, s, low)
            if v is not None and v not in seen:
                seen.add(v)
                yield v
                w = v + 1 if low else v - 1
                if w not in seen:
                    seen.add(w)
                    yield w

    def go(self, st, order, asg, derived):
        self.budget -= 1
        if self.budget < 0:
            return None
        # every derived symbol whose inputs are known must have its defined value
        for s in derived:
            if s in asg:
                continue
            w, b = self.defs[s]
            if all(x in asg for x in b):
                if w and isinstance(w[0], str):
                    ev = lambda l: sum(k * asg[q] for q, k in l.t) + l.c
                    x = ev(w[1])
                    if w[0] == "mul":
                        v = x * ev(w[2])
                    elif w[0] == "div":
                        v = x // w[2]
                    else:
                        v = x % w[2]
                        if w[0] in ("mods", "divs") and v >= w[2] // 2:
                            v -= w[2]
                        if w[0] == "divs":
                            v = (x - v) // w[2]
                else:
                    v = bits.ev_word(w, lambda q: asg[q], {})
                if w and not isinstance(w[0], str) and L.LO[s] is not None and L.LO[s] < 0 and v >> 63:
                    v -= 1 << 64
                r = st.assume(("eq", var(s) - v))
                if not r:
                    return None
                st = r[0]
                asg = dict(asg)
                asg[s] = v
        rest = [s for s in order if s not in asg]
        if not rest:
            return asg
        s = rest[0]
        for v in self.values(st, s):
            for s2 in st.assume(("eq", var(s) - v)):
                a2 = dict(asg)
                a2[s] = v
                r = self.go(s2, order, a2, derived)
                if r is not None:
                    return r
                if self.budget < 0:
                    return None
        return None


def find(E, st, f, budget=250):
    """an assignment (symbol -> integer) admitted by st in which f is false, or None"""
    for s in st.assume(f_not(f)):
        S = Search(E, s, budget)
        cl = S.closure(s, f)
        if len(cl) > 160:
            continue
        if S.opaque & cl:
            continue
        derived = [x for x in sorted(cl) if S.definition(x)]
        base = [x for x in sorted(cl) if not S.definition(x)]
        # quotients of few possible values first: with them the rest is linear
        sts = [s]
        for q in derived:
            n = L.SYM[q]
            if n[0] != "n" or ai._NMI[n[1]][0] not in ("div", "divs") or len(sts) > 16:
                continue
            nxt = []
            for x in sts:
                lo, hi = S.quotient(x, ai._NMI[n[1]][1], ai._NMI[n[1]][2], q)
                if lo is None or hi is None or hi - lo > 3:
                    nxt.append(x)
                else:
                    nxt += [y for v in range(lo, hi + 1) for y in x.assume(("eq", var(q) - v))]
            sts = nxt
        for x in sts:
            S.budget = max(budget // max(len(sts), 1), 40)
            r = S.go(x, base, {}, derived)
            if r is not None:
                return {x: v for x, v in r.items() if x in base}
    return None


def text(w):
    return ", ".join("%s = %s" % (L.name_of(s)[:80], v) for s, v in sorted(w.items())[:8])


def invert(st):
    """a*e = 0 modulo 2^k with odd a means e = 0 modulo 2^k: put it in when e's range leaves only zero; None when it leaves nothing"""
    from math import gcd
    syms = {x for l in st.les for x in l.syms()} | set(st.sub) | {x for l in st.sub.values() for x in l.syms()}
    done = set()
    for s in sorted(syms):
        n = L.SYM[s]
        if n[0] != "n" or ai._NMI[n[1]][0] not in ("div", "mod"):
            continue
        l, m = ai._NMI[n[1]][1], ai._NMI[n[1]][2]
        if not isinstance(m, int) or m < 2 or m & (m - 1) or (l, m) in done:
            continue
        done.add((l, m))
        r = var(L.sym(("n", ai.nm("mod", l, m)), 0, m - 1))
        q = var(L.sym(("n", ai.nm("div", l, m)), None, None))
        c = st.const_of(r)
        if c is None:
            c = 0 if st.holds_le(l - q.mul(m)) else None
        if c is None:
            continue
        t = st.norm(l - c)
        g = abs(t.c)
        for _, k in t.t:
            g = gcd(g, abs(k))
        while g and g % 2 == 0:
            g //= 2
        if g == 0:
            continue
        e = Lin(tuple((x, k // g) for x, k in t.t), t.c // g)
        if len(e.t) == 1 and abs(e.t[0][1]) % 2 == 1 and L.LO[e.t[0][0]] is not None and 0 <= L.LO[e.t[0][0]] and (L.HI[e.t[0][0]] or m) < m:
            (x, a), = e.t
            v = (-e.c) * pow(a, -1, m) % m
            s2 = st.assume(("eq", var(x) - v))
        elif st.holds_le(-e) and st.holds_le(e + 1 - m):
            s2 = st.assume(("eq", e))
        else:
            continue
        if not s2:
            return None
        st = s2[0]
    return st


def tighten(E, st, f):
    """integer bounds of f's symbols that leave one value become equalities"""
    for x in range(2):
        st = invert(st)
        if st is None:
            return None
    S = Search(E, st, 0)
    for s in list(set(f_syms(f)) | {x for l in E._lins(f) for x in st.norm(l).syms()}):
        if st.const_of(var(s)) is not None or L.LO[s] is None or L.HI[s] is None:
            continue
        a = S.extreme(st, s, True)
        b = S.extreme(st, s, False)
        if a is not None and a == b:
            r = st.assume(("eq", var(s) - a))
            if not r:
                return None
            st = r[0]
        elif a is not None and b is not None:
            for x in ((var(s) - b), (const(a) - var(s))):
                st = st.add_le(x) or st
    return st
