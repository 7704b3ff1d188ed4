"""Bit-level provenance: what each bit of an abstract integer is, as an affine form over GF(2) of input bits.

A word of width w is a tuple of w bits; a bit is a frozenset of atoms combined with XOR, the atom 1 being the constant one.
An atom (s, i) is bit i of the engine symbol s (an input), or (K, i) is bit i of a non-linear word K (a sum with carries, an AND of
two unknown bits), K being built only from canonical words, so that equal keys mean equal values.  Two words whose forms contain only
input atoms are equal for every input exactly when they are equal as forms."""
from . import ai as A
from . import lin as L
from .lin import Lin, const, var
from .dom import *

ZERO = frozenset()
ONE = frozenset([1])


# interned words (without trailing zeros) and non-linear nodes
_W, _N, SUMS = {}, {}, {}
_WL, _NL, _BITNO = [], [], {}


def wid(x):
    n = len(x)
    while n and x[n - 1] == ZERO:
        n -= 1
    x = x[:n]
    r = _W.get(x)
    if r is None:
        r = _W[x] = len(_W)
        _WL.append(x)
    return r


def node(k):
    r = _N.get(k)
    if r is None:
        r = _N[k] = len(_N)
        _NL.append(k)
    return r


_TAB = {}      # tables already looked at


class NoBits(Exception):
    pass


def xor(a, b):
    return a ^ b


def kconst(c, w):
    return tuple(ONE if (c >> i) & 1 else ZERO for i in range(w))


def is_c(b):
    return b == ZERO or b == ONE


def is_const(w):
    return all(is_c(b) for b in w)


def cval(w):
    return sum(1 << i for i, b in enumerate(w) if b == ONE)


def ext(w, n):
    return (w + (ZERO,) * (n - len(w)))[:n]


def shl(w, k, n):
    return ext((ZERO,) * k + w, n)


def bxor(a, b):
    return tuple(x ^ y for x, y in zip(a, b))


def band(a, b):
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        if x == ZERO or y == ZERO:
            out.append(ZERO)
        elif x == ONE:
            out.append(y)
        elif y == ONE or x == y:
            out.append(x)
        else:
            out.append(frozenset([("K", node(("and", frozenset([x, y]))))]))
    return tuple(out)


def bor(a, b):
    return tuple(x if x == y else x ^ y ^ z for x, y, z in zip(a, b, band(a, b)))


def disjoint(a, b):
    return all(x == ZERO or y == ZERO for x, y in zip(a, b))


class Bits:
    """Translates abstract integers of one engine run, in the context of state st (its solved equalities are applied first)."""

    def __init__(self, E, st):
        self.E, self.st = E, st
        self.memo = {}
        self.busy = set()
        self.busysym = set()

    def val(self, v, w):
        if isinstance(v, VInt):
            return self.lin(v.l, w)
        if isinstance(v, VOp):
            p = A._NMI[v.s]
            if p[0] == "byte":
                return self.byte(p, w)
            r = self.E.irange(v.ty) if v.ty is not None else None
            if r:
                return self.lin(self.E.mk(v.ty, v.s).l, w)
        if isinstance(v, VBool):
            if self.st.holds(v.f):
                return kconst(1, w)
            if self.st.holds(f_not(v.f)):
                return kconst(0, w)
        raise NoBits(repr(v)[:100])

    def key(self, k, w):
        """a vkey"""
        if isinstance(k, Lin):
            return self.lin(k, w)
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "i" and isinstance(k[1], Lin):
            return self.lin(k[1], w)
        if isinstance(k, (VInt, VOp, VBool)):
            return self.val(k, w)
        if isinstance(k, A.Nm):
            if A._NMI[k][0] == "byte":
                return self.byte(A._NMI[k], w)
            return self.lin(var(L.sym(("n", k), 0, (1 << w) - 1)), w)
        raise NoBits(repr(k)[:100])

    def byte(self, p, w):
        _, l, i, n = p
        x = self.key(l, 8 * n)
        return ext(x[8 * i:8 * i + 8], w)

    # a word as a sum modulo 2^w: {word: coefficient}, constant
    def lin(self, l, w):
        l = self.st.norm(l)
        k = (l, w)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            raise NoBits("cyclic")
        self.busy.add(k)
        try:
            r = self._lin(l, w)
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def defn(self, s, l, w):
        """the word a derived symbol s is defined from: as the state solves it, or, when that leads back to s, as written"""
        if s in self.busysym:
            raise NoBits("cyclic")
        self.busysym.add(s)
        try:
            return self.lin(l, w)
        except NoBits:
            return self._lin(l, w)
        finally:
            self.busysym.discard(s)

    def _lin(self, l, w):
        M = 1 << w
        terms, c = {}, l.c % M
        for s, q in l.t:
            x = self.sym(s, w)
            self.addterm(terms, x, q, w)
        r = self.total(terms, c, w)
        if (len(l.t) > 1 or l.c and l.t) and self.st is not None and not self.E.opts.get("loose") and self.st.holds_le(l.mul(-1)):
            # what the state knows of the sum bounds its width
            top = w
            while top and r[top - 1] == ZERO:
                top -= 1
            lo, hi = 0, top
            if self.st.holds_le(l - ((1 << top) - 1)):
                while lo < hi:
                    m = (lo + hi) // 2
                    if self.st.holds_le(l - ((1 << m) - 1)):
                        hi = m
                    else:
                        lo = m + 1
                r = r[:hi] + (ZERO,) * (w - hi)
        return r

    def addterm(self, terms, x, q, w):
        M = 1 << w
        q %= M
        if q > M // 2:
            sg, q = -1, M - q
        else:
            sg = 1
        k = 0
        while q and not q & 1:
            q >>= 1
            k += 1
        x = shl(x, k, w)
        p = next((i for i, b in enumerate(x) if b != ZERO), None)
        if p is None:
            return
        if p < w - 1 and not is_c(x[p]) and all(b == x[p] for b in x[p:]):
            x = (ZERO,) * p + (x[p],) + (ZERO,) * (w - p - 1)     # -b
            sg = -sg
        n = terms.get(x, 0) + sg * q
        if n % M:
            terms[x] = n
        else:
            terms.pop(x, None)

    def total(self, terms, c, w):
        M = 1 << w
        terms = dict(terms)
        # constants among the words; nested sums
        again = True
        while again:
            again = False
            for x in list(terms):
                q = terms[x]
                if is_const(x):
                    c = (c + q * cval(x)) % M
                    del terms[x]
                    again = True
                    break
                k = self.sumkey(x, w)
                if k is not None and k[3] >= w:
                    del terms[x]
                    c = (c + q * k[2]) % M
                    for y, r in k[1]:
                        self.addterm(terms, y[:w], r * q, w)
                    again = True
                    break
        # a - b where the bits of b are bits of a, a being all the other terms together
        for y in [y for y in terms if terms[y] % M == M - 1]:
            rest = {x: q for x, q in terms.items() if x != y}
            if not rest:
                continue
            a = self.total(rest, c, w)
            if all(q == ZERO or q == p for p, q in zip(a, y)):
                return tuple(p if q == ZERO else ZERO for p, q in zip(a, y))
        # disjoint words add up to their union
        again = True
        while again:
            again = False
            xs = [x for x in terms if terms[x] == 1]
            for i, x in enumerate(xs):
                for y in xs[i + 1:]:
                    if disjoint(x, y):
                        del terms[x], terms[y]
                        self.addterm(terms, bxor(x, y), 1, w)
                        again = True
                        break
                if again:
                    break
        if not terms:
            return kconst(c, w)
        if len(terms) == 1:
            (x, q), = terms.items()
            if q == 1:
                if c == 0:
                    return x
                kc = kconst(c, w)
                if disjoint(x, kc):
                    return bxor(x, kc)
                # x + 2^(w-1) flips the top bit
                if c == M >> 1:
                    return bxor(x, kc)
            if q == -1 and c == M - 1:
                return bxor(x, kconst(M - 1, w))     # -x - 1 = !x
            if q == -1:
                # c - x where x's possible bits are all set in c
                if all(b == ZERO or (c >> i) & 1 for i, b in enumerate(x)):
                    return bxor(kconst(c, w), x)
        return self.ripple(terms, c, w)

    def ripple(self, terms, c, w):
        """the bits of a sum with carries: bit i is named by the operands' low i + 1 bits, so the name does not depend on w"""
        M = 1 << w
        tz = min([next(i for i, b in enumerate(x) if b != ZERO) for x in terms] + ([(c & -c).bit_length() - 1] if c % M else []))
        if tz:
            t = {}
            for x, q in terms.items():
                self.addterm(t, x[tz:], q, w - tz)
            return (ZERO,) * tz + self.total(t, c >> tz, w - tz)
        ops = sorted((wid(x), q, x) for x, q in terms.items())
        top = w
        if all(q > 0 for _, q, _ in ops):
            ub = c + sum(q * sum(1 << i for i, b in enumerate(x) if b != ZERO) for _, q, x in ops)
            if ub < M:
                top = ub.bit_length()
        out, exact = [], True
        for i in range(w):
            if i >= top:
                out.append(ZERO)
                continue
            m = (1 << (i + 1)) - 1
            if exact and all(q in (1, -1) for _, q, _ in ops):
                xs = [(x[i], q) for _, q, x in ops if x[i] != ZERO] + ([(ONE, 1)] if c >> i & 1 else [])
                r = ZERO
                for x, _ in xs:
                    r = r ^ x
                out.append(r)
                if len(xs) > 1 or (xs and xs[0][1] < 0):
                    exact = False
                    if len(xs) == 1 and c >> (i + 1) == 0 and all(b == ZERO for _, _, x in ops for b in x[i + 1:]):
                        return tuple(out) + (r,) * (w - i - 1)
                continue
            t = {}
            for _, q, x in ops:
                y = wid(x[:i + 1])
                t[y] = (t.get(y, 0) + q) & m
            k = node(("sum", frozenset((y, q) for y, q in t.items() if q), c & m, i))
            _BITNO[k] = i
            SUMS[k] = (tuple((x, q) for _, q, x in ops), c, w)
            out.append(frozenset([("K", k)]))
        return tuple(out)

    def sumkey(self, x, w):
        """(operands, constant, width) of the sum the word x is, when x is all of it"""
        f = x[-1]
        if len(f) != 1:
            return None
        a = next(iter(f))
        if a == 1 or a[0] != "K" or a[1] not in SUMS:
            return None
        ops, c, n = SUMS[a[1]]
        if n < len(x):
            return None
        t = {}
        for y, q in ops:
            self.addterm(t, y[:len(x)], q, len(x))
        if self.ripple(t, c % (1 << len(x)), len(x)) != x:
            return None
        return (None, tuple((y[:len(x)], q) for y, q in ops), c, len(x))

    def sym(self, s, w):
        k = ("s", s, w)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            raise NoBits("cyclic")
        self.busy.add(k)
        try:
            r = self._sym(s, w)
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def atoms(self, s, w):
        lo, hi = L.LO[s], L.HI[s]
        if hi is not None:
            u = self.E.upper(self.st, var(s))
            hi = hi if u is None else min(u, hi)
        if lo is None or hi is None:
            # a quotient or havoc symbol
            raise NoBits("unbounded " + L.name_of(s))
        if lo >= 0:
            n = max(1, hi.bit_length())
            return tuple(frozenset([(s, i)]) if i < n else ZERO for i in range(w))
        n = max((-lo - 1).bit_length(), hi.bit_length()) + 1
        return tuple(frozenset([(s, min(i, n - 1))]) for i in range(w))

    def log(self, m):
        if m & (m - 1):
            raise NoBits("modulus")
        return m.bit_length() - 1

    def _sym(self, s, w):
        n = L.SYM[s]
        if n[0] != "n":
            return self.atoms(s, w)
        p = A._NMI[n[1]]
        h = p[0]
        try:
            if h == "mod":
                k = self.log(p[2])
                return ext(self.defn(s, p[1], k), w)
            if h == "mods":
                k = self.log(p[2])
                x = self.defn(s, p[1], k)
                return (x + (x[-1],) * max(0, w - k))[:w]
            if h == "div":
                k = self.log(p[2])
                hi = L.HI[s]
                n = w if hi is None else min(w, max(1, hi.bit_length()))
                return ext(self.defn(s, p[1], n + k)[k:], w)
            if h == "op" and p[1] in ("BitAnd", "BitOr", "BitXor"):
                hi = L.HI[s]
                W = max(w, 1) if hi is None or L.LO[s] < 0 else min(max(w, 1), max(1, hi.bit_length()))
                a, b = self.key(p[2], W), self.key(p[3], W)
                return ext({"BitAnd": band, "BitOr": bor, "BitXor": bxor}[p[1]](a, b), w)
            if h == "le":
                out = ()
                for x in p[1]:
                    out += self.key(x, 8)
                return ext(out, w)
            if h == "byte":
                return self.byte(p, w)
            if h == "numop" and p[1] in ("rotate_left", "rotate_right") and len(p[2]) == 2:
                lo, hi = L.LO[s], L.HI[s]
                wd = hi.bit_length()
                x = self.key(p[2][0], wd)
                kk = self.key(p[2][1], 32)
                if not is_const(kk):
                    raise NoBits("rotate")
                q = cval(kk) % wd
                if p[1] == "rotate_left":
                    q = (wd - q) % wd
                return ext(x[q:] + x[:q], w)
            if h == "numop" and p[1] == "swap_bytes":
                wd = L.HI[s].bit_length()
                x = self.key(p[2][0], wd)
                return ext(tuple(b for i in range(wd - 8, -1, -8) for b in x[i:i + 8]), w)
            if h == "elem" and len(p) == 4:
                return self.table(s, p[2], p[3], w)
        except NoBits:
            if L.LO[s] is None or L.HI[s] is None:
                raise
        return self.atoms(s, w)

    def linear_table(self, els):
        n = len(els)
        if n & (n - 1) or [i for i, _ in els] != list(range(n)) or not all(isinstance(x, VInt) and x.l.is_const() for _, x in els):
            return None, 0, False
        t = [x.l.c for _, x in els]
        k = n.bit_length() - 1
        for i in range(n):
            v = t[0]
            for j in range(k):
                if i >> j & 1:
                    v ^= t[1 << j] ^ t[0]
            if v != t[i]:
                return t, k, False
        return t, k, True

    def table(self, s, els, idx, w):
        """constant table at an unknown index: linear over GF(2) when the table is"""
        kx = id(els)
        if kx not in _TAB or _TAB[kx][0] is not els:
            _TAB[kx] = (els, self.linear_table(els))
        t, k, aff = _TAB[kx][1]
        if t is None:
            raise NoBits("table")
        if not aff:
            ix = self.lin(idx, k)
            return tuple(frozenset([("K", node(("tab", tuple(t), ix, i)))]) for i in range(w))
        ix = self.lin(idx, k)
        out = kconst(t[0], w)
        for j in range(k):
            d = kconst(t[1 << j] ^ t[0], w)
            out = tuple(o ^ (ix[j] if b == ONE else ZERO) for o, b in zip(out, d))
        return out


def only_inputs(w):
    return all(a == 1 or a[0] != "K" for b in w for a in b)


# ------------------------------------------------------------------ comparison
def ev_bit(b, asg, memo):
    r = 0
    for a in b:
        if a == 1:
            r ^= 1
        elif a[0] == "K":
            r ^= ev_node(a[1], asg, memo)
        else:
            r ^= asg(a[0]) >> a[1] & 1
    return r


def ev_word(x, asg, memo):
    return sum(ev_bit(b, asg, memo) << i for i, b in enumerate(x))


def ev_node(k, asg, memo):
    if k in memo:
        return memo[k]
    p = _NL[k]
    if p[0] == "and":
        r = 1
        for b in p[1]:
            r &= ev_bit(b, asg, memo)
    elif p[0] == "sum":
        # the node names the top bit of the sum of its operands' low bits
        i = _BITNO[k]
        r = (sum(q * ev_word(_WL[w], asg, memo) for w, q in p[1]) + p[2]) >> i & 1
    elif p[0] == "tab":
        r = p[1][ev_word(p[2], asg, memo)] >> p[3] & 1
    memo[k] = r
    return r


def compare(a, b, cons=None, tries=200, seed=1, admits=None):
    """'eq' when the words are equal for every input, ('ne', text) with an input on which they differ, '?' otherwise.
    cons: symbol -> (lo, hi) overriding the symbol's range; admits: assignment -> bool."""
    if a == b:
        return "eq", ""
    import random
    rnd = random.Random(seed)
    bad = 0
    for t in range(tries):
        asg = {}

        def get(s):
            if s not in asg:
                lo, hi = (cons or {}).get(s) or (L.LO[s], L.HI[s])
                lo, hi = (0 if lo is None else lo), (2 ** 64 - 1 if hi is None else hi)
                m = t % 4
                asg[s] = rnd.randint(lo, hi) if m < 2 else (hi - rnd.randint(0, min(3, hi - lo)) if m == 2 else lo + rnd.randint(0, min(3, hi - lo)))
            return asg[s]
        x, y = ev_word(a, get, {}), ev_word(b, get, {})
        if x != y:
            if admits is not None and not admits(asg):
                bad += 1
                if bad > 20:
                    break
                continue
            return "ne", "for %s the code gives %#x, the specification %#x" % (", ".join("%s=%#x" % (L.name_of(s), v) for s, v in sorted(asg.items())[:6]), x, y)
    return "?", ""


def same(E, st, w, spec, cons=None):
    """compare with the symbols' ranges of state st; a difference counts only when the state admits the assignment and
    no symbol of it stands for something the analysis lost"""
    c = {}
    taint = []
    for x in (w, spec):
        for b in x:
            for a in b:
                if a != 1 and a[0] != "K" and a[0] not in c:
                    lo, hi = E.lower(st, var(a[0])), E.upper(st, var(a[0]))
                    c[a[0]] = (lo, hi)
    c.update(cons or {})
    if st.ghost.get("havoc"):
        taint.append(None)

    def admits(asg):
        s = st
        for k, v in asg.items():
            i = A.sym_info(k)
            if i[0] or i[1]:
                taint.append(k)
            r = s.assume(("eq", var(k) - v))
            if not r:
                return False
            s = r[0]
        from . import wit
        return wit.find(E, s, F, 120) is not None     # the path is possible in integers too
    r = compare(w, spec, c, admits=admits)
    if r[0] == "ne" and taint:
        return "?", r[1]
    return r
