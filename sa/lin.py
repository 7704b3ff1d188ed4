"""Linear integer expressions and a small decision procedure (Gauss + Fourier-Motzkin with integer
tightening) for conjunctions of linear constraints: the numeric part of the abstract domain."""
from fractions import Fraction
from math import gcd
import time
from functools import lru_cache

# ---- symbols -------------------------------------------------------------
NAMES = {}
SYM = []          # id -> name (structural tuple)
LO, HI, ORG = [], [], []


def sym(name, lo=None, hi=None, org="input"):
    """Interned symbol: the same structural name is the same unknown."""
    i = NAMES.get(name)
    if i is None:
        i = len(SYM)
        NAMES[name] = i
        SYM.append(name)
        LO.append(lo)
        HI.append(hi)
        ORG.append(org)
    return i


_ctr = [0]


def fresh(tag, lo=None, hi=None, org="input"):
    _ctr[0] += 1
    return sym(("#", tag, _ctr[0]), lo, hi, org)


class Lin(tuple):
    """(terms, const); terms a sorted tuple of (sym, coef)."""
    __slots__ = ()

    def __new__(cls, t, c):
        return tuple.__new__(cls, (t, c))

    t = property(lambda s: s[0])
    c = property(lambda s: s[1])

    def __add__(a, b):
        if isinstance(b, int):
            return Lin(a[0], a[1] + b)
        if not b[0]:
            return Lin(a[0], a[1] + b[1])
        if not a[0]:
            return Lin(b[0], a[1] + b[1])
        d = dict(a[0])
        for s, k in b[0]:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(tuple(sorted(d.items())), a[1] + b[1])

    def __neg__(a):
        return Lin(tuple((s, -k) for s, k in a[0]), -a[1])

    def __sub__(a, b):
        if isinstance(b, int):
            return Lin(a[0], a[1] - b)
        return a + (-b)

    def mul(a, k):
        if k == 0:
            return Lin((), 0)
        return Lin(tuple((s, c * k) for s, c in a[0]), a[1] * k)

    def is_const(a):
        return not a[0]

    def syms(a):
        return [s for s, _ in a[0]]

    def subst(a, m):
        if not any(s in m for s, _ in a[0]):
            return a
        r = Lin((), a[1])
        keep = []
        for s, k in a[0]:
            if s in m:
                r = r + m[s].mul(k)
            else:
                keep.append((s, k))
        return r + Lin(tuple(keep), 0)

    def __repr__(a):
        return pretty(a)


def const(c):
    return Lin((), c)


def var(s):
    return Lin(((s, 1),), 0)


def name_of(s):
    n = SYM[s]
    return _nm(n)


def _nm(n):
    if isinstance(n, tuple):
        if n and n[0] == "#":
            return "%s#%s" % (_nm(n[1]), n[2])
        if n and n[0] == "fld":
            return "%s.%s" % (_nm(n[1]), _nm(n[2]))
        return "(" + " ".join(_nm(x) for x in n) + ")"
    if isinstance(n, Lin):
        return pretty(n)
    return str(n)


def pretty(a):
    out = []
    for s, k in a[0]:
        n = name_of(s)
        out.append(n if k == 1 else ("-" + n if k == -1 else "%d*%s" % (k, n)))
    if a[1] or not out:
        out.append(str(a[1]))
    return " + ".join(out).replace("+ -", "- ")


# ---- decision procedure --------------------------------------------------
def norm_le(l):
    """Normalise l <= 0 over the integers (divide by the gcd, round the constant)."""
    t, c = l
    if not t:
        return l
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            return l
    # sum (k/g) x <= -c/g  -> floor
    return Lin(tuple((s, k // g) for s, k in t), -((-c) // g))


MAXROWS = 260


DEADLINE = None     # give up (undecided) after this time


class Abort(Exception):
    pass


def tick():
    if DEADLINE is not None and time.time() > DEADLINE:
        raise Abort("time budget")


@lru_cache(maxsize=60000)
def unsat(rows):
    """rows: frozenset of Lin meaning Lin <= 0.  True only if there is no integer solution."""
    tick()
    best = {}
    for l in rows:
        l = norm_le(l)
        if not l[0]:
            if l[1] > 0:
                return True
            continue
        o = best.get(l[0])
        if o is None or l[1] > o:
            best[l[0]] = l[1]
    # contradiction between opposite rows, quick test
    work = best
    while True:
        if not work:
            return box(best)
        for t, c in work.items():
            nt = tuple((s, -k) for s, k in t)
            o = work.get(nt)
            if o is not None and c + o > 0:
                return True
        # choose a variable to eliminate
        pos, neg = {}, {}
        for t in work:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        bestv, bestcost = None, None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            cost = p * n - p - n
            if bestcost is None or cost < bestcost or (cost == bestcost and s < bestv):
                bestv, bestcost = s, cost
        v = bestv
        P, N, R = [], [], {}
        for t, c in work.items():
            k = 0
            for s, kk in t:
                if s == v:
                    k = kk
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                R[t] = c
        if len(P) * len(N) + len(R) > MAXROWS:
            return box(best)
        for pt, pc, pk in P:
            for nt, nc, nk in N:
                g = gcd(pk, nk)
                l = Lin(pt, pc).mul(nk // g) + Lin(nt, nc).mul(pk // g)
                l = norm_le(l)
                if not l[0]:
                    if l[1] > 0:
                        return True
                    continue
                o = R.get(l[0])
                if o is None or l[1] > o:
                    R[l[0]] = l[1]
        work = R


def box(rows, rounds=4):
    """interval propagation over rows {terms: constant}: True only if there is no solution"""
    lo, hi = {}, {}
    for _ in range(rounds):
        ch = False
        for t, c in rows.items():
            # sum k*s + c <= 0
            m, miss = c, None
            for s, k in t:
                b = lo.get(s) if k > 0 else hi.get(s)
                if b is None:
                    if miss is not None:
                        miss = False
                        break
                    miss = (s, k)
                else:
                    m += k * b
            if miss is False:
                continue
            if miss is None and m > 0:
                return True
            for s, k in ([miss] if miss else t):
                r = m if miss else m - k * (lo[s] if k > 0 else hi[s])
                if k > 0:
                    u = (-r) // k
                    if s not in hi or u < hi[s]:
                        hi[s] = u
                        ch = True
                else:
                    u = -((-r) // -k)
                    if s not in lo or u > lo[s]:
                        lo[s] = u
                        ch = True
                if s in lo and s in hi and lo[s] > hi[s]:
                    return True
        if not ch:
            break
    return False


def bounds_rows(syms):
    out = []
    for s in syms:
        if LO[s] is not None:
            out.append(Lin(((s, -1),), LO[s]))
        if HI[s] is not None:
            out.append(Lin(((s, 1),), -HI[s]))
    return out


def slice_rows(rows, seeds):
    """Rows connected (through shared symbols) to the seed symbols."""
    seeds = set(seeds)
    rows = list(rows)
    used = [False] * len(rows)
    changed = True
    out = []
    while changed:
        changed = False
        for i, l in enumerate(rows):
            if used[i]:
                continue
            for s, _ in l[0]:
                if s in seeds:
                    used[i] = True
                    out.append(l)
                    for s2, _ in l[0]:
                        seeds.add(s2)
                    changed = True
                    break
    return out, seeds


def eliminate(rows, drop, cap=120):
    """Project the inequality rows (Lin <= 0) onto the symbols not in `drop` (may lose rows, never adds wrong ones)."""
    work = {}

    def put(l):
        l = norm_le(l)
        if not l[0]:
            return
        o = work.get(l[0])
        if o is None or l[1] > o:
            work[l[0]] = l[1]
    for l in rows:
        put(l)
    drop = set(drop)
    while drop:
        cnt = {}
        for t in work:
            for s, k in t:
                if s in drop:
                    a = cnt.setdefault(s, [0, 0])
                    a[0 if k > 0 else 1] += 1
        if not cnt:
            break
        v = min(cnt, key=lambda s: (cnt[s][0] * cnt[s][1] - sum(cnt[s]), s))
        P, N, R = [], [], {}
        for t, c in work.items():
            k = dict(t).get(v, 0)
            if k > 0:
                P.append((Lin(t, c), k))
            elif k < 0:
                N.append((Lin(t, c), -k))
            else:
                R[t] = c
        work = R
        if len(P) * len(N) + len(R) <= cap:
            for p, pk in P:
                for n, nk in N:
                    g = gcd(pk, nk)
                    put(p.mul(nk // g) + n.mul(pk // g))
        drop.discard(v)
    return [Lin(t, c) for t, c in work.items()]


def affine_hull(ea, eb):
    """Equalities (Lin = 0) that hold in both affine spaces given by the equality lists ea and eb."""
    if not ea or not eb:
        return []
    cols = sorted({s for l in ea + eb for s, _ in l[0]})
    idx = {s: i for i, s in enumerate(cols)}
    n = len(cols) + 1

    def row(l):
        r = [Fraction(0)] * n
        for s, k in l[0]:
            r[idx[s]] = Fraction(k)
        r[-1] = Fraction(l[1])
        return r
    A = [row(l) for l in ea]
    B = [row(l) for l in eb]
    # find x,y with x.A - y.B = 0 : nullspace of M^T where M = [A; -B]
    M = A + [[-v for v in r] for r in B]
    m = len(M)
    # left nullspace by row reduction of [M | I]
    aug = [list(M[i]) + [Fraction(1 if i == j else 0) for j in range(m)] for i in range(m)]
    r = 0
    for c in range(n):
        p = next((i for i in range(r, m) if aug[i][c] != 0), None)
        if p is None:
            continue
        aug[r], aug[p] = aug[p], aug[r]
        pv = aug[r][c]
        for i in range(r + 1, m):
            if aug[i][c] != 0:
                f = aug[i][c] / pv
                aug[i] = [a - f * b for a, b in zip(aug[i], aug[r])]
        r += 1
    out = []
    for i in range(r, m):
        x = aug[i][n:n + len(A)]
        v = [sum(x[k] * A[k][j] for k in range(len(A))) for j in range(n)]
        if all(q == 0 for q in v[:-1]):
            continue
        den = 1
        for q in v:
            den = den * q.denominator // gcd(den, q.denominator)
        iv = [int(q * den) for q in v]
        g = 0
        for q in iv:
            g = gcd(g, q)
        iv = [q // g for q in iv]
        out.append(Lin(tuple((cols[j], iv[j]) for j in range(n - 1) if iv[j]), iv[-1]))
    return out
