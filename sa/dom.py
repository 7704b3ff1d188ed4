"""Abstract values and abstract states."""
from collections import namedtuple
from . import lin as L
from .lin import Lin, const, var

VInt = namedtuple("VInt", "l")
VBool = namedtuple("VBool", "f")
VOp = namedtuple("VOp", "s ty")             # opaque value named by symbol-name s, of type ty
VPtr = namedtuple("VPtr", "o p")            # thin pointer: object, path
VFat = namedtuple("VFat", "o p n")          # slice pointer: path ends in ('i', start), n elements
VAgg = namedtuple("VAgg", "ty fs")
VEnum = namedtuple("VEnum", "ty v fs")
VArr = namedtuple("VArr", "ety n els base")  # els: tuple of (index, value) with constant index; base names unknown contents
VVec = namedtuple("VVec", "ty o n cap")
VClo = namedtuple("VClo", "key fs")
VFn = namedtuple("VFn", "f")
VIter = namedtuple("VIter", "k a")          # modelled iterator: kind, args
VUninit = namedtuple("VUninit", "x")
UNINIT = VUninit(0)

# tag equality: namedtuples of equal shape compare equal across classes, so hash/eq must include the class
for _c in (VInt, VBool, VOp, VPtr, VFat, VAgg, VEnum, VArr, VVec, VClo, VFn, VIter, VUninit):
    def _eq(a, b, _t=tuple.__eq__):
        return a is b or (type(a) is type(b) and _t(a, b))

    def _ne(a, b):
        return not (a == b)

    def _hash(a, _h=tuple.__hash__):
        return _h(a) ^ hash(type(a).__name__)
    _c.__eq__ = _eq
    _c.__ne__ = _ne
    _c.__hash__ = _hash

T = ("T",)
F = ("F",)


def f_not(f):
    k = f[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "le":
        return ("le", -f[1] + 1)
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return ("or", f_not(f[1]), f_not(f[2]))
    if k == "or":
        return ("and", f_not(f[1]), f_not(f[2]))
    raise ValueError(f)


def f_and(a, b):
    if a == F or b == F:
        return F
    if a == T:
        return b
    if b == T:
        return a
    return ("and", a, b)


def f_or(a, b):
    return f_not(f_and(f_not(a), f_not(b)))


def f_le(l):
    if l.is_const():
        return T if l.c <= 0 else F
    return ("le", l)


def f_eq(l):
    if l.is_const():
        return T if l.c == 0 else F
    return ("eq", l)


def f_syms(f):
    if f[0] in ("le", "eq", "ne"):
        return set(f[1].syms())
    if f[0] in ("and", "or"):
        return f_syms(f[1]) | f_syms(f[2])
    return set()


class State:
    __slots__ = ("mem", "sub", "les", "nes", "ghost", "facts")

    def __init__(self):
        self.mem = {}
        self.sub = {}        # solved equalities: sym -> Lin
        self.les = frozenset()   # Lin <= 0
        self.nes = frozenset()   # Lin != 0
        self.ghost = {}
        self.facts = frozenset()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.sub = self.sub
        s.les = self.les
        s.nes = self.nes
        s.ghost = dict(self.ghost)
        s.facts = self.facts
        return s

    # -- numeric part
    def norm(self, l):
        return l.subst(self.sub) if self.sub else l

    def _rows(self, seeds):
        rows, seeds = L.slice_rows(self.les, seeds)
        return rows + L.bounds_rows(seeds)

    def holds_le(self, l):
        l = self.norm(l)
        if l.is_const():
            return l.c <= 0
        neg = -l + 1
        rows = self._rows(neg.syms())
        return L.unsat(frozenset(rows + [neg]))

    def holds(self, f):
        k = f[0]
        if k == "T":
            return True
        if k == "F":
            return not self.feasible()
        if k == "le":
            return self.holds_le(f[1])
        if k == "eq":
            l = self.norm(f[1])
            if l.is_const():
                return l.c == 0
            return self.holds_le(l) and self.holds_le(-l)
        if k == "ne":
            l = self.norm(f[1])
            if l.is_const():
                return l.c != 0
            if l in self.nes or -l in self.nes:
                return True
            return self.holds_le(l + 1) or self.holds_le(-l + 1)
        if k == "and":
            return self.holds(f[1]) and self.holds(f[2])
        if k == "or":
            if self.holds(f[1]) or self.holds(f[2]):
                return True
            # a or b  <=>  not a -> b
            s = self.assume(f_not(f[1]))
            return all(x.holds(f[2]) for x in s)
        raise ValueError(f)

    def feasible(self):
        return not L.unsat(frozenset(list(self.les) + L.bounds_rows({s for l in self.les for s in l.syms()})))

    def add_le(self, l):
        """Conjoin l <= 0; returns a new state or None when it becomes infeasible."""
        l = L.norm_le(self.norm(l))
        if l.is_const():
            return self if l.c <= 0 else None
        rows = self._rows(l.syms())
        if L.unsat(frozenset(rows + [l])):
            return None
        if l in self.les or L.unsat(frozenset(rows + [-l + 1])):
            return self
        # does it force an equality?
        if L.unsat(frozenset(rows + [l, l + 1])):
            return self.add_eq(l)
        s = self.copy()
        s.les = self.les | {l}
        s._use_nes(l)
        return s

    def _use_nes(self, l):
        pass

    def add_eq(self, l):
        l = self.norm(l)
        if l.is_const():
            return self if l.c == 0 else None
        from math import gcd
        g = 0
        for _, k in l.t:
            g = gcd(g, k)
        if l.c % g:
            return None
        if g > 1:
            l = Lin(tuple((s, k // g) for s, k in l.t), l.c // g)
        rows = self._rows(l.syms())
        if L.unsat(frozenset(rows + [l])) or L.unsat(frozenset(rows + [-l])):
            return None
        # choose a symbol with coefficient +-1
        pick = None
        for s, k in l.t:
            if abs(k) == 1:
                rank = (0 if isinstance(L.SYM[s], tuple) and L.SYM[s][0] == "#" else 1, s)
                if pick is None or rank < pick[0] or (rank[0] == pick[0][0] and s > pick[1]):
                    pick = (rank, s, k)
        s2 = self.copy()
        if pick is None:
            s2.les = self.les | {l, -l}
            return s2
        s, k = pick[1], pick[2]
        e = Lin(tuple((x, c) for x, c in l.t if x != s), l.c)
        e = -e if k == 1 else e
        m = {s: e}
        s2.sub = {a: b.subst(m) for a, b in self.sub.items()}
        s2.sub[s] = e
        extra = []
        if L.LO[s] is not None:
            extra.append(Lin((), L.LO[s]) - e)
        if L.HI[s] is not None:
            extra.append(e - L.HI[s])
        les = set()
        for x in list(self.les) + extra:
            x = L.norm_le(x.subst(m))
            if x.is_const():
                if x.c > 0:
                    return None
                continue
            les.add(x)
        s2.les = frozenset(les)
        nes = set()
        for x in self.nes:
            x = x.subst(m)
            if x.is_const():
                if x.c == 0:
                    return None
                continue
            nes.add(x)
        s2.nes = frozenset(nes)
        return s2

    def add_ne(self, l):
        l = self.norm(l)
        if l.is_const():
            return self if l.c != 0 else None
        if self.holds_le(l):       # l <= 0 and l != 0 -> l <= -1
            return self.add_le(l + 1)
        if self.holds_le(-l):
            return self.add_le(-l + 1)
        s = self.copy()
        s.nes = self.nes | {l}
        return s

    def assume(self, f):
        """List of states (disjunction)."""
        k = f[0]
        if k == "T":
            return [self]
        if k == "F":
            return []
        if k == "le":
            s = self.add_le(f[1])
            if s is None:
                return []
            return s._resolve_nes()
        if k == "eq":
            s = self.add_eq(f[1])
            return [s] if s is not None else []
        if k == "ne":
            s = self.add_ne(f[1])
            return [s] if s is not None else []
        if k == "and":
            return [y for x in self.assume(f[1]) for y in x.assume(f[2])]
        if k == "or":
            a = self.assume(f[1])
            b = [y for x in self.assume(f_not(f[1])) for y in x.assume(f[2])]
            return a + b
        raise ValueError(f)

    def _resolve_nes(self):
        s = self
        for l in list(s.nes):
            l2 = s.norm(l)
            if l2.is_const():
                if l2.c == 0:
                    return []
                continue
            if s.holds_le(l2):
                s2 = s.copy()
                s2.nes = s.nes - {l}
                s = s2.add_le(l2 + 1)
            elif s.holds_le(-l2):
                s2 = s.copy()
                s2.nes = s.nes - {l}
                s = s2.add_le(-l2 + 1)
            if s is None:
                return []
        return [s]

    def const_of(self, l):
        l = self.norm(l)
        return l.c if l.is_const() else None
