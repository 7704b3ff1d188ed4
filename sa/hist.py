"""Histories: calls of the public interface run one after another by the abstract interpreter from unknown inputs.

A check states a history ("make an encoder over an unknown buffer, put an unknown prefix, put an unknown value") and asks
questions about the resulting states.  Answers: proved, refuted (with a concrete assignment of the inputs the state admits),
or undecided."""
from .eq import *
from . import ai, bits, wit
from .lin import const, var, Lin
from . import lin as L


class Hist:
    def __init__(self, c, name, monitor=None, models=None, **opts):
        opts.setdefault("maxsteps", 10 ** 9)
        self.c = c
        self.P = c.P
        self.name = name
        self.E = engine(c.P, monitor, models, **opts)
        self.n = 0

    def key(self, suffix):
        return self.c.need(suffix)

    def call(self, sts, suffix, args):
        """call the function in every state; args: list of values or a function of (state) -> list; -> [(state, result)]"""
        k = suffix if suffix in self.P.fns else self.c.need(suffix)
        if not k:
            return []
        out = []
        for st in sts:
            self.n += 1
            a = args(st) if callable(args) else list(args)
            self.E.root_key = self.name
            out += self.E.run(k, a, st, None, ai.nm("root", k, self.n))
        return out

    def place(self, st, tag, v, ti=None):
        """put v in a fresh object; -> (state, pointer to it)"""
        o = ("deref", ai.nm("hist", self.name, tag))
        self.E.objty[o] = ("val", ti if ti is not None else getattr(v, "ty", None))
        st = st.copy()
        st.mem[o] = v
        return st, VPtr(o, ())

    def given(self, ti, tag):
        return self.E.mk(ti, ai.nm("given", tag))

    def int(self, ty, tag):
        return VInt(var(self.E.isym(ai.nm("given", tag), self.E.intty(ty))))

    def argty(self, suffix, i):
        return ty_of_arg(self.P, self.c.need(suffix), i)

    def vname(self, v):
        return vname(self.P, v)

    # ---- contents of byte containers
    def arr(self, st, v):
        """(VArr, start, length) of the bytes v (a pointer to a vector, slice, Slice...) designates"""
        for _ in range(8):
            if isinstance(v, VFat):
                x = self.E.obj(st, v.o)
                p = v.p
                for e in p[:-1]:
                    x = self.E.child(st, x, e)
                if isinstance(x, VArr):
                    return x, p[-1][1] if p else const(0), v.n
                return None
            if isinstance(v, VVec):
                x = self.E.obj(st, v.o)
                return (x, const(0), v.n) if isinstance(x, VArr) else None
            if isinstance(v, VArr):
                return v, const(0), v.n
            if isinstance(v, VPtr):
                v = self.E.read(st, v.o, v.p)
                continue
            if isinstance(v, VOp):
                v = self.E.expand(v)
                if v is None:
                    return None
            if isinstance(v, VAgg) and len(v.fs) == 1:
                v = v.fs[0]
                continue
            return None
        return None

    def length(self, st, v):
        a = self.arr(st, v)
        return a[2] if a else None

    def at(self, st, v, idx):
        a = self.arr(st, v)
        if a is None or a[0] is None:
            return None
        return self._el(st, a, idx)

    def _el(self, st, a, idx):
        o = self.E.opts.get("strip_els")
        self.E.opts["strip_els"] = True
        try:
            return self.E.elem(st, a[0], a[1] + idx)
        finally:
            self.E.opts["strip_els"] = o

    def was(self, st, old, v, idx):
        """the element at idx of what v designated in the earlier state `old`, under the knowledge of st"""
        a = self.arr(old, v)
        return self._el(st, a, idx) if a else None

    # ---- questions
    def ask(self, key, st, f, where="", rule="", detail=""):
        c, E = self.c, self.E
        if st.holds(f):
            return c.ob(key, True, where, rule)
        neg = st.assume(f_not(f))
        if not neg:
            return c.ob(key, True, where, rule)
        t = wit.tighten(E, st, f)
        if t is None or t.holds(f) or all(wit.invert(n) is None for n in t.assume(f_not(f))):
            return c.ob(key, True, where, rule)
        und = E.tainted(st, f)
        w = None if und else wit.find(E, st, f)
        if w is None and not und:
            und = True
        d = (detail + ": " if detail else "") + (("for " + wit.text(w) + " : ") if w else "") + E.explain(st, f)
        return c.ob(key, False, where, rule, d, undecided=und)

    def watch(self):
        """from here on remember the states in which a call fails (panics, or leaves what it may touch)"""
        self.E.fails = []
        return self

    def nofail(self, key, cond=T, where="", rule="", detail="", skip=None):
        """no remembered failure happens with inputs satisfying cond"""
        c, E = self.c, self.E
        fs, E.fails = E.fails or [], []
        bad = und = None
        for s, kind, what, fn, at in fs:
            if skip and skip(kind, what, fn):
                continue
            for s2 in s.assume(cond):
                t = wit.tighten(E, s2, F)
                if t is None:
                    continue
                w = None if E.tainted(s2, F) or s2.ghost.get("havoc") else wit.find(E, s2, F)
                m = "%s%s (%s) in %s at %s" % ("for %s : " % wit.text(w) if w else "", kind, what, fn, at)
                if w is not None:
                    bad = bad or m
                else:
                    und = und or m
        return c.ob(key, not bad and not und, where, rule, (detail + ": " if detail else "") + (bad or und or ""), undecided=not bad)

    def bits_eq(self, key, st, v, spec, where="", rule="", detail=""):
        """v, as a word, equals the bit tuple `spec`"""
        c, E = self.c, self.E
        try:
            w = bits.Bits(E, st).val(v, len(spec))
        except bits.NoBits as e:
            return c.ob(key, False, where, rule, "no bit form: %s" % e, undecided=True)
        r, why = bits.same(E, st, w, spec)
        if r == "eq":
            return c.ob(key, True, where, rule)
        return c.ob(key, False, where, rule, (detail + ": " if detail else "") + why, undecided=(r == "?"))

    def same_val(self, key, st, a, b, where="", rule="", detail=""):
        """two byte / integer values are equal"""
        if a is not None and a == b:
            return self.c.ob(key, True, where, rule)
        if isinstance(a, VInt) and isinstance(b, VInt):
            f = f_eq(a.l - b.l)
            if st.holds(f):
                return self.c.ob(key, True, where, rule)
            hi = 8
            try:
                B = bits.Bits(self.E, st)
                x, y = B.val(a, 64), B.val(b, 64)
            except bits.NoBits as e:
                return self.ask(key, st, f, where, rule, detail)
            r, why = bits.same(self.E, st, x, y)
            if r == "eq":
                return self.c.ob(key, True, where, rule)
            if r == "?":
                return self.ask(key, st, f, where, rule, detail)
            return self.c.ob(key, False, where, rule, (detail + ": " if detail else "") + why, undecided=(any(sym_tainted(s) for w in (x, y) for bb in w for s in bb)))
        return self.c.ob(key, False, where, rule, detail + " (values not comparable)", undecided=True)


def sym_tainted(a):
    return a != 1 and a[0] != "K" and ai.sym_info(a[0])[0]
