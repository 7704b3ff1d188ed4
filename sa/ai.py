"""Abstract interpreter over MIR: bounded-disjunctive domain of (symbolic heap x linear constraints), callees
inlined, loops solved by widening to inferred linear invariants.  See DESIGN.md (engine)."""
import re, struct, sys
import time
from . import lin as L
from .lin import Lin, const, var
from .dom import *

# ---- structural names (interned) ------------------------------------------
_NM = {}
_NMI = []
HAVOCS = {}   # what was lost, over all engines
_NMH = []     # contains havoc?
_NMD = []     # phi dependencies


def _scan(x):
    """(havoc?, phi deps) of a name component."""
    if isinstance(x, Lin):
        h, d = False, set()
        for s, _ in x.t:
            hh, dd = sym_info(s)
            h |= hh
            d |= dd
        return h, d
    if isinstance(x, Nm):
        return _NMH[x], _NMD[x]
    if isinstance(x, str):
        return x == "havoc" or x == "cst", set()
    if isinstance(x, VInt):
        return _scan(x.l)
    if isinstance(x, VBool):
        return _scan(x.f)
    if isinstance(x, VOp):
        return _scan(x.s)
    if isinstance(x, tuple):
        h, d = False, set()
        for y in x:
            hh, dd = _scan(y)
            h |= hh
            d |= dd
        return h, d
    return False, set()


class Nm(int):
    __slots__ = ()

    def __repr__(s):
        return pname(s)


FSZ = {"f32": ("<f", 4), "f64": ("<d", 8)}


FBIG = 10 ** 300


def mkfloat(s, x, ti):
    """a known floating-point number"""
    try:
        by = struct.pack(FSZ[s][0], x)
    except OverflowError:
        by = struct.pack(FSZ[s][0], float("inf") if x > 0 else float("-inf"))
    return VOp(nm("fconst", s, int.from_bytes(by, "little")), ti)


def fval(v):
    if isinstance(v, VOp):
        n = _NMI[v.s]
        if n[0] == "fconst":
            return struct.unpack(FSZ[n[1]][0], n[2].to_bytes(FSZ[n[1]][1], "little"))[0]
    return None


def fop(op, x, y):
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
    try:
        return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}[op]() if op != "Div" else (x / y if y else None)
    except (KeyError, OverflowError):
        return None


def nm(*parts):
    i = _NM.get(parts)
    if i is None:
        h, d = _scan(parts)
        i = Nm(len(_NMI))
        _NM[parts] = i
        _NMI.append(parts)
        _NMH.append(h)
        _NMD.append(frozenset(d))
    return i


_SI = {}


def sym_info(s):
    r = _SI.get(s)
    if r is None:
        n = L.SYM[s]
        if n[0] == "n":
            r = (_NMH[n[1]], _NMD[n[1]])
        elif n[0] == "#" and n[1] == "phi":
            r = (False, frozenset([s]))
        elif n[0] == "#" and n[1] == "havoc":
            r = (True, frozenset())
        else:
            r = (False, frozenset())
        _SI[s] = r
    return r


def pname(n, depth=0):
    if depth > 6:
        return "…"
    p = _NMI[n]
    if p[0] == "fld":
        return "%s.%s" % (pname(p[1], depth + 1), p[2])
    if p[0] == "arg":
        return str(p[-1])
    out = []
    for x in p:
        if isinstance(x, Nm):
            out.append(pname(x, depth + 1))
        elif isinstance(x, Lin):
            out.append(L.pretty(x))
        else:
            out.append(str(x)[:60])
    return "<" + " ".join(out) + ">"


def _pnm(n):
    if n[0] == "n":
        return pname(n[1])
    return "%s#%s" % (n[1], n[2])


L.name_of = lambda s: _pnm(L.SYM[s])

_fc = [0]


def fresh_name(tag):
    _fc[0] += 1
    return nm(tag, "#%d" % _fc[0])


PHINAMES = set()


def fresh_phi_name():
    n = fresh_name("phiv")
    s = L.fresh("phi", None, None)
    # dependency marker: a phi name depends on itself through a marker symbol
    _NMD[n] = frozenset([s])
    PHINAMES.add(n)
    return n


Abort = L.Abort


class Frame:
    __slots__ = ("fid", "key", "fn", "cfg", "depth", "parent", "line", "tyl")

    def __init__(self, fid, key, fn, cfg, depth, parent):
        self.fid, self.key, self.fn, self.cfg, self.depth, self.parent = fid, key, fn, cfg, depth, parent
        self.line = fn["span"][1]


INTR = {}
for _b in (8, 16, 32, 64, 128):
    INTR["u%d" % _b] = (0, 2 ** _b - 1, _b, False)
    INTR["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1, _b, True)
INTR["usize"] = INTR["u64"]
INTR["isize"] = INTR["i64"]
INTR["char"] = (0, 0x10FFFF, 32, False)
ISIZE_MAX = 2 ** 63 - 1


# Follow single paths only: loops are unrolled and cut, paths are dropped rather than joined.  What is found wrong then is wrong on a
# path of its own, with no over-approximated value in it (sa/check.py confirms violations this way).
EXACT = False


class Engine:
    MAXD = 40

    def __init__(self, P, models=None, opts=None):
        self.P = P
        self.T = P.types
        self.quiet = 0
        self.obl = {}           # (kind, where, detail) -> status
        self.opts = dict(depth=14)
        if opts:
            self.opts.update(opts)
        from . import models as M
        self.M = M
        self.models = M.MODELS
        self.extra = {}         # per-check models: rpath regex -> fn
        if models:
            self.extra.update(models)
        self._mcache = {}
        self.reads = {}
        self.objty = {}
        self.havocs = {}
        self.inlined = set()
        self.on_ret = None
        self.steps = 0
        self.monitor = None
        self.cut = False
        self.cells = 0
        self.guards = None
        self.reached = set()     # (function, block) entered with a feasible state
        self.phi_src = {}
        self.fidfn = {}
        self.usz, self.isz = P.by_str.get("usize"), P.by_str.get("isize")

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.T[i]

    def adt(self, ti):
        return self.P.adts[self.T[ti]["def"]]

    def peel(self, ti):
        return self.T[ti]["e"]

    def irange(self, ti):
        return INTR.get(self.T[ti]["s"])

    def intty(self, name):
        return self.P.by_str.get(name)

    def is_vec(self, ti):
        t = self.T[ti]
        return t["k"] == "adt" and t["def"] in ("std::vec::Vec", "std::string::String")

    def is_ptrlike(self, ti):
        t = self.T[ti]
        return t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["def"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"))

    def pointee(self, ti):
        t = self.T[ti]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t["args"]:
            for a in t["args"]:
                if "t" in a:
                    return a["t"]
        return None

    def vec_elem(self, ti):
        t = self.T[ti]
        if t["def"] == "std::string::String":
            return self.intty("u8")
        return next(a["t"] for a in t["args"] if "t" in a)

    def ftypes(self, ti, vi, n):
        if ti is not None:
            t = self.T[ti]
            fs = t["ts"] if t["k"] == "tuple" else (t["vf"][vi] if t["k"] == "adt" and t.get("vf") and vi < len(t["vf"]) else None)
            if fs is not None and len(fs) == n:
                return fs
        return [None] * n

    def obj_type(self, o):
        if o[0] == "L" and isinstance(o[2], int):
            fn = self.fidfn.get(o[1])
            if fn is not None and o[2] < len(fn["locals"]):
                return fn["locals"][o[2]][0]
        r = self.objty.get(o)
        return r[1] if r is not None and r[0] == "val" else None

    def size_of(self, ti):
        return self.T[ti].get("size")

    # ---------------------------------------------------------------- symbolic values
    def isym(self, name, ti):
        r = self.irange(ti) or (None, None, 0, 0)
        return L.sym(("n", name), r[0], r[1])

    def usym(self, name, hi=ISIZE_MAX, lo=0):
        return L.sym(("n", name), lo, hi)

    def mk(self, ti, name):
        """The unknown value of type ti named `name`."""
        t = self.T[ti]
        k = t["k"]
        if k in ("int", "uint", "char"):
            return VInt(var(self.isym(name, ti)))
        if k == "bool":
            s = L.sym(("n", name), 0, 1)
            return VBool(("le", -var(s) + 1))
        if k in ("ref", "ptr") or self.is_ptrlike(ti):
            e = self.pointee(ti)
            et = self.T[e]
            o = ("deref", name)
            if et["k"] in ("slice", "str"):
                n = self.usym(nm("len", name))
                if o not in self.objty:
                    self.objty[o] = ("arr", et.get("e", self.intty("u8")), n)
                return VFat(o, (("i", const(0)),), var(n))
            if o not in self.objty:
                self.objty[o] = ("val", e)
            return VPtr(o, ())
        if k == "adt":
            if self.is_vec(ti):
                n = self.usym(nm("len", name))
                cap = var(n) + var(self.usym(nm("slack", name)))
                o = ("deref", name)
                if o not in self.objty:
                    self.objty[o] = ("arr", self.vec_elem(ti), cap)
                return VVec(ti, o, var(n), cap)
            return VOp(name, ti)
        if k == "array":
            n = t["n"] if isinstance(t["n"], int) else None
            if n is None:
                return VOp(name, ti)
            return VArr(t["e"], const(n), (), name)
        if k == "tuple":
            return VAgg(ti, tuple(self.mk(x, nm("fld", name, i)) for i, x in enumerate(t["ts"])))
        return VOp(name, ti)

    def default(self, o):
        r = self.objty.get(o)
        if r is None:
            return None
        if r[0] == "const":
            return r[1]
        if r[0] == "arr":
            n = r[2]
            return VArr(r[1], n if isinstance(n, Lin) else var(n), (), nm("cont", self.oname(o)))
        return self.mk(r[1], nm("cont", self.oname(o)))

    def oname(self, o):
        return o[1] if o[0] == "deref" else nm("obj", *[x for x in o])

    def havoc(self, ti, why, fr=None):
        n = fresh_name("havoc")
        w = "%s in %s" % (why, fr.fn["path"] if fr else "?")
        self.havocs[w] = self.havocs.get(w, 0) + 1
        HAVOCS[w] = HAVOCS.get(w, 0) + 1
        return self.mk(ti, n)

    def expand(self, v, vi=None, st=None):
        """VOp of struct/enum/tuple type -> VAgg / VEnum(vi)."""
        t = self.T[v.ty]
        if t["k"] == "tuple":
            return VAgg(v.ty, tuple(self.mk(x, nm("fld", v.s, i)) for i, x in enumerate(t["ts"])))
        if t["k"] == "adt":
            a = self.P.adts[t["def"]]
            if a["kind"] == "enum":
                if vi is None:
                    return None
                fl = a["variants"][vi]["fields"]
                return VEnum(v.ty, vi, tuple(self.mk(x, nm("vf", v.s, vi, i)) for i, x in enumerate(t["vf"][vi])))
            if a["kind"] == "struct":
                fl = a["variants"][0]["fields"]
                return VAgg(v.ty, tuple(self.mk(x, nm("fld", v.s, fl[i]["name"])) for i, x in enumerate(t["vf"][0])))
        return None

    def discr_sym(self, v):
        a = self.adt(v.ty)
        ds = [x["discr"] for x in a["variants"]]
        ds = [d - 2 ** 128 if d >= 2 ** 127 else d for d in ds]
        return L.sym(("n", nm("discr", v.s)), min(ds), max(ds))

    def discr_of(self, ti, vi):
        a = self.adt(ti)
        d = a["variants"][vi]["discr"]
        return d - 2 ** 128 if d >= 2 ** 127 else d

    def variant_of_discr(self, ti, d):
        for i, x in enumerate(self.adt(ti)["variants"]):
            if x["discr"] == d or x["discr"] == d % 2 ** 64 or x["discr"] == d % 2 ** 128:
                return i
        return None

    # ---------------------------------------------------------------- memory
    def obj(self, st, o):
        v = st.mem.get(o)
        if v is None:
            v = self.default(o)
        return v

    def child(self, st, v, e, ty=None):
        k = e[0]
        if k == "f":
            i = e[1]
            if isinstance(v, (VAgg, VEnum, VClo)):
                return v.fs[i] if i < len(v.fs) else VOp(fresh_name("havoc"), ty)
            if isinstance(v, VOp):
                x = self.expand(v)
                if x is not None and i < len(x.fs):
                    return x.fs[i]
                return self.mk(ty, nm("fld", v.s, i)) if ty is not None else VOp(nm("fld", v.s, i), ty)
            if isinstance(v, (VPtr, VFat)):
                return v     # Box / NonNull / Unique wrappers are transparent
            if isinstance(v, VVec):
                return VOp(nm("fld", "vec", i), ty)
            if isinstance(v, VUninit):
                return UNINIT
        elif k == "d":
            if isinstance(v, VEnum):
                return v
            if isinstance(v, VOp) and v.ty is not None:
                x = self.expand(v, e[1])
                if x is not None:
                    return x
            return v
        elif k == "i":
            if isinstance(v, VArr):
                return self.elem(st, v, e[1])
        return VOp(fresh_name("havoc"), ty)

    def elem(self, st, v, idx):
        idx = st.norm(idx)
        if idx.is_const():
            for i, x in v.els:
                if i == idx.c:
                    return x
        base, els = v.base, v.els
        if els and not idx.is_const() and self.opts.get("strip_els"):
            for i, x in els:
                if st.holds(("eq", idx - i)):
                    return x
            if all(st.holds(("ne", idx - i)) for i, x in els):
                els = ()
        p = _NMI[base]
        if not els or idx.is_const():
            if p[0] == "fill":
                return p[1]
            if p[0] == "st":
                _, b2, els2, i2, val = p
                d = st.norm(idx - i2)
                if d.is_const() and d.c == 0:
                    return val
                if st.holds(("ne", d)):
                    return self.elem(st, VArr(v.ety, v.n, els2, b2), idx)
            if p[0] == "rsz":
                _, b2, els2, n2, val = p
                if st.holds_le(n2 - idx):
                    return val
                if st.holds_le(idx + 1 - n2):
                    return self.elem(st, VArr(v.ety, v.n, els2, b2), idx)
            if p[0] == "cp":
                _, b2, els2, lo, n2, src = p
                lo, n2 = st.norm(lo), st.norm(n2)
                if st.holds_le(idx + 1 - lo) or st.holds_le(lo + n2 - idx):
                    return self.elem(st, VArr(v.ety, v.n, els2, b2), idx)
                if st.holds_le(lo - idx) and st.holds_le(idx + 1 - lo - n2):
                    if src[0] == "fat":
                        return self.elem(st, src[1], src[2] + idx - lo)
                    if src[0] == "fillv":
                        return src[1]
            return self.mkelem(st, v.ety, ("elem", base), idx)
        return self.mkelem(st, v.ety, ("elem", base, els), idx)

    def mkelem(self, st, ety, pre, idx):
        """The unknown element of an array at idx.  Elements read earlier at an index that has since become equal are the same."""
        v = self.mk(ety, nm(*pre, idx))
        seen = self.reads.setdefault((ety,) + pre, [])
        if idx not in seen:
            seen.append(idx)
        if len(seen) > 1 and isinstance(v, VInt):
            for i in seen:
                if i is idx or i == idx or (i.is_const() and idx.is_const()):
                    continue
                d = st.norm(i - idx)
                if d.is_const() and d.c == 0:
                    w = self.mk(ety, nm(*pre, i))
                    s2 = st.add_eq(w.l - v.l)
                    if s2 is not None:
                        st.sub, st.les, st.nes = s2.sub, s2.les, s2.nes
                        v = VInt(st.norm(v.l))
        return v

    def store_elem(self, st, v, idx, val):
        idx = st.norm(idx)
        if idx.is_const():
            els = tuple(sorted([(i, x) for i, x in v.els if i != idx.c] + [(idx.c, val)], key=lambda t: t[0]))
            return VArr(v.ety, v.n, els, v.base)
        return VArr(v.ety, v.n, (), nm("st", v.base, v.els, idx, val))

    def read(self, st, o, p, ty=None):
        v = self.obj(st, o)
        if v is None:
            return self.mk(ty, fresh_name("havoc")) if ty is not None else VOp(fresh_name("havoc"), None)
        for e in p:
            v = self.child(st, v, e, ty)
        if isinstance(v, VOp) and v.ty is None and ty is not None:
            v = self.mk(ty, v.s)
        return v

    def upd(self, st, v, p, new):
        if not p:
            return new
        e = p[0]
        if e[0] == "f":
            i = e[1]
            if isinstance(v, VOp):
                x = self.expand(v)
                if x is None:
                    return v
                v = x
            if isinstance(v, (VPtr, VFat)):
                return new
            if isinstance(v, VUninit):
                return v
            if isinstance(v, VVec):
                return v
            if i >= len(v.fs):
                return v
            c = self.upd(st, v.fs[i], p[1:], new)
            return v._replace(fs=v.fs[:i] + (c,) + v.fs[i + 1:])
        if e[0] == "d":
            if isinstance(v, VOp) and v.ty is not None:
                x = self.expand(v, e[1])
                if x is None:
                    return v
                v = x
            return self.upd(st, v, p[1:], new)
        if e[0] == "i":
            if isinstance(v, VArr):
                if len(p) == 1:
                    return self.store_elem(st, v, e[1], new)
                c = self.upd(st, self.elem(st, v, e[1]), p[1:], new)
                return self.store_elem(st, v, e[1], c)
        return v

    def write(self, st, o, p, val):
        if o[0] == "deref" and isinstance(o[1], Nm) and _NMH[o[1]]:
            st.ghost["havoc"] = True     # a write to who knows where
        if not p:
            st.mem[o] = val
            return
        base = self.obj(st, o)
        if base is None:
            return
        st.mem[o] = self.upd(st, base, p, val)

    # ---------------------------------------------------------------- obligations
    def require(self, st, kind, f, fr, detail="", line=None):
        """Record the obligation `f` at this point; returns the states in which it holds."""
        ok = st.holds(f)
        if not ok and self.fails is not None and not self.quiet:
            for s in st.assume(f_not(f)):
                self.fails.append((s, kind, detail, fr.fn["path"] if fr else "?", "%s:%s" % (fr.fn["span"][0], line or fr.line) if fr else ""))
        if not self.quiet:
            where = (self.root_key, fr.fn["path"] if fr else "?", kind, detail)
            und = False
            w = None
            if not ok:
                und = self.tainted(st, f)
                if not und and self.obl.get(where, ("",))[0] != "violated":
                    from . import wit
                    t = wit.tighten(self, st, f)
                    if t is None or t.holds(f) or all(wit.invert(n) is None for n in t.assume(f_not(f))):
                        ok = True
                    else:
                        w = wit.find(self, st, f)
                        und = w is None
            cur = self.obl.get(where)
            stat = "ok" if ok else ("undecided" if und else "violated")
            rank = {"ok": 0, "undecided": 1, "violated": 2}
            if cur is None or rank[stat] > rank[cur[0]]:
                self.obl[where] = (stat, line or (fr.line if fr else 0), fr.fn["span"][0] if fr else "", ("" if ok else ("for %s : " % wit.text(w) if w else "") + self.explain(st, f)))
        return st.assume(f)

    def tainted(self, st, f):
        if st.ghost.get("havoc"):
            return True
        seeds = {s for l in [st.norm(x) for x in self._lins(f)] for s in l.syms()}
        rows, seeds = L.slice_rows(st.les, seeds)
        return any(sym_info(s)[0] for s in seeds) or any(sym_info(s)[0] for s in f_syms(f))

    def _lins(self, f):
        if f[0] in ("le", "eq", "ne"):
            return [f[1]]
        if f[0] in ("and", "or"):
            return self._lins(f[1]) + self._lins(f[2])
        return []

    def explain(self, st, f):
        seeds = {s for l in [st.norm(x) for x in self._lins(f)] for s in l.syms()}
        rows, _ = L.slice_rows(st.les, seeds)
        return "cannot show %s given {%s}" % (self.pf(f, st), "; ".join(L.pretty(r) + " <= 0" for r in rows[:12]))

    def pf(self, f, st=None):
        n = st.norm if st else (lambda x: x)
        if f[0] == "le":
            return L.pretty(n(f[1])) + " <= 0"
        if f[0] == "eq":
            return L.pretty(n(f[1])) + " == 0"
        if f[0] == "ne":
            return L.pretty(n(f[1])) + " != 0"
        if f[0] in ("and", "or"):
            return "(%s %s %s)" % (self.pf(f[1], st), f[0], self.pf(f[2], st))
        return {"T": "true", "F": "false (point must be unreachable)"}[f[0]]

    def panic(self, st, fr, kind, line=None):
        self.require(st, "panic", F, fr, kind, line)

    # ---------------------------------------------------------------- places and operands
    def place(self, st, fr, p):
        """-> (obj, path, ty, slice_len or None)"""
        o = ("L", fr.fid, p[0])
        path = ()
        ty = fr.fn["locals"][p[0]][0]
        n = None
        for e in p[1:]:
            if e == "*":
                v = self.read(st, o, path, ty)
                ety = self.pointee(ty)
                o, path, n = self.deref(st, fr, v, ty, ety)
                ty = ety
            elif e[0] == "f":
                path = path + (("f", e[1]),)
                ty = e[2]
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "i":
                iv = self.read(st, ("L", fr.fid, e[1]), ())
                il = iv.l if isinstance(iv, VInt) else var(L.fresh("havoc", 0, None))
                path = self.index(path, il) if n is not None else path + (("i", il),)
                ty = self.T[ty].get("e", ty)
                n = None
            elif e[0] == "ci":
                off = e[1]
                if e[2]:
                    ln = n if n is not None else const(self.T[ty]["n"])
                    il = ln - off
                else:
                    il = const(off)
                path = self.index(path, il) if n is not None else path + (("i", il),)
                ty = self.T[ty]["e"]
                n = None
            elif e[0] == "ss":
                ln = n if n is not None else const(self.T[ty].get("n") or 0)
                end = ln - e[2] if e[3] else const(e[2])
                if n is None:
                    path = path + (("i", const(0)),)
                path = self.index_off(path, const(e[1]))
                n = end - e[1]
            else:
                pass
        return o, path, ty, n

    def index(self, path, il):
        """il-th element of the window whose start the path ends in"""
        return path[:-1] + (("i", path[-1][1] + il),)

    def index_off(self, path, k):
        return path[:-1] + (("i", path[-1][1] + k),)

    def deref(self, st, fr, v, ty, ety):
        if isinstance(v, VPtr):
            return v.o, v.p, None
        if isinstance(v, VFat):
            return v.o, v.p, v.n
        if isinstance(v, VAgg) and len(v.fs) >= 1:
            return self.deref(st, fr, v.fs[0], ty, ety)
        if isinstance(v, VOp):
            x = self.mk(ty, v.s) if (v.ty is None or True) and self.is_ptrlike(ty) else None
            if x is not None and not isinstance(x, VOp):
                return self.deref(st, fr, x, ty, ety)
            o = ("deref", v.s)
            self.objty.setdefault(o, ("val", ety))
            return o, (), None
        o = ("deref", fresh_name("havoc"))
        self.objty[o] = ("val", ety)
        return o, (), None

    def operand(self, st, fr, o):
        if "cp" in o or "mv" in o:
            p = o.get("cp") or o.get("mv")
            ob, path, ty, n = self.place(st, fr, p)
            v = self.read(st, ob, path, ty)
            if isinstance(v, VOp) and v.ty is not None and self.T[v.ty]["k"] in ("param", "alias") and self.T[ty]["k"] not in ("param", "alias"):
                v = self.mk(ty, v.s)
            return v
        if "k" in o:
            return self.constant(st, fr, o["k"])
        if "rt" in o and "Overflow" not in o["rt"]:
            return VBool(F)       # library self-checks are off: what they check is checked where it matters
        if "rt" in o:
            return VBool(f_eq(var(L.fresh("rt", 0, 1)) - 1))
        return VOp(fresh_name("havoc"), None)

    def constant(self, st, fr, k):
        ti = k["ty"]
        if "fn" in k:
            return VFn(_freeze(k["fn"]))
        c = k.get("c")
        if c is None:
            return VAgg(ti, ())
        return self.cval(c, ti, k)

    def cval(self, c, ti, k=None):
        t = self.T[ti]
        if "int" in c:
            if t["k"] == "bool":
                return VBool(T if c["int"] else F)
            if t["k"] in ("int", "uint", "char"):
                return VInt(const(c["int"]))
            if t["k"] in ("ptr", "ref"):
                return VOp(nm("intptr", str(c["int"])), ti)
            # newtype / enum scalar / float
            if t.get("def") == "std::option::Option" and not c["int"] and "tag" not in t and self.is_ptrlike(t["vf"][1][0]):
                return VEnum(ti, 0, ())
            b = int(c["int"]) & ((1 << (8 * c["sz"])) - 1)
            return self.decode(b.to_bytes(c["sz"], "little"), 0, ti, {})
        if "zst" in c:
            if t["k"] == "adt":
                a = self.adt(ti)
                if a["kind"] == "enum":
                    return VEnum(ti, 0, tuple(VAgg(x, ()) for x in t["vf"][0]))
                return VAgg(ti, tuple(self.zst(x) for x in t["vf"][0]))
            if t["k"] == "array":
                return VArr(t["e"], const(t["n"] if isinstance(t["n"], int) else 0), (), nm("fill", 0))
            if t["k"] == "closure":
                return VClo(t.get("def", t["s"]), ())
            return VAgg(ti, ())
        if "slice" in c:
            o = self.constobj(c["slice"], None)
            return VFat(o, (("i", const(0)),), const(c["len"]))
        if "ptr" in c:
            e = self.pointee(ti)
            m = c["ptr"]
            if e is not None and "mem" in m and c["off"] == 0:
                o = self.constobj(m["mem"], e)
                return VPtr(o, ())
            if "static" in m:
                o = ("static", m["static"])
                sd = self.P.statics.get(m["static"])
                if o not in self.objty and sd and isinstance(sd.get("bytes"), str) and not sd.get("mut") and self.T[e]["k"] in ("int", "uint", "bool", "char", "array"):
                    self.objty[o] = ("const", self.decode(bytes.fromhex(sd["bytes"]), 0, e, {}))
                self.objty.setdefault(o, ("val", e))
                return VPtr(o, ())
            return VOp(nm("cptr", str(m)[:80]), ti)
        if "mem" in c:
            m = c["mem"]
            b, rel = (m, {}) if isinstance(m, str) else (m["b"], {r[0]: r[1] for r in m["rel"]})
            return self.decode(bytes.fromhex(b), 0, ti, rel)
        return VOp(nm("const", k.get("def", "?") if k else "?", t["s"]), ti)

    def zst(self, ti):
        t = self.T[ti]
        if t["k"] == "adt" and self.adt(ti)["kind"] == "struct":
            return VAgg(ti, tuple(self.zst(x) for x in t["vf"][0]))
        return VAgg(ti, ())

    def constobj(self, m, e):
        """Constant memory object; e is the pointee type (None: byte slice)."""
        b, rel = (m, []) if isinstance(m, str) else (m["b"], m["rel"])
        o = ("C", b if len(b) < 400 else b[:40] + str(hash(b)), e if e is not None else -1, str(rel) if rel else "")
        if o not in self.objty:
            by = bytes.fromhex(b)
            if e is None:
                u8 = self.intty("u8")
                v = VArr(u8, const(len(by)), tuple((i, VInt(const(x))) for i, x in enumerate(by)) if len(by) <= 64 else (), nm("bytes", b[:64]))
            else:
                v = self.decode(by, 0, e, {r[0]: r[1] for r in rel})
            self.objty[o] = ("const", v)
        return o

    def decode(self, by, off, ti, rel):
        t = self.T[ti]
        k = t["k"]
        sz = t.get("size")
        if k in ("int", "uint", "char"):
            return VInt(const(int.from_bytes(by[off:off + sz], "little", signed=(k == "int"))))
        if k == "bool":
            return VBool(T if by[off] else F)
        if k == "float" and t["s"] in FSZ:
            return mkfloat(t["s"], struct.unpack(FSZ[t["s"]][0], bytes(by[off:off + FSZ[t["s"]][1]]))[0], ti)
        if k == "array" and isinstance(t["n"], int):
            es = self.T[t["e"]].get("size") or 0
            if t["n"] <= 1100:
                return VArr(t["e"], const(t["n"]), tuple((i, self.decode(by, off + i * es, t["e"], rel)) for i in range(t["n"])), nm("bytes", "c"))
        if k == "tuple" and len(t["ts"]) == 0:
            return VAgg(ti, ())
        if k == "adt" and self.adt(ti)["kind"] == "struct" and "offs" in t and sz is not None:
            return VAgg(ti, tuple(self.decode(by, off + t["offs"][i], x, rel) for i, x in enumerate(t["vf"][0])))
        if k == "adt" and self.adt(ti)["kind"] == "enum" and sz is not None and all(not x for x in t["vf"]):
            d = int.from_bytes(by[off:off + sz], "little")
            vi = self.variant_of_discr(ti, d)
            if vi is not None:
                return VEnum(ti, vi, ())
        if k == "adt" and "tag" in t:
            g = t["tag"]
            # (a niche inside a pointer: the pointer is one when it has a relocation)
            d = int.from_bytes(by[off + g["off"]:off + g["off"] + g["size"]], "little")
            vi = None
            if "untagged" not in g:
                vi = self.variant_of_discr(ti, d)
            elif off + g["off"] in rel:
                vi = g["untagged"]
            else:
                r = (d - g["start"]) % (1 << (8 * g["size"])) + g["first"]
                vi = r if g["first"] <= r <= g["last"] else g["untagged"]
            if vi is not None and vi < len(t["vf"]) and len(g["vo"][vi]) == len(t["vf"][vi]):
                return VEnum(ti, vi, tuple(self.decode(by, off + o2, x, rel) for o2, x in zip(g["vo"][vi], t["vf"][vi])))
        if k in ("ref", "ptr") and off in rel:
            m = rel[off]
            e = t["e"]
            if "mem" in m:
                if self.T[e]["k"] in ("slice", "str"):
                    n = int.from_bytes(by[off + 8:off + 16], "little")
                    o = self.constobj(m["mem"], None) if self.T[e].get("e") in (None, self.intty("u8")) else None
                    if o is not None:
                        return VFat(o, (("i", const(0)),), const(n))
                else:
                    return VPtr(self.constobj(m["mem"], e), ())
        return VOp(nm("cst", t["s"], by[off:off + (sz or 0)].hex()[:64]), ti)

    # ---------------------------------------------------------------- arithmetic
    def wordy(self, l):
        """in loose mode: a word made by bit operations, whose arithmetic is left to the bit domain"""
        return self.opts.get("loose") and any(self.wordsym(s) for s, _ in l.t)

    def wordsym(self, s):
        n = L.SYM[s]
        if n[0] != "n":
            return False
        p = _NMI[n[1]]
        if p[0] in ("div", "mod"):
            return any(self.wordsym(x) for x, _ in p[1].t)
        return p[0] == "elem" or (p[0] == "op" and p[1] in ("BitXor", "BitAnd", "BitOr")) or p[0] == "le"

    def loose_range(self, st, l):
        lo = hi = l.c
        for s, k in l.t:
            if L.LO[s] is None or L.HI[s] is None:
                return None
            lo += k * (L.LO[s] if k > 0 else L.HI[s])
            hi += k * (L.HI[s] if k > 0 else L.LO[s])
        return lo, hi

    def modn(self, st, l, m, signed=False):
        """l mod m as (state, Lin); for signed the representative in [-m/2, m/2)."""
        l = st.norm(l)
        lo, hi = (-(m // 2), m // 2 - 1) if signed else (0, m - 1)
        if l.is_const():
            r = l.c % m
            if signed and r >= m // 2:
                r -= m
            return st, const(r)

        if self.wordy(l):
            u = self.loose_range(st, l)
            if u is not None and lo <= u[0] and u[1] <= hi:
                return st, l
            return st, var(L.sym(("n", nm("mods" if signed else "mod", l, m)), lo, hi))
        if st.holds_le(l - hi) and st.holds_le(-l + lo):
            return st, l
        r = L.sym(("n", nm("mods" if signed else "mod", l, m)), lo, hi)
        q = L.sym(("n", nm("divs" if signed else "div", l, m)), None, None)
        s2 = st.add_eq(l - var(q).mul(m) - var(r))
        return (s2 or st), var(r)

    def divc(self, st, l, m):
        """floor(l / m) for constant m > 0, l >= 0."""
        l = st.norm(l)
        if l.is_const():
            return st, const(l.c // m)
        if m == 1:
            return st, l
        if all(k % m == 0 for _, k in l.t) and l.c % m == 0:
            return st, Lin(tuple((s, k // m) for s, k in l.t), l.c // m)
        if self.wordy(l):
            u = self.loose_range(st, l)
            if u is not None and u[0] >= 0:
                return st, var(L.sym(("n", nm("div", l, m)), 0, u[1] // m))
        if st.holds_le(l + 1 - m) and st.holds_le(-l):
            return st, const(0)
        r = L.sym(("n", nm("mod", l, m)), 0, m - 1)
        q = L.sym(("n", nm("div", l, m)), None, None)
        s2 = st.add_eq(l - var(q).mul(m) - var(r))
        st = s2 or st
        if st.holds_le(-l):
            s3 = st.add_le(-var(q))
            st = s3 or st
        return st, var(q)

    def shifts(self, st, op, ti, la, lb, m):
        """a shift by an amount of few possible values, one path per value"""
        if self.opts.get("loose") or self.opts.get("symshift"):
            return None
        if not st.holds_le(-lb) or not st.holds_le(lb + 1 - m[2]):
            return None
        lo, hi = 0, m[2] - 1
        while hi and st.holds_le(lb + 1 - hi):
            hi -= 1
        out = []
        for v in range(lo, hi + 1):
            for s2 in st.assume(("eq", lb - v)):
                out += self.binop(s2, op, VInt(la), VInt(const(v)), ti, None)
        return out

    def opaque(self, op, a, b, ti):
        return VInt(var(self.isym(nm("op", op.replace("Unchecked", ""), a, b), ti)))

    def inrange(self, st, l, ti):
        r = self.irange(ti)
        l = st.norm(l)
        if l.is_const():
            return r[0] <= l.c <= r[1]
        return st.holds_le(l - r[1]) and st.holds_le(-l + r[0])

    def outrange(self, l, ti):
        r = self.irange(ti)
        return f_or(f_le(-l + (r[1] + 1)), f_le(l - r[0] + 1))

    def arith(self, st, op, a, b, ti):
        """mathematical result as Lin or None when it is not linear; may refine the state"""
        if op == "Add":
            return st, a + b
        if op == "Sub":
            return st, a - b
        if op == "Mul":
            a, b = st.norm(a), st.norm(b)
            if a.is_const():
                return st, b.mul(a.c)
            if b.is_const():
                return st, a.mul(b.c)
            r = self.irange(ti)
            s = L.sym(("n", nm("mul", *sorted([a, b]))), None, None)
            if st.holds_le(-a) and st.holds_le(-b):
                st = st.add_le(-var(s)) or st
            for x, y in ((a, b), (b, a)):
                # bound by the constant upper bound of one factor
                ub = self.upper(st, x)
                if ub is not None and ub <= 1 << 40 and st.holds_le(-y):
                    st = st.add_le(var(s) - y.mul(ub)) or st
                lb = self.lower(st, x)
                if lb is not None and lb >= 0 and st.holds_le(-y):
                    st = st.add_le(y.mul(lb) - var(s)) or st
            return st, var(s)
        return st, None

    def topbits(self, st, l):
        u = self.upper(st, l)
        if u is None:
            for k in (1, 7, 8, 16, 32):
                if st.holds_le(l - ((1 << k) - 1)):
                    return (1 << k) - 1
        return u

    def upper(self, st, l):
        l = st.norm(l)
        if l.is_const():
            return l.c
        if len(l.t) == 1 and l.t[0][1] == 1:
            s = l.t[0][0]
            best = L.HI[s]
            for r in st.les:
                if len(r.t) == 1 and r.t[0] == (s, 1):
                    if best is None or -r.c < best:
                        best = -r.c
            return None if best is None else best + l.c
        return None

    def lower(self, st, l):
        l = st.norm(l)
        if l.is_const():
            return l.c
        if len(l.t) == 1 and l.t[0][1] == 1:
            s = l.t[0][0]
            best = L.LO[s]
            for r in st.les:
                if len(r.t) == 1 and r.t[0] == (s, -1):
                    if best is None or r.c > best:
                        best = r.c
            return None if best is None else best + l.c
        return None

    def as_lin(self, v, ti=None):
        if isinstance(v, VInt):
            return v.l
        if isinstance(v, VBool):
            if v.f == T:
                return const(1)
            if v.f == F:
                return const(0)
            if v.f[0] == "le" and len(v.f[1].t) == 1 and v.f[1].t[0][1] == -1 and v.f[1].c == 1:
                return var(v.f[1].t[0][0])
            return None
        if isinstance(v, VOp) and v.ty is not None and self.irange(v.ty):
            return self.mk(v.ty, v.s).l
        return None

    def binop(self, st, op, a, b, ti, fr):
        """-> list of (state, value)"""
        t = self.T[ti]
        if t["k"] == "float" and self.opts.get("fnum"):
            r = self.fbin(st, op, a, b)
            if r is not None:
                return r
        if t["k"] in ("int", "uint", "char"):
            la, lb = self.as_lin(a), self.as_lin(b)
            if la is None:
                la = var(L.fresh("havoc", *self.irange(ti)[:2]))
            if lb is None:
                lb = var(L.fresh("havoc", 0, None))
            if op in ("Add", "Sub", "Mul"):
                st, r = self.arith(st, op, la, lb, ti)
                if self.inrange(st, r, ti):
                    return [(st, VInt(r))]
                m = self.irange(ti)
                st, r = self.modn(st, r, 1 << m[2], m[3])
                return [(st, VInt(r))]
            if op.endswith("Unchecked") and op[:3] in ("Add", "Sub", "Mul"):
                st, r = self.arith(st, op[:3], la, lb, ti)
                return [(st, VInt(r))]
            if op.endswith("WithOverflow"):
                st, r = self.arith(st, op[:3], la, lb, ti)
                of = self.outrange(r, ti)
                if st.holds(f_not(of)):
                    return [(st, VAgg(None, (VInt(r), VBool(F))))]
                return [(st, VAgg(None, (VInt(r), VBool(of))))]
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                d = la - lb
                f = {"Lt": lambda: f_le(d + 1), "Le": lambda: f_le(d), "Gt": lambda: f_le(-d + 1), "Ge": lambda: f_le(-d),
                     "Eq": lambda: f_eq(d), "Ne": lambda: f_not(f_eq(d))}[op]()
                return [(st, VBool(f))]
            if op == "Cmp":
                oty = self.P.by_str.get("std::cmp::Ordering")
                out = []
                for vi, f in ((0, f_le(la - lb + 1)), (1, f_eq(la - lb)), (2, f_le(lb - la + 1))):
                    for s in st.assume(f):
                        out.append((s, VEnum(oty, vi, ())))
                return out
            ca, cb = st.const_of(la), st.const_of(lb)
            m = self.irange(ti)
            if op in ("Div", "Rem"):
                if cb is not None and cb > 0 and st.holds_le(-la):
                    if op == "Div":
                        st, r = self.divc(st, la, cb)
                    else:
                        st, r = self.modn(st, la, cb)
                    return [(st, VInt(r))]
                r = L.sym(("n", nm("op", op, st.norm(la), st.norm(lb))), m[0], m[1])
                if not m[3]:
                    if op == "Rem":
                        for f in (var(r) - lb + 1, var(r) - la):
                            st = st.add_le(f) or st
                    else:
                        st = st.add_le(var(r) - la) or st
                return [(st, VInt(var(r)))]
            if op == "BitAnd":
                for x, c in ((la, cb), (lb, ca)):
                    if c is not None and c >= 0 and (c & (c + 1)) == 0:
                        st, r = self.modn(st, x, c + 1)
                        return [(st, VInt(r))]
                if ca is not None and cb is not None:
                    return [(st, VInt(const(ca & cb)))]
                for x, c in ((la, cb), (lb, ca)):
                    # a contiguous run of ones above zeros
                    if c is not None and c > 0 and st.holds_le(-x):
                        low = c & -c
                        if ((c // low) & (c // low + 1)) == 0:
                            y = x
                            if c.bit_length() < m[2]:
                                st, y = self.modn(st, x, 1 << c.bit_length())
                            st, y = self.divc(st, y, low)
                            return [(st, VInt(y.mul(low)))]
                r = L.sym(("n", nm("op", op, *sorted([st.norm(la), st.norm(lb)]))), 0 if not m[3] else m[0], m[1])
                if not m[3]:
                    for f in (var(r) - la, var(r) - lb):
                        st = st.add_le(f) or st
                return [(st, VInt(var(r)))]
            if op in ("BitOr", "BitXor"):
                if ca is not None and cb is not None:
                    return [(st, VInt(const((ca | cb) if op == "BitOr" else (ca ^ cb))))]
                if ca == 0:
                    return [(st, VInt(lb))]
                if cb == 0:
                    return [(st, VInt(la))]
                for x, y in ((st.norm(la), st.norm(lb)), (st.norm(lb), st.norm(la))):
                    # disjoint bits: x is a multiple of 2^k, y is below 2^k
                    g = 0
                    for k in [q for _, q in x.t] + [x.c]:
                        g |= abs(k)
                    g &= -g
                    if g > 1 and (y.is_const() and 0 <= y.c < g or not y.is_const() and st.holds_le(-y) and st.holds_le(y + 1 - g)) and st.holds_le(-x):
                        return [(st, VInt(x + y))]
                if self.opts.get("loose") and not m[3]:
                    ra, rb = self.loose_range(st, st.norm(la)), self.loose_range(st, st.norm(lb))
                    if ra and rb and ra[0] >= 0 and rb[0] >= 0:
                        top = min(m[1], (1 << max(ra[1], rb[1]).bit_length()) - 1)
                        return [(st, VInt(var(L.sym(("n", nm("op", op, *sorted([st.norm(la), st.norm(lb)]))), 0, top))))]
                r = L.sym(("n", nm("op", op, *sorted([st.norm(la), st.norm(lb)]))), m[0], m[1])
                if not m[3]:
                    st = st.add_le(var(r) - la - lb) or st
                    ua, ub = self.topbits(st, la), self.topbits(st, lb)
                    if ua is not None and ub is not None:
                        st = st.add_le(var(r) - ((1 << max(ua, ub).bit_length()) - 1)) or st
                    if op == "BitOr":
                        st = st.add_le(la - var(r)) or st
                        st = st.add_le(lb - var(r)) or st
                return [(st, VInt(var(r)))]
            if op in ("Shl", "ShlUnchecked"):
                if cb is not None and 0 <= cb < m[2]:
                    r = la.mul(1 << cb)
                    if not self.inrange(st, r, ti):
                        st, r = self.modn(st, r, 1 << m[2], m[3])
                    return [(st, VInt(r))]
                r = self.shifts(st, op, ti, la, lb, m)
                return r or [(st, self.opaque(op, st.norm(la), st.norm(lb), ti))]
            if op in ("Shr", "ShrUnchecked"):
                r = cb is None and la.is_const() and self.shifts(st, op, ti, la, lb, m)
                if r:
                    return r
                if cb is not None and 0 <= cb < m[2] and st.holds_le(-la):
                    st, r = self.divc(st, la, 1 << cb)
                    return [(st, VInt(r))]
                r = self.opaque(op, st.norm(la), st.norm(lb), ti)
                if not m[3]:
                    st = st.add_le(r.l - la) or st
                return [(st, r)]
            return [(st, self.opaque(op, st.norm(la), st.norm(lb), ti))]
        if t["k"] == "bool":
            if isinstance(a, VBool) and isinstance(b, VBool):
                x, y = a.f, b.f
                if op == "BitAnd":
                    return [(st, VBool(f_and(x, y)))]
                if op == "BitOr":
                    return [(st, VBool(f_or(x, y)))]
                if op in ("BitXor", "Ne"):
                    return [(st, VBool(f_or(f_and(x, f_not(y)), f_and(f_not(x), y))))]
                if op == "Eq":
                    return [(st, VBool(f_or(f_and(x, y), f_and(f_not(x), f_not(y)))))]
                if op in ("Lt",):
                    return [(st, VBool(f_and(f_not(x), y)))]
        if t["k"] == "float":
            x, y = fval(a), fval(b)
            if x is not None and y is not None:
                r = fop(op, x, y)
                if isinstance(r, bool):
                    return [(st, VBool(T if r else F))]
                if r is not None:
                    return [(st, mkfloat(t["s"], r, ti))]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a == b and op in ("Eq", "Le", "Ge") and t["k"] != "float":
                return [(st, VBool(T))]
            if a == b and op in ("Ne", "Lt", "Gt") and t["k"] != "float":
                return [(st, VBool(F))]
            r = self.ptrcmp(st, op, a, b)
            if r is not None:
                return [(st, VBool(r))]
            s = L.sym(("n", nm("cmp", op, self.vkey(st, a), self.vkey(st, b))), 0, 1)
            return [(st, VBool(("le", -var(s) + 1)))]
        if op == "Offset":
            return self.ptr_add(st, fr, a, self.as_lin(b), ti)
        return [(st, VOp(nm("fop", op, self.vkey(st, a), self.vkey(st, b)), ti))]

    def flin(self, v):
        """option fnum: a float as a linear expression, in halves; numbers not built from inputs by + - * are tainted"""
        if isinstance(v, VInt):
            return v.l
        x = fval(v)
        if x is not None:
            if x != x or x in (float("inf"), float("-inf")) or x * 2 != int(x * 2):
                return None
            return const(int(x * 2))
        if isinstance(v, VOp):
            given = _NMI[v.s][0] not in ("fop", "fcast", "un", "havoc")
            return var(L.sym(("n", nm("fnum", v.s) if given else nm("havoc", "fnum", v.s)), -FBIG, FBIG))
        return None

    def fbin(self, st, op, a, b):
        if fval(a) is not None and fval(b) is not None:
            return None
        x, y = self.flin(a), self.flin(b)
        if x is None or y is None:
            return None
        if op in ("Add", "Sub"):
            return [(st, VInt(x + y if op == "Add" else x - y))]
        if op == "Mul":
            x, y = st.norm(x), st.norm(y)
            for u, w in ((x, y), (y, x)):
                k = st.const_of(u)
                if k is not None and k % 2 == 0:
                    return [(st, VInt(w.mul(k // 2)))]
            sg, ks = 1, []
            for u in (x, y):
                if u.t and min(u.t)[1] < 0:
                    u, sg = -u, -sg
                ks.append(u)
            ks.sort(key=repr)
            m = var(L.sym(("n", nm("fmul", ks[0], ks[1])), 0 if ks[0] == ks[1] else None, None))
            return [(st, VInt(m if sg > 0 else -m))]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            d = x - y
            return [(st, VBool({"Lt": lambda: f_le(d + 1), "Le": lambda: f_le(d), "Gt": lambda: f_le(-d + 1), "Ge": lambda: f_le(-d),
                                "Eq": lambda: f_eq(d), "Ne": lambda: f_not(f_eq(d))}[op]()))]
        return None

    def vkey(self, st, v):
        """A name component identifying the value."""
        if isinstance(v, VInt):
            return st.norm(v.l)
        if isinstance(v, VOp):
            return v.s
        return v

    def ptrcmp(self, st, op, a, b):
        if isinstance(a, (VPtr, VFat)) and isinstance(b, (VPtr, VFat)):
            if a.o == b.o and len(a.p) == len(b.p) and a.p[:-1] == b.p[:-1] and a.p and a.p[-1][0] == "i" and b.p[-1][0] == "i":
                d = a.p[-1][1] - b.p[-1][1]
                return {"Lt": lambda: f_le(d + 1), "Le": lambda: f_le(d), "Gt": lambda: f_le(-d + 1), "Ge": lambda: f_le(-d),
                        "Eq": lambda: f_eq(d), "Ne": lambda: f_not(f_eq(d))}[op]()
            if op in ("Eq", "Ne") and a.o != b.o and (a.o[0] == "A" or b.o[0] == "A") and a.o[0] != "J" and b.o[0] != "J":
                # a fresh allocation equals no pointer that existed before it
                return T if op == "Ne" else F
            if op in ("Eq", "Ne") and a.o == b.o and a.p == b.p:
                return T if op == "Eq" else F
        if op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VOp) and _NMI[x.s][0] == "intptr" and isinstance(y, (VPtr, VFat)) and y.o[0] in ("L", "A"):
                    return T if op == "Ne" else F
        return None

    def ptr_add(self, st, fr, p, k, pty=None, esz=None):
        """pointer + k elements"""
        if isinstance(p, (VPtr, VFat)) and k is not None:
            if p.p and p.p[-1][0] == "i":
                np = p.p[:-1] + (("i", st.norm(p.p[-1][1] + k)),)
                return [(st, VPtr(p.o, np))]
            if st.const_of(k) == 0:
                return [(st, VPtr(p.o, p.p))]
        if isinstance(p, VOp) and pty is not None and self.T[pty]["k"] in ("ptr", "ref"):
            pass
        return [(st, VOp(nm("ptradd", self.vkey(st, p), st.norm(k) if k is not None else 0), pty))]

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fr, r[1]))]
        if k in ("ref", "rawptr"):
            o, p, ty, n = self.place(st, fr, r[2])
            if n is not None:
                return [(st, VFat(o, p, n))]
            v = None
            et = self.T[ty]
            if et["k"] in ("slice", "str") or et["k"] == "dyn":
                if et["k"] == "dyn":
                    return [(st, VPtr(o, p))]
            return [(st, VPtr(o, p))]
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4], fr)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(a, VBool):
                    return [(st, VBool(f_not(a.f)))]
                la = self.as_lin(a)
                m = self.irange(r[3])
                if la is not None and m and not m[3]:
                    return [(st, VInt(-la + m[1]))]
                if la is not None and m:
                    return [(st, VInt(-la - 1))]
            if r[1] == "Neg" and self.opts.get("fnum") and self.T[r[3]]["k"] == "float" and self.flin(a) is not None:
                return [(st, VInt(-self.flin(a)))]
            if r[1] == "Neg" and isinstance(a, VInt):
                return [(st, VInt(-a.l))]
            if r[1] == "PtrMetadata":
                if isinstance(a, VFat):
                    return [(st, VInt(a.n))]
                if isinstance(a, VOp):
                    return [(st, VInt(var(self.usym(nm("len", a.s)))))]
                return [(st, VInt(var(L.fresh("havoc", 0, ISIZE_MAX))))]
            return [(st, VOp(nm("un", r[1], self.vkey(st, a)), dty) if self.irange(dty) is None else VInt(var(self.isym(nm("un", r[1], self.vkey(st, a)), dty))))]
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "discr":
            o, p, ty, n = self.place(st, fr, r[1])
            v = self.read(st, o, p, ty)
            if isinstance(v, VEnum):
                return [(st, VInt(const(self.discr_of(v.ty, v.v))))]
            if isinstance(v, VOp) and v.ty is not None and self.T[v.ty]["k"] == "adt" and self.adt(v.ty)["kind"] == "enum":
                return [(st, VInt(var(self.discr_sym(v))))]
            return [(st, VInt(var(L.fresh("havoc", None, None))))]
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in r[2])
            h = r[1]
            if h[0] == "adt":
                t = self.T[h[1]]
                a = self.P.adts[t["def"]]
                if a["kind"] == "enum":
                    return [(st, VEnum(h[1], h[2], fs))]
                if a["kind"] == "union":
                    return [(st, VOp(fresh_name("havoc"), h[1]))]
                return [(st, VAgg(h[1], fs))]
            if h[0] == "tuple":
                return [(st, VAgg(dty, fs))]
            if h[0] == "array":
                return [(st, VArr(h[1], const(len(fs)), tuple(enumerate(fs)), nm("bytes", "agg")))]
            if h[0] == "closure":
                return [(st, VClo(h[1], fs))]
            if h[0] == "rawptr":
                p, n = fs[0], fs[1]
                if isinstance(p, VPtr) and isinstance(n, VInt):
                    pp = p.p if p.p and p.p[-1][0] == "i" else p.p + (("i", const(0)),)
                    return [(st, VFat(p.o, pp, n.l))]
                return [(st, p if not isinstance(p, VPtr) else p)]
            return [(st, VOp(fresh_name("havoc"), dty))]
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2] if isinstance(r[2], int) else None
            ety = self.T[dty]["e"]
            if n is None:
                return [(st, VOp(fresh_name("havoc"), dty))]
            if n <= 64:
                return [(st, VArr(ety, const(n), tuple((i, v) for i in range(n)), nm("bytes", "rep")))]
            return [(st, VArr(ety, const(n), (), nm("fill", v)))]
        return [(st, self.havoc(dty, "rvalue " + k, fr))]

    def cast(self, st, fr, kind, v, fty, tty):
        tt, ft = self.T[tty], self.T[fty]
        if kind == "IntToInt":
            if isinstance(v, VBool):
                l = self.as_lin(v)
                if l is not None:
                    return [(st, VInt(l))]
                return [(s, VInt(const(c))) for c, f in ((1, v.f), (0, f_not(v.f))) for s in st.assume(f)]
            l = self.as_lin(v)
            if l is None:
                if isinstance(v, VEnum):
                    l = const(self.discr_of(v.ty, v.v))
                elif isinstance(v, VOp) and v.ty is not None and self.T[v.ty]["k"] == "adt" and self.adt(v.ty)["kind"] == "enum":
                    l = var(self.discr_sym(v))
                else:
                    return [(st, self.havoc(tty, "int cast", fr))]
            if tt["k"] == "bool":
                return [(st, VBool(f_not(f_eq(l))))]
            m = self.irange(tty)
            if m is None:
                return [(st, self.havoc(tty, "int cast", fr))]
            st, r = self.modn(st, l, 1 << m[2], m[3])
            return [(st, VInt(r))]
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, VPtr):
                e = self.pointee(fty)
                et = self.T[e] if e is not None else {}
                te = self.pointee(tty)
                if et.get("k") == "array" and te is not None and self.T[te]["k"] == "slice":
                    n = et["n"]
                    n = const(n) if isinstance(n, int) else var(self.usym(nm("arrlen", str(n))))
                    return [(st, VFat(v.o, v.p + (("i", const(0)),), n))]
                return [(st, v)]
            if isinstance(v, VOp):
                return [(st, VOp(v.s, tty)) if False else (st, self.mk(tty, v.s))]
            return [(st, v)]
        if kind.startswith("PointerCoercion"):
            if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
                return [(st, v)]
            return [(st, v)]
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, VFat) and self.T[self.pointee(tty)]["k"] not in ("slice", "str"):
                return [(st, VPtr(v.o, v.p))]
            return [(st, v)]
        if kind in ("Transmute", "BoxDerefTransmute") or kind.startswith("Transmute"):
            return [(st, self.transmute(st, fr, v, fty, tty))]
        if kind in ("PointerExposeProvenance",):
            # address of a pointer: an unknown number, the same for the same pointer
            base = nm("addr", v.o, v.p[:-1] if v.p and v.p[-1][0] == "i" else v.p) if isinstance(v, (VPtr, VFat)) else nm("addr", self.vkey(st, v))
            a = L.sym(("n", base), 1, 2 ** 64 - 1)
            l = var(a)
            if isinstance(v, (VPtr, VFat)) and v.p and v.p[-1][0] == "i":
                es = self.elem_size(st, v)
                if es:
                    l = l + v.p[-1][1].mul(es)
                    st = st.add_le(l - (2 ** 64 - 1)) or st
            return [(st, VInt(l))]
        if self.opts.get("fnum") and "float" in (tt["k"], ft["k"]) and fval(v) is None:
            x = self.flin(v) if ft["k"] == "float" else self.as_lin(v)
            if tt["k"] == ft["k"]:
                return [(st, v)]
            if x is not None and tt["k"] == "float":
                return [(st, VInt(x.mul(2)))]
            m = self.irange(tty)
            if x is not None and m and tt["k"] in ("int", "uint"):
                out = []
                for f, g in ((f_le(-x), 1), (f_not(f_le(-x)), -1)):
                    for s in st.assume(f):
                        s, q = self.divc(s, x.mul(g), 2)
                        q = q.mul(g)
                        for h, r in ((f_le(q - m[1]), q), (f_le(const(m[1] + 1) - q), const(m[1]))):
                            for s2 in s.assume(h):
                                out += [(s3, VInt(r)) for s3 in s2.assume(f_le(const(m[0]) - r))]
                                out += [(s3, VInt(const(m[0]))) for s3 in s2.assume(f_not(f_le(const(m[0]) - r)))]
                return out
        if tt["k"] == "float" or ft["k"] == "float":
            x = st.const_of(self.as_lin(v)) if ft["k"] in ("int", "uint") and self.as_lin(v) is not None else fval(v)
            if x is not None and tt["k"] == "float" and tt["s"] in FSZ and (ft["k"] == "float" or abs(x) < 2 ** 53):
                return [(st, mkfloat(tt["s"], float(x), tty))]
            m = self.irange(tty)
            if x is not None and m and tt["k"] in ("int", "uint") and x == x and abs(x) != float("inf"):
                return [(st, VInt(const(max(m[0], min(m[1], int(x))))))]
            if self.irange(tty):
                return [(st, VInt(var(self.isym(nm("fcast", tt["s"], self.vkey(st, v)), tty))))]
            return [(st, VOp(nm("fcast", tt["s"], self.vkey(st, v)), tty))]
        return [(st, self.havoc(tty, "cast " + kind, fr))]

    def elem_size(self, st, v):
        a = self.read(st, v.o, v.p[:-1])
        if isinstance(a, VArr):
            return self.size_of(a.ety)
        return None

    def transmute(self, st, fr, v, fty, tty):
        tt, ft = self.T[tty], self.T[fty]
        if fty == tty:
            return v
        if isinstance(v, (VPtr, VFat)):
            if self.is_ptrlike(tty):
                return v
            if tt["k"] == "adt":
                a = self.adt(tty)
                if a["kind"] == "struct":      # NonNull, Unique, ...
                    fs = tt["vf"][0]
                    return VAgg(tty, tuple(self.transmute(st, fr, v, fty, x) if self.T[x].get("size", 8) else VAgg(x, ()) for x in fs))
                if a["kind"] == "enum" and tt["def"].endswith("Option"):
                    return VEnum(tty, 1, (self.transmute(st, fr, v, fty, tt["vf"][1][0]),))
        if isinstance(v, VAgg) and v.ty is not None:
            nz = [x for x in v.fs if not (isinstance(x, VAgg) and not x.fs)]
            if len(nz) == 1:
                return self.transmute(st, fr, nz[0], fty, tty) if not self.is_ptrlike(tty) else (nz[0] if isinstance(nz[0], (VPtr, VFat)) else self.transmute(st, fr, nz[0], fty, tty))
        if isinstance(v, VVec) and self.is_vec(tty):
            return VVec(tty, v.o, v.n, v.cap)
        if isinstance(v, VOp) and ft["k"] == "adt" and self.is_ptrlike(tty):
            x = self.expand(v)
            if isinstance(x, VAgg) and len(x.fs) >= 1 and isinstance(x.fs[0], (VPtr, VFat)):
                return x.fs[0]
        if isinstance(v, VOp) and v.ty is not None and ft["k"] == "adt" and tt["k"] == "adt" and ft["def"] == tt["def"]:
            return VOp(v.s, tty)
        if isinstance(v, VInt) and self.irange(tty):
            m = self.irange(tty)
            st2, r = self.modn(st, v.l, 1 << m[2], m[3])
            return VInt(r)
        if isinstance(v, VInt) and tt["k"] == "bool":
            return VBool(f_not(f_eq(v.l)))
        if isinstance(v, (VPtr, VFat)) and tt["k"] == "uint" and tt.get("size") == 8 and not isinstance(v, VFat):
            # an address; that of an object is not zero
            return VInt(var(L.sym(("n", nm("addr", self.oname(v.o), v.p)), 1 if v.o[0] in ("L", "A", "C", "J", "static") else 0, (1 << 64) - 1)))
        if tt["k"] == "array" and isinstance(v, VInt) and self.T[tt["e"]]["s"] == "u8" and isinstance(tt["n"], int):
            # integer -> bytes (little endian target)
            return VArr(tt["e"], const(tt["n"]), tuple((i, VOp(nm("byte", st.norm(v.l), i, tt["n"]), tt["e"])) for i in range(tt["n"])), nm("bytes", "t"))
        if isinstance(v, VEnum) and tt["k"] in ("int", "uint"):
            return VInt(const(self.discr_of(v.ty, v.v)))
        return self.havoc(tty, "transmute %s -> %s" % (ft["s"], tt["s"]), fr)

    # ---------------------------------------------------------------- functions
    root_key = ""
    fails = None       # a list here collects (state, kind, detail, function, place) of every point where a run may fail

    def analyze(self, key, args=None, st=None, fid=None):
        """Analyse function `key` from a fully symbolic entry state; -> list of (state, return value)."""
        self.root_key = key
        fn = self.P.fns[key]
        st = st or State()
        if args is None:
            args = []
            for i in range(1, fn["argc"] + 1):
                ti, n = fn["locals"][i]
                args.append(self.mk(ti, nm("arg", key, n or "_%d" % i)))
        return self.run(key, args, st, None, nm("root", key))

    def run(self, key, args, st, parent, fid):
        fn = self.P.fns[key]
        depth = parent.depth + 1 if parent else 0
        fr = Frame(fid, key, fn, self.P.cfg(key), depth, parent)
        self.fidfn[fid] = fn
        if fn["local"]:
            self.inlined.add(key)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        back, exits, rets = self.region(fr, set(range(len(fn["blocks"]))), 0, [st], None)
        out = []
        live = []
        for s in rets:
            v = self.read(s, ("L", fid, 0), (), fn["locals"][0][0])
            s = s.copy()
            for o in [o for o in s.mem if o[0] == "L" and o[1] == fid]:
                del s.mem[o]
            out.append((s, v))
        if depth > 0 and len(out) > self.MAXD:
            out = self.merge_rets(out)
        return out

    def merge_rets(self, rets):
        ro = ("R", "ret")
        sts = []
        for s, v in rets:
            s = s.copy()
            s.mem[ro] = v
            sts.append(s)
        sts = self.merge(None, sts)
        out = []
        for s in sts:
            v = s.mem.pop(ro)
            out.append((s, v))
        return out

    def region(self, fr, blocks, entry, sts, head):
        pend = {entry: list(sts)}
        back, exits, rets = [], [], []
        cfg = fr.cfg
        for b in cfg.rpo:
            if b not in blocks or b not in pend:
                continue
            cur = pend.pop(b)
            if not cur:
                continue
            if b in cfg.loops and b != head:
                ex, rt = self.loop(fr, b, cur)
                rets += rt
                for tgt, s in ex:
                    if tgt == head:
                        back.append(s)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).append(s)
                    else:
                        exits.append((tgt, s))
                continue
            if b != entry or head is None:
                cur = self.prune(fr, b, cur)
                cur = self.merge(fr, cur)
            for s in cur:
                for tgt, s2 in self.block(fr, b, s):
                    if tgt == "ret":
                        rets.append(s2)
                    elif tgt == head:
                        back.append(s2)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).append(s2)
                    else:
                        exits.append((tgt, s2))
        return back, exits, rets

    def prune(self, fr, b, sts):
        live, addr = fr.cfg.liveness()
        lv = live[b]
        out = []
        for s in sts:
            dead = [o for o in s.mem if o[0] == "L" and o[1] == fr.fid and o[2] not in lv and o[2] not in addr]
            if dead:
                s = s.copy()
                for o in dead:
                    del s.mem[o]
            out.append(s)
        return out

    def key_of(self, fr, s):
        """Partition key: the finite control information (known variants and booleans) of the state."""
        out = []
        for o, v in s.mem.items():
            if o[0] in ("C",):
                continue
            self._keyv(s, o, v, (), out, 0)
        for k, v in s.ghost.items():
            if not isinstance(v, Lin):
                out.append(("g", k, v))
        return frozenset(out)

    def _keyv(self, s, o, v, p, out, d):
        if d > 4:
            return
        if isinstance(v, VBool):
            if v.f in (T, F):
                out.append((o, p, v.f))
            else:
                if s.holds(v.f):
                    out.append((o, p, T))
                elif s.holds(f_not(v.f)):
                    out.append((o, p, F))
        elif isinstance(v, VEnum):
            out.append((o, p, v.v))
            for i, x in enumerate(v.fs):
                self._keyv(s, o, x, p + (i,), out, d + 1)
        elif isinstance(v, (VPtr, VFat, VVec)):
            if v.o[0] not in ("A", "J"):
                out.append((o, p, v.o))
        elif isinstance(v, (VAgg, VClo, VIter)):
            for i, x in enumerate(v.fs if not isinstance(v, VIter) else v.a):
                self._keyv(s, o, x, p + (i,), out, d + 1)
        elif isinstance(v, VOp) and v.ty is not None and self.T[v.ty]["k"] == "adt" and self.adt(v.ty)["kind"] == "enum":
            c = s.const_of(var(self.discr_sym(v)))
            if c is not None:
                vi = self.variant_of_discr(v.ty, c)
                out.append((o, p, vi))

    def merge(self, fr, sts):
        if len(sts) <= 1:
            return sts
        # drop exact duplicates
        uniq = []
        for s in sts:
            if not any(self.same(s, t) for t in uniq):
                uniq.append(s)
        if len(uniq) <= self.MAXD:
            return uniq
        if EXACT or self.opts.get("exact"):
            self.cut = self.cut or len(uniq) > self.MAXD
            return uniq[:self.MAXD]
        groups = {}
        for s in uniq:
            groups.setdefault(self.key_of(fr, s), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = self.join(a, b)[0]
            out.append(a)
        if len(out) > 4 * self.MAXD:
            a = out[0]
            for b in out[1:]:
                a = self.join(a, b)[0]
            out = [a]
        return out

    def same(self, a, b):
        return a.mem == b.mem and a.les == b.les and a.sub == b.sub and a.nes == b.nes and a.ghost == b.ghost

    # ---------------------------------------------------------------- loops
    def loop(self, fr, h, sts):
        cfg = fr.cfg
        body = cfg.loops[h]
        sts = self.prune(fr, h, sts)
        if EXACT or self.opts.get("exact") or self.unrollable(fr, h):
            r = self.unroll(fr, h, body, sts)
            if r is not None:
                return r
        heads = {}     # key -> dict(state, phis, entry list)
        for s in sts:
            k = self.key_of(fr, s)
            if k in heads:
                heads[k]["st"] = self.join(heads[k]["st"], s)[0]
                heads[k]["entry"].append(s)
            else:
                heads[k] = dict(st=s, phis=set(), entry=[s], new=True, n=0, cands=set())
        self.quiet += 1
        saveg = self.guards
        try:
            for it in range(30):
                self.guards = set()
                allback = []
                for k, hd in list(heads.items()):
                    if not hd["new"]:
                        continue
                    hd["new"] = False
                    b, ex, rt = self.region(fr, body, h, [hd["st"]], h)
                    allback += b
                guards = self.guards
                changed = False
                for s in self.prune(fr, h, allback):
                    k = self.key_of(fr, s)
                    if k not in heads:
                        if len(heads) >= 14:
                            k = min(heads, key=lambda q: len(q ^ k))
                        else:
                            heads[k] = dict(st=s, phis=set(), entry=[], new=True, n=0, cands=set(), src=[s])
                            changed = True
                            continue
                    hd = heads[k]
                    hd.setdefault("src", []).append(s)
                    st2, ch = self.join(hd["st"], s, hd["phis"], widen=hd["n"] >= 2, guards=guards, entry=hd)
                    if ch:
                        hd["n"] += 1
                        hd["st"] = st2
                        hd["new"] = True
                        changed = True
                if not changed:
                    break
                # re-run every partition whose state changed; a changed partition invalidates the others' back edges only
                # through the new states it produces, which the next pass joins in
                if it >= 24:
                    for hd in heads.values():
                        if hd["new"]:
                            hd["st"] = self.forget(hd["st"], hd["phis"])
        finally:
            self.quiet -= 1
            self.guards = saveg
        exits, rets = [], []
        for hd in heads.values():
            self.loop_hook(fr, h, hd)
            b, ex, rt = self.region(fr, body, h, [hd["st"]], h)
            exits += ex
            rets += rt
        if saveg is not None:
            pass
        return exits, rets

    def unrollable(self, fr, h):
        """Loops whose counter shrinks geometrically (a shift or division in the body) or that run over a small
        constant range are unrolled when that terminates; everything else is widened."""
        c = fr.cfg.loops
        body = c[h]
        if self.opts.get("unroll") and not any(x in c for x in body if x != h):
            return True
        if not hasattr(fr.cfg, "_unr"):
            fr.cfg._unr = {}
        r = fr.cfg._unr.get(h)
        if r is None:
            r = False
            if not any(x in c for x in body if x != h):
                for b in body:
                    for x in fr.fn["blocks"][b]["s"]:
                        if x[0] == "=" and x[2][0] == "bin" and x[2][1] in ("Shr", "Div", "ShrUnchecked"):
                            r = True
            fr.cfg._unr[h] = r
        return r

    UNROLL = 14

    def unroll(self, fr, h, body, sts):
        exits, rets = [], []
        cur = self.merge(fr, sts)
        for it in range(self.opts.get("unroll") or (6 if (EXACT or self.opts.get("exact")) and not self.unrollable(fr, h) else self.UNROLL)):
            spin = self.opts.get("spin") and self.fails is not None
            if spin:
                at = ("at", fr.fid, h)
                old = [s.copy() for s in cur]
                for i, s in enumerate(old):
                    s.ghost[at] = i
                cur = old
            b, ex, rt = self.region(fr, body, h, cur, h)
            exits += ex
            rets += rt
            cur = self.merge(fr, self.prune(fr, h, b))
            if spin:
                # an iteration that changed nothing the next one could see goes on for ever
                for s in cur:
                    i = s.ghost.get(at)
                    if i is not None and s.mem == old[i].mem and s.ghost == old[i].ghost:
                        self.fails.append((s, "loop", "no progress", fr.fn["path"], "%s:%s" % (fr.fn["span"][0], fr.line)))
            if not cur:
                return exits, rets
        return (exits, rets) if EXACT or self.opts.get("exact") else None

    def loop_hook(self, fr, h, hd):
        pass

    def forget(self, st, phis):
        s = st.copy()
        s.les = frozenset(l for l in s.les if not (set(l.syms()) & phis))
        s.sub = {a: b for a, b in s.sub.items() if a not in phis and not (set(b.syms()) & phis)}
        return s

    # ---------------------------------------------------------------- join
    def join(self, A, B, phis=None, widen=False, guards=None, entry=None):
        """Upper bound of A and B.  With `phis` (loop head): B's values may mention the head's phis with their old
        meaning.  -> (state, changed relative to A)"""
        J = Joiner(self, A, B, phis, widen, guards)
        return J.run()

    # ---------------------------------------------------------------- blocks
    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.opts.get("maxsteps", 400000):
            raise Abort("step budget")
        L.tick()
        if not self.quiet:
            self.reached.add((fr.key, b))
        bl = fr.fn["blocks"][b]
        sts = [st]
        for x in bl["s"]:
            k = x[0]
            if k == "=":
                fr.line = x[3]
                nxt = []
                for s in sts:
                    nxt += self.assign(s, fr, x[1], x[2])
                sts = nxt
            elif k == "dead":
                for i, s in enumerate(sts):
                    o = ("L", fr.fid, x[1])
                    if o in s.mem:
                        s = s.copy()
                        del s.mem[o]
                        sts[i] = s
            elif k == "setd":
                nxt = []
                for s in sts:
                    s = s.copy()
                    o, p, ty, n = self.place(s, fr, x[1])
                    v = self.read(s, o, p, ty)
                    nf = len(self.T[ty]["vf"][x[2]])
                    self.write(s, o, p, VEnum(ty, x[2], tuple(UNINIT for _ in range(nf))))
                    nxt.append(s)
                sts = nxt
            elif k == "cno":
                nxt = []
                for s in sts:
                    nxt += [q for q, _ in self.M.copy_nonoverlapping(self, s, fr, [self.operand(s, fr, o) for o in x[1:4]], None)]
                sts = nxt
            elif k == "assume":
                nxt = []
                for s in sts:
                    v = self.operand(s, fr, x[1])
                    nxt += s.assume(v.f) if isinstance(v, VBool) else [s]
                sts = nxt
        out = []
        t = bl["t"]
        for s in sts:
            out += self.term(fr, b, s, t)
        return out

    def assign(self, st, fr, pl, rv):
        dty = self.plty(fr, pl)
        out = []
        for s, v in self.rvalue(st, fr, rv, dty):
            s = s.copy()
            o, p, ty, n = self.place(s, fr, pl)
            if self.monitor:
                self.monitor.store(self, s, fr, o, p, v, ty)
            self.write(s, o, p, v)
            out.append(s)
        return out

    def plty(self, fr, p):
        ty = fr.fn["locals"][p[0]][0]
        for e in p[1:]:
            if e == "*":
                ty = self.pointee(ty)
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.T[ty].get("e", ty)
        return ty

    def branch(self, st, f):
        if self.guards is not None:
            for l in self._lins(f):
                self.guards.add(l)
                self.guards.add(-l)
                self.guards.add(st.norm(l))
                self.guards.add(-st.norm(l))
        return self.mark(st, f, st.assume(f))

    def mark(self, st, f, out):
        """a path chosen by something the analysis lost may not exist: nothing on it counts as a violation"""
        if out and f[0] != "T" and not st.ghost.get("havoc") and any(sym_info(s)[0] for s in f_syms(f)) and not st.holds(f):
            out = [s.copy() for s in out]
            for s in out:
                s.ghost["havoc"] = True
        return out

    def term(self, fr, b, st, t):
        if isinstance(t, dict):
            return self.callterm(fr, b, st, t)
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            fr.line = t[5]
            v = self.operand(st, fr, t[1])
            out = []
            if isinstance(v, VBool):
                seen = []
                for c, tgt in t[2]:
                    f = v.f if c else f_not(v.f)
                    seen.append(c)
                    out += [(tgt, s) for s in self.branch(st, f)]
                rest = F
                if 0 not in seen:
                    rest = f_or(rest, f_not(v.f))
                if 1 not in seen:
                    rest = f_or(rest, v.f)
                out += [(t[3], s) for s in self.branch(st, rest)]
                return out
            l = self.as_lin(v)
            if l is None:
                tg = {x for _, x in t[2]} | {t[3]}
                st = st.copy()
                st.ghost["havoc"] = True
                return [(x, st) for x in sorted(tg)]
            rng = self.irange(t[4])
            other = [st]
            for c, tgt in t[2]:
                if rng and rng[3] and c > rng[1]:
                    c -= 1 << rng[2]
                out += [(tgt, s) for s in self.branch(st, f_eq(l - c))]
                other = [y for x in other for y in self.mark(x, f_not(f_eq(l - c)), x.assume(f_not(f_eq(l - c))))]
            out += [(t[3], s) for s in other]
            return out
        if k == "assert":
            fr.line = t[7]
            v = self.operand(st, fr, t[1])
            f = v.f if isinstance(v, VBool) else None
            if f is None:
                return [(t[4], st)]
            if not t[2]:
                f = f_not(f)
            if self.guards is not None:
                for l in self._lins(f):
                    self.guards.add(l)
            return [(t[4], s) for s in self.require(st, "assert", f, fr, t[3], t[7])]
        if k == "drop":
            fr.line = t[6]
            if t[5]:
                return [(t[2], s) for s in self.drop(fr, b, st, t[1], t[4])]
            return [(t[2], st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "asm":
            return [(x, st) for x in t[1]]
        return []

    def drop(self, fr, b, st, pl, ty):
        st = st.copy()
        o, p, t2, n = self.place(st, fr, pl)
        v = self.read(st, o, p, ty)
        outs = self.M.drop_value(self, st, fr, b, v, ty, (o, p))
        return outs

    # ---------------------------------------------------------------- calls
    def callterm(self, fr, b, st, t):
        c = t["call"]
        fr.line = t["ln"]
        args = [self.operand(st, fr, a) for a in t["a"]]
        res = self.call(fr, b, st, c, args, t["at"], t["dt"])
        out = []
        if t["t"] is None:
            return out
        for s, v in res:
            s = s.copy()
            o, p, ty, n = self.place(s, fr, t["d"])
            if v is None:
                v = VAgg(t["dt"], ())
            if isinstance(v, VOp) and v.ty is None:
                v = self.mk(t["dt"], v.s)
            if self.monitor:
                self.monitor.store(self, s, fr, o, p, v, ty)
            self.write(s, o, p, v)
            out.append((t["t"], s))
        return out

    def model_for(self, names):
        key = tuple(names)
        if key in self._mcache:
            return self._mcache[key]
        m = None
        for tab in (self.extra, self.models):
            for n in names:
                if n is None:
                    continue
                m = tab.get(n)
                if m is None:
                    for rx, fn in tab.items():
                        if rx.startswith("re:") and re.search(rx[3:], n):
                            m = fn
                            break
                if m is not None:
                    break
            if m is not None:
                break
        self._mcache[key] = m
        return m

    def call(self, fr, b, st, c, args, atys, dty):
        if "ptr" in c:
            f = self.operand(st, fr, c["ptr"])
            return self.call_value(fr, b, st, f, args, atys, dty)
        names = (c.get("key"), c.get("rpath"), c.get("path"), c.get("virtual"))
        if c.get("key") in self.P.fns and c.get("key") == c.get("rpath") and c.get("key") != c.get("path") and self.P.fns[c["key"]]["local"]:
            names = names[:2]         # the repository's own implementation of a library trait, not what the trait means in general
        ci = dict(c)
        ci["dty"] = dty
        ci["atys"] = atys
        ci["bb"] = b
        m = self.model_for(names)
        if m is not None:
            r = m(self, st, fr, args, ci)
            if r is not None:
                return r
        if self.monitor:
            r = self.monitor.call(self, st, fr, c, args, ci)
            if r is not None:
                return r
        # diverging
        if dty is not None and self.T[dty]["k"] == "never":
            self.panic(st, fr, (c.get("rpath") or c.get("path") or "?").split("::")[-1])
            return []
        if c.get("method") in ("call", "call_mut", "call_once") and c.get("trait", "").startswith(("std::ops::Fn", "core::ops::Fn")):
            tup = args[1]
            fs = list(tup.fs) if isinstance(tup, VAgg) else [tup]
            return self.call_value(fr, b, st, args[0], fs, None, dty)
        key = c.get("key")
        if key in self.P.fns:
            d = 0
            f2 = fr
            while f2 is not None:
                if f2.key == key:
                    d += 1
                f2 = f2.parent
            if d < 2 and fr.depth < self.opts["depth"]:
                return self.invoke(fr, b, st, key, args)
        return self.unknown(fr, st, c, args, atys, dty)

    def invoke(self, fr, b, st, key, args):
        line = fr.line
        fid = nm("fr", fr.fid, b, key)
        out = []
        for s, v in self.run(key, args, st, fr, fid):
            out.append((s, v))
        fr.line = line
        return out

    def call_value(self, fr, b, st, f, args, atys, dty):
        """Call a closure / fn item / fn pointer value."""
        byref = None
        while isinstance(f, VPtr):
            byref = f
            f = self.read(st, f.o, f.p)
        if isinstance(f, VFn):
            c = _thaw(f.f)
            return self.call(fr, b, st, c, args, atys or [], dty)
        if isinstance(f, VClo):
            key = f.key
            if key not in self.P.fns:
                cand = [k for k in self.P.fns if k == key or k.startswith(key + "<[")]
                key = cand[0] if cand else None
            if key is not None:
                fn = self.P.fns[key]
                st = st.copy()
                t1 = self.T[fn["locals"][1][0]]
                if t1["k"] in ("ref", "ptr"):
                    if byref is None:
                        o = ("L", fr.fid, "clo%d" % b)
                        st.mem[o] = f
                        byref = VPtr(o, ())
                    self_arg = byref
                else:
                    self_arg = f
                return self.invoke(fr, b, st, key, [self_arg] + list(args))
        st = st.copy()
        for a in args:
            self.clobber(st, a)
        return [(st, self.havoc(dty, "indirect call", fr))]

    def clobber(self, st, v, seen=None):
        """Forget what `v` gives mutable access to."""
        if isinstance(v, (VPtr, VFat)) and v.o[0] not in ("C",):
            base = self.obj(st, v.o)
            if isinstance(base, VArr):
                st.mem[v.o] = VArr(base.ety, base.n, (), fresh_name("havoc"))
            elif v.p == () and isinstance(base, (VOp, VAgg, VEnum)) and base.ty is not None:
                st.mem[v.o] = VOp(fresh_name("havoc"), base.ty)
            else:
                cur = self.read(st, v.o, v.p)
                if isinstance(cur, VArr):
                    self.write(st, v.o, v.p, VArr(cur.ety, cur.n, (), fresh_name("havoc")))
                elif isinstance(cur, (VOp, VAgg, VEnum)) and cur.ty is not None:
                    self.write(st, v.o, v.p, VOp(fresh_name("havoc"), cur.ty))
                elif isinstance(cur, VInt):
                    self.write(st, v.o, v.p, VInt(var(L.fresh("havoc", None, None))))
                elif isinstance(cur, VVec):
                    self.write(st, v.o, v.p, self.mk(cur.ty, fresh_name("havoc")))
                elif isinstance(cur, (VPtr, VFat)):
                    st.ghost["havoc"] = True

    def unknown(self, fr, st, c, args, atys, dty):
        st = st.copy()
        ext = bool(c.get("virtual") or c.get("unresolved"))
        for a, ti in zip(args, atys):
            t = self.T[ti]
            if (t["k"] in ("ref", "ptr") and t["m"]):
                self.clobber(st, a)
        if ext:
            # a call through a trait object or type parameter: any value of the declared type
            pure = all(not (self.T[ti]["k"] in ("ref", "ptr") and self.T[ti]["m"]) for ti in atys)
            n = nm("ext", c.get("path"), tuple(self.vkey(st, a) for a in args)) if pure else fresh_name("ext")
            return [(st, self.mk(dty, n))]
        return [(st, self.havoc(dty, "call " + (c.get("rpath") or c.get("path") or "?"), fr))]


def _freeze(x):
    if isinstance(x, dict):
        return ("D",) + tuple((k, _freeze(v)) for k, v in x.items())
    if isinstance(x, list):
        return ("L",) + tuple(_freeze(v) for v in x)
    return x


def _thaw(x):
    if isinstance(x, tuple) and x and x[0] == "D":
        return {k: _thaw(v) for k, v in x[1:]}
    if isinstance(x, tuple) and x and x[0] == "L":
        return [_thaw(v) for v in x[1:]]
    return x


class Joiner:
    def __init__(self, E, A, B, phis, widen, guards):
        self.E, self.A, self.B = E, A, B
        self.head = phis
        self.phis = phis if phis is not None else set()
        self.widen = widen
        self.guards = guards
        self.memo = {}
        self.sa, self.sb = {}, {}
        self.ren = {}            # B object -> A object
        self.C = State()
        self.changed = False
        self.work = []
        self.used = set()

    def stale(self, l):
        """does the expression mention (directly or through derived names) a phi of this head?"""
        if not self.head:
            return False
        for s, _ in l.t:
            if sym_info(s)[1] & self.phis:
                return True
        return False

    def stale_name(self, n):
        return bool(self.head) and bool(_NMD[n] & self.phis)

    def phi(self, la, lb, rng=None):
        k = (la, lb)
        if k in self.memo:
            s = self.memo[k]
            if rng is not None and L.LO[s] is None and L.HI[s] is None:
                L.LO[s], L.HI[s] = rng[0], rng[1]
            return s
        # A's value is already a phi of this head: reuse it
        if self.head and len(la.t) == 1 and la.c == 0 and la.t[0][1] == 1 and la.t[0][0] in self.phis and la.t[0][0] not in self.sa:
            s = la.t[0][0]
        else:
            lo = hi = None
            if la.is_const() and lb.is_const():
                pass
            s = L.fresh("phi", *(rng[:2] if rng is not None else (None, None)))
            self.changed = True
        self.sa[s] = la
        self.sb[s] = lb
        self.memo[k] = s
        return s

    def jint(self, la, lb, ti=None):
        A, B = self.A, self.B
        if la == lb and not self.stale(la):
            return la
        na, nb = A.norm(la), B.norm(lb)
        if na == nb and not self.stale(na):
            return na
        if la.is_const() and nb.is_const() and la == nb:
            return la
        return var(self.phi(la, lb, self.E.irange(ti) if ti is not None else None))

    def jv(self, a, b, ti=None):
        E = self.E
        if isinstance(a, VInt) and isinstance(b, VInt):
            return VInt(self.jint(a.l, b.l, ti))
        if isinstance(a, VBool) and isinstance(b, VBool):
            if a.f == b.f and not any(self.stale(l) for l in E._lins(a.f)):
                return a
            ta = T if self.A.holds(a.f) else (F if self.A.holds(f_not(a.f)) else None)
            tb = T if self.B.holds(b.f) else (F if self.B.holds(f_not(b.f)) else None)
            if ta is not None and ta == tb:
                return VBool(ta)
            la = E.as_lin(VBool(ta) if ta else a)
            lb = E.as_lin(VBool(tb) if tb else b)
            if la is not None and lb is not None:
                s = self.phi(la, lb)
                if L.LO[s] is None:
                    L.LO[s], L.HI[s] = 0, 1
                return VBool(("le", -var(s) + 1))
            k = ("b", a, b)
            if k not in self.memo:
                self.memo[k] = L.sym(("n", fresh_phi_name()), 0, 1)
                self.changed = True
            return VBool(("le", -var(self.memo[k]) + 1))
        if type(a) is type(b):
            if isinstance(a, VOp):
                if a == b and not self.stale_name(a.s):
                    return a
                return self.opphi(a, b, a.ty)
            if isinstance(a, VAgg) and len(a.fs) == len(b.fs):
                return VAgg(a.ty, tuple(self.jv(x, y, t) for x, y, t in zip(a.fs, b.fs, E.ftypes(a.ty, 0, len(a.fs)))))
            if isinstance(a, VEnum):
                if a.v == b.v:
                    return VEnum(a.ty, a.v, tuple(self.jv(x, y, t) for x, y, t in zip(a.fs, b.fs, E.ftypes(a.ty, a.v, len(a.fs)))))
                return self.opphi(a, b, a.ty)
            if isinstance(a, VClo) and a.key == b.key:
                return VClo(a.key, tuple(self.jv(x, y) for x, y in zip(a.fs, b.fs)))
            if isinstance(a, VIter) and a.k == b.k and len(a.a) == len(b.a):
                return VIter(a.k, tuple(self.jv(x, y, E.usz) for x, y in zip(a.a, b.a)))
            if isinstance(a, VFn) and a == b:
                return a
            if isinstance(a, (VPtr, VFat)):
                o = self.jobj(a.o, b.o)
                if o is not None and len(a.p) == len(b.p):
                    p = []
                    for x, y in zip(a.p, b.p):
                        if x[0] == "i" and y[0] == "i":
                            p.append(("i", self.jint(x[1], y[1], E.isz)))
                        elif x == y:
                            p.append(x)
                        else:
                            return self.opphi(a, b, None)
                    if isinstance(a, VPtr):
                        return VPtr(o, tuple(p))
                    return VFat(o, tuple(p), self.jint(a.n, b.n, E.usz))
                return self.opphi(a, b, None)
            if isinstance(a, VVec):
                o = self.jobj(a.o, b.o)
                if o is not None:
                    return VVec(a.ty, o, self.jint(a.n, b.n, E.usz), self.jint(a.cap, b.cap, E.usz))
                return self.opphi(a, b, a.ty)
            if isinstance(a, VArr):
                n = self.jint(a.n, b.n, E.usz)
                if a.base == b.base and not self.stale_name(a.base) and [i for i, _ in a.els] == [i for i, _ in b.els]:
                    return VArr(a.ety, n, tuple((i, self.jv(x, y, a.ety)) for (i, x), (_, y) in zip(a.els, b.els)), a.base)
                ai, bi = dict(a.els), dict(b.els)
                cn = n.c if n.is_const() else None
                if cn is not None and cn <= 64 and len(ai) == cn and len(bi) == cn:
                    return VArr(a.ety, n, tuple((i, self.jv(ai[i], bi[i], a.ety)) for i in range(cn)), a.base)
                k = ("arr", a, b)
                if k not in self.memo:
                    if a.base in PHINAMES and not a.els and self.head and self.stale_name(a.base):
                        self.memo[k] = a.base
                    else:
                        self.memo[k] = self.newname()
                return VArr(a.ety, n, (), self.memo[k])
            if isinstance(a, VUninit):
                return a
        # different kinds: try expansion
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, VOp) and isinstance(y, VAgg) and x.ty is not None:
                e = E.expand(x)
                if e is not None and len(e.fs) == len(y.fs):
                    return self.jv(y, e) if sw else self.jv(e, y)
            if isinstance(x, VOp) and isinstance(y, VEnum) and x.ty is not None:
                st = self.B if sw else self.A
                c = st.const_of(var(E.discr_sym(x))) if E.T[x.ty]["k"] == "adt" and E.adt(x.ty)["kind"] == "enum" else None
                if c is not None and E.variant_of_discr(x.ty, c) == y.v:
                    e = E.expand(x, y.v)
                    return self.jv(y, e) if sw else self.jv(e, y)
        ty = getattr(a, "ty", None) if not isinstance(a, VUninit) else getattr(b, "ty", None)
        return self.opphi(a, b, ty)

    def newname(self):
        self.changed = True
        n = fresh_phi_name()
        if self.head is not None:
            self.head |= _NMD[n]
        return n

    def opphi(self, a, b, ty):
        k = ("op", a, b)
        if k in self.memo:
            return VOp(self.memo[k], ty)
        if isinstance(a, VOp) and a.s in PHINAMES and self.head and (_NMD[a.s] & self.phis) and a.s not in self.used:
            self.used.add(a.s)
            self.memo[k] = a.s
            return VOp(a.s, ty if ty is not None else a.ty)
        self.memo[k] = self.newname()
        return VOp(self.memo[k], ty)

    def jobj(self, oa, ob):
        if oa == ob:
            if oa not in self.done and oa not in self.work:
                self.work.append(oa)
            return oa
        if ob in self.ren:
            return oa if self.ren[ob] == oa else None
        if oa in self.ren.values():
            return None
        if oa[0] in ("A", "J") and ob[0] in ("A", "J") and ob not in self.A.mem and oa not in self.B.mem:
            self.ren[ob] = oa
            self.work.append(oa)
            return oa
        return None

    def run(self):
        A, B, E = self.A, self.B, self.E
        C = self.C
        self.done = set()
        common = [o for o in A.mem if o in B.mem]
        inv = {}
        for o in common:
            if o[0] in ("A", "J"):
                continue
            self.done.add(o)
            a, b = A.mem[o], B.mem[o]
            C.mem[o] = self.jv(a, b, E.obj_type(o))
        for src, oth in ((A, B), (B, A)):
            for o in src.mem:
                if o in self.done or o in C.mem or o in oth.mem:
                    continue
                if o[0] in ("A", "J", "L", "R", "T"):
                    continue
                d = E.default(o) if E.objty.get(o, ("x",))[0] != "const" else E.objty[o][1]
                if d is None:
                    continue
                self.done.add(o)
                a, b = (src.mem[o], d) if src is A else (d, src.mem[o])
                C.mem[o] = self.jv(a, b, E.obj_type(o))
        # ghosts
        for k in A.ghost:
            if k in B.ghost:
                a, b = A.ghost[k], B.ghost[k]
                if isinstance(a, Lin) and isinstance(b, Lin):
                    C.ghost[k] = self.jint(a, b)
                elif a == b:
                    C.ghost[k] = a
                else:
                    C.ghost[k] = "TOP"
                    if a != "TOP":
                        self.changed = True
            else:
                C.ghost[k] = "TOP"
                self.changed = True
        for k in B.ghost:
            if k not in A.ghost:
                C.ghost[k] = "TOP"
                self.changed = True
        while self.work:
            oa = self.work.pop()
            if oa in self.done:
                continue
            self.done.add(oa)
            ob = next((x for x, y in self.ren.items() if y == oa), oa)
            a, b = E.obj(A, oa), E.obj(B, ob)
            if a is None or b is None:
                continue
            if oa in A.mem or ob in B.mem:
                C.mem[oa] = self.jv(a, b, E.obj_type(oa))
        C.facts = A.facts & B.facts
        if C.facts != A.facts:
            self.changed = True
        self.numeric()
        if self.head is not None:
            self.head |= set(self.sa)
        return self.C, self.changed

    # -- numeric part
    def numeric(self):
        A, B, C = self.A, self.B, self.C
        sa, sb = self.sa, self.sb
        phis = set(sa)
        head_old = self.phis if self.head else set()

        def ok_sym(s):
            if s in phis:
                return True
            return not (sym_info(s)[1] & head_old)
        eqA = [var(s) - e for s, e in A.sub.items()]
        eqB = [var(s) - e for s, e in B.sub.items()]
        cands = []      # inequality candidates over phis and stable symbols
        eqc = []
        # equalities: affine hull
        EA = [x for x in eqA] + [self._tmp(s) - A.norm(e) for s, e in sa.items()]
        EB = [x for x in eqB] + [self._tmp(s) - B.norm(e) for s, e in sb.items()]
        EAp = self._proj_eq(EA, head_old)
        EBp = self._proj_eq(EB, head_old)
        untmp = {self._tmp(s).t[0][0]: var(s) for s in phis}
        hull = [l.subst(untmp) for l in L.affine_hull(EAp, EBp)]
        for l in hull:
            if all(ok_sym(s) for s in l.syms()):
                eqc.append(l)
        # inequalities of A (phis kept, other unstable symbols projected away)
        cands += self._ineqs(A, sa, head_old, untmp)
        if not self.widen:
            cands += self._ineqs(B, sb, head_old, untmp)
        if self.guards:
            inv = {}
            for s, e in sa.items():
                pass
            for g in self.guards:
                for d in sorted({0, -1, 1, -g.c}, key=abs):
                    c = g + d
                    if c.t and all(ok_sym(s) for s in c.syms()):
                        cands.append(c)
            # a counter that starts at a constant: compare it with the quantities the loop tests
            gs = {x for g in self.guards for x, k in g.t if x not in phis and ok_sym(x) and abs(k) == 1}
            if len(gs) <= 8:
                for s, e in sa.items():
                    if e.is_const():
                        for x in gs:
                            cands.append(var(s) - var(x))
                        for g in sorted(self.guards, key=lambda g: len(g.t))[:16]:
                            if 2 <= len(g.t) <= 3 and all(ok_sym(x) for x in g.syms()) and s not in g.syms():
                                cands.append(g - g.c + (var(s) - e))
        # old equalities of A over phis (loop head re-join)
        if self.head:
            for l in eqA:
                if all(ok_sym(s) for s in l.syms()):
                    eqc.append(l)
        seen = set()
        st = State()
        st.mem, st.ghost, st.facts = C.mem, C.ghost, C.facts

        def eqholds(l):
            return A.holds(("eq", l.subst(sa))) and B.holds(("eq", l.subst(sb)))
        for l in eqc:
            if eqholds(l):
                s2 = st.add_eq(l)
                if s2 is not None:
                    st = s2
        for l in cands:
            l = L.norm_le(l)
            if l in seen or l.is_const():
                continue
            seen.add(l)
            la, lb = A.norm(l.subst(sa)), B.norm(l.subst(sb))
            ha, hb = A.holds_le(la), B.holds_le(lb)
            if ha != hb and not self.widen and len(l.t) <= 2:
                # weaken the row until the other side satisfies it too
                S, x = (B, lb) if ha else (A, la)
                if x.is_const():
                    l, ha, hb = l - x.c, True, True
                elif self.head is None:
                    for d in (1, 4, 8):
                        if S.holds_le(x - d):
                            l, ha, hb = l - d, True, True
                            break
            if ha and hb:
                s2 = st.add_le(l)
                if s2 is not None:
                    st = s2
        nes = set()
        for l in A.nes:
            if all(ok_sym(s) for s in l.syms()) and B.holds(("ne", l.subst(sb))):
                nes.add(l)
        st = st.copy()
        st.nes = frozenset(nes)
        # did A lose anything?
        if self.head is not None and not self.changed:
            for l in A.les:
                if not st.holds_le(l):
                    self.changed = True
                    break
            if not self.changed:
                for l in eqA:
                    if not st.holds(("eq", l)):
                        if any(not ok_sym(s) for s in l.syms()):
                            continue
                        self.changed = True
                        break
            if not self.changed:
                # a stronger state is fine only the first times (guard-derived candidates)
                for l in st.les:
                    if not A.holds_le(l):
                        self.changed = True
                        break
        self.C = st
        return

    _tmpc = {}

    def _tmp(self, s):
        t = L.sym(("#", "tmp", s), None, None)
        return var(t)

    def _bad(self, s, head_old):
        return bool(sym_info(s)[1] & head_old)

    def _proj_eq(self, E, head_old):
        """Gaussian-eliminate the unstable symbols from an equality list."""
        rows = list(E)
        out = []
        bad = {s for l in rows for s in l.syms() if self._bad(s, head_old)}
        for b in bad:
            piv = None
            for i, l in enumerate(rows):
                k = dict(l.t).get(b)
                if k is not None and (piv is None or abs(k) == 1):
                    piv = i
                    if abs(k) == 1:
                        break
            if piv is None:
                continue
            l = rows.pop(piv)
            k = dict(l.t)[b]
            new = []
            for r in rows:
                kr = dict(r.t).get(b, 0)
                if kr:
                    r = r.mul(k) - l.mul(kr) if k > 0 else l.mul(kr) - r.mul(k)
                new.append(r)
            rows = [r for r in new if r.t]
        return rows

    def _ineqs(self, S, sub, head_old, untmp):
        rows = list(S.les)
        for s, e in S.sub.items():
            if True:
                pass
        eqs = [(self._tmp(s), S.norm(e)) for s, e in sub.items()]
        syms = {s for l in rows for s in l.syms()}
        for t, e in eqs:
            syms |= set(e.syms())
        allrows = rows + L.bounds_rows(syms)
        for t, e in eqs:
            allrows += [t - e, e - t]
        drop = {s for s in syms if self._bad(s, head_old)}
        # symbols private to S that no cell of the join mentions may go too: keep the rest
        # make phi-versions: substitute away symbols defined by a phi
        out = []
        res = L.eliminate(allrows, drop)
        for l in res:
            out.append(l.subst(untmp))
        # additionally: rewrite rows with stable symbols that equal a phi
        for t, e in eqs:
            if len(e.t) == 1 and abs(e.t[0][1]) == 1 and e.t[0][0] not in drop:
                s, k = e.t[0]
                # t = k s + c  ->  s = k (t - c)
                r = (t - e.c).mul(k)
                for l in res:
                    if s in l.syms():
                        out.append(l.subst({s: r}).subst(untmp))
            if e.is_const():
                out.append((t - e.c).subst(untmp))
                out.append((t.mul(-1) + e.c).subst(untmp))
        # constant-bound templates
        return out
