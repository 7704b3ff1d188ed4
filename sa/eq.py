"""Helpers for checks that put questions to the abstract interpreter."""
from . import ai
from .dom import *
from . import lin as L
from .lin import Lin, const, var


class Unknown(Exception):
    pass


def engine(P, monitor=None, models=None, **opts):
    o = dict(maxsteps=60000)
    o.update(opts)
    E = ai.Engine(P, models=models, opts=o)
    if monitor is not None:
        E.monitor = monitor
    return E


def ty_of_arg(P, key, i):
    """type index of the i-th argument (0-based)"""
    return P.fns[key]["locals"][i + 1][0]


def adt_ti(P, path):
    """type index of the (non-generic or first) instance of an ADT"""
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t["def"].endswith(path):
            return i
    return None


def variant(P, ti, name):
    a = P.adts[P.types[ti]["def"]]
    for i, v in enumerate(a["variants"]):
        if v["name"] == name:
            return i
    return None


def enum_val(E, ti, vi, tag="e"):
    t = E.T[ti]
    return VEnum(ti, vi, tuple(E.mk(x, ai.nm("given", tag, vi, i)) for i, x in enumerate(t["vf"][vi])))


def ref_to(E, st, ti, v, tag="given"):
    """a reference to an object holding v; -> (state, VPtr)"""
    o = ("deref", ai.nm("given", tag))
    E.objty[o] = ("val", ti)
    st = st.copy()
    st.mem[o] = v
    return st, VPtr(o, ())


def arg_value(E, st, P, key, i, v, tag="given"):
    """v passed as argument i, behind a reference when the parameter is one"""
    ti = ty_of_arg(P, key, i)
    t = P.types[ti]
    if t["k"] in ("ref", "ptr"):
        return ref_to(E, st, t["e"], v, tag)
    return st, v


def const_of(st, v):
    """the constant an abstract integer or boolean is, else None"""
    if isinstance(v, VInt):
        l = st.norm(v.l)
        return l.c if l.is_const() else None
    if isinstance(v, VBool):
        if st.holds(v.f):
            return 1
        if st.holds(f_not(v.f)):
            return 0
    return None


def vname(P, v):
    """variant name of an abstract enum value, or None"""
    if isinstance(v, VEnum):
        return P.adts[P.types[v.ty]["def"]]["variants"][v.v]["name"]
    return None


def field(E, st, v, i, name=None):
    """i-th field of an abstract struct / enum value"""
    if isinstance(v, VOp):
        v = E.expand(v)
    if isinstance(v, (VAgg, VEnum)) and i < len(v.fs):
        return v.fs[i]
    return None


def fidx(P, path, fname, vi=0):
    a = P.adts[path]
    for i, f in enumerate(a["variants"][vi]["fields"]):
        if f["name"] == fname:
            return i
    return None
