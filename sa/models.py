"""Transfer functions for the std/core/alloc operations that are not analysed from their MIR: containers, slices' raw
accesses, allocation, locks, I/O traits, formatting.  Each takes (engine, state, frame, argument values, call info) and
returns a list of (state, value), or None to decline."""
import re
from . import lin as L
from .lin import Lin, const, var
from .dom import *
from . import ai as A

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def unit(E, ci):
    return VAgg(ci["dty"], ())


def fresh_obj(tag="A"):
    return (tag, A.fresh_name("alloc"))


def getv(E, st, a, ty=None):
    """The value behind a (possibly doubly) referenced argument."""
    n = 0
    while isinstance(a, VPtr) and n < 3:
        if ty is not None and n == 0:
            v = E.read(st, a.o, a.p, ty)
        else:
            v = E.read(st, a.o, a.p)
        if not isinstance(v, VPtr):
            return a, v
        a = v
        n += 1
    return None, a


def vec_of(E, st, a, ti=None):
    """-> (pointer to the vec, VVec) for an argument of type &Vec<T> / &mut Vec<T> / &String."""
    p, v = getv(E, st, a)
    if isinstance(v, VVec):
        return p, v
    if isinstance(v, VOp):
        t = v.ty
        if t is None and ti is not None:
            t = E.pointee(ti)
        if t is not None and E.T[t]["k"] == "adt" and E.is_vec(t):
            return p, E.mk(t, v.s)
    return p, None


def arr_of(E, st, o):
    v = E.obj(st, o)
    return v if isinstance(v, VArr) else None


def fat(E, st, a, ti=None):
    """&[T] / &str argument as VFat."""
    n = 0
    while isinstance(a, VPtr) and n < 3:
        v = E.read(st, a.o, a.p)
        if isinstance(v, VArr):
            return VFat(a.o, a.p + (("i", const(0)),), v.n)
        if isinstance(v, VVec):
            return VFat(v.o, (("i", const(0)),), v.n)
        a = v
        n += 1
    if isinstance(a, VFat):
        return a
    if isinstance(a, VVec):
        return VFat(a.o, (("i", const(0)),), a.n)
    if isinstance(a, VOp):
        t = a.ty if a.ty is not None else ti
        if t is not None and E.is_ptrlike(t):
            v = E.mk(t, a.s)
            if isinstance(v, VFat):
                return v
    return None


def ok(E, ci, v):
    return VEnum(ci["dty"], 0, (v,))


def err(E, ci, v=None):
    ti = ci["dty"]
    et = E.T[ti]["vf"][1][0]
    return VEnum(ti, 1, (v if v is not None else E.mk(et, A.fresh_name("err")),))


def okty(E, ti):
    return E.T[ti]["vf"][0][0]


# ------------------------------------------------------------------ slices / str
@model("core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def m_len(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    return None if f is None else [(st, VInt(f.n))]


@model("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def m_empty(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    return None if f is None else [(st, VBool(f_eq(f.n)))]


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "core::str::<impl str>::as_ptr")
def m_asptr(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    return None if f is None else [(st, VPtr(f.o, f.p))]


@model("core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::as_str",
       "<std::string::String as std::convert::AsRef<str>>::as_ref", "<std::string::String as std::ops::Deref>::deref",
       "std::string::String::as_mut_str", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
       "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<str as std::convert::AsRef<str>>::as_ref",
       "<[T] as std::convert::AsRef<[T]>>::as_ref", "<str as std::convert::AsRef<[u8]>>::as_ref",
       "<std::string::String as std::convert::AsRef<[u8]>>::as_ref", "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut",
       "std::array::<impl std::convert::AsMut<[T]> for [T; N]>::as_mut", "std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref",
       "std::array::<impl [T; N]>::as_slice", "std::array::<impl [T; N]>::as_mut_slice", "std::str::from_utf8_unchecked",
       "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow", "core::array::<impl [T; N]>::as_slice")
def m_asslice(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    return None if f is None else [(st, f)]


@model("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow")
def m_asref(E, st, fr, a, ci):
    """Unresolved AsRef<[u8]>/AsRef<str>: the same slice for the same receiver (assumption: AsRef is deterministic)."""
    ti = ci["dty"]
    f = fat(E, st, a[0], None)
    if f is not None and E.pointee(ti) is not None and E.T[E.pointee(ti)]["k"] in ("slice", "str"):
        return [(st, f)]
    p, v = getv(E, st, a[0])
    return [(st, E.mk(ti, A.nm("as_ref", E.vkey(st, v))))]


def bounds(E, st, fr, f, detail, kind="bounds"):
    return E.require(st, kind, f, fr, detail)


def sub(E, st, fr, f, lo, hi, detail, kind="bounds"):
    out = []
    for s in bounds(E, st, fr, f_and(f_le(-lo), f_and(f_le(lo - hi), f_le(hi - f.n))), detail, kind):
        out.append((s, VFat(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + lo)),), s.norm(hi - lo))))
    return out


def range_of(E, st, r, n):
    """lower and upper bound of a range value; None if not a range"""
    if isinstance(r, VOp) and r.ty is not None:
        r = E.expand(r) or r
    if not isinstance(r, VAgg) or r.ty is None:
        return None
    d = E.T[r.ty].get("def", "")
    b = [E.as_lin(x) for x in r.fs]
    if d.endswith("ops::Range"):
        return b[0], b[1]
    if d.endswith("ops::RangeFrom"):
        return b[0], n
    if d.endswith("ops::RangeTo"):
        return const(0), b[0]
    if d.endswith("ops::RangeFull"):
        return const(0), n
    if d.endswith("ops::RangeToInclusive"):
        return const(0), b[0] + 1
    if d.endswith("ops::RangeInclusive") and len(b) >= 2:
        return b[0], b[1] + 1
    return None


def m_index(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    if f is None:
        return None
    i = a[1]
    l = E.as_lin(i)
    if l is not None:
        return [(s, VPtr(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + l)),)))
                for s in bounds(E, st, fr, f_and(f_le(-l), f_le(l - f.n + 1)), "index", "oob" if ci.get("unchecked") else "bounds")]
    r = range_of(E, st, i, f.n)
    if r is None or r[0] is None or r[1] is None:
        return None
    return sub(E, st, fr, f, r[0], r[1], "slice range", "oob" if ci.get("unchecked") else "bounds")


for n in ("core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
          "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
          "std::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut",
          "std::string::<impl std::ops::Index<I> for std::string::String>::index", "<std::string::String as std::ops::Index<I>>::index",
          "core::str::traits::<impl std::ops::Index<I> for str>::index"):
    MODELS[n] = m_index


@model("re:SliceIndex<\\[T\\]>>::index$", "re:SliceIndex<\\[T\\]>>::index_mut$")
def m_sliceindex(E, st, fr, a, ci):
    return m_index(E, st, fr, [a[1], a[0]], dict(ci, atys=ci["atys"][::-1]))


@model("re:SliceIndex<\\[T\\]>>::get_unchecked(_mut)?$")
def m_sliceindex_u(E, st, fr, a, ci):
    return m_index(E, st, fr, [a[1], a[0]], dict(ci, atys=ci["atys"][::-1], unchecked=True))


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_getun(E, st, fr, a, ci):
    return m_index(E, st, fr, a, dict(ci, unchecked=True))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    if f is None:
        return None
    l = E.as_lin(a[1])
    out = []
    if l is not None:
        c = f_and(f_le(-l), f_le(l - f.n + 1))
        mkv = lambda s: VPtr(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + l)),))
    else:
        r = range_of(E, st, a[1], f.n)
        if r is None or r[0] is None or r[1] is None:
            return None
        lo, hi = r
        c = f_and(f_le(-lo), f_and(f_le(lo - hi), f_le(hi - f.n)))
        mkv = lambda s: VFat(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + lo)),), s.norm(hi - lo))
    for s in E.branch(st, c):
        out.append((s, VEnum(ci["dty"], 1, (mkv(s),))))
    for s in E.branch(st, f_not(c)):
        out.append((s, VEnum(ci["dty"], 0, ())))
    return out


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut")
def m_first(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    if f is None:
        return None
    k = const(0) if "first" in (ci.get("rpath") or ci.get("path")) else f.n - 1
    out = []
    for s in E.branch(st, f_le(-f.n + 1)):
        out.append((s, VEnum(ci["dty"], 1, (VPtr(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + k)),)),))))
    for s in E.branch(st, f_eq(f.n)):
        out.append((s, VEnum(ci["dty"], 0, ())))
    return out


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def m_split(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    l = E.as_lin(a[1])
    if f is None or l is None:
        return None
    out = []
    for s in bounds(E, st, fr, f_and(f_le(-l), f_le(l - f.n)), "split_at"):
        b = f.p[-1][1]
        out.append((s, VAgg(ci["dty"], (VFat(f.o, f.p[:-1] + (("i", b),), l), VFat(f.o, f.p[:-1] + (("i", b + l),), f.n - l)))))
    return out


def setcontents(E, st, o, p, lo, n, src):
    """Elements [lo, lo+n) of the array at o/p become contents named by src (('fat', VFat snapshot) or other name)."""
    v = E.read(st, o, p)
    if isinstance(v, VArr):
        lo, n = st.norm(lo), st.norm(n)
        if lo.is_const() and n.is_const() and n.c <= 64 and src[0] == "fat" and isinstance(src[1], VArr):
            sv, off = src[1], src[2]
            w = v
            for i in range(n.c):
                w = E.store_elem(st, w, const(lo.c + i), E.elem(st, sv, off + i))
            E.write(st, o, p, w)
            return
        keep = ()
        if v.els:
            keep = tuple((i, x) for i, x in v.els if st.holds_le(const(i + 1) - lo) or st.holds_le(lo + n - i))
        b = A._NMI[v.base]
        if b[0] == "cp" and not v.els and src[0] == "fat" and b[5][0] == "fat" and b[5][1] == src[1]:
            # the continuation of the copy made before
            d, e = st.norm(b[3] + b[4] - lo), st.norm(b[5][2] + b[4] - src[2])
            if d.is_const() and d.c == 0 and e.is_const() and e.c == 0:
                E.write(st, o, p, VArr(v.ety, v.n, (), A.nm("cp", b[1], b[2], b[3], st.norm(b[4] + n), src[:1] + (src[1], b[5][2]))))
                return
        base = A.nm("cp", v.base, v.els, lo, n, src)
        E.write(st, o, p, VArr(v.ety, v.n, keep, base))


def copy_elems(E, st, dst, src, n):
    st = st.copy()
    sv = E.read(st, src.o, src.p[:-1])
    setcontents(E, st, dst.o, dst.p[:-1], dst.p[-1][1], n, ("fat", sv, src.p[-1][1]) if isinstance(sv, VArr) else ("x", A.fresh_name("havoc")))
    return st


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_cfs(E, st, fr, a, ci):
    d, s0 = fat(E, st, a[0], ci["atys"][0]), fat(E, st, a[1], ci["atys"][1])
    if d is None or s0 is None:
        return None
    out = []
    for s in E.require(st, "panic", f_eq(d.n - s0.n), fr, "copy_from_slice length mismatch"):
        if E.monitor:
            E.monitor.bytes(E, s, fr, "copy", d, s0, d.n)
        out.append((copy_elems(E, s, d, s0, d.n), unit(E, ci)))
    return out


@model("core::slice::<impl [T]>::fill")
def m_fill(E, st, fr, a, ci):
    d = fat(E, st, a[0], ci["atys"][0])
    if d is None:
        return None
    st = st.copy()
    setcontents(E, st, d.o, d.p[:-1], d.p[-1][1], d.n, ("fillv", a[1]))
    return [(st, unit(E, ci))]


@model("core::slice::<impl [T]>::reverse", "re:^core::slice::<impl \\[T\\]>::sort")
def m_perm(E, st, fr, a, ci):
    d = fat(E, st, a[0], ci["atys"][0])
    if d is None:
        return None
    st = st.copy()
    setcontents(E, st, d.o, d.p[:-1], d.p[-1][1], d.n, ("perm", A.fresh_name("perm")))
    return [(st, unit(E, ci))]


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut")
def m_frp(E, st, fr, a, ci):
    p, n = a[0], E.as_lin(a[1])
    if n is None:
        return None
    p2 = as_elem_ptr(E, st, p)
    if p2 is None:
        # a pointer of unknown provenance: a view of n unknown elements, the same for the same pointer
        ety = E.T[E.pointee(ci["dty"])].get("e")
        key = A.nm("rawview", E.vkey(st, p))
        o = ("deref", key)
        if o not in E.objty:
            E.objty[o] = ("arr", ety, n)
        E.require(st, "rawview", F if False else T, fr, "view of a pointer of unknown extent")
        return [(st, VFat(o, (("i", const(0)),), n))]
    ext = extent(E, st, p2)
    es = E.size_of(E.T[E.pointee(ci["dty"])].get("e"))
    as_ = E.elem_size(st, p2)
    out = []
    if ext is not None:
        k = 1
        if es and as_ and es != as_ and es % as_ == 0:
            k = es // as_
        st2 = E.require(st, "oob", f_and(f_le(-p2.p[-1][1]), f_and(f_le(-n), f_le(p2.p[-1][1] + n.mul(k) - ext))), fr, "from_raw_parts")
    else:
        st2 = [st]
    return [(s, VFat(p2.o, p2.p, n)) for s in st2]


def as_elem_ptr(E, st, p):
    """Pointer value as a pointer to an element of an array object, if it is one."""
    if isinstance(p, VFat):
        return VPtr(p.o, p.p)
    if isinstance(p, VPtr):
        if p.p and p.p[-1][0] == "i":
            return p
        v = E.read(st, p.o, p.p)
        if isinstance(v, VArr):
            return VPtr(p.o, p.p + (("i", const(0)),))
    return None


def extent(E, st, p):
    v = E.read(st, p.o, p.p[:-1])
    return v.n if isinstance(v, VArr) else None


# ------------------------------------------------------------------ raw pointers
def copy_nonoverlapping(E, st, fr, a, ci):
    src, dst, n = a
    n = E.as_lin(n)
    s2, d2 = as_elem_ptr(E, st, src), as_elem_ptr(E, st, dst)
    sts = [st]
    u = {"dty": None}
    if n is None:
        return [(st, VAgg(None, ()))]
    for p, what in ((s2, "copy source"), (d2, "copy destination")):
        if p is None:
            continue
        ext = extent(E, st, p)
        if ext is None:
            continue
        i = p.p[-1][1]
        sts = [y for x in sts for y in E.require(x, "oob", f_or(f_eq(n), f_and(f_le(-i), f_le(i + n - ext))), fr, what)]
    out = []
    for s in sts:
        if d2 is not None and s2 is not None:
            if E.monitor:
                E.monitor.bytes(E, s, fr, "copy", d2, s2, n)
            s = copy_elems(E, s, d2, s2, n)
        elif d2 is not None:
            s = s.copy()
            setcontents(E, s, d2.o, d2.p[:-1], d2.p[-1][1], n, ("x", E.vkey(s, src)))
        out.append((s, VAgg(None, ())))
    return out


@model("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy")
def m_cno(E, st, fr, a, ci):
    return [(s, unit(E, ci)) for s, _ in copy_nonoverlapping(E, st, fr, a, ci)]


@model("std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "std::ptr::mut_ptr::<impl *mut T>::copy_from")
def m_cfn(E, st, fr, a, ci):
    return [(s, unit(E, ci)) for s, _ in copy_nonoverlapping(E, st, fr, [a[1], a[0], a[2]], ci)]


@model("std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping", "std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping",
       "std::ptr::mut_ptr::<impl *mut T>::copy_to", "std::ptr::const_ptr::<impl *const T>::copy_to")
def m_ctn(E, st, fr, a, ci):
    return [(s, unit(E, ci)) for s, _ in copy_nonoverlapping(E, st, fr, a, ci)]


@model("re:^std::ptr::(mut_ptr|const_ptr)::<impl \\*(mut|const) T>::(add|offset|sub|wrapping_add|wrapping_sub|wrapping_offset|byte_add)$")
def m_padd(E, st, fr, a, ci):
    k = E.as_lin(a[1])
    nme = ci.get("rpath") or ci.get("path")
    if k is None:
        return None
    if nme.endswith("sub"):
        k = -k
    r = E.ptr_add(st, fr, a[0], k, ci["atys"][0])
    out = []
    for s, v in r:
        if isinstance(v, VPtr) and v.p and v.p[-1][0] == "i" and "wrapping" not in nme:
            ext = extent(E, s, v)
            i = v.p[-1][1]
            if ext is not None:
                out += [(x, v) for x in E.require(s, "oob", f_and(f_le(-i), f_le(i - ext)), fr, "pointer offset")]
                continue
        out.append((s, v))
    return out


@model("re:^std::ptr::(mut_ptr|const_ptr)::<impl \\*(mut|const) T>::(offset_from|sub_ptr|offset_from_unsigned)$")
def m_ofrom(E, st, fr, a, ci):
    x, y = a
    if isinstance(x, (VPtr, VFat)) and isinstance(y, (VPtr, VFat)) and x.o == y.o and x.p and y.p and x.p[:-1] == y.p[:-1] and x.p[-1][0] == "i":
        return [(st, VInt(st.norm(x.p[-1][1] - y.p[-1][1])))]
    return None


def raw_access(E, st, fr, p, ti, what):
    """In-bounds obligation for a typed access through a raw pointer."""
    if isinstance(p, (VPtr, VFat)) and p.p and p.p[-1][0] == "i":
        v = E.read(st, p.o, p.p[:-1])
        if isinstance(v, VArr):
            es, ts = E.size_of(v.ety), E.size_of(ti) if ti is not None else None
            k = 1
            if es and ts and ts % es == 0:
                k = ts // es
            i = p.p[-1][1]
            return E.require(st, "oob", f_and(f_le(-i), f_le(i + k - v.n)), fr, what)
    return [st]


def typed_read(E, st, p, ti):
    if isinstance(p, (VPtr, VFat)) and p.p and p.p[-1][0] == "i":
        v = E.read(st, p.o, p.p[:-1])
        if isinstance(v, VArr) and E.T[v.ety]["s"] == "u8" and ti is not None and E.irange(ti) and E.size_of(ti) > 1:
            n = E.size_of(ti)
            return from_le(E, st, [E.elem(st, v, p.p[-1][1] + i) for i in range(n)], ti, (v.base, v.els, st.norm(p.p[-1][1])))
    if isinstance(p, (VPtr, VFat)):
        return E.read(st, p.o, p.p, ti)
    return E.mk(ti, A.nm("rd", E.vkey(st, p))) if ti is not None else VOp(A.fresh_name("havoc"), None)


def from_le(E, st, bs, ti, key):
    n = len(bs)
    # bytes that are consecutive bytes of one value
    f = None
    for i, b in enumerate(bs):
        q = A._NMI[b.s] if isinstance(b, VOp) else None
        if q is None or q[0] != "byte" or q[2] != i or q[3] != n or (f is not None and q[1] != f):
            f = None
            break
        f = q[1]
    else:
        return VInt(f)
    if all(isinstance(b, VInt) and b.l.is_const() for b in bs):
        return VInt(const(sum(b.l.c << (8 * i) for i, b in enumerate(bs))))
    if n == 2 and all(isinstance(b, VInt) for b in bs):
        return VInt(bs[0].l + bs[1].l.mul(256))
    return VInt(var(E.isym(A.nm("le", tuple(E.vkey(st, b) for b in bs)), ti)))


def typed_write(E, st, p, val, ti):
    if isinstance(p, (VPtr, VFat)) and p.p and p.p[-1][0] == "i":
        v = E.read(st, p.o, p.p[:-1])
        if isinstance(v, VArr) and E.T[v.ety]["s"] == "u8" and ti is not None and E.size_of(ti) not in (1, None):
            n = E.size_of(ti)
            if isinstance(val, VArr) and E.T[val.ety]["s"] == "u8":
                for i in range(n):
                    v = E.store_elem(st, v, p.p[-1][1] + i, E.elem(st, val, const(i)))
                E.write(st, p.o, p.p[:-1], v)
                return
            l = E.as_lin(val)
            for i in range(n):
                x = VInt(const((l.c >> (8 * i)) & 255)) if l is not None and l.is_const() else \
                    VOp(A.nm("byte", st.norm(l) if l is not None else E.vkey(st, val), i, n), v.ety)
                v = E.store_elem(st, v, p.p[-1][1] + i, x)
            E.write(st, p.o, p.p[:-1], v)
            return
    if isinstance(p, (VPtr, VFat)):
        E.write(st, p.o, p.p, val)


@model("std::ptr::read", "std::ptr::read_unaligned", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::mut_ptr::<impl *mut T>::read",
       "std::ptr::const_ptr::<impl *const T>::read_unaligned", "std::ptr::mut_ptr::<impl *mut T>::read_unaligned", "std::ptr::read_volatile")
def m_read(E, st, fr, a, ci):
    return [(s, typed_read(E, s, a[0], ci["dty"])) for s in raw_access(E, st, fr, a[0], ci["dty"], "raw read")]


@model("std::ptr::write", "std::ptr::write_unaligned", "std::ptr::mut_ptr::<impl *mut T>::write",
       "std::ptr::mut_ptr::<impl *mut T>::write_unaligned", "std::ptr::write_volatile")
def m_write(E, st, fr, a, ci):
    out = []
    ti = ci["atys"][1]
    for s in raw_access(E, st, fr, a[0], ti, "raw write"):
        s = s.copy()
        if E.monitor:
            E.monitor.store(E, s, fr, getattr(a[0], "o", None), getattr(a[0], "p", ()), a[1], ti)
        typed_write(E, s, a[0], a[1], ti)
        out.append((s, unit(E, ci)))
    return out


@model("std::ptr::write_bytes", "std::ptr::mut_ptr::<impl *mut T>::write_bytes")
def m_wb(E, st, fr, a, ci):
    p = as_elem_ptr(E, st, a[0])
    n = E.as_lin(a[2])
    if p is None or n is None:
        return None
    out = []
    ext = extent(E, st, p)
    i = p.p[-1][1]
    for s in (E.require(st, "oob", f_or(f_eq(n), f_and(f_le(-i), f_le(i + n - ext))), fr, "write_bytes") if ext is not None else [st]):
        s = s.copy()
        setcontents(E, s, p.o, p.p[:-1], i, n, ("fillv", a[1]))
        out.append((s, unit(E, ci)))
    return out


@model("std::ptr::null", "std::ptr::null_mut")
def m_null(E, st, fr, a, ci):
    return [(st, VOp(A.nm("intptr", "0"), ci["dty"]))]


@model("re:^std::ptr::(mut_ptr|const_ptr)::<impl \\*(mut|const) T>::is_null$")
def m_isnull(E, st, fr, a, ci):
    p = a[0]
    if isinstance(p, VOp):
        q = A._NMI[p.s]
        if q == ("intptr", "0"):
            return [(st, VBool(T))]
        s = L.sym(("n", A.nm("isnull", p.s)), 0, 1)
        return [(st, VBool(("le", -var(s) + 1)))]
    if isinstance(p, (VPtr, VFat)):
        o = p.o
        if o[0] in ("L", "A", "C", "J", "static"):
            return [(st, VBool(F))]
        s = L.sym(("n", A.nm("isnull", E.oname(o))), 0, 1)
        return [(st, VBool(("le", -var(s) + 1)))]
    return None


@model("std::mem::swap")
def m_swap(E, st, fr, a, ci):
    x, y = a
    if isinstance(x, VPtr) and isinstance(y, VPtr):
        st = st.copy()
        t = E.pointee(ci["atys"][0])
        vx, vy = E.read(st, x.o, x.p, t), E.read(st, y.o, y.p, t)
        for p, v in ((x, vy), (y, vx)):
            if E.monitor:
                E.monitor.store(E, st, fr, p.o, p.p, v, t)
            E.write(st, p.o, p.p, v)
        return [(st, unit(E, ci))]
    return None


@model("std::mem::replace")
def m_replace(E, st, fr, a, ci):
    if isinstance(a[0], VPtr):
        st = st.copy()
        v = E.read(st, a[0].o, a[0].p, ci["dty"])
        if E.monitor:
            E.monitor.store(E, st, fr, a[0].o, a[0].p, a[1], ci["dty"])
        E.write(st, a[0].o, a[0].p, a[1])
        return [(st, v)]
    return None


@model("std::mem::forget", "std::mem::drop")
def m_forget(E, st, fr, a, ci):
    if (ci.get("rpath") or "").endswith("drop"):
        return [(s, unit(E, ci)) for s in drop_value(E, st, fr, ci["bb"], a[0], ci["atys"][0], None)]
    return [(st, unit(E, ci))]


@model("std::mem::size_of", "std::intrinsics::size_of", "core::mem::size_of")
def m_sizeof(E, st, fr, a, ci):
    ts = [x["t"] for x in (ci.get("rargs") or ci.get("args") or []) if isinstance(x, dict) and "t" in x]
    if ts:
        s = E.size_of(ts[0])
        if s is not None:
            return [(st, VInt(const(s)))]
        return [(st, VInt(var(L.sym(("n", A.nm("sizeof", E.T[ts[0]]["s"])), 0, 1 << 40))))]
    return None


@model("std::mem::align_of", "std::intrinsics::align_of")
def m_alignof(E, st, fr, a, ci):
    ts = [x["t"] for x in (ci.get("rargs") or ci.get("args") or []) if isinstance(x, dict) and "t" in x]
    if ts and E.T[ts[0]].get("align"):
        return [(st, VInt(const(E.T[ts[0]]["align"])))]
    return None


# ------------------------------------------------------------------ Vec / String
def new_vec(E, st, ti, n=None, cap=None, base=None, els=()):
    o = fresh_obj()
    n = n if n is not None else const(0)
    cap = cap if cap is not None else n
    st.mem[o] = VArr(E.vec_elem(ti), cap, els, base if base is not None else A.nm("bytes", "uninit"))
    return VVec(ti, o, n, cap)


@model("std::vec::Vec::<T>::new", "std::string::String::new", "<std::string::String as std::default::Default>::default",
       "<std::vec::Vec<T> as std::default::Default>::default")
def m_vnew(E, st, fr, a, ci):
    st = st.copy()
    return [(st, new_vec(E, st, ci["dty"]))]


@model("std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity")
def m_vcap(E, st, fr, a, ci):
    n = E.as_lin(a[0])
    if n is None:
        return None
    st = st.copy()
    out = []
    for s in st.assume(f_le(n - A.ISIZE_MAX)):
        s = s.copy()
        if E.monitor:
            E.monitor.event(E, s, fr, "with_capacity", n)
        out.append((s, new_vec(E, s, ci["dty"], const(0), n)))
    return out


@model("std::vec::from_elem")
def m_from_elem(E, st, fr, a, ci):
    n = E.as_lin(a[1])
    if n is None:
        return None
    out = []
    for s in st.assume(f_le(n - A.ISIZE_MAX)):
        s = s.copy()
        out.append((s, new_vec(E, s, ci["dty"], n, n, A.nm("fill", a[0]))))
    return out


@model("std::vec::Vec::<T, A>::len", "std::string::String::len")
def m_vlen(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    return None if v is None else [(st, VInt(v.n))]


@model("std::vec::Vec::<T, A>::capacity", "std::string::String::capacity")
def m_vcapa(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    return None if v is None else [(st.add_le(v.n - v.cap) or st, VInt(v.cap))]


@model("std::vec::Vec::<T, A>::is_empty", "std::string::String::is_empty")
def m_vempty(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    return None if v is None else [(st, VBool(f_eq(v.n)))]


@model("std::vec::Vec::<T, A>::as_ptr", "std::vec::Vec::<T, A>::as_mut_ptr")
def m_vptr(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    if v is None:
        return None
    st = st.add_le(v.n - v.cap) or st
    return [(st, VPtr(v.o, (("i", const(0)),)))]


def setvec(E, st, p, v):
    if p is not None:
        E.write(st, p.o, p.p, v)


def grow(E, st, v, need):
    """states in which the capacity is at least `need`, with the vec value"""
    out = []
    st = st.add_le(v.n - v.cap) or st
    for s in st.assume(f_le(need - v.cap)):
        out.append((s, v))
    for s in st.assume(f_le(v.cap - need + 1)):
        for s2 in s.assume(f_le(need - A.ISIZE_MAX)):
            s2 = s2.copy()
            c = L.fresh("cap", 0, A.ISIZE_MAX)
            s2 = (s2.add_le(need - var(c)) or s2).copy()
            b = arr_of(E, s2, v.o)
            if b is not None:
                s2.mem[v.o] = VArr(b.ety, var(c), b.els, b.base)
            out.append((s2, VVec(v.ty, v.o, v.n, var(c))))
    return out


def grow1(E, st, v, need):
    """as grow, in one state: the capacity afterwards is some c >= max(cap, need) (the buffer may have moved)."""
    st = st.add_le(v.n - v.cap) or st
    if st.holds_le(need - v.cap):
        return st.copy(), v
    c = L.fresh("cap", 0, A.ISIZE_MAX)
    st = (st.add_le(need - A.ISIZE_MAX) or st)
    st = (st.add_le(need - var(c)) or st)
    st = (st.add_le(v.cap - var(c)) or st).copy()
    b = arr_of(E, st, v.o)
    if b is not None:
        st.mem[v.o] = VArr(b.ety, var(c), b.els, b.base)
    return st, VVec(v.ty, v.o, v.n, var(c))


@model("std::vec::Vec::<T, A>::push")
def m_push(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    if v is None:
        return None
    s, v = grow1(E, st, v, v.n + 1)
    b = arr_of(E, s, v.o)
    if b is not None:
        s.mem[v.o] = E.store_elem(s, b, v.n, a[1])
    if E.monitor:
        E.monitor.push(E, s, fr, p, v, a[1])
    setvec(E, s, p, VVec(v.ty, v.o, s.norm(v.n + 1), v.cap))
    return [(s, unit(E, ci))]


def extend_with(E, st, fr, p, v, f):
    s, v = grow1(E, st, v, v.n + f.n)
    if E.monitor:
        E.monitor.bytes(E, s, fr, "extend", VPtr(v.o, (("i", v.n),)), VPtr(f.o, f.p), f.n)
    s = copy_elems(E, s, VPtr(v.o, (("i", v.n),)), VPtr(f.o, f.p), f.n)
    v = VVec(v.ty, v.o, s.norm(v.n + f.n), v.cap)
    setvec(E, s, p, v)
    return s, v


@model("std::string::String::push_str", "std::vec::Vec::<T, A>::extend_from_slice", "re:^<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend$")
def m_pushstr(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    f = fat(E, st, a[1], ci["atys"][1])
    if v is None or f is None:
        return None
    s, v = extend_with(E, st, fr, p, v, f)
    return [(s, unit(E, ci))]


@model("re:impl std::io::Write for std::vec::Vec<u8, A>>::write(_all)?$")
def m_vwrite(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    f = fat(E, st, a[1], ci["atys"][1])
    if v is None or f is None:
        return None
    s, v = extend_with(E, st, fr, p, v, f)
    if (ci.get("rpath") or ci.get("path")).endswith("write"):
        return [(s, ok(E, ci, VInt(f.n)))]
    return [(s, ok(E, ci, VAgg(okty(E, ci["dty"]), ())))]


@model("std::vec::Vec::<T, A>::append")
def m_append(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    q, w = vec_of(E, st, a[1], ci["atys"][1])
    if v is None or w is None:
        return None
    s, v = extend_with(E, st, fr, p, v, VFat(w.o, (("i", const(0)),), w.n))
    setvec(E, s, q, VVec(w.ty, w.o, const(0), w.cap))
    return [(s, unit(E, ci))]


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def m_clear(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    if v is None:
        return None
    st = (st.add_le(v.n - v.cap) or st).copy()
    if E.monitor:
        E.monitor.clear(E, st, fr, p, v)
    setvec(E, st, p, VVec(v.ty, v.o, const(0), v.cap))
    return [(st, unit(E, ci))]


@model("std::vec::Vec::<T, A>::truncate", "std::string::String::truncate")
def m_trunc(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    n = E.as_lin(a[1])
    if v is None or n is None:
        return None
    st = st.add_le(v.n - v.cap) or st
    out = []
    for s in st.assume(f_le(n - v.n)):
        s = s.copy()
        setvec(E, s, p, VVec(v.ty, v.o, n, v.cap))
        out.append((s, unit(E, ci)))
    for s in st.assume(f_le(v.n - n + 1)):
        out.append((s, unit(E, ci)))
    return out


@model("std::vec::Vec::<T, A>::pop")
def m_pop(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    if v is None:
        return None
    out = []
    for s in st.assume(f_eq(v.n)):
        out.append((s, VEnum(ci["dty"], 0, ())))
    for s in st.assume(f_le(-v.n + 1)):
        s = s.copy()
        b = arr_of(E, s, v.o)
        x = E.elem(s, b, v.n - 1) if b is not None else E.mk(E.vec_elem(v.ty), A.fresh_name("havoc"))
        setvec(E, s, p, VVec(v.ty, v.o, s.norm(v.n - 1), v.cap))
        out.append((s, VEnum(ci["dty"], 1, (x,))))
    return out


@model("std::vec::Vec::<T, A>::reserve", "std::string::String::reserve", "std::vec::Vec::<T, A>::reserve_exact")
def m_reserve(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    n = E.as_lin(a[1])
    if v is None or n is None:
        return None
    s, v = grow1(E, st, v, v.n + n)
    setvec(E, s, p, v)
    return [(s, unit(E, ci))]


@model("std::vec::Vec::<T, A>::set_len")
def m_setlen(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    n = E.as_lin(a[1])
    if v is None or n is None:
        return None
    out = []
    for s in E.require(st, "oob", f_le(n - v.cap), fr, "set_len beyond capacity"):
        s = s.copy()
        setvec(E, s, p, VVec(v.ty, v.o, n, v.cap))
        out.append((s, unit(E, ci)))
    return out


@model("std::vec::Vec::<T, A>::resize")
def m_resize(E, st, fr, a, ci):
    p, v = vec_of(E, st, a[0], ci["atys"][0])
    n = E.as_lin(a[1])
    if v is None or n is None:
        return None
    s, v = grow1(E, st, v, n)
    b = arr_of(E, s, v.o)
    if b is not None:
        keep = tuple((i, x) for i, x in b.els if s.holds_le(const(i + 1) - v.n))
        s.mem[v.o] = VArr(b.ety, b.n, keep, A.nm("rsz", b.base, b.els, s.norm(v.n), a[2]))
    setvec(E, s, p, VVec(v.ty, v.o, n, v.cap))
    return [(s, unit(E, ci))]


@model("std::vec::Vec::<T>::from_raw_parts", "std::string::String::from_raw_parts")
def m_vfrp(E, st, fr, a, ci):
    n, cap = E.as_lin(a[1]), E.as_lin(a[2])
    p = as_elem_ptr(E, st, a[0])
    if n is None or cap is None:
        return None
    if E.monitor:
        E.monitor.event(E, st, fr, "from_raw_parts", (a[0], n, cap))
    if p is None:
        o = ("deref", A.nm("rawvec", E.vkey(st, a[0])))
        if o not in E.objty:
            E.objty[o] = ("arr", E.vec_elem(ci["dty"]), cap)
        return [(st, VVec(ci["dty"], o, n, cap))]
    ext = extent(E, st, p)
    out = []
    i = p.p[-1][1]
    for s in (E.require(st, "oob", f_and(f_le(n - cap), f_le(i + cap - ext)), fr, "Vec::from_raw_parts") if ext is not None else [st]):
        if s.const_of(i) == 0 and len(p.p) == 1:
            out.append((s, VVec(ci["dty"], p.o, n, cap)))
        else:
            s = s.copy()
            v = new_vec(E, s, ci["dty"], n, cap)
            out.append((copy_elems(E, s, VPtr(v.o, (("i", const(0)),)), p, cap), v))
    return out


def clone_slice(E, st, f, ti):
    st = st.copy()
    v = new_vec(E, st, ti, f.n, f.n)
    sv = E.read(st, f.o, f.p[:-1])
    if isinstance(sv, VArr):
        if st.const_of(f.p[-1][1]) == 0:
            st.mem[v.o] = VArr(sv.ety, f.n, tuple((i, x) for i, x in sv.els if st.holds_le(const(i + 1) - f.n)), sv.base)
        else:
            st = copy_elems(E, st, VPtr(v.o, (("i", const(0)),)), f, f.n)
    return st, v


@model("std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from",
       "<std::vec::Vec<T, A> as std::clone::Clone>::clone", "<std::vec::Vec<u8> as std::convert::From<&str>>::from",
       "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::clone::Clone>::clone",
       "<std::string::String as std::convert::From<&std::string::String>>::from", "std::str::<impl std::borrow::ToOwned for str>::to_owned",
       "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from", "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from",
       "std::slice::<impl [T]>::into_vec", "<str as std::string::ToString>::to_string", "<std::string::String as std::string::ToString>::to_string")
def m_tovec(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    if f is None:
        return None
    return [clone_slice(E, st, f, ci["dty"])]


@model("std::vec::Vec::<T, A>::into_boxed_slice", "std::string::String::into_bytes", "std::vec::Vec::<T, A>::leak",
       "<std::vec::Vec<T, A> as std::convert::From<std::string::String>>::from", "std::string::String::into_boxed_str")
def m_intobs(E, st, fr, a, ci):
    v = a[0]
    if isinstance(v, VOp) and v.ty is not None:
        v = E.mk(v.ty, v.s)
    if not isinstance(v, VVec):
        return None
    t = ci["dty"]
    if E.T[t]["k"] == "adt" and E.is_vec(t):
        return [(st, VVec(t, v.o, v.n, v.cap))]
    return [(st, VFat(v.o, (("i", const(0)),), v.n))]


@model("std::string::String::as_mut_vec")
def m_asmutvec(E, st, fr, a, ci):
    return [(st, a[0])]


@model("std::string::String::from_utf8_unchecked")
def m_futf(E, st, fr, a, ci):
    v = a[0]
    if isinstance(v, VOp) and v.ty is not None:
        v = E.mk(v.ty, v.s)
    if isinstance(v, VVec):
        return [(st, VVec(ci["dty"], v.o, v.n, v.cap))]
    return None


@model("std::str::from_utf8", "std::string::String::from_utf8")
def m_fromutf8(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    if f is None:
        return None
    s = L.sym(("n", A.nm("utf8", f.o, f.p, st.norm(f.n), E.vkey(st, E.obj(st, f.o)))), 0, 1)
    out = [(x, ok(E, ci, f if not isinstance(a[0], VVec) else VVec(okty(E, ci["dty"]), a[0].o, a[0].n, a[0].cap))) for x in st.assume(("le", -var(s) + 1))]
    return out + [(x, err(E, ci)) for x in st.assume(("le", var(s)))]


@model("std::string::String::from_utf8_lossy")
def m_lossy(E, st, fr, a, ci):
    return [(st, E.mk(ci["dty"], A.nm("lossy", E.vkey(st, a[0]) if not isinstance(a[0], VFat) else a[0])))]


# ------------------------------------------------------------------ allocation
@model("std::alloc::alloc", "std::alloc::alloc_zeroed")
def m_alloc(E, st, fr, a, ci):
    lay = a[0]
    n = layout_size(E, st, lay)
    o = fresh_obj()
    st = st.copy()
    u8 = E.intty("u8")
    st.mem[o] = VArr(u8, n, (), A.nm("bytes", "uninit") if not (ci.get("rpath") or ci.get("path")).endswith("zeroed") else A.nm("fill", VInt(const(0))))
    if E.monitor:
        E.monitor.event(E, st, fr, "alloc", (o, n, lay))
    return [(st, VPtr(o, (("i", const(0)),)))]


def layout_size(E, st, lay):
    if isinstance(lay, VIter) and lay.k == "layout":
        return lay.a[0].l
    return var(E.usym(A.nm("layout_size", E.vkey(st, lay))))


@model("std::alloc::dealloc")
def m_dealloc(E, st, fr, a, ci):
    if E.monitor:
        E.monitor.event(E, st, fr, "dealloc", (a[0], a[1]))
    return [(st, unit(E, ci))]


@model("std::alloc::Layout::from_size_align_unchecked")
def m_layu(E, st, fr, a, ci):
    n, al = E.as_lin(a[0]), E.as_lin(a[1])
    return [(st, VIter("layout", (VInt(n), VInt(al))))]


@model("std::alloc::Layout::array")
def m_layarr(E, st, fr, a, ci):
    ts = [x["t"] for x in (ci.get("rargs") or ci.get("args") or []) if isinstance(x, dict) and "t" in x]
    n = E.as_lin(a[0])
    if not ts or n is None or not E.size_of(ts[0]):
        return None
    sz = n.mul(E.size_of(ts[0]))
    out = [(s, ok(E, ci, VIter("layout", (VInt(sz), VInt(const(E.T[ts[0]]["align"])))))) for s in st.assume(f_le(sz - A.ISIZE_MAX))]
    return out + [(s, err(E, ci)) for s in st.assume(f_le(-sz + A.ISIZE_MAX + 1))]


@model("std::alloc::Layout::from_size_align")
def m_lay(E, st, fr, a, ci):
    n, al = E.as_lin(a[0]), E.as_lin(a[1])
    if n is None or al is None:
        return None
    okf = f_le(n - A.ISIZE_MAX)
    out = [(s, ok(E, ci, VIter("layout", (VInt(n), VInt(al))))) for s in st.assume(okf)]
    if not al.is_const() or al.c & (al.c - 1) or al.c == 0:
        out += [(s, err(E, ci)) for s in [st]]
    else:
        out += [(s, err(E, ci)) for s in st.assume(f_not(okf))]
    return out


@model("std::alloc::Layout::size")
def m_laysize(E, st, fr, a, ci):
    p, v = getv(E, st, a[0])
    return [(st, VInt(layout_size(E, st, v)))]


@model("std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
def m_boxnew(E, st, fr, a, ci):
    o = fresh_obj()
    st = st.copy()
    st.mem[o] = a[0]
    if E.monitor:
        E.monitor.event(E, st, fr, "box", (o, ci["atys"][0]))
    return [(st, VPtr(o, ()))]


@model("<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut", "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref",
       "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut",
       "<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow", "<std::boxed::Box<T, A> as std::borrow::BorrowMut<T>>::borrow_mut",
       "std::boxed::Box::<T, A>::as_ptr", "std::boxed::Box::<T, A>::as_mut_ptr")
def m_boxref(E, st, fr, a, ci):
    p, v = getv1(E, st, a[0], ci["atys"][0])
    return [(st, v)] if isinstance(v, (VPtr, VFat)) else None


@model("std::boxed::Box::<T>::into_raw", "std::boxed::Box::<T, A>::into_raw", "std::boxed::Box::<T, A>::leak", "std::boxed::Box::<T>::leak")
def m_intoraw(E, st, fr, a, ci):
    return [(st, a[0])]


@model("std::boxed::Box::<T>::from_raw")
def m_fromraw(E, st, fr, a, ci):
    if E.monitor:
        E.monitor.event(E, st, fr, "box_from_raw", a[0])
    return [(st, a[0])]


@model("<std::sync::Arc<T, A> as std::clone::Clone>::clone")
def m_arcdup(E, st, fr, a, ci):
    r = m_arcclone(E, st, fr, a, ci)
    if E.monitor and r:
        st = r[0][0].copy()
        E.monitor.event(E, st, fr, "arc_clone", r[0][1])
        return [(st, r[0][1])]
    return r


@model("re:^(core|std)::f(32|64)::<impl f(32|64)>::(round|floor|ceil|trunc|sqrt|abs)$")
def m_fround(E, st, fr, a, ci):
    """exact on known numbers"""
    import math
    x, n = A.fval(a[0]), (ci.get("rpath") or ci.get("path")).split("::")[-1]
    if x is not None and math.isfinite(x):
        if n == "round":
            r = math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 else abs(x), x)
            if abs(x) < 1 and abs(x) == 0.49999999999999994:
                r = math.copysign(0.0, x)
        else:
            r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "abs": abs}.get(n, lambda y: math.sqrt(y) if y >= 0 else None)(x)
        if r is not None:
            return [(st, A.mkfloat(E.T[ci["dty"]]["s"], float(r), ci["dty"]))]
    l = E.flin(a[0]) if E.opts.get("fnum") and x is None else None
    if l is not None and n != "sqrt":
        out = []
        for f, neg in ((f_le(-l), False), (f_not(f_le(-l)), True)):
            for s in st.assume(f):
                if n == "abs":
                    out.append((s, VInt(-l if neg else l)))
                    continue
                # in halves: how far from the number below in magnitude
                s, q = E.divc(s, -l if neg else l, 2)
                r = (-l if neg else l) - q.mul(2)
                up = {"trunc": 0, "round": 1, "floor": 1 if neg else 0, "ceil": 0 if neg else 1}[n]
                for g, d in ((f_eq(r), 0), (f_not(f_eq(r)), up)):
                    for s2 in s.assume(g):
                        m = (q + d).mul(2)
                        out.append((s2, VInt(-m if neg else m)))
        return out
    return [(st, E.mk(ci["dty"], A.nm("fop", n, E.vkey(st, a[0]))))]


@model("re:^(core|std)::f(32|64)::<impl f(32|64)>::(max|min|powi|mul_add|clamp)$")
def m_fminmax(E, st, fr, a, ci):
    n = (ci.get("rpath") or ci.get("path")).split("::")[-1]
    if E.opts.get("fnum"):
        if n in ("max", "min"):
            x, y = E.flin(a[0]), E.flin(a[1])
            if x is not None and y is not None:
                f = f_le(x - y)
                return [(s, a[1] if n == "max" else a[0]) for s in st.assume(f)] + [(s, a[0] if n == "max" else a[1]) for s in st.assume(f_not(f))]
        if n == "powi" and E.as_lin(a[1]) is not None and st.const_of(E.as_lin(a[1])) == 2:
            r = E.fbin(st, "Mul", a[0], a[0])
            if r is not None:
                return r
        if n == "mul_add":
            r = E.fbin(st, "Mul", a[0], a[1])
            if r is not None:
                return [(s2, v2) for s, v in r for s2, v2 in (E.fbin(s, "Add", v, a[2]) or [])] or None
    return [(st, E.mk(ci["dty"], A.nm("fop", n, *[E.vkey(st, x) for x in a])))]


@model("std::sync::Arc::<T>::increment_strong_count", "std::sync::Arc::<T, A>::increment_strong_count_in")
def m_arcinc(E, st, fr, a, ci):
    st = st.copy()
    if E.monitor:
        E.monitor.event(E, st, fr, "arc_clone", a[0])
    return [(st, unit(E, ci))]


@model("<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref")
def m_arcclone(E, st, fr, a, ci):
    p, v = getv1(E, st, a[0], ci["atys"][0])
    if isinstance(v, (VPtr, VFat)):
        return [(st, v)]
    return None


def getv1(E, st, a, ti):
    if isinstance(a, VPtr):
        return a, E.read(st, a.o, a.p, E.pointee(ti))
    if isinstance(a, VOp) and E.is_ptrlike(ti):
        v = E.mk(ti, a.s)
        if isinstance(v, VPtr):
            return v, E.read(st, v.o, v.p, E.pointee(ti))
    return None, a


def drop_value(E, st, fr, b, v, ty, where):
    if E.monitor:
        r = E.monitor.drop(E, st, fr, v, ty, where)
        if r is not None:
            return r
    t = E.T[ty] if ty is not None else None
    if t is not None and t["k"] == "adt":
        a = E.P.adts[t["def"]]
        if a.get("has_drop") and a.get("local") and a.get("drop_fn"):
            keys = [k for k in E.P.fns if E.P.fns[k]["path"] == a["drop_fn"]]
            if keys and where is not None:
                return [s for s, _ in E.invoke(fr, b, st, keys[0], [VPtr(where[0], where[1])])]
    return [st]


# ------------------------------------------------------------------ locks
def lock_data(E, ti):
    """path to the protected data inside a Mutex/RwLock value"""
    t = E.T[ti]
    a = E.P.adts.get(t["def"])
    if a:
        for i, f in enumerate(a["variants"][0]["fields"]):
            if f["name"] == "data":
                return (("f", i), ("f", 0))
    return None


def m_lock(E, st, fr, a, ci):
    p, v = None, a[0]
    lt = E.pointee(ci["atys"][0])
    if isinstance(v, VOp) and E.is_ptrlike(ci["atys"][0]):
        v = E.mk(ci["atys"][0], v.s)
    if not isinstance(v, VPtr):
        return None
    d = lock_data(E, lt)
    if d is None:
        return None
    g = VIter("guard", (VPtr(v.o, v.p + d),))
    if E.monitor:
        E.monitor.event(E, st, fr, "lock", (v, ci))
    return [(st, ok(E, ci, g))]


for n in ("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write",
          "std::sync::Mutex::<T>::try_lock", "std::sync::RwLock::<T>::try_read", "std::sync::RwLock::<T>::try_write"):
    MODELS[n] = m_lock


@model("re:^<std::sync::(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<'_, T> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_gderef(E, st, fr, a, ci):
    p, v = getv(E, st, a[0])
    if isinstance(v, VIter) and v.k == "guard":
        return [(st, v.a[0])]
    if isinstance(v, VOp):
        return [(st, E.mk(ci["dty"], A.nm("gderef", v.s)))]
    return None


@model("std::sync::Mutex::<T>::new", "std::sync::RwLock::<T>::new")
def m_mutexnew(E, st, fr, a, ci):
    ti = ci["dty"]
    t = E.T[ti]
    ad = E.P.adts.get(t["def"])
    fs = []
    for i, f in enumerate(ad["variants"][0]["fields"]):
        if f["name"] == "data":
            fs.append(VAgg(t["vf"][0][i], (a[0],)))
        else:
            fs.append(VOp(A.nm("mx", i), t["vf"][0][i]))
    return [(st, VAgg(ti, tuple(fs)))]


# ------------------------------------------------------------------ formatting, environment
@model("re:^core::fmt::rt::", "re:^std::fmt::", "std::hint::must_use", "std::io::_print", "std::io::_eprint", "std::fmt::format",
       "re:as std::string::ToString>::to_string$", "re:^<std::io::Stdout as", "std::io::stdout", "re:^std::time::", "rand::random",
       "re:^<.* as std::fmt::(Display|Debug)>::fmt$")
def m_fmt(E, st, fr, a, ci):
    r = ci.get("rpath") or ci.get("path")
    if "must_use" in r:
        return [(st, a[0])]
    k = ci.get("key")
    if k in E.P.fns and E.P.fns[k]["local"]:
        return None
    st = st.copy()
    return [(st, E.mk(ci["dty"], A.fresh_name("fmt")))]


@model("re:::precondition_check$", "re:runtime$", "std::intrinsics::assert_inhabited", "std::intrinsics::cold_path", "jemalloc_sys::malloc_stats_print",
       "std::intrinsics::assert_zero_valid")
def m_noop(E, st, fr, a, ci):
    if not (ci.get("rpath") or ci.get("path")).endswith(("precondition_check", "assert_inhabited", "cold_path", "malloc_stats_print", "assert_zero_valid")):
        return None
    return [(st, unit(E, ci))]


# ------------------------------------------------------------------ I/O traits
@model("re:(io::Write for .*|as std::io::Write>|std::io::Write)::write$", "re:(std::io::Write for .*|std::io::Write)::write_vectored$")
def m_iowrite(E, st, fr, a, ci):
    f = fat(E, st, a[1], ci["atys"][1])
    if f is None:
        return None
    n = L.fresh("io", 0, A.ISIZE_MAX)
    s = st.add_le(var(n) - f.n) or st
    s1, s2 = s.copy(), st.copy()
    if E.monitor:
        E.monitor.io(E, s1, fr, "write", a, f, True)
        E.monitor.io(E, s2, fr, "write", a, f, False)
    return [(s1, ok(E, ci, VInt(var(n)))), (s2, err(E, ci))]


@model("re:(io::Write for .*|as std::io::Write>|std::io::Write)::write_all$")
def m_iowall(E, st, fr, a, ci):
    f = fat(E, st, a[1], ci["atys"][1])
    if f is None:
        return None
    s1, s2 = st.copy(), st.copy()
    if E.monitor:
        E.monitor.io(E, s1, fr, "write_all", a, f, True)
        E.monitor.io(E, s2, fr, "write_all", a, f, False)
    return [(s1, ok(E, ci, VAgg(okty(E, ci["dty"]), ()))), (s2, err(E, ci))]


@model("re:(io::Write for .*|as std::io::Write>|std::io::Write)::flush$", "std::fs::File::sync_data", "std::fs::File::sync_all")
def m_ioflush(E, st, fr, a, ci):
    s1, s2 = st.copy(), st.copy()
    if E.monitor:
        k = (ci.get("rpath") or ci.get("path")).split("::")[-1]
        E.monitor.io(E, s1, fr, k, a, None, True)
        E.monitor.io(E, s2, fr, k, a, None, False)
    return [(s1, ok(E, ci, VAgg(okty(E, ci["dty"]), ()))), (s2, err(E, ci))]


@model("re:(io::Read for .*|as std::io::Read>|std::io::Read)::(read|read_exact)$")
def m_ioread(E, st, fr, a, ci):
    f = fat(E, st, a[1], ci["atys"][1])
    if f is None:
        return None
    exact = (ci.get("rpath") or ci.get("path")).endswith("read_exact")
    s1, s2 = st.copy(), st.copy()
    for s in (s1, s2):
        setcontents(E, s, f.o, f.p[:-1], f.p[-1][1], f.n, ("x", A.fresh_name("io")))
    if exact:
        return [(s1, ok(E, ci, VAgg(okty(E, ci["dty"]), ()))), (s2, err(E, ci))]
    n = L.fresh("io", 0, A.ISIZE_MAX)
    s1 = (s1.add_le(var(n) - f.n) or s1).copy()
    if E.monitor:
        E.monitor.io(E, s1, fr, "read", a, f, var(n))
    return [(s1, ok(E, ci, VInt(var(n)))), (s2, err(E, ci))]


@model("re:(io::Seek for .*|as std::io::Seek>|std::io::Seek)::seek$")
def m_ioseek(E, st, fr, a, ci):
    s1, s2 = st.copy(), st.copy()
    n = L.fresh("io", 0, 2 ** 64 - 1)
    return [(s1, ok(E, ci, VInt(var(n)))), (s2, err(E, ci))]


# ------------------------------------------------------------------ integers
@model("re:^core::num::<impl (u8|u16|u32|u64|usize|i32|i64|isize)>::(wrapping_add|wrapping_sub|wrapping_mul)$")
def m_wrap(E, st, fr, a, ci):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[(ci.get("rpath") or ci.get("path"))[-3:]]
    return E.binop(st, op, a[0], a[1], ci["dty"], fr)


@model("re:^core::num::<impl (u8|u16|u32|u64|usize|i32|i64|isize)>::(checked_add|checked_sub|checked_mul)$")
def m_checked(E, st, fr, a, ci):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[(ci.get("rpath") or ci.get("path"))[-3:]]
    ti = ci["atys"][0]
    la, lb = E.as_lin(a[0]), E.as_lin(a[1])
    if la is None or lb is None:
        return None
    st, r = E.arith(st, op, la, lb, ti)
    of = E.outrange(r, ti)
    return [(s, VEnum(ci["dty"], 0, ())) for s in E.branch(st, of)] + [(s, VEnum(ci["dty"], 1, (VInt(r),))) for s in E.branch(st, f_not(of))]


@model("re:^core::num::<impl (u8|u16|u32|u64|usize|i32|i64|isize)>::(overflowing_add|overflowing_sub|overflowing_mul)$")
def m_overflowing(E, st, fr, a, ci):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[(ci.get("rpath") or ci.get("path"))[-3:]]
    ti = ci["atys"][0]
    la, lb = E.as_lin(a[0]), E.as_lin(a[1])
    if la is None or lb is None:
        return None
    st, r = E.arith(st, op, la, lb, ti)
    of = E.outrange(r, ti)
    return [(s, VAgg(ci["dty"], (v, VBool(of)))) for s, v in E.binop(st, op, a[0], a[1], ti, fr)]


@model("re:^core::num::<impl (u8|u16|u32|u64|usize)>::(saturating_sub|saturating_add)$")
def m_sat(E, st, fr, a, ci):
    ti = ci["atys"][0]
    la, lb = E.as_lin(a[0]), E.as_lin(a[1])
    if la is None or lb is None:
        return None
    if (ci.get("rpath") or ci.get("path")).endswith("sub"):
        c, v, w = f_le(lb - la), la - lb, const(0)
    else:
        m = E.irange(ti)[1]
        c, v, w = f_le(la + lb - m), la + lb, const(m)
    return [(s, VInt(v)) for s in E.branch(st, c)] + [(s, VInt(w)) for s in E.branch(st, f_not(c))]


@model("re:^core::num::<impl u(8|16|32|64|size)>::to_le_bytes$", "re:^core::num::<impl u(8|16|32|64|size)>::to_ne_bytes$")
def m_tole(E, st, fr, a, ci):
    l = E.as_lin(a[0])
    t = E.T[ci["dty"]]
    n = t["n"]
    if l is None:
        return None
    l = st.norm(l)
    if l.is_const():
        els = tuple((i, VInt(const((l.c >> (8 * i)) & 255))) for i in range(n))
    elif n == 1:
        els = ((0, VInt(l)),)
    else:
        els = tuple((i, VOp(A.nm("byte", l, i, n), t["e"])) for i in range(n))
    return [(st, VArr(t["e"], const(n), els, A.nm("bytes", "le")))]


@model("re:^core::num::<impl u(8|16|32|64|size)>::to_be_bytes$")
def m_tobe(E, st, fr, a, ci):
    r = m_tole(E, st, fr, a, ci)
    if r is None:
        return None
    out = []
    for s, v in r:
        n = v.n.c
        out.append((s, VArr(v.ety, v.n, tuple((i, v.els[n - 1 - i][1]) for i in range(n)), A.nm("bytes", "be"))))
    return out


@model("re:^core::num::<impl u(8|16|32|64|size)>::from_be_bytes$")
def m_frombe(E, st, fr, a, ci):
    v = a[0]
    if isinstance(v, VOp) and v.ty is not None:
        v = E.mk(v.ty, v.s)
    if not isinstance(v, VArr) or not v.n.is_const():
        return None
    return [(st, from_le(E, st, [E.elem(st, v, const(v.n.c - 1 - i)) for i in range(v.n.c)], ci["dty"], None))]


@model("re:^core::num::<impl u(8|16|32|64|size)>::from_le_bytes$", "re:^core::num::<impl u(8|16|32|64|size)>::from_ne_bytes$")
def m_fromle(E, st, fr, a, ci):
    v = a[0]
    if isinstance(v, VOp) and v.ty is not None:
        v = E.mk(v.ty, v.s)
    if not isinstance(v, VArr) or not v.n.is_const():
        return None
    return [(st, from_le(E, st, [E.elem(st, v, const(i)) for i in range(v.n.c)], ci["dty"], None))]


@model("re:^core::num::<impl u(8|16|32|64|size)>::(is_power_of_two|leading_zeros|trailing_zeros|count_ones|rotate_left|rotate_right|swap_bytes|pow)$",
       "std::intrinsics::ctpop")
def m_numop(E, st, fr, a, ci):
    n = (ci.get("rpath") or ci.get("path")).split("::")[-1]
    if n == "leading_zeros" and ci.get("atys"):
        l = E.as_lin(a[0])
        r = E.irange(ci["atys"][0])
        if l is not None and r is not None:
            lo, hi = E.lower(st, l), E.upper(st, l)
            lo, hi = (0 if lo is None else lo), (r[1] if hi is None else hi)
            x, y = r[2] - lo.bit_length(), r[2] - hi.bit_length()
            if x == y:
                return [(st, VInt(const(x)))]
            v = E.mk(ci["dty"], A.nm("numop", n, tuple(E.vkey(st, q) for q in a)))
            st = st.add_le(v.l - x) or st
            st = st.add_le(const(y) - v.l) or st
            return [(st, v)]
    if n.startswith("rotate") and E.opts.get("rotshift") and ci.get("atys"):
        # as the two shifts it abbreviates
        w, q = E.irange(ci["atys"][0])[2], E.as_lin(a[1])
        q = st.norm(q) if q is not None else None
        if q is not None and q.is_const() and q.c % w:
            q = q.c % w if n == "rotate_right" else w - q.c % w
            out = []
            for s1, x in E.binop(st, "Shr", a[0], VInt(const(q)), ci["dty"], fr):
                for s2, y in E.binop(s1, "Shl", a[0], VInt(const(w - q)), ci["dty"], fr):
                    out += E.binop(s2, "BitOr", x, y, ci["dty"], fr)
            return out
    k = tuple(E.vkey(st, x) for x in a)
    return [(st, E.mk(ci["dty"], A.nm("numop", (ci.get("rpath") or ci.get("path")).split("::")[-1], k)))]


@model("std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max", "std::intrinsics::integer_min", "std::intrinsics::integer_max",
       "re:as std::cmp::Ord>::(min|max)$", "re:^std::cmp::impls::<impl std::cmp::Ord for [ui](8|16|32|64|size)>::(min|max)$")
def m_minmax(E, st, fr, a, ci):
    la, lb = (E.as_lin(x) if isinstance(x, VInt) or (ci.get("atys") and E.irange(ci["atys"][0])) else None for x in a[:2])
    if la is None or lb is None or E.irange(ci["dty"]) is None:
        return None
    mx = (ci.get("rpath") or ci.get("path")).endswith("max")
    return [(s, VInt(lb if mx else la)) for s in E.branch(st, f_le(la - lb))] + \
           [(s, VInt(la if mx else lb)) for s in E.branch(st, f_le(lb - la + 1))]


@model("std::cmp::Ord::clamp", "re:^std::cmp::impls::<impl std::cmp::Ord for [ui](8|16|32|64|size)>::clamp$")
def m_clamp(E, st, fr, a, ci):
    l = [E.as_lin(x) if isinstance(x, VInt) else None for x in a[:3]]
    if None in l or E.irange(ci["dty"]) is None:
        return None
    x, lo, hi = l
    out = []
    for s in E.require(st, "assert", f_le(lo - hi), fr, "clamp bounds"):
        out += [(t, VInt(lo)) for t in E.branch(s, f_le(x - lo + 1))]
        for t in E.branch(s, f_le(lo - x)):
            out += [(u, VInt(hi)) for u in E.branch(t, f_le(hi - x + 1))] + [(u, VInt(x)) for u in E.branch(t, f_le(x - hi))]
    return out


@model("std::intrinsics::atomic_xadd")
def m_xadd(E, st, fr, a, ci):
    if isinstance(a[0], VPtr):
        st = st.copy()
        old = E.read(st, a[0].o, a[0].p, ci["dty"])
        l = E.as_lin(old)
        d = E.as_lin(a[1])
        if l is not None and d is not None:
            s, r = E.modn(st, l + d, 1 << 64)
            s = s.copy()
            E.write(s, a[0].o, a[0].p, VInt(r))
            return [(s, old)]
    return None


def origin(E, st, arr, k, n):
    """(base, offset) when the n bytes of arr from k are bytes of one named array, in order"""
    def at(e):
        if not isinstance(e, VInt) or len(e.l.t) != 1 or e.l.c or e.l.t[0][1] != 1:
            return None
        x = L.SYM[e.l.t[0][0]]
        d = A._NMI[x[1]] if x[0] == "n" else (None,)
        return (d[1], d[2]) if d[0] == "elem" and len(d) == 3 else None
    o = E.opts.get("strip_els")
    E.opts["strip_els"] = True
    try:
        j = var(E.isym(A.nm("some index"), E.usz))
        sts = [x for y in st.assume(f_le(j + 1 - n)) for x in y.assume(f_le(-j))]
        if len(sts) != 1:
            return None
        r = at(E.elem(sts[0], arr, k + j))
        if r is None or j.t[0][0] in (r[1] - j).syms():
            return None
        return r[0], st.norm(r[1] - j)
    finally:
        E.opts["strip_els"] = o


def order(E, st, x, kx, y, ky, n, bits=8):
    """the ways two runs of n elements can compare: [(state, -1 | 0 | 1)]; None if unknown.
    Short runs are compared element by element; longer ones by what the check says about the arrays they come from."""
    n = st.norm(n)
    if n.is_const() and n.c <= E.opts.get("cmp_max", 24):
        out, cur = [], [st]
        for i in range(max(n.c, 0)):
            nxt = []
            for s in cur:
                p, q = E.elem(s, x, kx + i), E.elem(s, y, ky + i)
                if not isinstance(p, VInt) or not isinstance(q, VInt):
                    return None
                out += [(t, -1) for t in E.branch(s, f_le(p.l + 1 - q.l))]
                out += [(t, 1) for t in E.branch(s, f_le(q.l + 1 - p.l))]
                nxt += E.branch(s, f_eq(p.l - q.l))
            cur = nxt
        return out + [(s, 0) for s in cur]
    h = E.opts.get("order")
    if h is None:
        return None
    a, b = origin(E, st, x, kx, n), origin(E, st, y, ky, n)
    return h(E, st, a, b, n) if a is not None and b is not None else None


def runs(E, st, a, n, fr, what):
    """two element pointers to runs of n elements: states in which both are inside, with their arrays"""
    sts, ops = [st], []
    for i in (0, 1):
        p = as_elem_ptr(E, st, a[i])
        if p is None:
            ops.append(None)
            continue
        ext = extent(E, st, p)
        k = p.p[-1][1]
        if ext is not None:
            sts = [y for x in sts for y in E.require(x, "oob", f_or(f_eq(n), f_and(f_le(-k), f_le(k + n - ext))), fr, what)]
        v = E.read(st, p.o, p.p[:-1])
        ops.append((v, k) if isinstance(v, VArr) else None)
    return sts, ops


@model("util::comparator::memcmp", "util::slice::memcmp", "std::intrinsics::compare_bytes")
def m_memcmp(E, st, fr, a, ci):
    n = E.as_lin(a[2])
    if n is None:
        return None
    sts, ops = runs(E, st, a, n, fr, "memcmp operand")
    out = []
    for s in sts:
        r = order(E, s, ops[0][0], ops[0][1], ops[1][0], ops[1][1], n) if None not in ops else None
        if r is None:
            out.append((s, E.mk(ci["dty"], A.nm("memcmp", tuple(E.vkey(s, x) for x in a)))))
            continue
        for t, g in r:
            if g == 0:
                out.append((t, VInt(const(0))))
                continue
            # any value of that sign
            m = var(E.isym(A.nm("memcmp size", tuple(E.vkey(s, x) for x in a)), ci["dty"]))
            out += [(u, VInt(m)) for u in E.branch(t, f_le(m + 1) if g < 0 else f_le(const(1) - m))]
    return out


def cmp_slices(E, st, fr, a, ci):
    """[(state, -1|0|1)] for two slice operands, or None"""
    f, g = fat(E, st, a[0], ci["atys"][0]), fat(E, st, a[1], ci["atys"][1])
    if f is None or g is None:
        return None
    x, y = E.read(st, f.o, f.p[:-1]), E.read(st, g.o, g.p[:-1])
    if not isinstance(x, VArr) or not isinstance(y, VArr) or E.irange(x.ety) is None or E.irange(y.ety) is None:
        return None
    out = []
    for s in E.branch(st, f_le(f.n - g.n)):
        sign = [(u, t) for t, u in ((0, E.branch(s, f_eq(f.n - g.n))), (-1, E.branch(s, f_le(f.n + 1 - g.n))))]
        r = order(E, s, x, f.p[-1][1], y, g.p[-1][1], f.n)
        if r is None:
            return None
        for t, k in r:
            if k:
                out.append((t, k))
            else:
                out += [(u, 0) for u in E.branch(t, f_eq(f.n - g.n))] + [(u, -1) for u in E.branch(t, f_le(f.n + 1 - g.n))]
    for s in E.branch(st, f_le(g.n + 1 - f.n)):
        r = order(E, s, x, f.p[-1][1], y, g.p[-1][1], g.n)
        if r is None:
            return None
        out += [(t, k or 1) for t, k in r]
    return out


def ordering(E, ti, k):
    return VEnum(ti, variant_of(E, ti, {-1: "Less", 0: "Equal", 1: "Greater"}[k]), ())


def variant_of(E, ti, name):
    for i, v in enumerate(E.P.adts[E.T[ti]["def"]]["variants"]):
        if v["name"] == name:
            return i


@model("re:^core::slice::cmp::<impl std::cmp::(Ord|PartialOrd) for \\[T\\]>::(cmp|partial_cmp|lt|le|gt|ge)$")
def m_slcmp(E, st, fr, a, ci):
    r = cmp_slices(E, st, fr, a, ci)
    if r is None:
        return None
    op = (ci.get("rpath") or ci.get("path")).rsplit("::", 1)[1]
    if op == "cmp":
        return [(s, ordering(E, ci["dty"], k)) for s, k in r]
    if op == "partial_cmp":
        return [(s, VEnum(ci["dty"], 1, (ordering(E, E.T[ci["dty"]]["vf"][1][0], k),))) for s, k in r]
    f = {"lt": k_lt, "le": lambda k: k <= 0, "gt": lambda k: k > 0, "ge": lambda k: k >= 0}[op]
    return [(s, VBool(T if f(k) else F)) for s, k in r]


def k_lt(k):
    return k < 0


# ------------------------------------------------------------------ slice iterators
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "re:<impl std::iter::IntoIterator for &'a (mut )?\\[T(; N)?\\]>::into_iter$", "re:^<&'a (mut )?(std::vec::Vec<T, A>|\\[T(; N)?\\]) as std::iter::IntoIterator>::into_iter$")
def m_iter(E, st, fr, a, ci):
    f = fat(E, st, a[0], ci["atys"][0])
    return None if f is None else [(st, VIter("sl", (f, VInt(const(0)), VInt(f.n))))]


def _sl(E, st, a):
    p, v = getv(E, st, a)
    return (p, v) if isinstance(v, VIter) and v.k == "sl" else (None, None)


@model("re:^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$", "re:^<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back$")
def m_slnext(E, st, fr, a, ci):
    p, v = _sl(E, st, a[0])
    if v is None:
        return None
    f, lo, hi = v.a
    back = (ci.get("rpath") or ci.get("path") or "").endswith("next_back")
    out = []
    for s in E.branch(st, f_le(lo.l - hi.l + 1)):
        s = s.copy()
        i = hi.l - 1 if back else lo.l
        E.write(s, p.o, p.p, VIter("sl", (f, lo, VInt(hi.l - 1)) if back else (f, VInt(lo.l + 1), hi)))
        out.append((s, VEnum(ci["dty"], 1, (VPtr(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + i)),)),))))
    for s in E.branch(st, f_le(hi.l - lo.l)):
        out.append((s, VEnum(ci["dty"], 0, ())))
    return out


@model("re:^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::size_hint$")
def m_slhint(E, st, fr, a, ci):
    p, v = _sl(E, st, a[0])
    if v is None:
        return None
    n = VInt(v.a[2].l - v.a[1].l)
    o = E.T[ci["dty"]]["ts"][1] if E.T[ci["dty"]].get("ts") else None
    if o is None:
        return None
    return [(st, VAgg(ci["dty"], (n, VEnum(o, 1, (n,)))))]


@model("re:^<std::slice::Iter(Mut)?<.*> as std::iter::ExactSizeIterator>::(len|is_empty)$", "re:^std::iter::ExactSizeIterator::len$")
def m_sllen(E, st, fr, a, ci):
    p, v = _sl(E, st, a[0])
    if v is None:
        return None
    n = v.a[2].l - v.a[1].l
    if E.irange(ci["dty"]) is None:
        return [(st, VBool(f_eq(n)))]
    return [(st, VInt(n))]


@model("re:__iterator_get_unchecked$")
def m_slget(E, st, fr, a, ci):
    p, v = _sl(E, st, a[0])
    if v is None:
        return None
    f, lo, hi = v.a
    i = E.as_lin(a[1])
    if i is None:
        return None
    out = []
    for s in E.require(st, "oob", f_and(f_le(-i), f_le(lo.l + i + 1 - hi.l)), fr, "iterator element"):
        out.append((s, VPtr(f.o, f.p[:-1] + (("i", s.norm(f.p[-1][1] + lo.l + i)),))))
    return out


@model("std::slice::Iter::<'a, T>::as_slice")
def m_slslice(E, st, fr, a, ci):
    p, v = _sl(E, st, a[0])
    if v is None:
        return None
    f, lo, hi = v.a
    return [(st, VFat(f.o, f.p[:-1] + (("i", st.norm(f.p[-1][1] + lo.l)),), hi.l - lo.l))]
