"""Code tables.  The conversion functions between enums and numbers, the kind predicates and the constructors are evaluated by
abstract interpretation on a complete partition of their input (every enum variant; every known code; all other codes at once),
and the resulting tables must be injective, inverse to each other and name the right kind."""
import re
from .. import eq
from ..eq import *


def norm(n):
    n = re.sub(r"^(is|k|K)(?=[_A-Z])", "", n)
    n = n.replace("_", "").lower()
    n = re.sub(r"error$", "", n) if n not in ("error",) else n
    return n


def values(c, P, key, rule, build):
    """run `key` with the arguments build(E) gives -> [(st, v)]"""
    E = engine(P)
    st = ai.State()
    st, args = build(E, st)
    r = E.analyze(key, args, st)
    c.functions |= set(E.inlined)
    return E, r


def enum_table(c, P, key, ti):
    """variant name -> constant returned for it"""
    out = {}
    a = P.adts[P.types[ti]["def"]]
    for vi, v in enumerate(a["variants"]):
        def build(E, st, vi=vi):
            st, x = arg_value(E, st, P, key, 0, enum_val(E, ti, vi))
            return st, [x]
        E, r = values(c, P, key, "", build)
        cs = {const_of(s, x) for s, x in r}
        out[v["name"]] = cs.pop() if len(cs) == 1 else None
    return out


def from_table(c, P, key, codes):
    """code -> variant name or None (refused); plus 'other' for every code outside `codes`"""
    out = {}
    ti = ty_of_arg(P, key, 0)
    for code in list(codes) + ["other"]:
        E = engine(P)
        st = ai.State()
        x = E.mk(ti, ai.nm("code"))
        if code == "other":
            for k in codes:
                st = st.assume(("ne", x.l - k))[0]
        else:
            x = VInt(const(code))
        r = E.analyze(key, [x], st)
        c.functions |= set(E.inlined)
        res = set()
        for s, v in r:
            if not isinstance(v, VEnum):
                res.add("?")
                continue
            nme = vname(P, v)
            if nme in ("Ok", "Some"):
                res.add(vname(P, v.fs[0]) or "?")
            elif nme in ("Err", "None"):
                res.add(None)
            else:
                res.add(nme)
        out[code] = res
    return out


def run(c):
    P = c.P
    n = 0
    for enum in ("status::LevelError", "version_edit::Tag", "db_format::ValueType"):
        ti = adt_ti(P, enum)
        if not c.anchor(ti is not None, "enum " + enum):
            continue
        path = P.types[ti]["def"]
        gv = c.need(path + "::get_value")
        fr = P.one("<%s as std::convert::TryFrom<i32>>::try_from" % path) or P.one(path + "::from_value")
        c.anchor(fr, "conversion from a number to " + path)
        if not gv or not fr:
            continue
        tab = enum_table(c, P, gv, ti)
        n += len(tab)
        for v, k in tab.items():
            c.ob("code|%s|%s" % (path, v), k is not None, P.where(gv), "every variant has one constant code", "the code of %s is not one constant" % v)
        for v, k in tab.items():
            dup = [w for w, x in tab.items() if x == k and w != v]
            c.ob("distinct|%s|%s" % (path, v), not dup, P.where(gv), "codes are distinct", "%s and %s share code %s" % (v, dup, k))
        if enum.endswith("Tag") or enum.endswith("ValueType"):
            a = P.adts[path]
            for v in a["variants"]:
                c.ob("discr|%s|%s" % (path, v["name"]), v["discr"] == tab.get(v["name"]), P.where(gv), "the code of a tag is its declared value", "%s is declared as %s but has code %s" % (v["name"], v["discr"], tab.get(v["name"])))
        codes = [k for k in tab.values() if k is not None]
        back = from_table(c, P, fr, codes)
        n += len(back)
        for v, k in tab.items():
            if k is None:
                continue
            c.ob("inverse|%s|%s" % (path, v), back[k] == {v}, P.where(fr), "conversion from a code inverts conversion to it", "code %s of %s converts to %s" % (k, v, back[k]))
        c.ob("refused|%s" % path, back["other"] == {None}, P.where(fr), "unknown codes are refused", "a code of no variant converts to %s" % back["other"])

    # LevelDB's on-disk values
    disk = {"version_edit::Tag": {"comparator": 1, "lognumber": 2, "nextfilenumber": 3, "lastsequence": 4, "compactpointer": 5, "deletedfile": 6, "newfile": 7, "prevlognumber": 9},
            "db_format::ValueType": {"typedeletion": 0, "typevalue": 1}}
    for enum, want in disk.items():
        ti = adt_ti(P, enum)
        if ti is None:
            continue
        gv = P.one(P.types[ti]["def"] + "::get_value")
        if not gv:
            continue
        tab = {norm(v): k for v, k in enum_table(c, P, gv, ti).items()}
        for v, k in want.items():
            c.ob("disk|%s|%s" % (enum, v), tab.get(v) == k, P.where(gv), "codes written to disk are LevelDB's", "%s has code %s, LevelDB's is %s" % (v, tab.get(v), k))

    # predicates
    lev, sta = adt_ti(P, "status::LevelError"), adt_ti(P, "status::Status")
    if not c.anchor(lev is not None and sta is not None, "LevelError and Status"):
        return
    ef = next((i for i, x in enumerate(P.types[sta]["vf"][0]) if x == lev), None)
    if not c.anchor(ef is not None, "the error field of Status"):
        return
    vs = [v["name"] for v in P.adts[P.types[lev]["def"]]["variants"]]
    preds = 0
    for k in P.local:
        f = P.fns[k]
        m = re.match(r".*status::(LevelError|Status)::(is_\w+)$", f["path"])
        if not m or not f.get("identity"):
            continue
        who, name = m.groups()
        want = [v for v in vs if norm(v) == norm(name)]
        if not c.anchor(len(want) == 1, "the kind %s asks for" % f["path"]):
            continue
        preds += 1
        for vi, v in enumerate(vs):
            E = engine(P)
            x = enum_val(E, lev, vi)
            if who == "Status":
                fs = [x if i == ef else E.mk(t, ai.nm("sf", i)) for i, t in enumerate(P.types[sta]["vf"][0])]
                x = VAgg(sta, tuple(fs))
            st, a = arg_value(E, ai.State(), P, k, 0, x)
            r = E.analyze(k, [a], st)
            got = {const_of(s, y) for s, y in r}
            c.functions |= set(E.inlined)
            c.ob("predicate|%s|%s" % (f["path"], v), got == {1 if v == want[0] else 0}, P.where(k), "a predicate holds of exactly its own kind", "%s answers %s for %s" % (name, sorted(map(str, got)), v))
    c.floor("predicates", preds, 12)

    # constructors
    cons = 0
    for k in P.local:
        f = P.fns[k]
        m = re.match(r".*status::(LevelError)::(\w+)$", f["path"])
        if not f.get("identity"):
            continue
        src = None
        if m and f["locals"][0][0] == sta:
            src = m.group(2)
        elif f["path"].startswith("<util::status::Status as std::convert::From<std::io::Error>>"):
            src = "io_error"
        elif f["path"] == "<util::status::Status as std::default::Default>::default":
            src = "ok"
        if src is None:
            continue
        want = [v for v in vs if norm(v) == norm(re.sub(r"_string$|_str$", "", src))]
        if not c.anchor(len(want) == 1, "the kind %s makes" % f["path"]):
            continue
        cons += 1
        E = engine(P)
        r = E.analyze(k)
        got = {vname(P, field(E, s, v, ef)) for s, v in r}
        c.functions |= set(E.inlined)
        c.ob("constructor|%s" % f["path"], got == {want[0]}, P.where(k), "a constructor makes exactly its own kind", "%s makes %s" % (src, sorted(map(str, got))))
    c.floor("constructors", cons, 8)
    # wrappers and accessors keep the kind
    for nme in ("wrapper", "wrapper_str", "wrappers"):
        k = c.need("status::Status::" + nme)
        if not k:
            continue
        for vi, v in enumerate(vs):
            E = engine(P)
            args = [enum_val(E, lev, vi)] + [E.mk(ty_of_arg(P, k, i), ai.nm("arg", i)) for i in range(1, P.fns[k]["argc"])]
            got = {vname(P, field(E, s, x, ef)) for s, x in E.analyze(k, args)}
            c.ob("wrap|%s|%s" % (nme, v), got == {v}, P.where(k), "wrapping an error keeps its kind", "%s(%s) makes %s" % (nme, v, sorted(map(str, got))))
    k = c.need("status::Status::get_error")
    if k:
        for vi, v in enumerate(vs):
            E = engine(P)
            fs = [enum_val(E, lev, vi) if i == ef else E.mk(t, ai.nm("sf", i)) for i, t in enumerate(P.types[sta]["vf"][0])]
            got = {vname(P, x) for s, x in E.analyze(k, [VAgg(sta, tuple(fs))])}
            c.ob("get_error|%s" % v, got == {v}, P.where(k), "the accessor returns the kind stored", "get_error of %s returns %s" % (v, sorted(map(str, got))))
    k = P.one("<util::status::LevelError as std::default::Default>::default")
    if c.anchor(k, "LevelError::default"):
        E = engine(P)
        got = {vname(P, x) for s, x in E.analyze(k)}
        c.ob("default", got == {"KOk"}, P.where(k), "the default is success", "LevelError::default is %s" % got)

    # log record types
    want = {"K_ZERO_TYPE": 0, "K_FULL_TYPE": 1, "K_FIRST_TYPE": 2, "K_MIDDLE_TYPE": 3, "K_LAST_TYPE": 4}
    got = {}
    for s, d in P.statics.items():
        b = s.rsplit("::", 1)[-1]
        if b in want:
            got[b] = (d.get("val") or {}).get("int")
    for b, x in want.items():
        c.ob("record|" + b, got.get(b) == x, "src/db/log_writer.rs", "log record types have LevelDB's distinct codes", "%s is %s" % (b, got.get(b)))
    c.extra["tables"] = n
