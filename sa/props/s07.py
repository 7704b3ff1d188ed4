"""Unvalidated-text sinks.  Every construct that turns bytes into a str or String without checking them (from_utf8_unchecked,
String::from_raw_parts, transmutes and pointer casts to str/String, as_mut_vec / as_bytes_mut, from_u32_unchecked) must get bytes that
come from text, or be reached only over the success edge of a from_utf8 test of the same bytes; bytes appended to a String
through as_mut_vec must be text.  No formatting or display routine may panic on bytes that are not UTF-8."""
import re
from .. import q

SINK = re.compile(r"(from_utf8_unchecked(_mut)?|from_boxed_utf8_unchecked|String::from_raw_parts|str::as_bytes_mut|String::as_mut_vec|from_raw_parts_mut?::<str>|char::from_u32_unchecked|get_unchecked_mut::<str>|from_ptr_range)$")
CHECK = re.compile(r"::from_utf8$")
TEXT = re.compile(r"::(as_bytes|into_bytes|to_string|from_utf8_lossy|as_str|into_owned|format|to_owned)$")


def texty(P, ti):
    t = P.types[ti]
    while t["k"] in ("ref", "ptr"):
        t = P.types[t["e"]]
    if t["k"] == "str":
        return True
    return t["k"] == "adt" and t["def"] in ("std::string::String",)


def bytesy(P, ti):
    t = P.types[ti]
    while t["k"] in ("ref", "ptr"):
        t = P.types[t["e"]]
    if t["k"] in ("slice", "array"):
        return P.types[t["e"]]["s"] in ("u8", "i8")
    if t["k"] == "adt":
        if t["def"] in ("std::vec::Vec", "std::boxed::Box", "std::mem::MaybeUninit"):
            a = q.adt_arg(t)
            return a is not None and (P.types[a]["s"] == "u8" or bytesy(P, a))
        a = P.adts.get(t["def"])
        return bool(a and a["local"])
    return t["k"] in ("int", "uint")


def roots(fl, l):
    """argument locals and called producers a byte value derives from"""
    src, locs = fl.sources(l)
    return {x for x in locs if 1 <= x <= fl.f["argc"]}


def narrowed(fl, l):
    """the bytes are only a part of a buffer"""
    src, _ = fl.sources(l, through=lambda t: [0])
    return any(s[0] == "call" and re.search(r"::(index|index_mut|get|split_at|split_first|split_last|first|last|chunks|take|trim\w*|as_sub_ref|remove_prefix|get_unchecked)$", q.cname(s[2])) for s in src)


def validated(P, key, fl, b, l):
    """sink at block b on bytes of local l: reached only after a successful from_utf8 of the same bytes"""
    f = P.fns[key]
    cfg = P.cfg(key)
    want = roots(fl, l)
    edges = set()
    for bb, t in q.calls(f):
        if CHECK.search(q.cname(t)) and t["a"] and q.op_local(t["a"][0]) is not None:
            if narrowed(fl, q.op_local(t["a"][0])):
                continue
            if roots(fl, q.op_local(t["a"][0])) == want or fl.derived(q.op_local(t["a"][0])) & {l}:
                ok, er = q.result_edges(P, key, bb, t, fl)
                edges |= ok
    return bool(edges) and not q.reach_without(cfg, 0, b, edges)


def from_text(P, key, fl, l, seen_calls=0):
    """the bytes come from a str / String"""
    f = P.fns[key]
    src, locs = fl.sources(l, through=lambda t: [] if TEXT.search(q.cname(t)) else [0])
    srcty = []
    for x in locs:
        if 1 <= x <= f["argc"]:
            srcty.append(texty(P, f["locals"][x][0]))
    for s in src:
        if s[0] == "call" and (TEXT.search(q.cname(s[2])) or texty(P, s[2]["dt"])):
            srcty.append(True)
        if s[0] == "const" and texty(P, s[1]["ty"]):
            srcty.append(True)
    return bool(srcty) and all(srcty)


def run(c):
    P = c.P
    nf = ns = 0
    for k in P.local:
        f = P.fns[k]
        if not (f.get("identity") or f.get("closure")) or f["path"].startswith("_::"):
            continue
        nf += 1
        c.functions.add(k)
        fl = None
        sinks = []
        for b, t in q.calls(f):
            nme = [x for x in q.names(t) if SINK.search(x)]
            if nme:
                sinks.append((b, t["a"][0] if t["a"] else None, nme[0], t["ln"], t))
        for b, j, s in q.stmts(f):
            if s[0] == "=" and s[2][0] == "cast":
                r = s[2]
                if (r[1].startswith("Transmute") or r[1] in ("PtrToPtr",)) and texty(P, r[4]) and not texty(P, r[3]) and bytesy(P, r[3]):
                    sinks.append((b, r[2], "cast %s -> %s" % (P.types[r[3]]["s"], P.types[r[4]]["s"]), s[3], None))
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "rawptr" and P.types[s[2][1][1]]["k"] == "str":
                sinks.append((b, s[2][2][0], "raw str pointer", s[3], None))
        for b, o, what, ln, t in sinks:
            ns += 1
            fl = fl or q.Flow(P, k)
            l = q.op_local(o) if o else None
            if t is not None and what.endswith("as_mut_vec"):
                ok = vec_view(P, k, fl, t)
                det = "bytes that may not be UTF-8 are written into a String through as_mut_vec"
            else:
                ok = l is not None and (from_text(P, k, fl, l) or validated(P, k, fl, b, l))
                det = "%s makes text of bytes that are not known to be UTF-8" % what
            c.ob("sink|%s|%s" % (f["path"], what), ok, P.where(k, ln), "bytes become text only when they are valid UTF-8", det)
    c.extra["sinks"] = ns
    c.floor("functions", nf, 300)
    # formatting never panics on bytes that are not UTF-8
    G = q.Calls(P)
    fmts = [k for k in P.local if P.fns[k].get("identity") and re.search(r"(Display|Debug)>::fmt$|ToString>::to_string$|as std::fmt::\w+>::fmt$|borrow_data$", P.fns[k]["path"])]
    c.floor("formatting routines", len(fmts), 8)
    for k in fmts:
        for x in G.reach([k]):
            f = P.fns[x]
            if not f["local"]:
                continue
            for b, t in q.calls(f):
                if CHECK.search(q.cname(t)) or q.cname(t).endswith("str::converts::from_utf8"):
                    bad = panics_on_err(P, x, b, t)
                    c.ob("fmtpanic|%s|%s" % (P.fns[k]["path"], f["path"]), not bad, P.where(x, t["ln"]), "display and formatting accept every byte string",
                         "%s reaches %s, which panics when the bytes are not UTF-8" % (P.fns[k]["path"], f["path"]))


def panics_on_err(P, key, b, t):
    fl = q.Flow(P, key)
    der = fl.derived(t["d"][0], through=lambda t: [0] if re.search(r"::(branch|map_err|as_ref|ok|map)$", q.cname(t)) else [])
    for l in der:
        for (bb, j, kind, s) in fl.uses.get(l, []):
            if kind == "arg" and q.cname(s[0]).split("::")[-1] in ("unwrap", "expect") and s[1] == 0:
                return True
    return False


def vec_view(P, key, fl, t):
    """&mut Vec<u8> of a String: only drained (as the source of append / read), or the String is not used afterwards"""
    f = P.fns[key]
    der = fl.derived(t["d"][0], through=lambda t: [0] if q.cname(t).split("::")[-1] in ("as_slice", "deref", "as_ref", "deref_mut", "as_mut_slice", "as_mut") else [])
    for l in der:
        for (b, j, kind, s) in fl.uses.get(l, []):
            if kind == "arg":
                ct, n = s
                short = q.cname(ct).split("::")[-1]
                if short == "append" and n == 1:
                    continue
                if n == 0 and short in ("push", "append", "extend_from_slice", "extend", "insert", "set_len", "resize", "as_mut_ptr", "copy_from_slice", "write", "write_all"):
                    return False
            if kind == "store":
                return False
    return True
