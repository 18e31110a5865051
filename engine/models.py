"""Models of the library functions the analysed crate calls (std, log, ress' scanner accessors)."""
import re
from core import *

DECLINE = object()
_TABLE = []
_CACHE = {}


def model(*pats):
    def deco(fn):
        for p in pats:
            _TABLE.append((re.compile(p), fn))
        return fn

    return deco


def lookup(path, inst):
    r = _CACHE.get(path, 0)
    if r == 0:
        r = None
        for p, fn in _TABLE:
            if p.search(path):
                r = fn
                break
        _CACHE[path] = r
    return r


_INTERP = re.compile(
    r"^(<?std::option::Option|<?std::result::Result|<T as std::convert::(Into|From|TryInto|TryFrom|AsRef|AsMut)|"
    r"<&.* as std::convert::AsRef|std::cmp::|<.* as std::cmp::PartialEq|std::ops::|<.* as std::ops::(FnOnce|FnMut|Fn)|"
    r"core::ops::|std::convert::|<std::boxed::Box<.*> as std::ops::(FnOnce|FnMut|Fn)|core::bool|std::bool|"
    r"core::num::<impl|std::ops::control_flow|<std::ops::ControlFlow|std::mem::drop|core::mem::drop|"
    r"resast::|<resast::|ressa::resast|<ressa::resast|ressa::ress::refs::RefToken::|ressa::ress::refs::RefItem::|ressa::ress::refs::tokens::RefToken::|"
    r"ressa::ress::Keyword::|ressa::ress::Punct::|<ressa::ress::.*PartialEq|ressa::ress::refs::.*::(is_|matches)|ressa::ress::(is_|Boolean|refs::RefIdent))"
)


def interpretable(inst):
    if inst["crate"] == "ressa":
        return True
    return bool(_INTERP.search(inst["path"]))


# ------------------------------------------------------------------ helpers
def dtid(ex, st, dest):
    return ex.dest_tid(st, dest)


def op(ex, name, args, tid):
    return mk("y", ("op", name, tuple(args)), tid)


def some(ex, tid, v):
    t = ex.prog.types[tid]
    k = next(i for i, x in enumerate(t["vars"]) if x["name"] == "Some")
    return mk("adt", tid, k, (v,))


def none(ex, tid):
    t = ex.prog.types[tid]
    k = next(i for i, x in enumerate(t["vars"]) if x["name"] == "None")
    return mk("adt", tid, k, ())


def is_option(ex, tid):
    return tid is not None and ex.prog.adt_name(tid) == "Option"


def refval(v):
    return mk("ref", ("K", v), ())


def stringy(ex, v):
    t = NODES[v]
    if t[0] == "s":
        return True
    if t[0] == "tkp":
        return t[2] == ex.T.ident_v
    if t[0] == "y":
        if t[1][0] == "op" and t[1][1] in ("text", "str", "fmt"):
            return True
        if t[2] is not None:
            ty = ex.prog.types[t[2]]
            if ty["k"] == "str" or (ty["k"] == "adt" and ty["name"].endswith(("string::String", "::Ident"))):
                return True
    return False


def text_of(v):
    """token label whose source text v is, or None"""
    t = NODES[v]
    if t[0] == "y" and t[1][0] == "op" and t[1][1] == "text":
        x = NODES[t[1][2][0]]
        if x[0] == "tk":
            return x[1]
    if t[0] == "tkp":
        return t[1]
    return None


def string_eq(ex, st, a, b):
    ta, tb = NODES[a], NODES[b]
    if a == b:
        return TRUE
    if ta[0] == "s" and tb[0] == "s":
        return I(int(ta[1] == tb[1]))
    if tb[0] != "s" and ta[0] == "s":
        a, b, ta, tb = b, a, tb, ta
    la = text_of(a)
    if la is not None and tb[0] == "s":
        return op(ex, "texteq", (mk("tk", la), b), ex.bool_tid())
    if tb[0] == "s":
        return op(ex, "streq", (a, b), ex.bool_tid())
    return op(ex, "eq", tuple(sorted((a, b), key=lambda z: ex.show(st, z))), ex.bool_tid())


# ------------------------------------------------------------------ logging
@model(r"^std::cmp::PartialOrd::(le|lt|ge|gt)$")
def m_le(ex, st, inst, args, dest, target):
    if "log::Level" in inst["name"]:
        return ex.cont(st, dest, target, FALSE)
    return DECLINE


@model(r"::log::", r"^log::")
def m_log(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, op(ex, "log", (), dtid(ex, st, dest)))


# ------------------------------------------------------------------ box
@model(r"^std::boxed::Box::<T>::(new|pin)$", r"^<std::boxed::Box<T> as std::convert::From<T>>::from$",
       r"^std::hint::must_use$", r"^std::convert::identity$")
def m_ident(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, args[0])


@model(r"^std::boxed::Box::<T>::new_uninit$")
def m_uninit(ex, st, inst, args, dest, target):
    free = mk("freed")
    A = list(st.A)
    for i, v in enumerate(A):
        if v == free:
            break
    else:
        i = len(A)
        A.append(free)
    A[i] = mk("unk")
    st.A = tuple(A)
    return ex.cont(st, dest, target, mk("ref", ("A", i), ()))


def unwrap_array(v):
    t = NODES[v]
    while t[0] == "adt" and t[3]:
        v = t[3][-1]
        t = NODES[v]
    return v


@model(r"box_assume_init_into_vec_unsafe$", r"^std::slice::<impl \[T\]>::into_vec$", r"^<std::vec::Vec<T> as std::convert::From<.*\[T; N\]>>::from$")
def m_box_vec(ex, st, inst, args, dest, target):
    et = vec_elem(ex, dtid(ex, st, dest))
    a0 = args[0]
    t0 = NODES[a0]
    arr = NODES[unwrap_array(ex.read(st, t0[1], t0[2]) if t0[0] == "ref" else a0)]
    if arr[0] == "arr":
        r = ex.settle(st, [ex.freeze(st, e) for e in arr[1]])
        if r is not None:
            return r
        if len(arr[1]) == 1:
            # the list of the only element of a list is that list
            e = NODES[ex.solid(st, ex.freeze(st, arr[1][0]))]
            if e[0] == "y" and e[1][0] == "op" and e[1][1] == "index" and e[1][2][1] == I(0) and NODES[e[1][2][0]][0] == "y" and single(ex, st, e[1][2][0]):
                return ex.cont(st, dest, target, e[1][2][0])
    hold = None
    if t0[0] != "ref":
        # keep the array in a cell so that it is relabelled with the rest of the state
        st.A = st.A + (a0,)
        hold = len(st.A) - 1
        a0 = mk("ref", ("A", hold), ())
    v, vname = new_vec(ex, st, et)
    t0 = NODES[a0]
    arr = unwrap_array(ex.read(st, t0[1], t0[2]))
    if t0[1][0] == "A":
        if hold is not None:
            st.A = st.A[:hold]
        else:
            A = list(st.A)
            A[t0[1][1]] = mk("freed")
            st.A = tuple(A)
    t = NODES[arr]
    if t[0] != "arr":
        ex.warn.add("vec! of unknown array")
        return ex.cont(st, dest, target, op(ex, "vec", (arr,), dtid(ex, st, dest)))
    elems = t[1]
    if not elems:
        return ex.cont(st, dest, target, v)
    ev = ("push", ex.show(st, v), tuple(ex.solid(st, ex.freeze(st, e)) for e in elems))
    ex.assign(st, dest, mk("vec", et, NODES[v][2], len(elems) if len(elems) < 3 else "+"))
    if target is None:
        return []
    st.frames[-1].bb = target
    return [(ev, st)]


def vec_elem(ex, tid):
    t = ex.prog.types[tid]
    while t["k"] in ("ref", "ptr"):
        t = ex.prog.types[t["e"]]
    return t["args"][0]


def new_vec(ex, st, et):
    kind = "vec:" + ex.prog.tname(et)
    fn = ex.ager(kind)
    ex.relabel_state(st, fn)
    ex._last_vec_ager = fn
    v = mk("vec", et, ("R", kind, 0), 0)
    return v, ex.show(st, v)


# ------------------------------------------------------------------ Vec
@model(r"^std::vec::Vec::<T(, A)?>::(new|with_capacity)$", r"^<std::vec::Vec<T> as std::default::Default>::default$")
def m_vec_new(ex, st, inst, args, dest, target):
    v, _ = new_vec(ex, st, vec_elem(ex, dtid(ex, st, dest)))
    return ex.cont(st, dest, target, v)


def vec_at(ex, st, a):
    """(cell, path, vecvid) behind the reference a, or None"""
    n = 0
    while n < 6:
        t = NODES[a]
        if t[0] != "ref":
            return None
        v = ex.read(st, t[1], t[2])
        tv = NODES[v]
        if tv[0] == "ref":
            a = v
            n += 1
            continue
        return t[1], t[2], v
    return None


def inc(n, k=1):
    if isinstance(n, int):
        n += k
        return n if n < 3 else "+"
    return n if n == "+" or k == 0 else "+"


def drop_facts(st, v):
    for f in list(st.facts):
        if v in _closure(f):
            del st.facts[f]


_CL = {}


def _closure(v):
    r = _CL.get(v)
    if r is None:
        s = {v}
        for c in children(v):
            s |= _closure(c)
        r = _CL[v] = frozenset(s)
    return r


@model(r"^std::vec::Vec::<T, A>::push$")
def m_push(ex, st, inst, args, dest, target):
    loc = vec_at(ex, st, args[0])
    if loc is None:
        return DECLINE
    c, p, v = loc
    tv = NODES[v]
    x = ex.freeze(st, args[1])
    r = ex.settle(st, (x,))
    if r is not None:
        return r
    x = ex.solid(st, x)
    name = ex.show(st, v)
    drop_facts(st, v)
    if tv[0] == "vec":
        ex.write(st, c, p, mk("vec", tv[1], tv[2], inc(tv[3])))
    val = ex.freeze(st, x)
    ex.assign(st, dest, UNIT)
    st.frames[-1].bb = target
    return [(("push", name, (val,)), st)]


@model(r"^std::vec::Vec::<T, A>::(append|extend_from_slice)$", r"^<std::vec::Vec<T, A> as std::iter::Extend")
def m_append(ex, st, inst, args, dest, target):
    loc = vec_at(ex, st, args[0])
    if loc is None:
        return DECLINE
    c, p, v = loc
    tv = NODES[v]
    src = ex.deref(st, args[1])
    if inst["path"].endswith("extend") or "Extend" in inst["path"]:
        it = as_iter(ex, st, args[1])
        if it is None:
            return DECLINE
        ex.assign(st, dest, UNIT)
        return drive(ex, st, "extend", it, v, args[0], dest, target)
    if inst["path"].endswith("append"):  # the elements of the other one are moved over one by one
        loc2 = vec_at(ex, st, args[1])
        if loc2 is not None and NODES[src][0] in ("vec", "y") and loc2[0][0] != "K":
            if NODES[src][0] == "vec":
                ex.write(st, loc2[0], loc2[1], mk("vec", NODES[src][1], NODES[src][2], 0))
            ex.assign(st, dest, UNIT)
            return drive(ex, st, "extend", mk("it", "own", (src,), ()), v, args[0], dest, target)
    drop_facts(st, v)
    if tv[0] == "vec":
        ex.write(st, c, p, mk("vec", tv[1], tv[2], "+"))
    s = NODES[src]
    if s[0] == "vec" and NODES[args[1]][0] == "ref":
        t = NODES[args[1]]
        if inst["path"].endswith("append"):
            ex.write(st, t[1], t[2], mk("vec", s[1], s[2], 0))
    ex.assign(st, dest, UNIT)
    st.frames[-1].bb = target
    return [(("push", ex.show(st, v), (mk("y", ("op", "all-of", (ex.freeze(st, src),)), None),)), st)]


def fresh_elem(ex, st, et, kind):
    fn = ex.ager(kind)
    ex.relabel_state(st, fn)
    ty = ex.prog.types[et]
    isref = ty["k"] == "ref"
    e = ty["e"] if isref else ex.strip_box(et)
    t2 = ex.prog.types[e]
    if t2["k"] == "adt" and t2["name"].endswith("refs::RefItem"):
        v = mk("item", ("R", kind, 0))
        st.toks[("R", kind, 0)] = ex.T.VIS
    else:
        v = mk("y", ("R", kind, 0), e)
    return refval(v) if isref else v


def single(ex, st, v):
    """the list is known to have exactly one element"""
    tv = NODES[v]
    if tv[0] == "vec":
        return tv[3] == 1
    n = ex.length(st, v)
    key = mk("y", ("op", "eq", tuple(sorted((n, I(1)), key=lambda z: ex.show(st, z)))), ex.bool_tid())
    return st.facts.get(key) == 2


def only(ex, st, c, p, v, et, dest, target, wrap):
    """take the only element of a list"""
    if NODES[v][0] == "y":
        # the list itself is not looked at again: its element stands for it
        st = st.copy()
        el = op(ex, "index", (v, I(0)), ex.strip_box(et))
        ex.write(st, c, p, mk("vec", et, ("par", "emptied"), 0))
        return [(None, ex.after(st, dest, target, wrap(el)))]
    name = ex.show(st, v)
    s = st.copy()
    drop_facts(s, v)
    if NODES[v][0] == "vec":
        ex.write(s, c, p, mk("vec", NODES[v][1], NODES[v][2], 0))
    kind = "pop:" + name.replace("'", "").split(":")[0]
    el = fresh_elem(ex, s, et, kind)
    s = ex.after(s, dest, target, wrap(el))
    return [(("pop", name, oc), s3) for s3, oc in ex.presplit_facts(s, kind)]


@model(r"^std::vec::Vec::<T, A>::(remove|swap_remove)$")
def m_remove(ex, st, inst, args, dest, target):
    loc = vec_at(ex, st, args[0])
    dt = dtid(ex, st, dest)
    if loc is None or dt is None or NODES[args[1]] != ("i", 0) or not single(ex, st, loc[2]):
        return DECLINE
    c, p, v = loc
    return only(ex, st, c, p, v, dt, dest, target, lambda el: el)


@model(r"^std::vec::Vec::<T, A>::pop$")
def m_pop(ex, st, inst, args, dest, target):
    loc = vec_at(ex, st, args[0])
    if loc is None:
        return DECLINE
    c, p, v = loc
    tv = NODES[v]
    dt = dtid(ex, st, dest)
    n = tv[3] if tv[0] == "vec" else "?"
    out = []
    et = ex.prog.types[dt]["args"][0]
    name = ex.show(st, v)
    if n == "?" and single(ex, st, v):
        return only(ex, st, c, p, v, et, dest, target, lambda el: some(ex, dt, el))
    if n == 0:
        return ex.cont(st, dest, target, none(ex, dt))
    s = st.copy()
    drop_facts(s, v)
    if tv[0] == "vec":
        ex.write(s, c, p, mk("vec", tv[1], tv[2], n - 1 if isinstance(n, int) else "?"))
    kind = "pop:" + name.replace("'", "").split(":")[0]
    el = fresh_elem(ex, s, et, kind)
    s = ex.after(s, dest, target, some(ex, dt, el))
    for s3, oc in ex.presplit_facts(s, kind):
        out.append((("pop", name, oc), s3))
    if n == "?":
        s2 = st.copy()
        out.append((("pop-none", name), ex.after(s2, dest, target, none(ex, dt))))
    return out


@model(r"^std::vec::Vec::<T, A>::(len|is_empty)$", r"^core::slice::<impl \[T\]>::(len|is_empty)$", r"^std::slice::<impl \[T\]>::(len|is_empty)$")
def m_len(ex, st, inst, args, dest, target):
    v = ex.deref(st, args[0])
    n = ex.length(st, v)
    if inst["path"].endswith("is_empty"):
        tn = NODES[n]
        if tn[0] == "i":
            n = I(int(tn[1] == 0))
        elif NODES[v][0] == "vec" and NODES[v][3] == "+":
            n = FALSE
        else:
            n = mk("cmp", "Eq", n, I(0))
    return ex.cont(st, dest, target, n)


@model(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref", r"^std::vec::Vec::<T, A>::as_(mut_)?slice$",
       r"^<std::string::String as std::ops::Deref(Mut)?>::deref", r"^std::string::String::as_str$",
       r"^<std::string::String as std::convert::AsRef<str>>::as_ref$", r"^<.* as std::borrow::Borrow<.*>>::borrow$",
       r"^<std::boxed::Box<T(, A)?> as std::(ops::Deref|convert::AsRef|ops::DerefMut|convert::AsMut).*$",
       r"^std::option::Option::<&.*>::(cloned|copied)$", r"^std::string::String::into_boxed_str$")
def m_deref(ex, st, inst, args, dest, target):
    if "cloned" in inst["path"] or "copied" in inst["path"]:
        o = NODES[args[0]]
        if o[0] == "adt" and o[3]:
            return ex.cont(st, dest, target, mk("adt", dtid(ex, st, dest), o[2], (ex.deref(st, o[3][0]),)))
        return ex.cont(st, dest, target, mk("adt", dtid(ex, st, dest), o[2], ())) if o[0] == "adt" else DECLINE
    return ex.cont(st, dest, target, args[0])


@model(r"as std::ops::Index<I>>::index(_mut)?$", r"^core::slice::index::<impl std::ops::Index<I> for \[T\]>::index$", r"<impl std::ops::Index<I> for str>::index$")
def m_index(ex, st, inst, args, dest, target):
    base = ex.deref(st, args[0])
    idx = args[1]
    dt = dtid(ex, st, dest)
    e = ex.prog.types[dt]["e"] if dt is not None and ex.prog.types[dt]["k"] == "ref" else None
    ety = ex.prog.types[e] if e is not None else {"k": "?"}
    if ex.pos:
        r = ex.piece(st, base, idx)
        if r is not None:
            return ex.cont(st, dest, target, refval(op(ex, "piece", (base,) + r, e)))
    if ety["k"] == "str":
        # slice of the source by a token's span == that token's text
        ti = NODES[idx]
        if ti[0] == "adt" and len(ti[3]) == 2:
            a, b = NODES[ti[3][0]], NODES[ti[3][1]]
            if a[0] == "y" and b[0] == "y" and a[1][0] == "fld" and b[1][0] == "fld" and a[1][1] == b[1][1] and (a[1][3], b[1][3]) == (0, 1):
                sp = NODES[a[1][1]]
                if sp[0] == "y" and sp[1][0] == "op" and sp[1][1] == "span" and is_source(ex, st, base):
                    return ex.cont(st, dest, target, refval(op(ex, "text", sp[1][2], e)))
        return slips(st, text_slip(ex, st, base, idx), ex.cont(st, dest, target, refval(op(ex, "str", (base, idx), e))))
    if ety["k"] == "adt" and ety["name"].endswith("refs::RefItem"):
        return ex.cont(st, dest, target, refval(mk("item", ("itm", base, 0, 0))))
    n = NODES[ex.length(st, base)]
    i = NODES[idx]
    bad = i[0] == "i" and (i[1] < 0 or n[0] == "i" and i[1] >= n[1])
    if n[0] == "i" and n[1] == 0 and i[0] == "y" and i[1][0] == "op" and i[1][1] == "Sub":
        bad = True
    if n[0] != "i":
        low = ex.least(ex.show(st, base))
        last = ex.show(st, idx) == "Sub(len(%s),1)" % ex.show(st, base)
        if low is not None and (i[0] == "i" or last):
            ls = lengths(ex, st, base, low, (i[1] if i[0] == "i" else 0) + 1)
            bad = bool(ls) and (last and ls[0] == 0 or not last and ls[0] <= i[1])
    return slips(st, "element %s of a list of %s" % (ex.show(st, idx), n[1] if n[0] == "i" else "any length") if bad else None, ex.cont(st, dest, target, refval(op(ex, "index", (base, idx), e))))


MEASURES = ("len(%s)", "starts_with(%s,", "ends_with(%s,", "contains(%s,", "find(%s,", "is_char_boundary(%s,", "has-index(%s,")


def measured(ex, st, base):
    """this path has asked something that bears on the length of the list or text"""
    b = ex.show(st, base)
    pats = [m % b for m in MEASURES]
    return any(x in s for s in (ex.show(st, k) for k in st.facts) for x in pats)


def lengths(ex, st, base, low, high):
    """the lengths from low to high of the list that nothing decided on this path excludes; None if something asked of it is not understood"""
    b = ex.show(st, base)
    pats = [m % b for m in MEASURES]
    ask = []
    for k, m in st.facts.items():
        s = ex.show(st, k)
        if any(x in s for x in pats):
            t = NODES[k]
            if t[0] != "y" or t[1][0] != "op" or t[1][1] not in ("eq", "Lt", "Le") or len(t[1][2]) != 2:
                return None
            ask.append((t[1][1], t[1][2], m))

    def val(v, n):
        t = NODES[v]
        return t[1] if t[0] == "i" else n if v == ln else None

    ln = ex.length(st, base)
    res = []
    for n in range(low, high + 1):
        for o, (x, y), m in ask:
            x, y = val(x, n), val(y, n)
            if x is None or y is None:
                return None
            if not m & (2 if {"eq": x == y, "Lt": x < y, "Le": x <= y}[o] else 1):
                break
        else:
            res.append(n)
    return res


def slips(st, what, out):
    """out, with the panic that an index or slice out of range is (seen by rules.panics only)"""
    return out if what is None else [(("panic", "slip: " + what), None), (None, st)]


# variant of the token -> (least length, bytes known to be ASCII at the front, at the back)
SHAPE = {"String": (2, 1, 1), "Template:Head": (3, 1, 2), "Template:Body": (3, 1, 2), "Template:NoSub": (2, 1, 1), "Template:Tail": (2, 1, 1), "RegEx": (3, 1, 0), "Numeric": (1, 99, 99), "Ident": (1, 0, 0), "Comment": (2, 2, 0), "EoF": (0, 0, 0)}


def text_shape(ex, st, base):
    """(least length, ASCII bytes at the front, at the back) of a text, or None if nothing is known of it"""
    t = NODES[base]
    if t[0] == "s":
        return (len(t[1]), 99, 99) if t[1].isascii() else None
    l = text_of(base)
    if l is not None:
        m = st.toks.get(l, ex.T.VIS)
        vs = ex.prog.types[ex.T.tid]["vars"]
        got = []
        for c, (vi, pi, text, name) in enumerate(ex.T.classes):
            if m >> (2 * c) & 3:
                if name in SHAPE:
                    got.append(SHAPE[name])
                elif vs[vi]["name"] in SHAPE and (text is None or not text.isidentifier()):
                    got.append(SHAPE[vs[vi]["name"]])
                elif text and text.isidentifier():
                    got.append((len(text), 99, 99))
                elif name.startswith("p:"):
                    got.append((1, 99, 99))
                else:
                    got.append((1, 0, 0))
        return tuple(min(g[i] for g in got) for i in range(3)) if got else None
    if ex.show(st, base).endswith("String.0") and ".Literal." in ex.show(st, base):
        return SHAPE["String"]
    return None


def text_slip(ex, st, base, idx):
    """why a slice between fixed distances from the two ends can fall outside the text or inside a character, or None"""
    t = NODES[idx]
    if t[0] != "adt":
        return None
    nm = ex.prog.adt_name(t[1]).split("::")[-1]
    sh = text_shape(ex, st, base)
    if measured(ex, st, base):
        return None
    if sh is None or not nm.startswith("Range"):
        return None
    ends = []  # (distance, from the back?)
    for b in t[3]:
        b = NODES[b]
        if b[0] == "i":
            ends.append((b[1], False))
        elif b[0] == "y" and b[1][0] == "op" and b[1][1] in ("Sub", "len"):
            l = b if b[1][1] == "len" else NODES[b[1][2][0]]
            c = NODES[b[1][2][1]] if b[1][1] == "Sub" else ("i", 0)
            if l[0] != "y" or l[1][0] != "op" or l[1][1] != "len" or l[1][2][0] != base or c[0] != "i":
                return None
            ends.append((c[1], True))
        else:
            return None
    lo, hi = {"Range": lambda: (ends[0], ends[1]), "RangeFrom": lambda: (ends[0], (0, True)), "RangeTo": lambda: ((0, False), ends[0])}.get(nm, lambda: (None, None))()
    if lo is None:
        return None
    least, front, back = sh
    show = "%s of %s" % (ex.show(st, idx), ex.show(st, base))
    if lo[1] == hi[1]:
        if lo[0] != hi[0] and (lo[0] > hi[0]) != lo[1]:
            return show
    elif not lo[1] and lo[0] + hi[0] > least:
        return show
    for d, b in (lo, hi):
        if d > least or d > (back if b else front):
            return show
    return None


def is_source(ex, st, v):
    s = ex.show(st, v)
    return s in ("original", "scanner.stream", "self.original") or s.endswith(".stream") or s == "stream"


@model(r"^(core|std)::slice::<impl \[T\]>::(get|first|last)$")
def m_get(ex, st, inst, args, dest, target):
    base = ex.deref(st, args[0])
    dt = dtid(ex, st, dest)
    n = ex.length(st, base)
    which = inst["path"].split("::")[-1]
    idx = args[1] if which == "get" else I(0) if which == "first" else I(-1)
    it = ex.prog.types[dt]["args"][0]
    e = ex.prog.types[it]["e"] if ex.prog.types[it]["k"] == "ref" else it
    val = refval(op(ex, "index", (base, idx), e))
    tb = NODES[base]
    if tb[0] == "vec" and isinstance(tb[3], int) and NODES[idx][0] == "i":
        ok = tb[3] > max(NODES[idx][1], 0)
        return ex.cont(st, dest, target, some(ex, dt, val) if ok else none(ex, dt))
    out = []
    if NODES[idx] in (("i", 0), ("i", -1)) and n != I(0) and ex.whole(n):
        if NODES[idx] == ("i", -1) and single(ex, st, base):
            val = refval(op(ex, "index", (base, I(0)), e))
        alts = ex.split_eq(st, n, I(0), False, True)
    else:
        alts = ex.refine(st, op(ex, "has-index", (base, idx), ex.bool_tid()), [(2, True), (1, False)])
    for s, pl, ev in alts:
        s = s.copy()
        out.append((ev, ex.after(s, dest, target, some(ex, dt, val) if pl else none(ex, dt))))
    return out


@model(r"^std::slice::<impl \[T\]>::to_vec$", r"^<T as std::borrow::ToOwned>::to_owned$")
def m_clone1(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, ex.deref(st, args[0]))


@model(r"as std::clone::Clone>::clone$", r"^std::clone::Clone::clone$", r"^std::clone::impls::")
def m_clone(ex, st, inst, args, dest, target):
    dt = dtid(ex, st, dest)
    t = NODES[args[0]]
    if t[0] != "ref":
        return ex.cont(st, dest, target, args[0])
    v = ex.read(st, t[1], t[2])
    return ex.cont(st, dest, target, v)


# ------------------------------------------------------------------ iterators
STAGES = ("map", "filter_map", "enumerate", "filter", "inspect")


def as_iter(ex, st, v):
    t = NODES[v]
    if t[0] == "it":
        return v
    if t[0] == "ref":
        b = ex.deref(st, v)
        if NODES[b][0] == "it":
            return b
        return mk("it", "ref", (b,), ())
    if t[0] in ("vec", "y", "arr"):
        return mk("it", "own", (v,), ())
    if t[0] == "adt" and ex.prog.adt_name(t[1]) == "Option":
        return None
    return None


@model(r"as std::iter::IntoIterator>::into_iter$", r"^std::iter::IntoIterator::into_iter$")
def m_into_iter(ex, st, inst, args, dest, target):
    it = as_iter(ex, st, args[0])
    if it is None:
        return DECLINE
    return ex.cont(st, dest, target, it)


@model(r"^(core|std)::slice::<impl \[T\]>::iter(_mut)?$")
def m_iter(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, mk("it", "ref", (ex.deref(st, args[0]),), ()))


@model(r"^std::vec::Vec::<T, A>::drain$")
def m_drain(ex, st, inst, args, dest, target):
    loc = vec_at(ex, st, args[0])
    if loc is None:
        return DECLINE
    c, p, v = loc
    if NODES[v][0] == "vec":
        ex.write(st, c, p, mk("vec", NODES[v][1], NODES[v][2], 0))
    return ex.cont(st, dest, target, mk("it", "own", (v,), ()))


@model(r"^std::iter::Iterator::(map|filter_map|enumerate|filter|inspect|cloned|copied|by_ref|peekable|fuse|rev|skip|take)$")
def m_stage(ex, st, inst, args, dest, target):
    nm = inst["path"].split("::")[-1]
    it = as_iter(ex, st, args[0])
    if it is None:
        return DECLINE
    t = NODES[it]
    if nm in ("by_ref", "fuse"):
        return ex.cont(st, dest, target, args[0])
    if nm == "enumerate":
        return ex.cont(st, dest, target, mk("it", t[1], t[2], t[3] + (nm,)))
    if nm in ("cloned", "copied"):
        return ex.cont(st, dest, target, mk("it", t[1], t[2], t[3] + ("cloned",)))
    if nm in ("map", "filter_map", "filter", "inspect"):
        return ex.cont(st, dest, target, mk("it", t[1], t[2] + (args[1],), t[3] + (nm,)))
    if nm == "rev":
        return ex.cont(st, dest, target, mk("it", "rev-" + t[1], t[2], t[3]))
    return ex.cont(st, dest, target, mk("it", "%s(%s)-" % (nm, ex.show(st, args[1]) if len(args) > 1 else "") + t[1], t[2], t[3]))


@model(r"^std::iter::Iterator::(collect|for_each|any|all|count|last|find|position)$", r"as std::iter::Iterator>::(collect|for_each|any|all)$", r"^std::iter::FromIterator::from_iter$", r"as std::iter::FromIterator<T>>::from_iter$")
def m_sink(ex, st, inst, args, dest, target):
    nm = inst["path"].split("::")[-1]
    if nm == "from_iter":
        nm = "collect"
    it = as_iter(ex, st, args[0])
    if it is None:
        return DECLINE
    if nm in ("collect",):
        dt = dtid(ex, st, dest)
        n = ex.prog.adt_name(dt)
        if n != "Vec" and n != "Result":
            return DECLINE
        vt = dt if n == "Vec" else ex.prog.types[dt]["args"][0]
        if ex.prog.adt_name(vt) != "Vec":
            return DECLINE
        if ex.pos and any(NODES[c][0] == "clo" for c in NODES[it][2][1:]):
            return ex.cont(st, dest, target, passed(ex, st, it, dt))
        v, _ = new_vec(ex, st, vec_elem(ex, vt))
        it = relabel(it, ex._last_vec_ager, {})
        return drive(ex, st, "collect" if n == "Vec" else "try", it, v, None, dest, target)
    if nm in ("any", "all", "for_each"):
        return drive(ex, st, nm, it, args[1], None, dest, target)
    return DECLINE


def passed(ex, st, it, dt):
    """a list gathered by a closure that is decided by itself (mode pos): the captured variables have their last values"""
    t = NODES[it]
    olds = []
    for c in t[2][1:]:
        k = NODES[c]
        if k[0] != "clo":
            continue
        ty = ex.prog.types[k[1]]
        nm = ex.captured(k[1])
        for i, u in enumerate(k[2]):
            r = NODES[u]
            if r[0] == "ref" and ex.prog.types[ty["ups"][i]].get("mut"):
                old = ex.read(st, r[1], r[2])
                olds.append((nm.get(i, "?"), ex.freeze(st, old)))
                ex.write(st, r[1], r[2], op(ex, "last", (mk("s", nm.get(i, "?")), old), ex.prog.types[ty["ups"][i]]["e"]))
        ex.warn.add("opaque step with " + " ".join(sorted(nm.values())))
    return op(ex, "gathered", (ex.freeze(st, t[2][0]), mk("s", "-".join(t[3])))
              + tuple(x for n, o in sorted(olds) for x in (mk("s", n), o)), dt)


@model(r"as std::iter::Iterator>::next$")
def m_next(ex, st, inst, args, dest, target):
    p = inst["path"]
    if "RefScanner" in p:
        return DECLINE
    it = ex.deref(st, args[0])
    if NODES[it][0] != "it":
        return DECLINE
    n = at(it)
    if n is not None and NODES[args[0]][0] == "ref" and not any(x.startswith("filter") for x in NODES[it][3]) and n < len(NODES[NODES[it][2][0]][1]):
        ex.write(st, NODES[args[0]][1], NODES[args[0]][2], advance(it))
    return drive(ex, st, "next", it, None, None, dest, target)


def at(it):
    """position of an iterator over a constant array"""
    t = NODES[it]
    if NODES[t[2][0]][0] != "arr":
        return None
    m = re.match(r"^(?:at\((\d+)\)-)?(ref|own)$", t[1])
    return int(m.group(1) or 0) if m else None


def advance(it):
    t = NODES[it]
    return mk("it", "at(%d)-%s" % (at(it) + 1, t[1].split("-")[-1]), t[2], t[3])


@model(r"^core::slice::<impl \[T\]>::contains$", r"^std::slice::<impl \[T\]>::contains$")
def m_contains(ex, st, inst, args, dest, target):
    a, x = ex.deref(st, args[0]), ex.deref(st, args[1])
    if NODES[a][0] != "arr":
        return DECLINE
    els = [ex.deref(st, e) for e in NODES[a][1]]
    if els and all(NODES[e][0] == "s" for e in els):
        la = text_of(x)
        if NODES[x][0] == "s":
            return ex.cont(st, dest, target, I(int(x in els)))
        m = 0
        if la is not None:
            for e in els:
                k = ex.T.text_mask(NODES[e][1])
                if k is None:
                    from ai import NeedText

                    raise NeedText(NODES[e][1])
                m |= k
            res = ex.tok_refine(st, la, [(m, 1), (~m & ex.T.ALL, 0)])
        else:
            for e in els:
                m |= ex.strbit(NODES[e][1])
            res = ex.refine(st, mk("y", ("op", "strval", (x,)), ex.bool_tid()), [(m, 1), (ex.STRU & ~m, 0)])
    elif els and all(NODES[e][0] == "adt" and not NODES[e][3] for e in els) and NODES[x][0] in ("y", "tk", "tkp", "adt"):
        tid = NODES[els[0]][1]
        vs = ex.prog.types[tid]["vars"]
        if NODES[x][0] == "adt":
            return ex.cont(st, dest, target, I(int(x in els)))
        res = ex.split_dis(st, x, [(vs[NODES[e][2]]["discr"], 1) for e in els], 0)
    else:
        return DECLINE
    return [(ev, ex.after(s.copy(), dest, target, I(pl))) for s, pl, ev in res]


# a driver frame:  ("drive", sink, stageidx, it, acc, accref, idx)
def drive(ex, st, sink, it, acc, accref, dest, target):
    from ai import Frame

    st.frames.append(Frame(-1, 0, {}, dest, target, ("drive", sink, "src", it, acc if acc is not None else "-", accref if accref is not None else "-", "-")))
    return None


def finish(ex, st, v):
    f = st.frames.pop()
    ex.assign(st, f.dest, v)
    if f.target is None:
        return []
    st.frames[-1].bb = f.target
    return [(None, st)]


def fin_ev(ex, st, v, ev):
    f = st.frames.pop()
    ex.assign(st, f.dest, v)
    if f.target is None:
        return (ev, None)
    st.frames[-1].bb = f.target
    return (ev, st)


def parent_dtid(ex, st):
    f = st.frames[-1]
    b = ex.prog.insts[st.frames[-2].iid]["body"] if st.frames[-2].native is None else None
    if b is None:
        return None
    if not f.dest[1]:
        return b["locals"][f.dest[0]]
    return None


def native_enter(ex, st):
    f = st.frames[-1]
    _, sink, stage, it, acc, accref, idx = f.native
    if stage == "src":
        t = NODES[it]
        src = t[2][0]
        name = ex.show(st, src)
        et = elem_type(ex, src)
        out = []
        ts = NODES[src]
        dt = parent_dtid(ex, st)
        n = at(it)
        empty = ts[0] == "vec" and ts[3] == 0 or n is not None and n >= len(ts[1])
        if n is not None and not empty:
            el = ts[1][n]
            if t[1].endswith("ref") and NODES[el][0] != "ref":
                el = refval(el)
            f.native = f.native[:2] + ("0.0", advance(it)) + f.native[4:6] + (el,)
            return [(None, st)]
        if not empty:
            s = st.copy()
            kind = "elem:" + (ex.prog.tname(et) if et is not None else "?")
            s.frames[-1].native = f.native[:6] + ("-",)
            if et is None:
                fn = ex.ager(kind)
                ex.relabel_state(s, fn)
                el = mk("y", ("R", kind, 0), None)
            else:
                el = fresh_elem(ex, s, et, kind)
            if t[1].endswith("ref") and NODES[el][0] != "ref":
                el = refval(el)
            s.frames[-1].native = s.frames[-1].native[:2] + ("0.0",) + s.frames[-1].native[3:6] + (el,)
            for s3, oc in ex.presplit_facts(s, kind):
                out.append((("next", t[1] + ":" + name, oc), s3))
        s = st.copy()
        if sink == "next":
            out.append(fin_ev(ex, s, none(ex, dt), None if empty else ("end", t[1] + ":" + name)))
        elif sink in ("collect", "extend"):
            out.append(fin_ev(ex, s, acc if sink == "collect" else UNIT, None if empty else ("end", t[1] + ":" + name)))
        elif sink == "try":
            out.append(fin_ev(ex, s, mk("adt", dt, 0, (acc,)), None if empty else ("end", t[1] + ":" + name)))
        elif sink in ("any", "all"):
            out.append(fin_ev(ex, s, I(int(sink == "all")), None if empty else ("end", t[1] + ":" + name)))
        else:
            out.append(fin_ev(ex, s, UNIT, None if empty else ("end", t[1] + ":" + name)))
        return out
    # apply stages
    t = NODES[it]
    k, ci = (int(x) for x in stage.split("."))
    while k < len(t[3]):
        sg = t[3][k]
        if sg == "enumerate":
            idx = mk("tup", (op(ex, "i", (), ex.usize_tid()), idx))
            k += 1
            continue
        if sg == "cloned":
            idx = ex.deref(st, idx)
            k += 1
            continue
        clo = t[2][1 + ci]
        f.native = ("drive", sink, "%d.%d" % (k + 1, ci + 1), it, acc, accref, idx)
        arg = refval(idx) if sg in ("filter", "inspect") else idx
        st.frames[-1].native = f.native[:2] + ("%s@%d.%d" % (sg, k + 1, ci + 1),) + f.native[3:]
        return call_closure(ex, st, clo, [arg])
    # reached the sink
    if sink == "next":
        dt = parent_dtid(ex, st)
        return finish(ex, st, some(ex, dt, idx))
    if sink in ("any", "all", "for_each"):
        f.native = f.native[:2] + ("sink@",) + f.native[3:]
        return call_closure(ex, st, acc, [idx])
    if sink == "try":
        # idx is a Result
        outs = []
        for s, pl, ev in ex.split_int(st, ex.discr(st, idx), [(0, "ok")], "err"):
            s = s.copy()
            i2 = s.frames[-1].native[6]
            if pl == "ok":
                val = ex.project(ex.project(i2, ("d", 0)), ("f", 0))
                outs.append(sink_push(ex, s, val, ev))
            else:
                dt = parent_dtid(ex, s)
                val = ex.project(ex.project(i2, ("d", 1)), ("f", 0))
                outs.append(fin_ev(ex, s, mk("adt", dt, 1, (val,)), ev))
        return outs
    return [sink_push(ex, st, idx, None)]


def sink_push(ex, st, val, ev):
    f = st.frames[-1]
    _, sink, stage, it, acc, accref, idx = f.native
    if accref != "-":
        c, p, v = vec_at(ex, st, accref)
        ev = ("push", ex.show(st, v), (ex.freeze(st, val),))
        tv = NODES[v]
        if tv[0] == "vec":
            ex.write(st, c, p, mk("vec", tv[1], tv[2], inc(tv[3])))
    else:
        tv = NODES[acc]
        ev = ("push", ex.show(st, acc), (ex.freeze(st, val),))
        acc = mk("vec", tv[1], tv[2], inc(tv[3]))
    f.native = ("drive", sink, "src", it, acc, accref, "-")
    return (ev, st)


def elem_type(ex, src):
    t = NODES[src]
    if t[0] == "vec":
        return t[1]
    if t[0] == "y" and t[2] is not None:
        ty = ex.prog.types[t[2]]
        while ty["k"] in ("ref", "ptr"):
            ty = ex.prog.types[ty["e"]]
        if ty["k"] == "adt" and ty["args"]:
            return ty["args"][0]
        if ty["k"] in ("slice", "array"):
            return ty["e"]
    return None


def call_closure(ex, st, clo, args):
    c = ex.deref(st, clo)
    t = NODES[c]
    if t[0] == "fn":
        inst = ex.prog.insts[t[1]]
        v = ex.construct(inst, args, None)
        if v is not None:
            return native_return(ex, st, v)
        if inst["crate"] != "ressa" or "body" not in inst or inst["base"] in ex.nonterms or inst["base"] in ex.prims:
            raise_if(None)
        ex.inline(st, t[1], args, None, None)
        return [(None, st)]
    if t[0] != "clo":
        from ai import Unsupported

        raise Unsupported("call of " + t[0])
    ty = ex.prog.types[t[1]]
    iid = ty.get("body")
    if iid is None:
        from ai import Unsupported

        raise Unsupported("closure without body " + ty["name"])
    body = ex.prog.insts[iid]["body"]
    self_t = ex.prog.types[body["locals"][1]]
    s0 = c
    if self_t["k"] == "ref":
        s0 = clo if NODES[clo][0] == "ref" else refval(c)
    if body["nargs"] == 1 + len(args):
        a = [s0] + args
    elif body["nargs"] == 2:
        a = [s0, mk("tup", tuple(args))]
    else:
        from ai import Unsupported

        raise Unsupported("closure arity")
    ex.inline(st, iid, a, None, None)
    return [(None, st)]


def raise_if(r):
    from ai import Unsupported

    raise Unsupported("fn item as iterator stage")


def native_return(ex, st, rv):
    f = st.frames[-1]
    _, sink, stage, it, acc, accref, idx = f.native
    sg, pos = stage.split("@")
    if sg == "sink":
        if sink == "for_each":
            f.native = f.native[:2] + ("src",) + f.native[3:6] + ("-",)
            return [(None, st)]
        out = []
        stop = 1 if sink == "any" else 0
        for s, pl, ev in ex.split_int(st, rv, [(stop, "stop")], "go"):
            s = s.copy()
            if pl == "stop":
                out.append(fin_ev(ex, s, I(stop), ev))
            else:
                s.frames[-1].native = f.native[:2] + ("src",) + f.native[3:6] + ("-",)
                out.append((ev, s))
        return out
    if sg == "map":
        f.native = ("drive", sink, pos, it, acc, accref, rv)
        return [(None, st)]
    if sg == "inspect":
        f.native = ("drive", sink, pos, it, acc, accref, idx)
        return [(None, st)]
    if sg == "filter":
        out = []
        for s, pl, ev in ex.split_int(st, rv, [(0, "no")], "yes"):
            s = s.copy()
            n = s.frames[-1].native
            s.frames[-1].native = n[:2] + (("src",) if pl == "no" else (pos,)) + n[3:6] + (("-",) if pl == "no" else (n[6],))
            out.append((ev, s))
        return out
    if sg == "filter_map":
        out = []
        st.frames[-1].native = ("drive", sink, stage, it, acc, accref, rv)
        for s, pl, ev in ex.split_int(st, ex.discr(st, rv), [(0, "no")], "yes"):
            s = s.copy()
            n = s.frames[-1].native
            if pl == "no":
                s.frames[-1].native = n[:2] + ("src",) + n[3:6] + ("-",)
            else:
                s.frames[-1].native = n[:2] + (pos,) + n[3:6] + (ex.project(ex.project(n[6], ("d", 1)), ("f", 0)),)
            out.append((ev, s))
        return out
    from ai import Unsupported

    raise Unsupported("stage " + sg)


# ------------------------------------------------------------------ closures through Fn traits
@model(r"^std::ops::(FnOnce|FnMut|Fn)::call(_once|_mut)?$")
def m_fncall(ex, st, inst, args, dest, target):
    c = ex.deref(st, args[0])
    t = NODES[c]
    if t[0] == "fn":
        a = NODES[args[1]]
        return ex.invoke(st, t[1], list(a[1]) if a[0] == "tup" else [args[1]], dest, target)
    if t[0] == "clo":
        ty = ex.prog.types[t[1]]
        iid = ty.get("body")
        if iid is None:
            return DECLINE
        body = ex.prog.insts[iid]["body"]
        self_t = ex.prog.types[body["locals"][1]]
        s0 = c
        if self_t["k"] == "ref":
            s0 = args[0] if NODES[args[0]][0] == "ref" else refval(c)
        a = NODES[args[1]]
        al = list(a[1]) if a[0] == "tup" else [args[1]]
        if body["nargs"] == 1 + len(al):
            return ex.inline(st, iid, [s0] + al, dest, target)
        if body["nargs"] == 2:
            return ex.inline(st, iid, [s0, args[1]], dest, target)
    if t[0] == "y" and t[2] is not None and ex.prog.types[t[2]]["k"] == "fndef":
        return DECLINE
    return DECLINE


# ------------------------------------------------------------------ strings
@model(r"^std::string::String::new$", r"^<std::string::String as std::default::Default>::default$")
def m_snew(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, mk("s", ""))


@model(r"as std::string::ToString>::to_string$", r"^std::string::ToString::to_string$", r"<impl std::borrow::ToOwned for (str|\[T\])>::to_owned$", r"^<std::string::String as std::convert::From<.*>>::from$",
       r"^std::str::<impl str>::(to_string|into_string|to_owned)$", r"^core::str::<impl str>::as_ref")
def m_tostr(ex, st, inst, args, dest, target):
    v = ex.deref(st, args[0])
    t = NODES[v]
    dt = dtid(ex, st, dest)
    if stringy(ex, v):
        return ex.cont(st, dest, target, v)
    return ex.cont(st, dest, target, v if ex.ll else op(ex, "to_string", (v,), dt))


@model(r"^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"^<(str|&.*str) as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"std::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$",
       r"PartialEq.*>::(eq|ne)$", r"^std::cmp::PartialEq::(eq|ne)$")
def m_seq(ex, st, inst, args, dest, target):
    a, b = ex.deref(st, args[0]), ex.deref(st, args[1])
    if not (stringy(ex, a) and stringy(ex, b)) and not (NODES[a][0] == "s" or NODES[b][0] == "s"):
        r = tree_eq(ex, st, a, b)
        if r is not None:
            if inst["path"].endswith("ne"):
                r = I(1 - NODES[r][1]) if NODES[r][0] == "i" else mk("not", r)
            return ex.cont(st, dest, target, r)
        if "body" not in inst:
            r = op(ex, "eq", tuple(sorted((a, b), key=lambda z: ex.show(st, z))), ex.bool_tid())
            if inst["path"].endswith("ne"):
                r = mk("not", r)
            return ex.cont(st, dest, target, r)
        return DECLINE
    r = string_eq(ex, st, a, b)
    if inst["path"].endswith("ne"):
        r = I(1 - NODES[r][1]) if NODES[r][0] == "i" else mk("not", r)
    return ex.cont(st, dest, target, r)


def tree_eq(ex, st, a, b):
    """== on syntax trees (or lists of them): by outermost constructor where that settles it, an opaque fact otherwise; None: not trees"""
    if a == b:
        return I(1)
    for x, y in ((a, b), (b, a)):
        tid = ex.tid_of(x)
        if tid is None:
            continue
        ty = ex.prog.types[tid]
        if ty["k"] != "adt":
            continue
        if ty["name"].endswith("vec::Vec"):
            e = ex.prog.types[ty["args"][0]]
            if e["k"] == "adt" and e["name"].startswith("resast"):
                break
            continue
        if not (ty["name"].startswith("resast") and ty["kind"] == "enum" and any(v["fields"] for v in ty["vars"])):
            continue
        n = NODES[x]
        if n[0] == "adt":
            var = ty["vars"][n[2]]
            m = NODES[y]
            if m[0] == "adt" and m[2] != n[2]:
                return I(0)
            if not var["fields"]:
                d = ex.discr(st, y)
                if NODES[d][0] == "i":
                    return I(int(NODES[d][1] == var["discr"]))
                return mk("cmp", "Eq", d, I(var["discr"]))
            if m[0] == "adt":
                return None
        elif NODES[y][0] == "adt":
            continue
        break
    else:
        return None
    return op(ex, "eq", tuple(sorted((a, b), key=lambda z: ex.show(st, z))), ex.bool_tid())


@model(r"^core::str::<impl str>::(len|is_empty)$", r"^std::string::String::(len|is_empty)$")
def m_slen(ex, st, inst, args, dest, target):
    v = ex.deref(st, args[0])
    if NODES[v][0] == "s":
        n = len(NODES[v][1].encode())
        return ex.cont(st, dest, target, I(n) if inst["path"].endswith("len") else I(int(n == 0)))
    n = ex.length(st, v) if ex.pos else op(ex, "len", (v,), ex.usize_tid())
    if inst["path"].endswith("is_empty"):
        n = mk("cmp", "Eq", n, I(0))
    return ex.cont(st, dest, target, n)


@model(r"^core::str::<impl str>::", r"^std::str::<impl str>::", r"^std::string::String::(push_str|push|insert|truncate|pop|clear)$", r"^core::char::", r"^std::char::")
def m_strop(ex, st, inst, args, dest, target):
    dt = dtid(ex, st, dest)
    nm = inst["path"].split("::")[-1]
    vals = [ex.deref(st, a) for a in args]
    if inst["path"].startswith("std::string::String::") and NODES[args[0]][0] == "ref":
        t = NODES[args[0]]
        ex.write(st, t[1], t[2], op(ex, "str." + nm, vals, ex.tid_of(vals[0])))
        return ex.cont(st, dest, target, UNIT)
    return ex.cont(st, dest, target, wrap_opaque(ex, "str." + nm, vals, dt))


def wrap_opaque(ex, name, vals, dt):
    return op(ex, name, vals, dt)


# ------------------------------------------------------------------ fmt
def fmt_template(bs):
    """format_args! template bytes -> text with {} for the arguments in order"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i : i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i : i + n]).decode("utf-8", "replace"))
            i += n
        else:
            out.append("{}")
            if b & 1:
                i += 4
            for bit in (2, 4, 8):
                if b & bit:
                    i += 2
    return "".join(out)


@model(r"^core::fmt::rt::Argument::<'_>::", r"^std::fmt::Arguments::<'a>::", r"^core::fmt::rt::", r"^std::fmt::Arguments", r"^std::fmt::rt::")
def m_fmtarg(ex, st, inst, args, dest, target):
    nm = inst["path"].split("::")[-1]
    vals = [ex.deref(st, a) for a in args]
    if nm.startswith("new_") and len(vals) == 1:
        vals = [ex.freeze(st, args[0])]
        return ex.cont(st, dest, target, op(ex, nm[4:], vals, dtid(ex, st, dest)))
    if nm == "from_str":
        return ex.cont(st, dest, target, op(ex, "fmtargs", vals, dtid(ex, st, dest)))
    if nm == "new" and len(vals) == 2 and NODES[vals[0]][0] == "arr" and NODES[vals[1]][0] == "arr" and all(NODES[x][0] == "i" for x in NODES[vals[0]][1]):
        t = mk("s", fmt_template([NODES[x][1] for x in NODES[vals[0]][1]]))
        return ex.cont(st, dest, target, op(ex, "fmtargs", (t,) + NODES[vals[1]][1], dtid(ex, st, dest)))
    return ex.cont(st, dest, target, op(ex, "fmtarg", vals, dtid(ex, st, dest)))


@model(r"^std::fmt::Formatter::<'a>::write_(str|fmt)$", r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_(str|fmt)$")
def m_fmtwrite(ex, st, inst, args, dest, target):
    """one form for text that is written to a formatter"""
    v = ex.deref(st, args[1])
    t = NODES[v]
    if t[0] == "y" and t[1][0] == "op" and t[1][1] in ("fmt", "fmtargs"):
        xs = t[1][2]
    elif t[0] == "s":
        xs = (v,)
    else:
        xs = (mk("s", "{}"), op(ex, "display", (v,), None))
    return ex.cont(st, dest, target, op(ex, "written", (ex.freeze(st, args[0]),) + tuple(xs), dtid(ex, st, dest)))


@model(r"^std::fmt::format$", r"^std::fmt::format::format_inner$")
def m_format(ex, st, inst, args, dest, target):
    vals = ()
    if args:
        t = NODES[ex.deref(st, args[0])]
        if t[0] == "y" and t[1][0] == "op" and t[1][1] == "fmtargs":
            vals = t[1][2]
    return ex.cont(st, dest, target, op(ex, "fmt", vals, dtid(ex, st, dest)))


@model(r"Backtrace::")
def m_bt(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, op(ex, "backtrace", (), dtid(ex, st, dest)))


# ------------------------------------------------------------------ mem
@model(r"^std::mem::(replace|swap|take)$", r"^core::mem::(replace|swap|take)$", r"^std::option::Option::<T>::(take|replace)$")
def m_mem(ex, st, inst, args, dest, target):
    nm = inst["path"].split("::")[-1]
    t = NODES[args[0]]
    if t[0] != "ref":
        return DECLINE
    old = ex.read(st, t[1], t[2])
    if nm == "swap":
        t2 = NODES[args[1]]
        if t2[0] != "ref":
            return DECLINE
        o2 = ex.read(st, t2[1], t2[2])
        ex.write(st, t[1], t[2], o2)
        ex.write(st, t2[1], t2[2], old)
        return ex.cont(st, dest, target, UNIT)
    if nm == "replace":
        nv = args[1]
        if "Option" in inst["path"]:
            nv = some(ex, dtid(ex, st, dest), nv)
        ex.write(st, t[1], t[2], nv)
        return ex.cont(st, dest, target, old)
    dt = dtid(ex, st, dest)
    ty = ex.prog.types[dt]
    if is_option(ex, dt):
        nv = none(ex, dt)
    elif ty["k"] == "bool":
        nv = FALSE
    elif ty["k"] == "adt" and ty["name"].endswith("string::String"):
        nv = mk("s", "")
    elif ty["k"] == "adt" and ty["name"].endswith("vec::Vec"):
        nv, _ = new_vec(ex, st, ty["args"][0])
        old = relabel(old, ex._last_vec_ager, {})
        t = NODES[relabel(args[0], ex._last_vec_ager, {})]
    elif ty["k"] == "adt" and ty["name"].endswith("HashSet"):
        nv = mk("set", op(ex, "emptyset", (), dt), ())
    else:
        nv = op(ex, "default", (), dt)
    ex.write(st, t[1], t[2], nv)
    return ex.cont(st, dest, target, old)


# ------------------------------------------------------------------ HashSet
@model(r"HashSet::<T>::new$", r"HashSet<T, S(, A)?> as std::default::Default")
def m_hnew(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, mk("set", op(ex, "emptyset", (), dtid(ex, st, dest)), ()))


def set_parts(v):
    t = NODES[v]
    if t[0] == "set":
        return t[1], t[2]
    return v, ()


@model(r"HashSet::<T, S(, A)?>::(insert|remove|contains)$")
def m_hset(ex, st, inst, args, dest, target):
    nm = inst["path"].split("::")[-1]
    t = NODES[args[0]]
    v = ex.deref(st, args[0])
    base, extra = set_parts(v)
    x = ex.deref(st, args[1])
    if nm == "contains":
        if x in extra:
            return ex.cont(st, dest, target, TRUE)
        return ex.cont(st, dest, target, op(ex, "contains", (v, x), ex.bool_tid()))
    r = op(ex, nm, (v, x), ex.bool_tid())
    if nm == "insert":
        if x not in extra:
            extra = extra + (x,)
    else:
        if x in extra:
            extra = tuple(e for e in extra if e != x)
        else:
            base = op(ex, "without", (base, x), ex.tid_of(base))
    nv = mk("set", base, extra) if extra else base
    ex.write(st, t[1], t[2], nv)
    return ex.cont(st, dest, target, r)


# ------------------------------------------------------------------ ress
@model(r"RefScanner::string_for$")
def m_string_for(ex, st, inst, args, dest, target):
    sp = NODES[ex.deref(st, args[1])]
    dt = dtid(ex, st, dest)
    et = ex.prog.types[dt]["args"][0]
    if sp[0] == "y" and sp[1][0] == "op" and sp[1][1] == "span":
        return ex.cont(st, dest, target, some(ex, dt, op(ex, "text", sp[1][2], et)))
    return ex.cont(st, dest, target, some(ex, dt, op(ex, "str", (ex.deref(st, args[1]),), et)))


@model(r"^std::intrinsics::discriminant_value$", r"^std::mem::discriminant$")
def m_discr(ex, st, inst, args, dest, target):
    v = ex.deref(st, args[0])
    return ex.cont(st, dest, target, ex.discr(st, v))


@model(r"^std::intrinsics::(unreachable|assert_inhabited|cold_path|assume)", r"^std::hint::")
def m_nop(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, UNIT)


@model(r"panicking::", r"^std::rt::(begin_)?panic", r"::unwrap_failed$", r"::expect_failed$", r"^std::process::(exit|abort)")
def m_panic(ex, st, inst, args, dest, target):
    return [(("panic", inst["path"].split("::")[-1]), None)]


@model(r"^std::option::Option::<T>::(as_deref|as_deref_mut)$")
def m_asderef(ex, st, inst, args, dest, target):
    return DECLINE


@model(r"^std::ops::Drop::drop$", r"as std::ops::Drop>::drop$", r"drop_in_place")
def m_drop(ex, st, inst, args, dest, target):
    return ex.cont(st, dest, target, UNIT)
