"""Primitives of the analysed parser: the token pump, error constructors and scanner peeks."""
from core import *
import models


def p_next_item(ex, st, inst, args, dest, target):
    dt = ex.dest_tid(st, dest)
    rt = inst["body"]["locals"][0]
    okt, ert = ex.prog.types[rt]["args"][0], ex.prog.types[rt]["args"][1]
    out = []
    for ev, s in ex.do_eat(st):
        v = mk("adt", rt, 0, (mk("item", ("R", "tok", 0)),))
        out.append((ev, ex.after(s, dest, target, v)))
    s = st.copy()
    out.append((("eat-err",), ex.after(s, dest, target, mk("adt", rt, 1, (mk("y", ("op", "scan-error", ()), ert),)))))
    return out


def p_error(ex, st, inst, args, dest, target):
    rt = inst["body"]["locals"][0]
    ert = ex.prog.types[rt]["args"][1]
    blamed = tuple(ex.freeze(st, a) for a in args[1:2])
    return ex.cont(st, dest, target, mk("adt", rt, 1, (mk("y", ("op", inst["base"], blamed), ert),)))


def p_opaque(ex, st, inst, args, dest, target):
    rt = inst["body"]["locals"][0]
    return ex.cont(st, dest, target, mk("y", ("op", inst["base"], tuple(ex.deref(st, a) for a in args if NODES[a] != ("ref", ("P",), ()))), rt))


def p_peek(ex, st, inst, args, dest, target):
    """scanner look-ahead predicate: its answer is a function of the look-ahead token and what follows"""
    return ex.cont(st, dest, target, mk("y", ("op", inst["base"], (mk("tk", ("la",)),)), ex.bool_tid()))


def p_pure(ex, st, inst, args, dest, target):
    """side-effect free helper analysed on its own: uninterpreted function of its arguments"""
    rt = inst["body"]["locals"][0]
    vals = []
    for a in args:
        if NODES[a] == ("ref", ("P",), ()):
            continue
        vals.append(ex.deref(st, a))
    return ex.cont(st, dest, target, mk("y", ("op", inst["base"], tuple(vals)), ex.strip_box(rt)))


PURE = ["binary_operator", "logical_operator", "unary_operator", "determine_precedence", "bin_precedence"]

PRIMS = {
    "next_item": p_next_item,
    "expected_token_error": p_error,
    "unexpected_token_error": p_error,
    "get_item_position": p_opaque,
    "at_import_call": p_peek,
    "at_lexical_decl": p_peek,
    "at_async_function": p_peek,
}

for _n in PURE:
    PRIMS[_n] = p_pure
