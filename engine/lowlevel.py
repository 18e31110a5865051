"""Low-level view: the functions between the parser and the scanner.  The scanner is an abstract object: its stream is fixed, every
other field is renewed by reading a token; reading is an event, saving/restoring the state are assignments."""
from core import *
import prims

SC = "scanner"
STATE_FIELDS = ("cursor", "spans", "last_open_paren_idx", "replacement", "curly_stack")  # what ScannerState saves
FIXED = ("stream",)


def scanner_tid(ex):
    return ex.ptys[ex.pfields.index(SC)]


def init_scanner(ex):
    t = scanner_tid(ex)
    ty = ex.prog.types[t]
    return mk("adt", t, 0, tuple(mk("y", ("par", "scanner." + f), ft) for f, ft in ty["vars"][0]["fields"]))


def sc_ref(ex, st, a):
    t = NODES[a]
    if t[0] != "ref":
        raise ValueError("scanner reference")
    v = ex.read(st, t[1], t[2])
    if NODES[v][0] != "adt":
        raise ValueError("scanner value")
    return t[1], t[2], v


def renew(ex, s, cell, path, v, kind):
    t = NODES[v]
    fields = ex.prog.types[t[1]]["vars"][0]["fields"]
    fs = [x if f in FIXED else mk("y", ("R", kind, 0, f), ft) for x, (f, ft) in zip(t[3], fields)]
    ex.write(s, cell, path, mk("adt", t[1], t[2], tuple(fs)))


def scan(ex, st, inst, args, dest, target):
    cell, path, v = sc_ref(ex, st, args[0])
    rt = inst["body"]["locals"][0]
    out = []
    kind = "scan"
    s0 = st.copy()
    ex.relabel_state(s0, ex.ager(kind))
    cell, path, v = cell, path, ex.read(s0, cell, path)
    renew(ex, s0, cell, path, v, kind)
    for m in ex.presplit_tok(ex.T.ALL, "first:" + kind):
        s = s0.copy()
        tl = ("R", kind, 0, "first")
        s.toks[tl] = m
        some = mk("adt", rt, 1, (mk("item", tl),))
        for s2, oc in ex.presplit_facts(ex.after(s, dest, target, some), kind):
            out.append((("call", "scan", (), (), "ok", oc, m), s2))
    s = s0.copy()
    for s2, oc in ex.presplit_facts(ex.after(s, dest, target, mk("adt", rt, 0, ())), kind):
        out.append((("call", "scan-none", (), (), "ok", oc, ex.T.ALL), s2))
    return out


def skip(ex, st, inst, args, dest, target):
    cell, path, v = sc_ref(ex, st, args[0])
    s = st.copy()
    ex.relabel_state(s, ex.ager("skip"))
    renew(ex, s, cell, path, ex.read(s, cell, path), "skip")
    return [(("call", "skip-comments", (), (), "ok", (), ex.T.ALL), ex.after(s, dest, target, UNIT))]


def get_state(ex, st, inst, args, dest, target):
    cell, path, v = sc_ref(ex, st, args[0])
    rt = inst["body"]["locals"][0]
    t = NODES[v]
    fields = [f for f, _ in ex.prog.types[t[1]]["vars"][0]["fields"]]
    vals = tuple(x for x, f in zip(t[3], fields) if f in STATE_FIELDS)
    return ex.cont(st, dest, target, mk("y", ("op", "scanner-state", vals), rt))


def set_state(ex, st, inst, args, dest, target):
    cell, path, v = sc_ref(ex, st, args[0])
    a = NODES[ex.deref(st, args[1])]
    t = NODES[v]
    fields = [f for f, _ in ex.prog.types[t[1]]["vars"][0]["fields"]]
    if a[0] == "y" and a[1][0] == "op" and a[1][1] == "scanner-state":
        vals = list(a[1][2])
        fs = [vals.pop(0) if f in STATE_FIELDS else x for x, f in zip(t[3], fields)]
        ex.write(st, cell, path, mk("adt", t[1], t[2], tuple(fs)))
    else:
        ex.warn.add("set_state of an unknown state")
    return ex.cont(st, dest, target, UNIT)


def new_scanner(ex, st, inst, args, dest, target):
    rt = inst["body"]["locals"][0]
    text = ex.deref(st, args[0])
    fs = []
    for f, ft in ex.prog.types[rt]["vars"][0]["fields"]:
        fs.append(mk("y", ("op", "stream", (text,)) if f == "stream" else ("par", "scanner." + f), ft))
    return ex.cont(st, dest, target, mk("adt", rt, 0, tuple(fs)))


def is_parser(ex, st, a):
    if NODES[a] == ("ref", ("P",), ()):
        return True
    v = NODES[ex.deref(st, a)]
    return v[0] == "adt" and ex.prog.types[v[1]]["name"] == "ressa::Parser"


def event(name):
    """a call that matters only as an event"""

    def f(ex, st, inst, args, dest, target):
        rt = inst["body"]["locals"][0] if inst else ex.dest_tid(st, dest)
        ts = tuple(ex.freeze(st, a) for a in args if not is_parser(ex, st, a))
        rty = ex.prog.types[rt]
        out = []
        if rty["k"] == "adt" and rty["name"].endswith("result::Result"):
            okt, ert = rty["args"][0], rty["args"][1]
            unit = ex.prog.types[okt]["k"] == "tuple" and not ex.prog.types[okt]["es"]
            s = st.copy()
            ok = mk("adt", rt, 0, (UNIT if unit else mk("y", ("op", name, ts), okt),))
            out.append((("call", name, ts, (), "ok", (), ex.T.ALL), ex.after(s, dest, target, ok)))
            s = st.copy()
            out.append((("call", name, ts, (), "err", (), ex.T.ALL), ex.after(s, dest, target, mk("adt", rt, 1, (mk("y", ("op", name + "-error", ()), ert),)))))
            return out
        s = st.copy()
        v = UNIT if rty["k"] == "tuple" else mk("y", ("op", name, ts), rt)
        return [(("call", name, ts, (), "ok", (), ex.T.ALL), ex.after(s, dest, target, v))]

    return f


PRIMS = {k: v for k, v in prims.PRIMS.items() if k in ("get_item_position", "expected_token_error", "unexpected_token_error")}
PRIMS.update(
    {
        "update_positions": event("update_positions"),
        "<ressa::ress::refs::RefScanner as std::iter::Iterator>::next": scan,
        "ressa::ress::refs::RefScanner::new": new_scanner,
        "ressa::ress::refs::RefScanner::skip_comments": skip,
        "ressa::ress::refs::RefScanner::get_state": get_state,
        "ressa::ress::refs::RefScanner::set_state": set_state,
        "get_lines": event("get_lines"),
        "?call_mut": event("call_mut"),
        "?handle_comment": event("handle_comment"),
        "<ressa::comment_handler::DefaultCommentHandler as ressa::comment_handler::CommentHandler>::handle_comment": event("handle_comment"),
    }
)
