"""Align the current program with the reference: a function or field that was only renamed keeps its reference name.
Fields the reference does not know get a "+" prefix: they are not part of any label (they still decide branches)."""
import difflib
from core import base_name
import fingerprint

STRUCTS = ("ressa::Parser", "ressa::Context", "ressa::Config", "ressa::Builder", "ressa::FormalParams", "ressa::CoverFormalListOptions", "ressa::Position", "ressa::Line")


def local_fns(P):
    return {i["path"]: i for i in reversed(P.insts) if i["crate"] == "ressa" and i.get("body") and "{closure" not in i["path"] and i["body"].get("file", "src/").startswith("src")}


def meta(P):
    """what the reference program looks like from outside"""
    F = fingerprint.Finger(P, ())
    st = {}
    for t in range(len(P.types)):
        x = P.types[t]
        if x["k"] == "adt" and x["name"] in STRUCTS and x["name"] not in st and len(x["vars"]) == 1:
            st[x["name"]] = [[f, gen(F.ty(ft))] for f, ft in x["vars"][0]["fields"]]
    return {"fns": {p: sig(F, i) for p, i in local_fns(P).items()}, "structs": st}


def gen(s):
    return s.replace("<ressa::comment_handler::DefaultCommentHandler>", "<CH>").replace("<Param(ParamTy { index: 0, name: \"CH\" })>", "<CH>")


def sig(F, i):
    return gen(F.sig(i["id"]))


def compute(ref, P, wanted):
    """alignment of the current program P with the reference's meta; wanted: paths that must exist under their name"""
    cur = meta(P)
    al = {"fns": {}, "fields": {}}
    new = [p for p in cur["fns"] if p not in ref["fns"]]
    for w in sorted(wanted):
        if w in cur["fns"] or w not in ref["fns"]:
            continue
        c = [p for p in new if cur["fns"][p] == ref["fns"][w] and p not in al["fns"]]
        if c:
            c.sort(key=lambda p: -difflib.SequenceMatcher(None, p, w).ratio())
            al["fns"][c[0]] = w
    for n, fs in ref["structs"].items():
        cs = cur["structs"].get(n)
        if cs is None or cs == fs:
            continue
        rn, cn = [f for f, _ in fs], [f for f, _ in cs]
        gone = [(f, t) for f, t in fs if f not in cn]
        add = [(f, t) for f, t in cs if f not in rn]
        m = {}
        for f, t in gone:
            k = next((g for g, u in add if u == t and g not in m), None)
            if k is not None:
                m[k] = f
        for g, u in add:
            m.setdefault(g, "+" + g)
        al["fields"][n] = m
    return al if al["fns"] or al["fields"] else None


def apply(P, al):
    for x in P.types:
        if x["k"] == "adt" and x["name"] in al["fields"] and len(x["vars"]) == 1:
            m = al["fields"][x["name"]]
            for f in x["vars"][0]["fields"]:
                f[0] = m.get(f[0], f[0])
    if al["fns"]:
        for i in P.insts:
            for a, b in al["fns"].items():
                if i["path"] == a or i["path"].startswith(a + "::{closure"):
                    i["path"] = b + i["path"][len(a) :]
                    i["base"] = base_name(i["path"])
        P.by_base = {}
        for i in P.insts:
            if i["crate"] == "ressa":
                P.by_base.setdefault(i["base"], []).append(i)


def removed(ref, P, nts):
    """nonterminals that no longer exist or have another signature"""
    cur = meta(P)["fns"]
    out = []
    for n in nts:
        r = [p for p in ref["fns"] if base_name(p) == n]
        c = [p for p in cur if base_name(p) == n]
        if r and (not c or cur[c[0]] != ref["fns"][r[0]]):
            out.append(n)
    return out
