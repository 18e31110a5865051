"""Abstract interpreter: explores one parser function of the MIR program over a finite
abstract domain and yields an event automaton (NFA)."""
import re
import json, os
from core import *
from tokens import Tokens

MINLEN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "minlen.json")
_minlen = {}


def refminlen(fn):
    if not _minlen:
        _minlen.update(json.load(open(MINLEN)) if os.path.exists(MINLEN) else {"": {}})
    return _minlen.get(fn, {})



class Restart(Exception):
    pass


class NeedText(Exception):
    def __init__(self, s):
        self.s = s


class Unsupported(Exception):
    pass


LA = ("la",)
CAP = 2


class State:
    __slots__ = ("frames", "P", "A", "facts", "toks")

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.P = self.P
        s.A = self.A
        s.facts = dict(self.facts)
        s.toks = dict(self.toks)
        return s


class Frame:
    __slots__ = ("iid", "bb", "locals", "dest", "target", "native", "si")  # si: first statement of bb still to run

    def __init__(self, iid, bb, locals, dest, target, native=None, si=0):
        self.iid, self.bb, self.locals, self.dest, self.target, self.native, self.si = iid, bb, locals, dest, target, native, si

    def copy(self):
        return Frame(self.iid, self.bb, dict(self.locals), self.dest, self.target, self.native, self.si)


class Domain:
    """What is a primitive / nonterminal for this run."""

    def __init__(self, prog, nonterms, out_flags):
        self.prog = prog
        self.nonterms = nonterms
        self.out_flags = out_flags


# context flags a construct may leave changed on top of the cover-grammar flags: "use strict" takes effect where it stands
EFFECTS = {f: ("strict",) for f in ("parse_directive", "parse_directive_prologues", "parse_function_source_el", "next_part")}


class Explorer:
    def __init__(self, prog, toks, nonterms, out_flags, prims=None, max_nodes=400000, ll=False, errmsg=False, pos=False):
        self.Aname = {}
        self.pos = pos  # the two positions are ordinary fields, a recursive round is a value
        self._ob = {}
        self.errmsg = errmsg  # show the message of an error
        self.ll = ll  # low-level view: the scanner is a modelled object, the look-ahead an ordinary field
        self.prog = prog
        self.T = toks
        self.nonterms = nonterms
        self.out_flags = out_flags
        self.prims = prims or {}
        self.max_nodes = max_nodes
        self.parts = {}  # kind -> {norm vid -> set(mask)} ; ('tokmask') handled apart
        self.tokparts = {}  # kind ('tok' or 'first:f') -> set(mask)
        self.strings = {}
        self.stringl = []
        self.warn = set()
        self.inlined = set()
        self.callees = set()
        self.conds = set()
        self.find_types()

    def find_types(self):
        p = self.prog
        self.parser_tid = None
        for k, t in enumerate(p.types):
            if t["k"] == "adt" and t["name"] == "ressa::Parser" and "DefaultCommentHandler" in t["s"]:
                self.parser_tid = k
        if self.parser_tid is None:
            raise Unsupported("anchor lost: ressa::Parser")
        pt = p.types[self.parser_tid]["vars"][0]["fields"]
        self.pfields = [f[0] for f in pt]
        self.ptys = [f[1] for f in pt]
        for need in ("context", "config", "scanner", "look_ahead"):
            if need not in self.pfields:
                raise Unsupported("anchor lost: Parser." + need)
        self.ctx_i = self.pfields.index("context")
        self.la_i = self.pfields.index("look_ahead")
        self.ctx_tid = self.ptys[self.ctx_i]
        self.ctx_fields = p.types[self.ctx_tid]["vars"][0]["fields"]
        self.ctx_names = [f[0] for f in self.ctx_fields]
        self.item_tid = self.ptys[self.la_i]
        for need in ("has_line_term", "strict", "allow_in", "allow_yield", "is_assignment_target"):
            if need not in self.ctx_names:
                raise Unsupported("anchor lost: Context." + need)
        self.nl_i = self.ctx_names.index("has_line_term")
        self._ft, self._fu = {}, {}
        self.tok_tids = {self.T.tid} | {f[1] for v in p.types[self.T.tid]["vars"] for f in v["fields"]}

    # ---------- initial state ----------
    def init_P(self):
        fs = []
        for n, t in zip(self.pfields, self.ptys):
            ty = self.prog.types[t]
            if n == "look_ahead":
                fs.append(mk("item", LA))
            elif self.ll and n == "scanner":
                import lowlevel

                fs.append(lowlevel.init_scanner(self))
            elif n in ("look_ahead_position", "current_position") and not self.pos:
                fs.append(mk("y", ("op", "pos" if n[0] == "l" else "pos-before", (mk("tk", LA),)), t))
            elif ty["k"] == "adt" and ty["kind"] == "struct" and ty["name"].startswith("ressa::") and len(ty["vars"]) == 1 and not ty["name"].startswith("ressa::ress"):
                sub = []
                for fn, ft in ty["vars"][0]["fields"]:
                    if n == "context" and fn == "has_line_term":
                        sub.append(self.nlval())
                    else:
                        sub.append(mk("y", ("par", n + "." + fn), ft))
                fs.append(mk("adt", t, 0, tuple(sub)))
            else:
                fs.append(mk("y", ("par", n), t))
        return mk("adt", self.parser_tid, 0, tuple(fs))

    def nlval(self):
        return mk("y", ("op", "nl", (mk("tk", LA),)), self.bool_tid())

    def bool_tid(self):
        if not hasattr(self, "_bt"):
            self._bt = next(k for k, t in enumerate(self.prog.types) if t["k"] == "bool")
        return self._bt

    def init_state(self, iid):
        b = self.prog.insts[iid]["body"]
        s = State()
        s.P = self.init_P()
        s.A = []
        s.facts = {}
        s.toks = {LA: self.T.VIS}
        loc = {}
        names = {}
        for n in b["names"]:
            if n[2] and not n[1][1]:
                names[n[2]] = n[0]
        for a in range(1, b["nargs"] + 1):
            t = b["locals"][a]
            ty = self.prog.types[t]
            nm = "arg%d" % (a - 1)
            if ty["k"] == "ref" and ty["e"] == self.parser_tid:
                loc[a] = mk("ref", ("P",), ())
            elif t == self.parser_tid:
                loc[a] = s.P
            else:
                loc[a] = self.sym_param(s, nm, t)
        s.A = self.A0 = tuple(s.A)
        s.frames = [Frame(iid, 0, loc, None, None)]
        return s

    def captured(self, t):
        """the names of what a closure captured, by position"""
        b = self.prog.types[t].get("body")
        return {n[1][1][1][1]: n[0] for n in self.prog.insts[b]["body"]["names"] if n[1][0] == 1 and len(n[1][1]) > 1 and n[1][1][0] == "*" and n[1][1][1][0] == "f"} if b is not None else {}

    def sym_param(self, s, nm, t):
        ty = self.prog.types[t]
        if ty["k"] == "ref":
            e = self.prog.types[ty["e"]]
            if e["k"] == "closure" and self.pos:  # what it captured are parameters too
                ups = []
                cap = self.captured(ty["e"])
                self.warn.add("opaque captures " + " ".join(sorted(cap.values())))
                for i, u in enumerate(e["ups"]):
                    ut = self.prog.types[u]
                    nm = cap.get(i, "captured")
                    if ut["k"] == "ref":
                        self.Aname[len(s.A)] = nm
                        s.A.append(mk("y", ("par", nm), ut["e"]))
                        ups.append(mk("ref", ("A", len(s.A) - 1), ()))
                    else:
                        ups.append(mk("y", ("par", nm), u))
                s.A.append(mk("clo", ty["e"], tuple(ups)))
                return mk("ref", ("A", len(s.A) - 1), ())
            if ty["mut"] or e["k"] == "adt":
                if e["k"] == "adt" and e["name"].endswith("refs::RefItem"):
                    v = mk("item", ("par", nm))
                    s.toks[("par", nm)] = self.T.VIS
                elif e["k"] == "adt" and e["name"].endswith("refs::RefToken"):
                    v = mk("tk", ("par", nm))
                    s.toks[("par", nm)] = self.T.VIS
                elif e["k"] == "adt" and e["name"].endswith("vec::Vec"):
                    v = mk("vec", e["args"][0], ("par", nm), "?")
                else:
                    v = mk("y", ("par", nm), ty["e"])
                s.A.append(v)
                return mk("ref", ("A", len(s.A) - 1), ())
        if ty["k"] == "adt":
            if self.ll and ty["name"].endswith("refs::RefScanner"):
                return mk("adt", t, 0, tuple(mk("y", ("par", nm + "." + f), ft) for f, ft in ty["vars"][0]["fields"]))
            if ty["name"].endswith("refs::RefItem"):
                s.toks[("par", nm)] = self.T.VIS
                return mk("item", ("par", nm))
            if ty["name"].endswith("refs::RefToken"):
                s.toks[("par", nm)] = self.T.VIS
                return mk("tk", ("par", nm))
        return mk("y", ("par", nm), t)

    # ---------- memory ----------
    def cell_get(self, st, c):
        k = c[0]
        if k == "L":
            v = st.frames[c[1]].locals.get(c[2])
            if v is None:
                return mk("unk")
            return v
        if k == "P":
            return st.P
        if k == "A":
            return st.A[c[1]]
        return c[1]

    def cell_set(self, st, c, v):
        k = c[0]
        if k == "L":
            st.frames[c[1]].locals[c[2]] = v
        elif k == "P":
            st.P = v
        elif k == "A":
            a = list(st.A)
            a[c[1]] = v
            st.A = tuple(a)
        else:
            self.warn.add("write to constant cell")

    def project(self, v, step):
        t = NODES[v]
        k = t[0]
        p = self.prog
        if step[0] == "f":
            i = step[1]
            if k == "adt":
                if i < len(t[3]):
                    return t[3][i]
                return mk("unk")
            if k in ("tup",):
                return t[1][i] if i < len(t[1]) else mk("unk")
            if k == "clo":
                return t[2][i] if i < len(t[2]) else mk("unk")
            if k == "y":
                ty = p.types[t[2]]
                if ty["k"] == "adt":
                    if ty.get("box") or ty["name"].split("::")[-1] in ("Unique", "NonNull", "BoxRaw"):
                        return v
                    vs = ty["vars"]
                    if len(vs) == 1 and ty["kind"] != "enum" and i < len(vs[0]["fields"]):
                        return self.mkfld(v, 0, i, vs[0]["fields"][i][1])
                    return mk("unk")
                if ty["k"] == "tuple":
                    return self.mkfld(v, 0, i, ty["es"][i])
                if ty["k"] in ("ptr", "ref"):
                    return v
                return mk("unk")
            if k == "yd":
                base = t[1]
                bt = NODES[base]
                f = p.types[bt[2]]["vars"][t[2]]["fields"]
                return self.mkfld(base, t[2], i, f[i][1])
            if k == "item":
                if i == 0:
                    return mk("tk", t[1])
                return mk("y", ("op", "span", (mk("tk", t[1]),)), p.types[self.item_tid]["vars"][0]["fields"][1][1])
            if k == "tkd":
                ty = p.types[self.T.tid]["vars"][t[2]]["fields"]
                if i < len(ty):
                    return mk("tkp", t[1], t[2])
                return mk("unk")
            return v if k in ("vec", "it", "set", "s", "unk") else v
        if step[0] == "d":
            if k == "adt":
                if t[2] != step[1]:
                    return mk("unk")
                return v
            if k == "y":
                ty = p.types[t[2]]
                if ty["k"] == "adt" and ty["kind"] == "enum":
                    return mk("yd", v, step[1])
                return v
            if k == "tk":
                return mk("tkd", t[1], step[1])
            return v
        if step[0] == "i":
            idx = NODES[step[1]]
            if k == "arr" and idx[0] == "i" and 0 <= idx[1] < len(t[1]):
                return t[1][idx[1]]
            if k == "arr" and len(set(t[1])) == 1:
                return t[1][0]
            return mk("y", ("op", "index", (v, step[1])), self.elem_tid(v))
        if step[0] == "ci":
            if k == "arr":
                j = step[1] if not step[3] else len(t[1]) - step[1]
                if 0 <= j < len(t[1]):
                    return t[1][j]
            return mk("y", ("op", "index", (v, I(step[1] if not step[3] else -step[1]))), self.elem_tid(v))
        if step[0] == "ss":
            return mk("y", ("op", "subslice%s" % (step[1:],), (v,)), self.tid_of(v))
        return v

    def elem_tid(self, v):
        t = self.tid_of(v)
        if t is None:
            return None
        ty = self.prog.types[t]
        while ty["k"] in ("ref", "ptr"):
            ty = self.prog.types[ty["e"]]
        if ty["k"] in ("slice", "array"):
            return ty["e"]
        if ty["k"] == "adt" and ty["args"]:
            return ty["args"][0]
        return None

    def mkfld(self, base, var, i, tid):
        tid = self.strip_box(tid)
        ty = self.prog.types[tid]
        if ty["k"] == "adt" and ty["name"].endswith("refs::RefItem"):
            return mk("item", ("itm", base, var, i))
        return mk("y", ("fld", base, var, i), tid)

    def strip_box(self, tid):
        while tid is not None and self.prog.types[tid]["k"] == "adt" and self.prog.types[tid].get("box"):
            tid = self.prog.types[tid]["args"][0]
        return tid

    def tid_of(self, v):
        t = NODES[v]
        if t[0] == "y":
            return t[2]
        if t[0] == "adt":
            return t[1]
        if t[0] == "tk":
            return self.T.tid
        if t[0] == "item":
            return self.item_tid
        return None

    def read(self, st, cell, path):
        v = self.cell_get(st, cell)
        for s in path:
            v = self.project(v, s)
        return v

    def write(self, st, cell, path, val):
        old = self.cell_get(st, cell)
        self.cell_set(st, cell, self._upd(old, path, 0, val))

    def _upd(self, old, path, k, val):
        if k == len(path):
            return val
        s = path[k]
        t = NODES[old]
        if t[0] == "unk":
            return val if True else old
        if s[0] == "d":
            return self._upd(old, path, k + 1, val)
        if s[0] == "f":
            i = s[1]
            if t[0] == "adt":
                fs = list(t[3])
                if i >= len(fs):
                    return old
                fs[i] = self._upd(fs[i], path, k + 1, val)
                return mk("adt", t[1], t[2], tuple(fs))
            if t[0] == "tup":
                fs = list(t[1])
                fs[i] = self._upd(fs[i], path, k + 1, val)
                return mk("tup", tuple(fs))
            if t[0] == "clo":
                fs = list(t[2])
                fs[i] = self._upd(fs[i], path, k + 1, val)
                return mk("clo", t[1], tuple(fs))
            if t[0] == "y":
                ty = self.prog.types[t[2]]
                if ty["k"] == "adt" and (ty.get("box") or ty["name"].split("::")[-1] in ("Unique", "NonNull", "BoxRaw")):
                    return self._upd(old, path, k + 1, val)
                if ty["k"] == "adt" and ty["kind"] == "struct":
                    fs = [self.mkfld(old, 0, j, f[1]) for j, f in enumerate(ty["vars"][0]["fields"])]
                    fs[i] = self._upd(fs[i], path, k + 1, val)
                    return mk("adt", t[2], 0, tuple(fs))
                if ty["k"] == "adt" and ty["kind"] == "enum" and k > 0 and path[k - 1][0] == "d":
                    var = path[k - 1][1]
                    fs = [self.mkfld(old, var, j, f[1]) for j, f in enumerate(ty["vars"][var]["fields"])]
                    fs[i] = self._upd(fs[i], path, k + 1, val)
                    return mk("adt", t[2], var, tuple(fs))
            if t[0] == "item":
                fs = [self.project(old, ("f", 0)), self.project(old, ("f", 1))]
                fs[i] = self._upd(fs[i], path, k + 1, val)
                return mk("adt", self.item_tid, 0, tuple(fs))
        self.warn.add("weak write %r %r" % (t[0], path[k:]))
        return mk("y", ("op", "modified", (old, val)), self.tid_of(old))

    def resolve(self, st, p):
        d = len(st.frames) - 1
        cell = ("L", d, p[0])
        path = ()
        skip = False
        for e in p[1]:
            if e == "*":
                v = self.read(st, cell, path)
                t = NODES[v]
                if t[0] == "ref":
                    cell, path = t[1], t[2]
                elif t[0] == "y":
                    tid = t[2]
                    ty = self.prog.types[tid] if tid is not None else {"k": "?"}
                    if ty["k"] in ("ref", "ptr"):
                        nt = ty["e"]
                        ety = self.prog.types[nt]
                        if ety["k"] == "adt" and ety["name"].endswith("refs::RefItem"):
                            nv = mk("item", ("itm", v, 0, 0))
                        else:
                            nv = mk("y", t[1], self.strip_box(nt))
                        cell, path = ("K", nv), ()
                    # Box / other: transparent
                else:
                    pass  # Box transparent: same place
            elif e[0] == "i":
                idx = st.frames[d].locals.get(e[1])
                path += (("i", idx if idx is not None else mk("unk")),)
            else:
                if e[0] == "f" and len(e) > 2 and e[2] is not None:
                    # raw pointer inside a Box: Box is transparent
                    n = self.prog.adt_name(e[2])
                    if n in ("Unique", "NonNull", "BoxRaw"):
                        skip = n == "NonNull"
                        continue
                    if skip:
                        skip = False
                        continue
                path += (tuple(e[:2]),) if e[0] in ("f", "d") else (tuple(e),)
        return cell, path

    def rplace(self, st, p):
        if not p[1]:
            v = st.frames[-1].locals.get(p[0])
            return mk("unk") if v is None else v
        c, pa = self.resolve(st, p)
        return self.read(st, c, pa)

    def konst(self, j, tid=None):
        if "int" in j:
            return I(j["int"])
        if "bool" in j:
            return TRUE if j["bool"] else FALSE
        if "char" in j:
            return I(j["char"])
        if "str" in j:
            return mk("s", j["str"])
        if "fn" in j:
            return mk("fn", j["fn"])
        if "fnptr" in j:
            return mk("fn", j["fnptr"])
        if "zst" in j:
            t = self.prog.types[j["zst"]]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("clo", j["zst"], ())
            if t["k"] == "adt":
                return mk("adt", j["zst"], 0, ())
            return mk("y", ("op", "zst", ()), j["zst"])
        if "adt" in j:
            return mk("adt", j["adt"], j["var"], tuple(self.konst(f) for f in j["fields"]))
        if "ref" in j:
            return mk("ref", ("K", self.konst(j["ref"])), ())
        if "arr" in j:
            return mk("arr", tuple(self.konst(f) for f in j["arr"]))
        if "tuple" in j:
            return mk("tup", tuple(self.konst(f) for f in j["tuple"]))
        return mk("y", ("op", "const:" + str(j)[:60], ()), tid)

    def operand(self, st, o):
        if o[0] == "k":
            return self.konst(o[1], o[2])
        return self.rplace(st, o[1])

    def deref(self, st, v):
        """value behind a reference value"""
        n = 0
        while NODES[v][0] == "ref" and n < 6:
            t = NODES[v]
            v = self.read(st, t[1], t[2])
            n += 1
        return v

    # ---------- facts ----------
    STRU = (1 << 64) - 1

    def strbit(self, s):
        """bit of a string constant in masks over the text of a symbolic string"""
        i = self.strings.get(s)
        if i is None:
            i = self.strings[s] = len(self.strings)
            self.stringl.append(s)
            if i > 60:
                raise Unsupported("too many distinct string constants")
        return 1 << i

    def univ(self, v):
        t = NODES[v]
        if t[0] == "tk":
            return self.T.VIS
        if t[0] == "y" and t[1][0] == "op" and t[1][1] == "strval":
            return self.STRU
        if t[0] == "y":
            ty = self.prog.types[t[2]] if t[2] is not None else {"k": "?"}
            if ty["k"] == "bool":
                return 3
            if ty["k"] == "adt" and ty["kind"] == "enum":
                return (1 << len(ty["vars"])) - 1
        return 3

    def known(self, st, v):
        return st.facts.get(v, self.univ(v))

    # which roots is this term determined by
    def refine(self, st, v, masks):
        """split on term v: masks = list of (mask, payload). returns list of (state, payload, event|None)"""
        u = self.known(st, v)
        rs = roots(v)
        alive = [(m & u, pl) for m, pl in masks if m & u]
        if len(alive) == 1:
            s = st
            if (alive[0][0]) != u:
                s = st.copy()
                s.facts[v] = alive[0][0]
            return [(s, alive[0][1], None)]
        live = [r for r in rs if r[0] != "par"]
        ev = False
        if not live:
            pass
        elif len(live) == 1 and live[0] == LA:
            ev = True
        elif len(live) == 1 and live[0][0] == "R" and live[0][2] < CAP and live[0][1] not in ("elem!",):
            r = live[0]
            kind = r[1]
            norm = relabel(v, lambda x: ("R", kind, 0) + x[3:] if x[0] == "R" and x[1] == kind else x, {})
            d = self.parts.setdefault(kind, {})
            ms = d.setdefault(norm, set())
            new = False
            for m, _ in masks:
                if m not in ms:
                    ms.add(m)
                    new = True
            if new:
                raise Restart()
            ev = True  # partition known but could not be applied (parent unresolved): treat as cond
        elif len({(r[1], r[2]) for r in live if r[0] == "R"}) == 1 and all(r[0] == "R" for r in live) and live[0][2] < CAP and not any(r[1].startswith("vec:") for r in live):
            kind = live[0][1]
            norm = relabel(v, lambda x: ("R", kind, 0) + x[3:] if x[0] == "R" and x[1] == kind else x, {})
            d = self.parts.setdefault(kind, {})
            ms = d.setdefault(norm, set())
            new = False
            for m, _ in masks:
                if m not in ms:
                    ms.add(m)
                    new = True
            if new:
                raise Restart()
            ev = True
        else:
            ev = True
        out = []
        for m, pl in alive:
            s = st.copy()
            s.facts[v] = m
            e = None
            if ev:
                e = ("cond", self.show(st, v), self.partstr(v, m))
                self.conds.add(e[1])
            out.append((s, pl, e))
        return out

    def maskstr(self, v, m):
        """names of the alternatives in mask m of term v"""
        t = NODES[v]
        if t[0] == "y" and t[1][0] == "op" and t[1][1] == "strval":
            if m >> 63:
                return ("!",) + tuple(sorted(x for i, x in enumerate(self.stringl) if not m >> i & 1))
            return tuple(sorted(x for i, x in enumerate(self.stringl) if m >> i & 1))
        if t[0] == "y" and t[2] is not None:
            ty = self.prog.types[t[2]]
            if ty["k"] == "adt" and ty["kind"] == "enum":
                return tuple(x["name"] for i, x in enumerate(ty["vars"]) if m >> i & 1)
        return {1: ("F",), 2: ("T",), 3: ("F", "T")}.get(m, (str(m),))

    def partstr(self, v, m):
        """like maskstr; a part that holds the first alternative is written as the complement of the others, so that
        all parts together are everything, whether or not a term is looked at"""
        t = NODES[v]
        if t[0] == "y" and t[1][0] == "op" and t[1][1] == "strval" or not m & 1:
            return self.maskstr(v, m)
        rest = self.univ(v) & ~m
        return ("!",) + (self.maskstr(v, rest) if rest else ())

    def tok_refine(self, st, tl, masks):
        """masks: list of (tokenmask, payload)"""
        cur = st.toks.get(tl, self.T.VIS)
        alive = [(m & cur, pl) for m, pl in masks if m & cur]
        if len(alive) == 1:
            return [(st, alive[0][1], None)]
        if tl != LA and tl[0] == "R":
            kind = tl[1] if tl[1] == "tok" else "first:" + tl[1]
            ps = self.tokparts.setdefault(kind, set())
            new = False
            for m, _ in masks:
                if m not in ps:
                    ps.add(m)
                    new = True
            if new and tl[2] < CAP:
                raise Restart()
        out = []
        for m, pl in alive:
            s = st.copy()
            s.toks[tl] = m
            e = None
            if tl != LA and tl[0] == "R":
                e = ("cond", "class of " + self.tlname(tl), ("tok", m))
                self.conds.add(e[1])
            elif tl[0] == "itm":
                e = ("cond", "class of " + self.tlname(tl), ("tok", m))
            out.append((s, pl, e))
        return out

    # split a state on an integer/boolean vid; cases: list of (value, payload), otherwise payload
    def split_int(self, st, v, cases, other):
        t = NODES[v]
        k = t[0]
        if k == "i":
            for val, pl in cases:
                if val == t[1]:
                    return [(st, pl, None)]
            return [(st, other, None)]
        if k == "dis":
            return self.split_dis(st, t[1], cases, other)
        if k == "not":
            n = [(1 - val, pl) for val, pl in cases]
            # booleans only
            return self.split_bool(st, t[1], self.pick(cases, other, 0), self.pick(cases, other, 1))
        if k == "cmp":
            return self.split_cmp(st, v, self.pick(cases, other, 1), self.pick(cases, other, 0))
        if k == "tkp":
            # bool payload of a token
            ms = []
            rest = st.toks.get(t[1], self.T.VIS)
            for val, pl in cases:
                m = self.T.pmask.get((t[2], val), 0)
                ms.append((m, pl))
                rest &= ~m
            ms.append((rest, other))
            return self.merge(self.tok_refine(st, t[1], ms))
        if k == "y":
            if t[1][0] == "op" and t[1][1] == "nl":
                tl = NODES[t[1][2][0]][1]
                pt, pf = self.pick(cases, other, 1), self.pick(cases, other, 0)
                return self.tok_refine(st, tl, [(self.T.NL, pt), (~self.T.NL & self.T.ALL, pf)])
            if t[1][0] == "op" and t[1][1] == "texteq":
                tk = NODES[t[1][2][0]]
                sv = NODES[t[1][2][1]][1]
                m = self.T.text_mask(sv)
                if m is None:
                    raise NeedText(sv)
                pt, pf = self.pick(cases, other, 1), self.pick(cases, other, 0)
                return self.tok_refine(st, tk[1], [(m, pt), (~m & self.T.ALL, pf)])
            if t[1][0] == "op" and t[1][1] == "streq":
                key = mk("y", ("op", "strval", (t[1][2][0],)), self.bool_tid())
                m = self.strbit(NODES[t[1][2][1]][1])
                pt, pf = self.pick(cases, other, 1), self.pick(cases, other, 0)
                return self.refine(st, key, [(m, pt), (self.STRU & ~m, pf)])
            ty = self.prog.types[t[2]] if t[2] is not None else {"k": "?"}
            if ty["k"] == "bool":
                pt, pf = self.pick(cases, other, 1), self.pick(cases, other, 0)
                return self.refine(st, v, [(2, pt), (1, pf)])
            if self.whole(v) and cases:
                # one comparison after the other
                (val, pl), rest = cases[0], cases[1:]
                out = []
                more = object()
                for s, x, ev in self.split_eq(st, v, I(val), pl, more):
                    if x is not more:
                        out.append((s, x, ev))
                    elif not rest:
                        out.append((s, other, ev))
                    elif ev is None:
                        out += self.split_int(s, v, rest, other)
                    else:
                        return self.split_case(st, v, cases, other)
                return out
        return self.split_case(st, v, cases, other)

    def split_case(self, st, v, cases, other):
        # unknown integer: nondeterministic over cases, event
        out = []
        for val, pl in cases:
            e = ("cond", self.show(st, v), ("%s" % val,))
            s = st.copy()
            if self.pos:
                s.facts[mk("y", ("op", "value", (v,)), None)] = val
            out.append((s, pl, e))
        out.append((st.copy(), other, ("cond", self.show(st, v), ("!",) + tuple("%s" % c[0] for c in cases))))
        self.conds.add(self.show(st, v))
        return out

    def pick(self, cases, other, val):
        for v, pl in cases:
            if v == val:
                return pl
        return other

    def split_bool(self, st, v, pt, pf):
        return self.split_int(st, v, [(0, pf)], pt)

    def merge(self, l):
        return l

    def split_dis(self, st, x, cases, other):
        t = NODES[x]
        if t[0] == "tk":
            ty = self.prog.types[self.T.tid]
            ms = []
            rest = self.T.ALL
            groups = {}
            for val, pl in cases:
                vi = self.prog.variant_by_discr(self.T.tid, val)
                m = self.T.vmask.get(vi, 0)
                groups[pl] = groups.get(pl, 0) | m
                rest &= ~m
            groups[other] = groups.get(other, 0) | rest
            return self.tok_refine(st, t[1], [(m, pl) for pl, m in groups.items()])
        if t[0] == "tkp":
            ft = self.prog.types[self.T.tid]["vars"][t[2]]["fields"][0][1]
            groups = {}
            rest = self.T.vmask[t[2]]
            for val, pl in cases:
                pi = self.prog.variant_by_discr(ft, val)
                m = self.T.pmask.get((t[2], pi), 0)
                groups[pl] = groups.get(pl, 0) | m
                rest &= ~m
            groups[other] = groups.get(other, 0) | rest
            return self.tok_refine(st, t[1], [(m, pl) for pl, m in groups.items()])
        if t[0] == "y":
            tid = t[2]
            groups = {}
            rest = self.univ(x)
            for val, pl in cases:
                vi = self.prog.variant_by_discr(tid, val)
                m = 1 << vi if vi is not None else 0
                groups[pl] = groups.get(pl, 0) | m
                rest &= ~m
            groups[other] = groups.get(other, 0) | rest
            return self.refine(st, x, [(m, pl) for pl, m in groups.items()])
        raise Unsupported("discriminant of %r" % (t,))

    def split_cmp(self, st, v, pt, pf):
        _, op, a, b = NODES[v]
        ta, tb = NODES[a], NODES[b]
        if op in ("Eq", "Ne"):
            if op == "Ne":
                pt, pf = pf, pt
            if ta[0] == "i" and tb[0] != "i":
                a, b, ta, tb = b, a, tb, ta
            if tb[0] == "i":
                if ta[0] == "dis":
                    return self.split_dis(st, ta[1], [(tb[1], pt)], pf)
                if ta[0] in ("y", "tkp", "not", "cmp") and tb[1] in (0, 1) and self.is_boolish(a):
                    return self.split_int(st, a, [(tb[1], pt)], pf)
            if a == b:
                return [(st, pt, None)]
            if ta[0] == "dis" and tb[0] == "dis":
                # enumerate the one with known mask
                return self.split_dis_dis(st, ta[1], tb[1], pt, pf)
            return self.split_eq(st, a, b, pt, pf)
        if op == "Le" and self.whole(a) and self.whole(b):  # a <= b: not b < a
            op, a, b, ta, tb, pt, pf = "Lt", b, a, tb, ta, pf, pt
        if op == "Lt" and tb[0] == "i" and self.whole(a):  # x < k: not k - 1 < x
            if tb[1] <= 0:
                return [(st, pf, None)]
            a, b, ta, tb, pt, pf = I(tb[1] - 1), a, NODES[I(tb[1] - 1)], ta, pf, pt
        if op == "Lt" and a == I(0) and self.whole(b):
            return self.split_eq(st, b, a, pf, pt)
        key = mk("y", ("op", op, (a, b)), self.bool_tid())
        return self.refine(st, key, [(2, pt), (1, pf)])

    def whole(self, v):
        """an unsigned integer"""
        t = NODES[v]
        return t[0] == "i" and t[1] >= 0 or t[0] == "y" and t[2] is not None and self.prog.types[t[2]]["k"] == "uint"

    def split_eq(self, st, a, b, pt, pf):
        key = mk("y", ("op", "eq", tuple(sorted((a, b), key=lambda z: self.show(st, z)))), self.bool_tid())
        for x, k in ((a, b), (b, a)):
            if NODES[k][0] == "i" and key not in st.facts:
                # it is known to be another number
                for f, m in st.facts.items():
                    t = NODES[f]
                    if m == 2 and t[0] == "y" and t[1][0] == "op" and t[1][1] == "eq" and x in t[1][2] and all(y == x or NODES[y][0] == "i" for y in t[1][2]):
                        return [(st, pf, None)]
        return self.refine(st, key, [(2, pt), (1, pf)])

    def split_dis_dis(self, st, x, y, pt, pf):
        out = []
        ty = NODES[y]
        if ty[0] == "tk":
            tid = self.T.tid
            vals = [(v["discr"], ("v", v["discr"])) for v in self.prog.types[tid]["vars"]]
        elif ty[0] == "tkp":
            ft = self.prog.types[self.T.tid]["vars"][ty[2]]["fields"][0][1]
            vals = [(v["discr"], ("v", v["discr"])) for v in self.prog.types[ft]["vars"]]
        else:
            vals = [(v["discr"], ("v", v["discr"])) for v in self.prog.types[ty[2]]["vars"]]
        for s, pl, e in self.split_dis(st, y, vals, None):
            if pl is None:
                continue
            for s2, pl2, e2 in self.split_dis(s, x, [(pl[1], pt)], pf):
                out.append((s2, pl2, e or e2))
        return out

    def is_boolish(self, v):
        t = NODES[v]
        if t[0] in ("not", "cmp", "tkp"):
            return True
        if t[0] == "y":
            return t[2] is not None and self.prog.types[t[2]]["k"] == "bool"
        return False

    # ---------- events ----------
    def relabel_state(self, st, fn, skip_la=False):
        memo = {}
        la_keep = None
        for f in st.frames:
            for k in f.locals:
                f.locals[k] = relabel(f.locals[k], fn, memo)
            if f.native:
                f.native = (f.native[0],) + tuple(relabel(x, fn, memo) if isinstance(x, int) and not isinstance(x, bool) else x for x in f.native[1:])
        st.P = relabel(st.P, fn, memo)
        st.A = tuple(relabel(x, fn, memo) for x in st.A)
        nf = {}
        for k, m in st.facts.items():
            k2 = relabel(k, fn, memo)
            if any(r[0] == "R" and r[2] >= CAP for r in roots(k2)) and k2 != k:
                continue
            nf[k2] = m & nf.get(k2, m)
        st.facts = nf
        nt = {}
        for k, m in st.toks.items():
            k2 = fn(k)
            if k2[0] == "R" and k2[2] >= CAP:
                nt[k2] = m | nt.get(k2, 0)
            else:
                nt[k2] = m
        st.toks = nt

    def ager(self, kind):
        def fn(r):
            if r[0] == "R" and r[1] == kind and r[2] < CAP:
                return ("R", kind, r[2] + 1) + r[3:]
            if r[0] == "itm":
                return r
            return r
        return fn

    def reset_la(self, st):
        """install a fresh look-ahead token"""
        t = NODES[st.P]
        fs = list(t[3])
        fs[self.la_i] = mk("item", LA)
        for n, o in (("look_ahead_position", "pos"), ("current_position", "pos-before")):
            if n in self.pfields:
                i = self.pfields.index(n)
                fs[i] = mk("y", ("op", o, (mk("tk", LA),)), self.ptys[i])
        c = NODES[fs[self.ctx_i]]
        if c[0] == "adt":
            cf = list(c[3])
            cf[self.nl_i] = self.nlval()
            fs[self.ctx_i] = mk("adt", c[1], c[2], tuple(cf))
        st.P = mk("adt", t[1], t[2], tuple(fs))
        st.toks[LA] = self.T.VIS

    def presplit_tok(self, mask, kind):
        ps = [mask]
        for m in self.tokparts.get(kind, ()):
            n = []
            for p in ps:
                a, b = p & m, p & ~m
                if a:
                    n.append(a)
                if b:
                    n.append(b)
            ps = n
        return ps

    def presplit_facts(self, st, kind):
        """list of (state, outcome tuple)"""
        d = self.parts.get(kind)
        res = [(st, ())]
        if not d:
            return res
        terms = sorted(d, key=lambda v: (self.depth(v), self.show(None, v)))
        for v in terms:
            masks = d[v]
            nres = []
            for s, oc in res:
                # parent validity
                ok = True
                t = NODES[v]
                if not self.valid_term(s, v):
                    nres.append((s, oc))
                    continue
                ps = [self.known(s, v)]
                for m in sorted(masks):
                    n = []
                    for p in ps:
                        a, b = p & m, p & ~m
                        if a:
                            n.append(a)
                        if b:
                            n.append(b)
                    ps = n
                if len(ps) == 1:
                    nres.append((s, oc))
                    continue
                for p in ps:
                    s2 = s.copy()
                    s2.facts[v] = p
                    nres.append((s2, oc + ((self.show(None, v), self.partstr(v, p)),)))
            res = nres
        return res

    def valid_term(self, st, v):
        t = NODES[v]
        if t[0] == "y":
            l = t[1]
            if l[0] == "fld":
                base = l[1]
                bt = NODES[base]
                if bt[0] == "y" and bt[2] is not None:
                    ty = self.prog.types[bt[2]]
                    if ty["k"] == "adt" and ty["kind"] == "enum":
                        if st.facts.get(base, self.univ(base)) != 1 << l[2]:
                            return False
                return self.valid_term(st, base)
            if l[0] == "op":
                return all(self.valid_term(st, c) for c in l[2])
            if l[0] == "R" and len(l) > 3:
                # is that label present?  (ok/err sub labels)
                return True
        if t[0] in ("cmp",):
            return self.valid_term(st, t[2]) and self.valid_term(st, t[3])
        return True

    def depth(self, v):
        return 1 + max([self.depth(c) for c in children(v)] or [0])

    # consume one token; returns list of (event,state) with item vid label
    def do_eat(self, st):
        out = []
        for m in self.presplit_tok(st.toks[LA], "tok"):
            s = st.copy()
            s.toks[LA] = m
            self.relabel_state(s, self.ager("tok"))
            self.relabel_state(s, lambda r: ("R", "tok", 0) if r == LA else r)
            self.reset_la(s)
            for s2, oc in self.presplit_facts(s, "tok"):
                out.append((("eat", oc, m), s2))
        return out

    # ---------- printing ----------
    def tlname(self, tl):
        if tl == LA:
            return "la"
        if tl[0] == "R":
            if tl[1] == "tok":
                return "t%s" % self.agestr(tl[2])
            return "%s%s.first" % (tl[1], self.agestr(tl[2]))
        if tl[0] == "par":
            return tl[1]
        if tl[0] == "itm":
            return "item(%s.%d.%d)" % (self.show(None, tl[1]), tl[2], tl[3])
        return str(tl)

    def agestr(self, a):
        return "" if a == 0 else ("'" if a == 1 else "''")

    # truth values that become visible are decided first: `f(a == b)` and `if a == b { f(true) } else { f(false) }` are the same
    def open_bool(self, v):
        """a truth value computed from results or comparisons"""
        t = NODES[v]
        if t[0] in ("cmp", "not"):
            return True
        if t[0] != "y" or t[2] is None or self.prog.types[t[2]]["k"] != "bool":
            return False
        l = t[1]
        if l[0] == "op":
            return l[1] in ("streq", "texteq", "eq", "nl", "BitAnd", "BitOr", "BitXor", "Lt", "Le", "Gt", "Ge")
        if l[0] == "R" and len(l) > 3 and (l[3] in self.out_flags or l[3] in EFFECTS.get(l[1], ())):
            return False  # a context flag a construct leaves: saved and restored as it is
        return any(r[0] == "R" for r in roots(v))

    def open_bools(self, v):
        r = self._ob.get(v)
        if r is None:
            r = (v,) if self.open_bool(v) else tuple(dict.fromkeys(x for c in children(v) for x in self.open_bools(c)))
            self._ob[v] = r
        return r

    def settle(self, st, vals):
        """None, or the cases [(event, state)] of the first undecided truth value in vals; each is to run the current terminator again"""
        f = st.frames[-1]
        if f.native is not None:
            return None
        for v in vals:
            for b in self.open_bools(v):
                res = self.split_bool(st, b, TRUE, FALSE)
                if len(res) > 1:
                    out = []
                    for s, val, ev in res:
                        s = s.copy()
                        self.decided(s, b, NODES[val][1])
                        s.frames[-1].si = len(self.prog.insts[f.iid]["body"]["blocks"][f.bb][0])
                        out.append((ev, s))
                    return out
        return None

    def decided(self, st, v, val):
        """write the truth value val for v wherever it occurs in the state"""
        while NODES[v][0] == "not":
            v, val = NODES[v][1], 1 - val
        rs = roots(v)
        c = I(val)
        memo = {v: c}

        def fix(x):
            r = memo.get(x)
            if r is None:
                r = memo[x] = rebuild(x, fix) if rs <= roots(x) and children(x) else x
            return r

        for f in st.frames:
            for k in f.locals:
                f.locals[k] = fix(f.locals[k])
            if f.native:
                f.native = (f.native[0],) + tuple(fix(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in f.native[1:])
        st.P = fix(st.P)
        st.A = tuple(fix(x) for x in st.A)

    def solid(self, st, v):
        """v with its decided truth values written out"""
        if not self.open_bools(v):
            return v
        if self.open_bool(v):
            res = self.split_bool(st, v, TRUE, FALSE)
            return res[0][1] if len(res) == 1 else v
        return rebuild(v, lambda c: self.solid(st, c))

    def show(self, st, v, d=0):
        t = NODES[v]
        k = t[0]
        if d > 14:
            return "…"
        S = lambda x: self.show(st, x, d + 1)
        if k == "i":
            return str(t[1])
        if k == "s":
            return repr(t[1])
        if k == "tup":
            return "(" + ",".join(S(x) for x in t[1]) + ")"
        if k == "arr":
            return "[" + ",".join(S(x) for x in t[1]) + "]"
        if k == "adt":
            e = self.eta(v)
            if e is not None:
                return S(e)
            ty = self.prog.types[t[1]]
            n = ty["name"].split("::")[-1]
            vn = ty["vars"][t[2]]["name"]
            fs = ty["vars"][t[2]]["fields"]
            if n == "Option":
                return "None" if vn == "None" else "Some(%s)" % S(t[3][0])
            if n == "Result":
                return "%s(%s)" % (vn, S(t[3][0]))
            if ty["name"].startswith("ressa::error") and not self.errmsg:
                # which error and the position blamed; the message text is presentation only
                p = [S(x) for x, f in zip(t[3], fs) if self.prog.adt_name(f[1]) == "Position"]
                return "Error::" + vn + ("@" + p[0] if p else "")
            h = n if ty["kind"] != "enum" else n + "::" + vn
            if not fs:
                return h
            if fs[0][0] == "0":
                return h + "(" + ",".join(S(x) for x in t[3]) + ")"
            return h + "{" + ",".join(f[0] + ":" + S(x) for f, x in zip(fs, t[3]) if not f[0].startswith("+")) + "}"
        if k == "clo":
            return "closure"
        if k == "fn" and self.pos:  # a predicate, whichever way it is written (C29 reads it)
            return "closure"
        if k == "fn":
            return "fn:" + self.prog.insts[t[1]]["base"]
        if k == "ref":
            if t[1][0] == "K":
                x = t[1][1]
                for s in t[2]:
                    x = self.project(x, s)
                return S(x)
            if t[1][0] == "P":
                if not t[2]:
                    return "self"
                if st is not None:
                    return S(self.read(st, t[1], t[2]))
                return "self" + str(t[2])
            if st is not None:
                return S(self.read(st, t[1], t[2]))
            return "&"
        if k == "y":
            l = t[1]
            if l[0] == "R":
                if l[1] == "tok":
                    return "t" + self.agestr(l[2])
                return l[1] + self.agestr(l[2]) + ("." + l[3] if len(l) > 3 and l[3] not in ("ok",) else "")
            if l[0] == "par":
                return l[1]
            if l[0] == "fld":
                bt = NODES[l[1]]
                nm = str(l[3])
                if bt[0] == "y" and bt[2] is not None:
                    ty = self.prog.types[bt[2]]
                    if ty["k"] == "adt":
                        vr = ty["vars"][l[2]]
                        nm = vr["fields"][l[3]][0]
                        if ty["kind"] == "enum":
                            nm = vr["name"] + "." + nm
                return S(l[1]) + "." + nm
            if l[0] == "op":
                return l[1] + "(" + ",".join(S(x) for x in l[2]) + ")"
            return str(l)
        if k == "item":
            return "item " + self.tlname(t[1])
        if k == "tk":
            return "tok " + self.tlname(t[1])
        if k == "tkp":
            return "payload " + self.tlname(t[1])
        if k == "vec":
            return "vec<%s>%s" % (self.prog.tname(t[1]), self.agestr(t[2][2]) if t[2][0] == "R" else ":" + str(t[2][1]))
        if k == "it":
            return "iter:%s(%s)" % (t[1], ",".join(S(x) for x in t[2]))
        if k == "dis":
            return "variant(" + S(t[1]) + ")"
        if k == "not":
            return "!" + S(t[1])
        if k == "cmp":
            return t[1] + "(" + S(t[2]) + "," + S(t[3]) + ")"
        if k == "set":
            return "set(%s+%s)" % (S(t[1]), ",".join(S(x) for x in t[2]))
        return k

    def eta(self, v):
        t = NODES[v]
        if t[0] != "adt" or not t[3]:
            return None
        base = None
        for i, c in enumerate(t[3]):
            ct = NODES[c]
            if ct[0] == "adt":
                e = self.eta(c)
                if e is None:
                    return None
                ct = NODES[e]
            if ct[0] != "y" or ct[1][0] != "fld":
                return None
            _, b, var, idx = ct[1]
            if var != t[2] or idx != i:
                return None
            if base is None:
                base = b
            elif base != b:
                return None
        if base is None:
            return None
        bt = NODES[base]
        if bt[0] == "y" and bt[2] is not None and self.prog.types[bt[2]]["k"] == "adt" and self.prog.types[bt[2]]["name"] == self.prog.types[t[1]]["name"]:
            return base
        return None

    def freeze(self, st, v):
        """v with every reference replaced by a reference to the value it designates"""
        t = NODES[v]
        if t[0] == "ref":
            if t[1] == ("P",) and t[2] == ():
                return v
            return mk("ref", ("K", self.freeze(st, self.read(st, t[1], t[2]))), ())
        if children(v):
            return rebuild(v, lambda c: self.freeze(st, c))
        return v

    def flag_delta(self, st):
        """parser fields that differ from their value on entry: ((name, entry value, value), ...)"""
        out = []
        t = NODES[st.P]
        for n, ty, v in zip(self.pfields, self.ptys, t[3]):
            if n[0] == "+":
                continue
            if n in ("look_ahead", "look_ahead_position", "current_position"):
                if self.pos and n != "look_ahead":
                    vt = NODES[v]
                    fl = self.prog.types[ty]["vars"][0]["fields"]
                    for j, (fn, ft) in enumerate(fl):
                        e = mk("y", ("par", n + "." + fn), ft)
                        if vt[0] != "adt" or vt[3][j] != e:
                            out.append((n + "." + fn, e, self.freeze(st, vt[3][j] if vt[0] == "adt" else mk("y", ("fld", v, fn), ft))))
                    continue
                if self.ll and n == "look_ahead" and v != mk("item", LA):
                    out.append((n, mk("item", LA), self.freeze(st, v)))
                continue
            vt = NODES[v]
            tyy = self.prog.types[ty]
            if vt[0] == "adt" and tyy["k"] == "adt" and len(tyy["vars"]) == 1 and tyy["name"].startswith("ressa::") and (self.ll or n != "scanner"):
                for j, (fn, ft) in enumerate(tyy["vars"][0]["fields"]):
                    if fn[0] == "+":
                        continue
                    if n == "context" and fn == "has_line_term":
                        if vt[3][j] != self.nlval():
                            out.append((fn, self.nlval(), self.freeze(st, vt[3][j])))
                        continue
                    e = mk("y", ("par", n + "." + fn), ft)
                    if vt[3][j] != e:
                        out.append((fn if n == "context" else n + "." + fn, e, self.freeze(st, vt[3][j])))
            else:
                e = mk("y", ("par", n), ty)
                if v != e:
                    out.append((n, e, self.freeze(st, v)))
        return tuple(out)

    # ---------- relevance: which types may still be discriminated on
    def local_tests(self, iid):
        b = self.prog.insts[iid]["body"]
        res = []
        for ss, t, l in b["blocks"]:
            cur = set()
            for s in ss:
                if s[0] == "=" and s[2][0] == "discr":
                    cur.add(self.base_tid(s[2][2]))
                if s[0] == "=" and s[2][0] in ("bin", "cbin"):
                    cur.add("bool")
            callee = None
            if t[0] == "switch":
                cur.add("bool")
            if t[0] == "call":
                fop = t[1]
                if fop[0] == "k" and "fn" in fop[1]:
                    callee = fop[1]["fn"]
                for a in t[6] or ():
                    ty = self.prog.types[a]
                    while ty["k"] in ("ref", "ptr"):
                        ty = self.prog.types[ty["e"]]
                    if ty["k"] == "closure" and ty.get("body") is not None:
                        cur.add(("call", ty["body"]))
                    if ty["k"] == "fndef":
                        cur.add("any")
            res.append((cur, callee))
        return res

    def base_tid(self, tid):
        ty = self.prog.types[tid]
        while ty["k"] in ("ref", "ptr") or (ty["k"] == "adt" and ty.get("box")):
            tid = ty["e"] if ty["k"] in ("ref", "ptr") else ty["args"][0]
            ty = self.prog.types[tid]
        return tid

    def tests_of_fn(self, iid, stack=()):
        """types tested anywhere in iid or the helpers it inlines"""
        c = self._ft.get(iid)
        if c is not None:
            return c
        inst = self.prog.insts[iid]
        if iid in stack:
            return frozenset()
        r = set()
        import models

        if inst["crate"] == "ressa" and (inst["base"] in self.prims or inst["base"] in self.nonterms):
            r = set()
        elif "PartialEq" in inst["path"] or "::cmp" in inst["path"] or "discriminant" in inst["path"]:
            r.add("str")
            for tid, ty in enumerate(self.prog.types):
                if ty["k"] == "adt" and ty["kind"] == "enum" and ty["name"].split("::")[-1] in inst["name"]:
                    r.add(tid)
            if inst["name"].startswith("<resast::"):
                pass
            elif "body" in inst:
                r |= self.body_tests(iid, stack)
        elif "body" in inst and models.interpretable(inst):
            r = self.body_tests(iid, stack)
        r = frozenset(r)
        if not stack:
            self._ft[iid] = r
        return r

    def body_tests(self, iid, stack):
        r = set()
        for cur, callee in self.local_tests(iid):
            for x in cur:
                if isinstance(x, tuple):
                    r |= self.tests_of_fn(x[1], stack + (iid,))
                else:
                    r.add(x)
            if callee is not None:
                r |= self.tests_of_fn(callee, stack + (iid,))
        return r

    def future(self, iid, bb):
        """types that may be tested from block bb of iid on"""
        f = self._fu.get(iid)
        if f is None:
            b = self.prog.insts[iid]["body"]
            lt = self.local_tests(iid)
            n = len(b["blocks"])
            cur = []
            for c, callee in lt:
                r = set()
                for x in c:
                    if isinstance(x, tuple):
                        r |= self.tests_of_fn(x[1])
                    else:
                        r.add(x)
                if callee is not None:
                    r |= self.tests_of_fn(callee)
                cur.append(r)
            succ = []
            for ss, t, l in b["blocks"]:
                k = t[0]
                succ.append([t[1]] if k == "goto" else [x[1] for x in t[2]] + [t[3]] if k == "switch" else [t[2]] if k == "drop" else ([t[4]] if t[4] is not None else []) if k == "call" else [t[3]] if k == "assert" else [])
            preds = [[] for _ in range(n)]
            for i, s in enumerate(succ):
                for x in s:
                    preds[x].append(i)
            work = list(range(n))
            while work:
                i = work.pop()
                new = set(cur[i])
                for x in succ[i]:
                    new |= cur[x]
                if new != cur[i]:
                    cur[i] = new
                    work.extend(preds[i])
            f = self._fu[iid] = [frozenset(x) for x in cur]
        return f[bb]

    def relevant(self, fut, v):
        """may a fact on term v still matter?"""
        if "any" in fut:
            return True
        t = NODES[v]
        if t[0] == "y":
            if t[1][0] == "op":
                if t[1][1] == "strval":
                    return "str" in fut
            if t[2] is not None:
                ty = self.prog.types[t[2]]
                if ty["k"] == "adt":
                    return t[2] in fut
                if ty["k"] == "bool":
                    return "bool" in fut
        return True

    # ---------- canonical key ----------
    def prune(self, st):
        used = set()
        for d, f in enumerate(st.frames):
            if f.native is None:
                live, taken, _ = self.prog.liveness(f.iid)
                if f.si:
                    pass
                elif d == len(st.frames) - 1:
                    lv = live[f.bb]
                    for k in list(f.locals):
                        if k not in lv and k not in taken:
                            del f.locals[k]
                elif f.bb >= 0:
                    # suspended: live at the return target + return dest handled there
                    tgt = st.frames[d + 1].target
                    if tgt is not None:
                        lv = live[tgt]
                        for k in list(f.locals):
                            if k not in lv and k not in taken:
                                del f.locals[k]
        rs = set()
        for f in st.frames:
            for v in f.locals.values():
                rs |= roots(v)
            if f.native:
                for x in f.native[1:]:
                    if isinstance(x, int) and not isinstance(x, bool):
                        rs |= roots(x)
        rs |= roots(st.P)
        for a in st.A:
            rs |= roots(a)
        fut = set()
        for d, f in enumerate(st.frames):
            if f.native is not None:
                fut.add("any")
            elif d == len(st.frames) - 1:
                fut |= self.future(f.iid, f.bb)
            else:
                tgt = st.frames[d + 1].target
                if tgt is not None:
                    fut |= self.future(f.iid, tgt)
        for k in list(st.facts):
            kr = roots(k)
            if any(r[0] == "R" and r not in rs for r in kr):
                del st.facts[k]
            elif any(r[0] == "R" for r in kr) and not self.relevant(fut, k):
                del st.facts[k]
        tokrel = "any" in fut or "str" in fut or any(t in fut for t in self.tok_tids)
        rb = set()
        if not tokrel:
            # a boolean computed from a token but not yet decided keeps that token's class alive
            for f in st.frames:
                for v in f.locals.values():
                    t = NODES[v]
                    if t[0] in ("not", "cmp", "dis") or t[0] == "y" and isinstance(t[2], int) and self.prog.types[t[2]]["k"] == "bool":
                        rb |= roots(v)
        for k in list(st.toks):
            if k[0] == "R" and (k not in rs or not tokrel and k not in rb):
                del st.toks[k]

    def key(self, st):
        return (
            tuple((f.iid, f.bb, f.si, tuple(sorted(f.locals.items())), str(f.dest), f.target, f.native) for f in st.frames),
            st.P,
            st.A,
            tuple(sorted(st.facts.items())),
            tuple(sorted(st.toks.items(), key=str)),
        )

    # ---------- truncation ----------
    def trunc(self, v, cnt=()):
        memo = self._tm if hasattr(self, "_tm") else None
        if memo is None:
            memo = self._tm = {}
        k = (v, cnt)
        if k in memo:
            return memo[k]
        t = NODES[v]
        r = v
        if t[0] == "adt":
            ty = self.prog.types[t[1]]
            if ty["name"].startswith("resast::") and ty["kind"] == "enum" and t[3]:
                n = ty["name"].split("::")[-1]
                if n in ("Expr",):
                    c = dict(cnt)
                    c[n] = c.get(n, 0) + 1
                    if c[n] > 2:
                        r = mk("y", ("op", "…" + n, ()), t[1])
                        memo[k] = r
                        return r
                    cnt = tuple(sorted(c.items()))
        ch = children(v)
        if ch:
            r = rebuild(v, lambda x: self.trunc(x, cnt))
        memo[k] = r
        return r

    def trunc_state(self, st):
        for f in st.frames:
            for k in f.locals:
                f.locals[k] = self.trunc(f.locals[k])

    # ---------- main exploration ----------
    def explore(self, iid):
        for _ in range(400):
            try:
                return self._explore(iid)
            except Restart:
                continue
        raise Unsupported("no fixpoint of outcome partitions")

    def _explore(self, iid):
        st = self.init_state(iid)
        nodes = {}
        edges = []  # per node: list of (event, dst | None)
        work = []
        self.node_facts = []

        def node(s):
            self.trunc_state(s)
            self.prune(s)
            k = self.key(s)
            n = nodes.get(k)
            if n is None:
                n = len(edges)
                nodes[k] = n
                edges.append(None)
                nf = {f: m for f, m in s.facts.items() if not any(r[0] == "R" or r == LA for r in roots(f))}
                nf.update({mk("tk", l): m & self.T.VIS for l, m in s.toks.items() if l[0] == "par" and m & self.T.VIS != self.T.VIS})
                self.node_facts.append(nf)
                work.append((n, s))
                if n > self.max_nodes:
                    raise Unsupported("state budget exceeded")
            return n

        start = node(st)
        while work:
            n, s = work.pop()
            res = self.step(s.copy())
            edges[n] = [(ev, None if t is None else node(t)) for ev, t in res]
        return edges, self.node_facts

    def step(self, st):
        """run until fork/event/join. returns list of (event|None, state|None)"""
        first = True
        while True:
            f = st.frames[-1]
            if f.native is not None:
                return self.native_enter(st)
            body = self.prog.insts[f.iid]["body"]
            if not first:
                live, taken, npred = self.prog.liveness(f.iid)
                if npred[f.bb] > 1:
                    return [(None, st)]
            first = False
            ss, t, line = body["blocks"][f.bb]
            si, f.si = f.si, 0
            for n in range(si, len(ss)):
                s = ss[n]
                k = s[0]
                if k == "=":
                    v = self.rvalue(st, s[2])
                    tv = NODES[v]
                    if s[2][0] == "bin" and tv[0] == "y" and tv[1][0] == "op" and tv[1][1] in ("BitOr", "BitAnd", "BitXor") and self.is_boolish(v):
                        # undecided boolean connective: decide its first operand, as a short-circuit would
                        out = []
                        for s2, val, ev in self.split_bool(st, tv[1][2][0], TRUE, FALSE):
                            s2 = s2.copy()
                            self.assign(s2, s[1], self.binop(s2, tv[1][1], val, tv[1][2][1]))
                            s2.frames[-1].si = n + 1
                            out.append((ev, s2))
                        return out
                    self.assign(st, s[1], v)
                elif k == "sdead":
                    f.locals.pop(s[1], None)
                elif k == "sd":
                    self.set_discr(st, s[1], s[2])
            k = t[0]
            if k == "goto":
                f.bb = t[1]
                continue
            if k == "drop":
                f.bb = t[2]
                continue
            if k == "switch":
                v = self.operand(st, t[1])
                ob = self.open_bool(v)
                if ob:
                    res = self.split_int(st, v, [(x[0], (x[1], x[0])) for x in t[2]], (t[3], 0 if any(x[0] == 1 for x in t[2]) else 1))
                else:
                    res = self.split_int(st, v, [(x[0], x[1]) for x in t[2]], t[3])
                out = []
                for s2, bb, ev in res:
                    if ob:
                        bb, val = bb
                        if s2 is st and len(res) > 1:
                            s2 = s2.copy()
                        self.decided(s2, v, val)
                    s2.frames[-1].bb = bb
                    if self.is_unreach(s2):
                        continue
                    out.append((ev, s2))
                if len(out) == 1 and out[0][0] is None:
                    st = out[0][1]
                    continue
                return out
            if k == "assert":
                f.bb = t[3]
                continue
            if k == "ret":
                rv = f.locals.get(0, UNIT)
                if len(st.frames) == 1:
                    tr = NODES[rv]
                    if not (tr[0] == "adt" and self.prog.adt_name(tr[1]) == "Result" and tr[2] == 1):
                        fz = self.freeze(st, rv)
                        r = self.settle(st, (fz,))
                        if r is not None:
                            return r
                        rv = self.solid(st, fz)
                    return [(self.ret_event(st, rv), None)]
                rv = self.close_over(st, rv)
                st.frames.pop()
                top = st.frames[-1]
                if top.native is not None:
                    return self.native_return(st, rv)
                self.assign(st, f.dest, rv)
                top.bb = f.target
                if f.target is None:
                    return []
                continue
            if k == "call":
                r = self.call(st, t)
                if r is None:
                    continue
                return r
            if k == "unreachable":
                return []
            if k in ("resume", "abort"):
                return []
            raise Unsupported("terminator " + k)

    def is_unreach(self, st):
        f = st.frames[-1]
        if f.native:
            return False
        ss, t, _ = self.prog.insts[f.iid]["body"]["blocks"][f.bb]
        return t[0] == "unreachable"

    def close_over(self, st, rv):
        """value returned from a popped frame must not refer to it"""
        d = len(st.frames) - 1

        def fix(v):
            t = NODES[v]
            if t[0] == "ref" and t[1][0] == "L" and t[1][1] >= d:
                return mk("ref", ("K", fix(self.read(st, t[1], t[2]))), ())
            if children(v):
                return rebuild(v, fix)
            return v

        return fix(rv)

    def ret_event(self, st, rv):
        t = NODES[rv]
        la = st.toks[LA]
        if t[0] == "adt" and self.prog.adt_name(t[1]) == "Result":
            if t[2] == 1:
                return ("ret", -1, (), la, self.freeze(st, t[3][0]))
        rv = self.freeze(st, rv)
        # what is written through the reference parameters is part of the result
        for i, e, v in sorted(((self.Aname.get(i, "ref%d" % i), e, v) for i, (e, v) in enumerate(zip(self.A0, st.A))), key=lambda x: x[0] if self.pos else ""):
            if v != e and NODES[v][0] != "vec":
                rv = mk("y", ("op", "with", (rv, mk("s", i), self.freeze(st, v))), None)
        if self.pos:
            rv = self.widths(st, rv)
        return ("ret", rv, self.flag_delta(st), la)

    def assign(self, st, place, v):
        if not place[1]:
            st.frames[-1].locals[place[0]] = v
            return
        c, p = self.resolve(st, place)
        self.write(st, c, p, v)

    def set_discr(self, st, place, var):
        v = self.rplace(st, place)
        t = NODES[v]
        if t[0] == "adt":
            self.assign(st, place, mk("adt", t[1], var, t[3]))

    def rvalue(self, st, r):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            p = r[1]
            c, path = self.resolve(st, p)
            v = self.read(st, c, path)
            # reborrow of &str / slices held by value
            t = NODES[v]
            if p[1] and p[1][-1] == "*" and t[0] == "s":
                return v
            return mk("ref", c, path)
        if k == "agg":
            ops = tuple(self.operand(st, o) for o in r[3])
            kind = r[1]
            if kind == "adt":
                ty = self.prog.types[r[4]]
                if ty["kind"] == "union":
                    return ops[0] if ops else mk("unk")
                n = ty["name"].split("::")[-1]
                if n == "RefItem" and len(ops) == 2:
                    a = NODES[ops[0]]
                    if a[0] == "tk" and ops[1] == self.project(mk("item", a[1]), ("f", 1)):
                        return mk("item", a[1])
                return mk("adt", r[4], r[2], ops)
            if kind == "tuple":
                return mk("tup", ops)
            if kind == "array":
                return mk("arr", ops)
            if kind == "closure":
                return mk("clo", r[4], ops)
            if kind == "rawptr":
                return ops[0]
            raise Unsupported("aggregate " + kind)
        if k == "discr":
            return self.discr(st, self.rplace(st, r[1]))
        if k in ("bin", "cbin"):
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            v = self.binop(st, r[1], a, b)
            if k == "cbin":
                return mk("tup", (v, FALSE))
            return v
        if k == "un":
            a = self.operand(st, r[2])
            t = NODES[a]
            if r[1] == "Not":
                if t[0] == "i" and t[1] in (0, 1):
                    return I(1 - t[1])
                if t[0] == "not":
                    return t[1]
                return mk("not", a)
            if r[1] == "Neg" and t[0] == "i":
                return I(-t[1])
            if r[1] == "PtrMetadata":
                return self.length(st, self.deref(st, a))
            return mk("y", ("op", r[1], (a,)), None)
        if k == "cast":
            return self.operand(st, r[2])
        if k == "len":
            return self.length(st, self.rplace(st, r[1]))
        if k == "repeat":
            return mk("y", ("op", "repeat", (self.operand(st, r[1]),)), None)
        raise Unsupported("rvalue " + k)

    def length(self, st, v):
        t = NODES[v]
        if t[0] == "arr":
            return I(len(t[1]))
        if t[0] == "vec" and isinstance(t[3], int):
            return I(t[3])
        if self.pos and t[0] == "y" and t[1][0] == "op" and t[1][1] == "piece":
            return self.binop(st, "Sub", t[1][2][2], t[1][2][1])
        return mk("y", ("op", "len", (v,)), self.usize_tid())

    def piece(self, st, base, idx):
        """(start, end) of a slice, whichever range it is written with"""
        t = NODES[idx]
        if t[0] != "adt":
            return None
        n = self.prog.adt_name(t[1])
        if n == "Range":
            return t[3]
        if n == "RangeFrom":
            return (t[3][0], self.length(st, base))
        if n == "RangeTo":
            return (I(0), t[3][0])
        return None

    def least(self, shown):
        """least length of a list that a grammar function returned (per its reference), by its printed name; None if unknown"""
        m = re.match(r"^(\w+?)'*\d*(?:\.(\w+))?$", shown)
        return None if m is None else refminlen(m.group(1)).get(m.group(2) or "")

    def usize_tid(self):
        if not hasattr(self, "_ut"):
            self._ut = next(k for k, t in enumerate(self.prog.types) if t["k"] == "uint" and t["s"] == "Usize")
        return self._ut

    def discr(self, st, v):
        t = NODES[v]
        if t[0] == "adt":
            return I(self.prog.types[t[1]]["vars"][t[2]]["discr"])
        if t[0] == "y":
            m = self.known(st, v)
            if m and m & (m - 1) == 0 and t[2] is not None and self.prog.types[t[2]]["k"] == "adt":
                return I(self.prog.types[t[2]]["vars"][m.bit_length() - 1]["discr"])
            return mk("dis", v)
        if t[0] in ("tk", "tkp"):
            return mk("dis", v)
        if t[0] == "i":
            return v
        if t[0] == "unk":
            raise Unsupported("discriminant of uninitialised value")
        raise Unsupported("discriminant of " + t[0])

    def widths(self, st, v):
        """the width of a character the path knows is a number"""
        t = NODES[v]
        if t[0] == "y" and t[1][0] == "op":
            xs = t[1][2]
            if t[1][1] == "str.len_utf8" and len(xs) == 1:
                c = st.facts.get(mk("y", ("op", "value", (xs[0],)), None))
                return v if c is None else I(len(chr(c).encode()))
            if t[1][1] == "sum":
                r = I(0)
                for x in xs:
                    x = self.widths(st, x)
                    tx = NODES[x]
                    if tx[0] == "y" and tx[1][0] == "op" and tx[1][1] == "-":
                        r = self.binop(st, "Sub", r, self.widths(st, tx[1][2][0]))
                    else:
                        r = self.binop(st, "Add", r, x)
                return r
        if children(v):
            return rebuild(v, lambda c: self.widths(st, c))
        return v

    def arith(self, op, a, b):
        """one form for sums and comparisons of lengths and offsets (all unsigned)"""
        ta, tb = NODES[a], NODES[b]
        num = lambda t: t[1] if t[0] == "i" else None
        if op == "Shr" and tb[0] == "i":
            return mk("y", ("op", "Div", (a, I(1 << tb[1]))), ta[2] if ta[0] == "y" else None)
        if op in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            acc, k, tid = {}, 0, None

            def walk(v, sg):
                nonlocal k, tid
                t = NODES[v]
                if t[0] == "i":
                    k += sg * t[1]
                    return
                if t[0] == "y":
                    tid = t[2] if tid is None else tid
                    if t[1][0] == "op" and t[1][1] == "sum":
                        for x in t[1][2]:
                            tx = NODES[x]
                            if tx[0] == "y" and tx[1][0] == "op" and tx[1][1] == "-":
                                walk(tx[1][2][0], -sg)
                            else:
                                walk(x, sg)
                        return
                acc[v] = acc.get(v, 0) + sg

            walk(a, 1)
            walk(b, -1 if op.startswith("Sub") else 1)
            if all(abs(c) == 1 for c in acc.values() if c):
                xs = [v if c > 0 else mk("y", ("op", "-", (v,)), tid) for v, c in acc.items() if c]
                if k or not xs:
                    xs.append(I(k))
                if len(xs) == 1 and xs[0] in acc or not acc:
                    return xs[0]
                return mk("y", ("op", "sum", tuple(sorted(xs, key=lambda x: self.show(None, x)))), tid)
            return None
        if op == "Ne":
            return mk("not", self.arith("Eq", a, b))
        if op == "Ge":
            return mk("not", self.arith("Lt", a, b))
        if op == "Gt":
            return self.arith("Lt", b, a)
        if op == "Le":
            return mk("not", self.arith("Lt", b, a))
        if op == "Lt":
            n, m = num(ta), num(tb)
            ln = lambda t: t[0] == "y" and t[1][0] == "op" and t[1][1] == "len"
            if n == 0:
                return mk("not", self.arith("Eq", b, I(0)))
            if m == 1:
                return self.arith("Eq", a, I(0))
            if m == 2 and ln(ta):  # there is always a line
                return self.arith("Eq", a, I(1))
            if n == 1 and ln(tb):
                return mk("not", self.arith("Eq", b, I(1)))
            return mk("cmp", "Lt", a, b)
        if op == "Eq" and not self.is_boolish(a):
            if ta[0] == "i" and tb[0] != "i" or ta[0] == tb[0] and self.show(None, a) > self.show(None, b):
                a, b = b, a
            return mk("cmp", "Eq", a, b)
        return None

    def binop(self, st, op, a, b):
        ta, tb = NODES[a], NODES[b]
        if self.pos and not (ta[0] == "i" and tb[0] == "i"):
            v = self.arith(op, a, b)
            if v is not None:
                return v
        if ta[0] == "i" and tb[0] == "i":
            x, y = ta[1], tb[1]
            try:
                return {
                    "Eq": lambda: I(int(x == y)), "Ne": lambda: I(int(x != y)), "Lt": lambda: I(int(x < y)),
                    "Le": lambda: I(int(x <= y)), "Gt": lambda: I(int(x > y)), "Ge": lambda: I(int(x >= y)),
                    "Add": lambda: I(x + y), "Sub": lambda: I(x - y), "Mul": lambda: I(x * y),
                    "BitAnd": lambda: I(x & y), "BitOr": lambda: I(x | y), "BitXor": lambda: I(x ^ y),
                    "AddUnchecked": lambda: I(x + y), "SubUnchecked": lambda: I(x - y),
                    "Cmp": lambda: I((x > y) - (x < y)),
                }[op]()
            except KeyError:
                pass
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a == b and op in ("Eq", "Le", "Ge"):
                return TRUE
            if op == "Gt":
                return mk("cmp", "Lt", b, a)
            if op == "Ge":
                return mk("cmp", "Le", b, a)
            if op in ("Eq", "Ne"):
                # bool == const
                if tb[0] == "i" and self.is_boolish(a) and tb[1] in (0, 1):
                    return a if (tb[1] == 1) == (op == "Eq") else mk("not", a)
            return mk("cmp", op, a, b)
        if op == "BitXor":
            for x, y in ((a, b), (b, a)):
                tx = NODES[x]
                if tx[0] == "i" and tx[1] in (0, 1) and self.is_boolish(y):
                    return mk("not", y) if tx[1] else y
        if op == "BitAnd" or op == "BitOr":
            for x, y in ((a, b), (b, a)):
                tx = NODES[x]
                if tx[0] == "i" and tx[1] in (0, 1) and self.is_boolish(y):
                    if op == "BitAnd":
                        return y if tx[1] else FALSE
                    return TRUE if tx[1] else y
        return mk("y", ("op", op, (a, b)), self.bool_tid() if self.is_boolish(a) else self.usize_tid())

    # ---------- calls ----------
    def dest_tid(self, st, place):
        f = st.frames[-1]
        b = self.prog.insts[f.iid]["body"]
        if not place[1]:
            return b["locals"][place[0]]
        last = place[1][-1]
        if last != "*" and last[0] == "f":
            return last[2]
        return None

    def cont(self, st, dest, target, v):
        """finish a call with value v: assign and go on"""
        self.assign(st, dest, v)
        if target is None:
            return []
        st.frames[-1].bb = target
        return None

    def call(self, st, t):
        _, fop, aops, dest, target, line, atys = t
        args = [self.operand(st, o) for o in aops]
        if fop[0] == "k" and "fn" in fop[1]:
            iid = fop[1]["fn"]
        elif fop[0] == "k" and "fnunres" in fop[1]:
            pr = self.prims.get("?" + fop[1]["fnunres"].split("::")[-1])
            if pr is not None:
                return pr(self, st, None, args, dest, target)
            return self.cont(st, dest, target, mk("y", ("op", fop[1]["fnunres"], tuple(args)), self.dest_tid(st, dest)))
        else:
            fv = self.deref(st, self.operand(st, fop))
            if NODES[fv][0] == "fn":
                iid = NODES[fv][1]
            else:
                raise Unsupported("indirect call")
        return self.invoke(st, iid, args, dest, target)

    def invoke(self, st, iid, args, dest, target):
        import models

        inst = self.prog.insts[iid]
        path = inst["path"]
        base = inst["base"]
        pr = self.prims.get(path)
        if pr is not None:
            return pr(self, st, inst, args, dest, target)
        # nonterminals
        if inst["crate"] == "ressa":
            pr = self.prims.get(base)
            if pr is not None:
                return pr(self, st, inst, args, dest, target)
            if base in self.nonterms:
                return self.nonterm(st, inst, args, dest, target)
        m = models.lookup(path, inst)
        if m is not None:
            r = m(self, st, inst, args, dest, target)
            if r is not models.DECLINE:
                return r
        if "body" in inst and models.interpretable(inst):
            return self.inline(st, iid, args, dest, target)
        dt = self.dest_tid(st, dest)
        v = self.construct(inst, args, dt)
        if v is not None:
            return self.cont(st, dest, target, v)
        # opaque
        touched = [a for a in args if NODES[a][0] == "ref" and NODES[a][1][0] != "K"]
        if inst["crate"] in ("core", "alloc", "std", "log", "backtrace", "ress", "resast") and "panick" in path:
            return [(("panic", path.split("::")[-1]), None)]
        self.warn.add("opaque " + path)
        vals = tuple(self.deref(st, a) for a in args)
        return self.cont(st, dest, target, mk("y", ("op", path, vals), dt))

    def construct(self, inst, args, tid):
        """a variant or struct constructor used as a function"""
        segs = [x for x in re.sub(r"::<[^<>]*>", "", inst["path"]).split("::")]
        if not segs[-1][:1].isupper():
            return None
        hits = []
        for i, ty in enumerate(self.prog.types) if tid is None else [(tid, self.prog.types[tid])]:
            if ty["k"] != "adt" or not ty.get("vars"):
                continue
            n = ty["name"].split("::")
            for j, x in enumerate(ty["vars"]):
                if len(x["fields"]) == len(args) and (ty["kind"] == "enum" and n + [x["name"]] == segs or ty["kind"] == "struct" and n == segs):
                    hits.append(mk("adt", i, j, tuple(args)))
        return hits[0] if len(hits) == 1 else None

    def inline(self, st, iid, args, dest, target):
        inst = self.prog.insts[iid]
        b = inst["body"]
        if len(st.frames) > 24:
            raise Unsupported("inline depth: " + inst["path"])
        if inst["crate"] == "ressa":
            self.inlined.add(inst["base"])
            if any(f.iid == iid for f in st.frames):
                if self.pos:  # the inner round is a value of its own
                    v = mk("y", ("op", "again " + inst["base"], tuple(self.freeze(st, a) for a in args)), self.dest_tid(st, dest))
                    self.warn.add("opaque again " + inst["base"])
                    return self.cont(st, dest, target, v)
                raise Unsupported("recursive helper " + inst["path"])
        if b["nargs"] != len(args):
            # rust-call abi: untuple
            tl = NODES[args[-1]]
            if tl[0] == "tup":
                args = list(args[:-1]) + list(tl[1])
            if b["nargs"] != len(args):
                raise Unsupported("arity of " + inst["path"])
        elif len(args) == 2 and NODES[args[1]][0] == "tup" and len(NODES[args[1]][1]) == 1 and self.prog.types[b["locals"][2]]["k"] != "tuple":
            args = [args[0], NODES[args[1]][1][0]]
        loc = {i + 1: a for i, a in enumerate(args)}
        st.frames.append(Frame(iid, 0, loc, dest, target))
        return None

    def nonterm(self, st, inst, args, dest, target):
        base = inst["base"]
        self.callees.add(base)
        kind = base
        b = inst["body"]
        rt = b["locals"][0]
        ts = []
        for a in args:
            ta = NODES[a]
            if ta[0] == "ref" and ta[1] == ("P",) and ta[2] == ():
                continue
            ts.append(self.freeze(st, a))
        r = self.settle(st, ts)
        if r is not None:
            return r
        ts = [self.solid(st, x) for x in ts]
        delta = self.flag_delta(st)
        out = []
        for m in self.presplit_tok(st.toks[LA], "first:" + base):
            s = st.copy()
            s.toks[LA] = m
            # &mut args to local cells: havoc after aging
            self.relabel_state(s, self.ager(kind))
            self.relabel_state(s, lambda r: ("R", kind, 0, "first") if r == LA else r)
            self.reset_la(s)
            if any(NODES[a][0] == "ref" and NODES[a][1] == ("P",) for a in args):
                P = NODES[s.P]
                fs = list(P[3])
                c = NODES[fs[self.ctx_i]]
                cf = list(c[3])
                for j, (fn, ft) in enumerate(self.ctx_fields):
                    if fn in self.out_flags or fn in EFFECTS.get(base, ()):
                        cf[j] = mk("y", ("R", kind, 0, fn), ft)
                fs[self.ctx_i] = mk("adt", c[1], c[2], tuple(cf))
                s.P = mk("adt", P[1], P[2], tuple(fs))
            for a in args:
                ta = NODES[a]
                if ta[0] == "ref" and ta[1][0] in ("L", "A"):
                    v = self.read(s, ta[1], ta[2])
                    tv = NODES[v]
                    if tv[0] == "vec":
                        self.write(s, ta[1], ta[2], mk("vec", tv[1], tv[2], "?"))
            rty = self.prog.types[rt]
            if rty["k"] == "adt" and rty["name"].endswith("result::Result"):
                okt, ert = rty["args"][0], rty["args"][1]
                okty = self.prog.types[okt]
                if okty["k"] == "tuple":
                    if okty["es"]:
                        okv = mk("tup", tuple(mk("y", ("R", kind, 0, str(i)), self.strip_box(e)) for i, e in enumerate(okty["es"])))
                    else:
                        okv = UNIT
                else:
                    okv = mk("y", ("R", kind, 0, "ok"), self.strip_box(okt))
                ok = mk("adt", rt, 0, (okv,))
                er = mk("adt", rt, 1, (mk("y", ("R", kind, 0, "err"), ert),))
                s2 = s.copy()
                for s3, oc in self.presplit_facts(self.after(s, dest, target, ok), kind):
                    out.append((("call", base, tuple(ts), delta, "ok", oc, m), s3))
                out.append((("call", base, tuple(ts), delta, "err", (), m), self.after(s2, dest, target, er)))
            else:
                v = mk("y", ("R", kind, 0, "ok"), self.strip_box(rt))
                for s3, oc in self.presplit_facts(self.after(s, dest, target, v), kind):
                    out.append((("call", base, tuple(ts), delta, "ok", oc, m), s3))
        return out

    def after(self, s, dest, target, v):
        self.assign(s, dest, v)
        s.frames[-1].bb = target
        return s

    # ---------- native frames ----------
    def native_enter(self, st):
        import models

        return models.native_enter(self, st)

    def native_return(self, st, rv):
        import models

        return models.native_return(self, st, rv)
