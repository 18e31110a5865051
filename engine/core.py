"""Program model over the MIR dump + hash-consed abstract values."""
import json, re


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.insts = d["insts"]
        self.types = d["types"]
        self.by_base = {}
        self.generic = {g["name"]: g["body"] for g in d["generic"]}
        # a use of generic code elsewhere in the library does not make it that instance
        have = {i["path"] for i in self.insts if i.get("root") or "<CH>" in i["path"] or any(isinstance(a, int) and "Param(" in self.types[a].get("s", "") for a in i.get("args", ()))}
        for g in d["generic"]:
            if g["name"] not in have:  # generic code nobody instantiates in the library: its polymorphic body
                self.insts.append({"id": len(self.insts), "name": g["name"], "path": g["name"], "crate": "ressa", "root": False, "kind": "item", "args": [], "body": g["body"], "generic": True})
        for i in self.insts:
            i["base"] = base_name(i["path"])
            if i["crate"] == "ressa":
                self.by_base.setdefault(i["base"], []).append(i)
        self.live_cache = {}

    # ---- types
    def adt_name(self, tid):
        t = self.types[tid]
        if t["k"] == "adt":
            return t["name"].split("::")[-1]
        return None

    def tname(self, tid, d=0):
        if tid is None:
            return "?"
        x = self.types[tid]
        k = x["k"]
        if k == "adt":
            if x["box"]:
                return "Box<" + self.tname(x["args"][0], d + 1) + ">"
            n = x["name"].split("::")[-1]
            a = [y for y in x["args"] if self.types[y].get("name") != "std::alloc::Global"]
            return n + ("<" + ",".join(self.tname(y, d + 1) for y in a) + ">" if a and d < 4 else "")
        if k in ("ref", "ptr"):
            return "&" + self.tname(x["e"], d)
        if k == "tuple":
            return "(" + ",".join(self.tname(y, d + 1) for y in x["es"]) + ")"
        if k in ("slice", "array"):
            return "[" + self.tname(x["e"], d + 1) + "]"
        return x.get("s") or k

    def is_box(self, tid):
        t = self.types[tid]
        return t["k"] == "adt" and t.get("box")

    def variant_by_discr(self, tid, dv):
        for k, v in enumerate(self.types[tid]["vars"]):
            if v["discr"] == dv:
                return k
        return None

    def inst(self, path):
        l = [i for i in self.insts if i["path"] == path]
        for i in l:
            if i.get("generic") or any(isinstance(a, int) and "Param(" in self.types[a].get("s", "") for a in i.get("args", ())):
                return i
        return l[0] if l else None

    # ---- liveness (per body): live-in locals at each block
    def liveness(self, iid):
        if iid in self.live_cache:
            return self.live_cache[iid]
        b = self.insts[iid]["body"]
        taken = set()

        def uses_place(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e != "*" and e[0] == "i":
                    acc.add(e[1])

        def uses_op(o, acc):
            if o[0] in ("c", "m"):
                uses_place(o[1], acc)

        def rv_uses(r, acc):
            k = r[0]
            if k == "ref":
                if "*" not in r[1][1]:
                    taken.add(r[1][0])
                uses_place(r[1], acc)
            elif k == "agg":
                for o in r[3]:
                    uses_op(o, acc)
            elif k in ("bin", "cbin"):
                uses_op(r[2], acc)
                uses_op(r[3], acc)
            elif k == "un":
                uses_op(r[2], acc)
            elif k == "cast":
                uses_op(r[2], acc)
            elif k in ("discr", "len"):
                uses_place(r[1], acc)
            elif k in ("use", "repeat"):
                uses_op(r[1], acc)

        blocks = b["blocks"]
        info = []
        for ss, t, l in blocks:
            seq = []
            for s in ss:
                if s[0] == "=":
                    u = set()
                    rv_uses(s[2], u)
                    d = None
                    if not s[1][1]:
                        d = s[1][0]
                    else:
                        uses_place(s[1], u)
                    seq.append((u, d))
                elif s[0] == "sd":
                    u = set()
                    uses_place(s[1], u)
                    seq.append((u, None))
                elif s[0] == "sdead":
                    seq.append((set(), s[1]))
            u = set()
            d = None
            succ = []
            k = t[0]
            if k == "goto":
                succ = [t[1]]
            elif k == "switch":
                uses_op(t[1], u)
                succ = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                succ = [t[2]]
            elif k == "call":
                uses_op(t[1], u)
                for o in t[2]:
                    uses_op(o, u)
                if not t[3][1]:
                    d = t[3][0]
                else:
                    uses_place(t[3], u)
                if t[4] is not None:
                    succ = [t[4]]
            elif k == "assert":
                uses_op(t[1], u)
                for o in t[5]:
                    uses_op(o, u)
                succ = [t[3]]
            elif k == "ret":
                u.add(0)
            seq.append((u, d))
            info.append((seq, succ))
        n = len(blocks)
        live = [set() for _ in range(n)]
        preds = [[] for _ in range(n)]
        for i, (_, succ) in enumerate(info):
            for s in succ:
                preds[s].append(i)
        work = list(range(n))
        while work:
            i = work.pop()
            seq, succ = info[i]
            cur = set()
            for s in succ:
                cur |= live[s]
            for u, d in reversed(seq):
                if d is not None:
                    cur.discard(d)
                cur |= u
            if cur != live[i]:
                live[i] = cur
                work.extend(preds[i])
        npred = [len(set(p)) for p in preds]
        res = ([frozenset(x) for x in live], frozenset(taken), npred)
        self.live_cache[iid] = res
        return res


def base_name(path):
    # strip closure suffixes but keep a marker
    p = path
    m = re.match(r"^(.*?)((?:::\{closure#\d+\})*)$", p)
    stem, clo = m.group(1), m.group(2)
    if stem.startswith("<"):
        # <T as Trait>::method
        r = stem
        i = r.rfind(">::")
        if i >= 0:
            name = r[i + 3 :]
            tr = r[1:i]
            tr = tr.split(" as ")
            ty = tr[0].split("::")[-1].split("<")[0]
            return ty + "." + name + clo
    return stem.split("::")[-1] + clo


# ---------------- hash-consed values ----------------
NODES = []
_IDX = {}


def mk(*t):
    i = _IDX.get(t)
    if i is None:
        i = len(NODES)
        NODES.append(t)
        _IDX[t] = i
    return i


def I(n):
    return mk("i", n)


TRUE = I(1)
FALSE = I(0)
UNIT = mk("tup", ())


def children(vid):
    """(vids contained, rebuild)"""
    t = NODES[vid]
    k = t[0]
    if k in ("adt",):
        return t[3]
    if k in ("tup", "arr"):
        return t[1]
    if k == "clo":
        return t[2]
    if k == "ref":
        c = t[1]
        r = ()
        if c[0] == "K":
            r += (c[1],)
        r += tuple(s[1] for s in t[2] if s[0] == "i")
        return r
    if k == "y":
        return _label_children(t[1])
    if k == "it":
        return t[2]
    if k in ("dis", "not"):
        return (t[1],)
    if k == "yd":
        return (t[1],)
    if k == "cmp":
        return (t[2], t[3])
    if k == "set":
        return (t[1],) + t[2]
    return ()


def _label_children(l):
    if l[0] == "fld":
        return (l[1],)
    if l[0] == "op":
        return l[2]
    return ()


def rebuild(vid, f):
    """map f over children"""
    t = NODES[vid]
    k = t[0]
    if k == "adt":
        return mk("adt", t[1], t[2], tuple(f(c) for c in t[3]))
    if k in ("tup", "arr"):
        return mk(k, tuple(f(c) for c in t[1]))
    if k == "clo":
        return mk("clo", t[1], tuple(f(c) for c in t[2]))
    if k == "ref":
        c = t[1]
        if c[0] == "K":
            c = ("K", f(c[1]))
        return mk("ref", c, tuple(("i", f(s[1])) if s[0] == "i" else s for s in t[2]))
    if k == "y":
        l = t[1]
        if l[0] == "fld":
            return mk("y", ("fld", f(l[1]), l[2], l[3]), t[2])
        if l[0] == "op":
            return mk("y", ("op", l[1], tuple(f(c) for c in l[2])), t[2])
        return vid
    if k == "it":
        return mk("it", t[1], tuple(f(c) for c in t[2]), t[3])
    if k in ("dis", "not"):
        return mk(k, f(t[1]))
    if k == "yd":
        return mk("yd", f(t[1]), t[2])
    if k == "cmp":
        return mk("cmp", t[1], f(t[2]), f(t[3]))
    if k == "set":
        return mk("set", f(t[1]), tuple(f(c) for c in t[2]))
    return vid


_ROOTS = {}


def own_root(t):
    k = t[0]
    if k == "y":
        l = t[1]
        if l[0] in ("R", "par", "la"):
            return l
        return None
    if k in ("item", "tk"):
        return t[1]
    if k in ("tkp", "tkd"):
        return t[1]
    if k == "vec":
        return t[2]
    return None


def roots(vid):
    r = _ROOTS.get(vid)
    if r is None:
        s = set()
        t = NODES[vid]
        o = own_root(t)
        if o is not None:
            s.add(o)
        for c in children(vid):
            s |= roots(c)
        r = frozenset(s)
        _ROOTS[vid] = r
    return r


def relabel(vid, fn, memo):
    """apply fn to every root label in vid (fn returns same object if unchanged)"""
    r = memo.get(vid)
    if r is not None:
        return r
    rs = roots(vid)
    for x in rs:
        if fn(x) != x:
            break
    else:
        memo[vid] = vid
        return vid
    t = NODES[vid]
    o = own_root(t)
    if o is not None:
        n = fn(o)
        k = t[0]
        if k == "y":
            r = mk("y", n, t[2])
        elif k in ("item", "tk"):
            r = mk(k, n)
        elif k in ("tkp", "tkd"):
            r = mk(k, n, t[2])
        elif k == "vec":
            r = mk("vec", t[1], n, t[3])
    else:
        r = rebuild(vid, lambda c: relabel(c, fn, memo))
    memo[vid] = r
    return r
