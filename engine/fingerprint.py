"""Fingerprint of everything a function's exploration reads: its MIR and that of every crate-local function it can inline, without
line numbers and without the numbering of types and instances.  Equal fingerprints = the very same program fragment."""
import hashlib, json, re
import prims, lowlevel


def normal(bl, nargs):
    """normal form of a body: no stores to locals nobody reads, no jump chains, blocks and locals numbered in order of appearance"""

    def places(x, acc):
        """locals read by an operand / rvalue / place (generic walk over its json: a place is [int, [projections]])"""
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                acc.add(x[0])
                for e in x[1]:
                    if isinstance(e, list) and e and e[0] == "i":
                        acc.add(e[1])
                return
            for y in x:
                places(y, acc)

    bl = [[list(ss), t] for ss, t in bl]
    while True:
        used = set(range(nargs + 1))
        for ss, t in bl:
            for st in ss:
                if st[0] == "=":
                    if st[1][1]:
                        places(st[1], used)
                    places(st[2], used)
                elif st[0] == "sd":
                    places(st[1], used)
            if t[0] == "call":
                places(t[1], used)
                places(t[2], used)
                places(t[3], used)
            elif t[0] in ("switch", "drop"):
                places(t[1], used)
            elif t[0] == "assert":
                places(t[1], used)
                places(t[5], used)
        n = 0
        for b in bl:
            keep = [st for st in b[0] if not (st[0] == "=" and not st[1][1] and st[1][0] not in used) and not (st[0] == "sdead" and st[1] not in used)]
            n += len(b[0]) - len(keep)
            b[0] = keep
        if not n:
            break

    def thread(x):
        seen = set()
        while x is not None and x not in seen and not bl[x][0] and bl[x][1][0] == "goto":
            seen.add(x)
            x = bl[x][1][1]
        return x

    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]]
        if k == "assert":
            return [t[3]]
        return []

    def retarget(t, f):
        k = t[0]
        t = list(t)
        if k == "goto":
            t[1] = f(t[1])
        elif k == "switch":
            t[2] = [[x[0], f(x[1])] for x in t[2]]
            t[3] = f(t[3])
        elif k == "drop":
            t[2] = f(t[2])
        elif k == "call":
            t[4] = f(t[4])
        elif k == "assert":
            t[3] = f(t[3])
        return t

    for b in bl:
        b[1] = retarget(b[1], thread)
    # join straight lines
    reach, todo, preds = set(), [0], {}
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        for y in succs(bl[x][1]):
            if y is not None:
                preds[y] = preds.get(y, 0) + 1
                todo.append(y)
    for x in sorted(reach):
        while bl[x][1][0] == "goto":
            y = bl[x][1][1]
            if y == x or y == 0 or preds.get(y) != 1:
                break
            bl[x] = [bl[x][0] + bl[y][0], bl[y][1]]
            bl[y] = [[], ["unreachable"]]
    num, order = {}, []

    def visit(x):
        st = [x]
        while st:
            x = st.pop()
            if x is None or x in num:
                continue
            num[x] = len(order)
            order.append(x)
            st += reversed(succs(bl[x][1]))

    visit(0)
    loc = {k: k for k in range(nargs + 1)}

    def ren(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                return [loc.setdefault(x[0], len(loc)), [["i", loc.setdefault(e[1], len(loc))] + list(e[2:]) if isinstance(e, list) and e and e[0] == "i" else e for e in x[1]]]
            return [ren(y) for y in x]
        return x

    out = []
    for x in order:
        ss, t = bl[x]
        oss = []
        for st in ss:
            if st[0] == "=":
                oss.append(["=", ren(st[1]), ren(st[2])])
            elif st[0] == "sd":
                oss.append(["sd", ren(st[1]), st[2]])
            elif st[0] == "sdead":
                oss.append(["sdead", loc.setdefault(st[1], len(loc))])
            else:
                oss.append(st)
        t = retarget(t, lambda y: None if y is None else num[y])
        if t[0] == "call":
            t = [t[0], ren(t[1]), ren(t[2]), ren(t[3])] + list(t[4:])
        elif t[0] in ("switch", "drop"):
            t = [t[0], ren(t[1])] + list(t[2:])
        elif t[0] == "assert":
            t = [t[0], ren(t[1])] + list(t[2:5]) + [ren(t[5])]
        out.append([oss, t])
    return out, sorted(loc, key=lambda k: loc[k])


class Finger:
    def __init__(self, prog, nonterms):
        self.P = prog
        self.NT = set(nonterms)
        self.tmemo = {}
        self.bmemo = {}
        self.amemo = {}

    def ty(self, t):
        """canonical text of a type; crate-local type definitions are collected by name"""
        if t is None:
            return "?"
        r = self.tmemo.get(t)
        if r is None:
            x = self.P.types[t]
            k = x["k"]
            self.tmemo[t] = "<%s>" % x.get("s", k)
            if k == "adt":
                r = x["name"] + "<" + ",".join(self.ty(a) for a in x["args"]) + ">"
            elif k in ("ref", "ptr"):
                r = "&" + ("m" if x.get("mut") else "") + self.ty(x["e"])
            elif k == "tuple":
                r = "(" + ",".join(self.ty(a) for a in x["es"]) + ")"
            elif k in ("slice", "array"):
                r = "[" + self.ty(x["e"]) + ";" + str(x.get("n")) + "]"
            elif k in ("closure", "fndef"):
                r = k + ":" + x["name"] + "<" + ",".join(self.ty(a) for a in x.get("args", ())) + ">"
            else:
                r = re.sub(r"id: \d+|TyConstId\(\d+", "", x.get("s") or k)
            self.tmemo[t] = r
        return r

    def adt(self, t, adts, insts):
        """record definitions reachable from type t"""
        todo = [t]
        while todo:
            t = todo.pop()
            if t is None or t in adts:
                continue
            x = self.P.types[t]
            adts[t] = None
            if x["k"] == "adt":
                if x["name"].startswith("ressa::") or x["name"].startswith("ress") or x["kind"] == "enum":
                    adts[t] = self.ty(t) + "=" + x["kind"] + ";".join("%s/%s{%s}" % (v["name"], v["discr"], ",".join(f + ":" + self.ty(ft) for f, ft in v["fields"])) for v in x["vars"])
                    todo += [ft for v in x["vars"] for f, ft in v["fields"]]
                todo += x["args"]
            elif x["k"] in ("ref", "ptr", "slice", "array"):
                todo.append(x["e"])
            elif x["k"] == "tuple":
                todo += x["es"]
            if x["k"] == "closure":
                todo += x.get("ups", ())
                if x.get("body") is not None:
                    insts.add(x["body"])

    def canon(self, iid):
        r = self.bmemo.get(iid)
        if r is not None:
            return r
        P = self.P
        insts, tids = set(), set()

        def ty(t):
            if t is not None:
                tids.add(t)
            return self.ty(t)

        def konst(c):
            if isinstance(c, dict):
                o = {}
                for k, v in c.items():
                    if k in ("fn", "fnptr", "closure", "inst") and isinstance(v, int):
                        insts.add(v)
                        o[k] = P.insts[v]["path"] + "|" + ",".join(self.ty(a) if isinstance(a, int) else str(a) for a in P.insts[v].get("args", ()))
                    elif k in ("adt", "zst") and isinstance(v, int):
                        o[k] = ty(v)
                    else:
                        o[k] = konst(v)
                return o
            if isinstance(c, list):
                return [konst(x) for x in c]
            return c

        def place(p):
            return [p[0], [e if e == "*" else ["f", e[1], ty(e[2])] if e[0] == "f" else e for e in p[1]]]

        def op(o):
            if o[0] in ("c", "m"):
                return [o[0], place(o[1])]
            return ["k", konst(o[1]), ty(o[2]) if len(o) > 2 and isinstance(o[2], int) else None]

        def rv(r):
            k = r[0]
            if k == "ref":
                return [k, place(r[1]), r[2]]
            if k == "agg":
                return [k, r[1], r[2], [op(o) for o in r[3]], ty(r[4]), r[5]]
            if k in ("bin", "cbin"):
                return [k, r[1], op(r[2]), op(r[3])]
            if k == "un":
                return [k, r[1], op(r[2])]
            if k == "cast":
                return [k, r[1], op(r[2]), ty(r[3]), ty(r[4])]
            if k == "discr":
                return [k, place(r[1]), ty(r[2])]
            if k == "len":
                return [k, place(r[1])]
            if k == "repeat":
                return [k, op(r[1]), r[2]]
            if k == "use":
                return [k, op(r[1])]
            return r

        b = P.insts[iid]["body"]
        bl = []
        for ss, t, _ in b["blocks"]:
            out = []
            for s in ss:
                if s[0] == "=":
                    out.append(["=", place(s[1]), rv(s[2])])
                elif s[0] == "sd":
                    out.append(["sd", place(s[1]), s[2]])
                else:
                    out.append(s)
            k = t[0]
            if k == "switch":
                t = [k, op(t[1]), t[2], t[3], ty(t[4])]
            elif k == "drop":
                t = [k, place(t[1]), t[2], ty(t[3])]
            elif k == "call":
                t = [k, op(t[1]), [op(o) for o in t[2]], place(t[3]), t[4], [ty(x) for x in t[6]]]
            elif k == "assert":
                t = [k, op(t[1]), t[2], t[3], t[4], [op(o) for o in t[5]]]
            bl.append([out, t])
        bl, order = normal(bl, b["nargs"])
        c = [b["nargs"], b["spread"], [ty(b["locals"][x]) for x in order], bl]
        adts = {}
        for t in tids:
            self.adt(t, adts, insts)
        # parameter names appear in labels
        names = [[n[0], n[2]] for n in b["names"] if n[2] is not None]
        h = hashlib.sha256(json.dumps([c, names], sort_keys=True).encode()).hexdigest()
        r = self.bmemo[iid] = (h, frozenset(insts), frozenset(v for v in adts.values() if v))
        return r

    def sig(self, iid):
        b = self.P.insts[iid]["body"]
        return "(" + ",".join(self.ty(t) for t in b["locals"][1 : b["nargs"] + 1]) + ")->" + self.ty(b["locals"][0])

    def of(self, name):
        ids = self.P.by_base.get(name)
        return self.of_inst(ids[0]["id"]) if ids else None

    def of_inst(self, iid, mode="nt"):
        pr = lowlevel.PRIMS if mode == "ll" else prims.PRIMS
        seen, todo, parts, adts = set(), [iid], set(), set()
        first = True
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            inst = self.P.insts[i]
            if not first:
                if inst["crate"] != "ressa":
                    parts.add("ext " + inst["path"] + "|" + ",".join(self.ty(a) for a in inst.get("args", ()) if isinstance(a, int)))
                    if inst.get("body"):
                        todo += self.canon(i)[1]  # it may call back into the crate
                    continue
                if inst["base"] in self.NT or (inst["base"] in pr or inst["path"] in pr) and not (mode in ("hlp", "pos") and inst["base"] in ("expected_token_error", "unexpected_token_error")):
                    parts.add("nt " + inst["base"] + self.sig(i))
                    continue
            first = False
            if inst.get("body") is None:
                parts.add("nobody " + inst["path"])
                continue
            h, ins, ad = self.canon(i)
            parts.add(inst["path"] + " " + h)
            adts |= ad
            todo += ins
        s = hashlib.sha256(json.dumps([sorted(parts), sorted(adts)]).encode()).hexdigest()
        return s[:32]
