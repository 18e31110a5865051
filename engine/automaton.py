"""Event automata: projection, determinisation (per entry valuation), minimisation, comparison."""
import itertools, re
from core import *


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ building
class Builder:
    def __init__(self, ex, edges, node_facts, project, max_vals=4096, max_states=60000):
        self.ex = ex
        self.edges = edges
        self.nf = node_facts
        self.project = project
        self.max_vals = max_vals
        self.max_states = max_states
        self.symc = {}
        self.subc = {}
        self.dmemo = {}
        self.trim()
        if project.push:
            self.delay_pushes()
        self.reduce()

    # ---- quotient of the explored graph under the projection: guards move to the edges, projected steps are
    # contracted and strongly bisimilar nodes are merged, before any entry valuation is looked at
    def project_event(self, ev):
        """the event without what the projection drops; None: a silent step; False: no such step"""
        p = self.project
        if ev is None:
            return None
        k = ev[0]
        if k == "eat":
            return ("eat", ev[1] if p.outcome else (), ev[2]) if p.eat else None
        if k == "eat-err":
            return ev if p.err else None
        if k == "call":
            _, f, args, delta, ok, oc, m = ev
            if not p.call(f):
                return None
            if ok != "ok" and not p.err:
                return False
            return ("call", f, args if p.args else (), tuple(x for x in delta if p.flag(x[0])) if p.flags else (), ok, oc if p.outcome else (), m)
        if k == "cond":
            return ev if p.cond(ev[1]) else None
        if k in ("push", "pop", "pop-none", "next", "end", "set"):
            if not p.push:
                return None
            return ev
        if k == "ret":
            if ev[1] == -1:
                return ("ret", -1, (), ev[3], ev[4]) if p.err else False
            return ("ret", ev[1] if p.ret else None, tuple(x for x in ev[2] if p.flag(x[0])) if p.flags else (), ev[3] if p.retla else None)
        return ev

    def reduce(self):
        nf = self.nf
        evc = {}

        def implied(facts, v, m):
            f = facts.get(v)
            return (f if f is not None else self.ex.univ(v)) & ~m == 0

        def key(g):
            return tuple(sorted(g.items()))

        def conj(g, h):
            r = dict(g)
            for v, m in h:
                x = r.get(v)
                r[v] = m if x is None else x & m
                if not r[v]:
                    return None
            return key(r)

        n = len(self.edges)
        G = [None] * n
        for i, es in enumerate(self.edges):
            o = set()
            for ev, d in es:
                pe = evc.get(ev, 0)
                if pe == 0:
                    pe = evc[ev] = self.project_event(ev)
                if pe is False:
                    continue
                g = () if d is None else key({v: m for v, m in nf[d].items() if not implied(nf[i], v, m)})
                o.add((g, pe, -1 if d is None else d))
            G[i] = o
        self.edges = None
        facts = [dict(f) for f in nf]
        root, rootg = 0, key({v: m for v, m in nf[0].items() if not implied({}, v, m)})
        while True:
            before = (len(G), sum(len(o) for o in G))
            self.lighten(G, facts, implied, key)
            root, rootg = self.contract(G, root, rootg, conj)
            G, facts, root = self.quotient(G, facts, root)
            if (len(G), sum(len(o) for o in G)) == before:
                break
        self.G, self.root, self.rootg = [sorted(o, key=str) for o in G], root, rootg

    def lighten(self, G, facts, implied, key):
        """alternatives that end in the same step are one"""
        for i, o in enumerate(G):
            if len(o) < 2:
                continue
            by = {}
            for g, e, d in o:
                by.setdefault((e, d), set()).add(g)
            if len(by) == len(o):
                continue
            out = set()
            for (e, d), gs in by.items():
                ch = len(gs) > 1
                while ch:
                    ch = False
                    l = sorted(gs)
                    for a in range(len(l)):
                        for b in range(a + 1, len(l)):
                            x, y = dict(l[a]), dict(l[b])
                            df = [v for v in set(x) | set(y) if x.get(v) != y.get(v)]
                            if len(df) == 1 and df[0] in x and df[0] in y:
                                v = df[0]
                                m = x[v] | y[v]
                                x.pop(v)
                                if not implied(facts[i], v, m):
                                    x[v] = m
                                gs -= {l[a], l[b]}
                                gs.add(key(x))
                                ch = True
                            elif all(v in x and x[v] & ~y[v] == 0 for v in y):
                                gs.discard(l[a])
                                ch = True
                            elif all(v in y and y[v] & ~x[v] == 0 for v in x):
                                gs.discard(l[b])
                                ch = True
                            if ch:
                                break
                        if ch:
                            break
                out |= {(g, e, d) for g in gs}
            G[i] = out

    def contract(self, G, root, rootg, conj):
        """skip nodes that have nothing but one silent step"""
        one = {}
        for i, o in enumerate(G):
            if len(o) == 1:
                (g, e, d), = o
                if e is None and d != i:
                    one[i] = (g, d)
        if not one:
            return root, rootg
        res = {}

        def follow(i):
            path = []
            seen = set()
            while i in one and i not in res and i not in seen:
                seen.add(i)
                path.append(i)
                i = one[i][1]
            if i in seen:  # a silent cycle: leave its members alone
                k = path.index(i)
                for j in path[k:]:
                    res[j] = ((), j)
                path = path[:k]
            for j in reversed(path):
                g, d = one[j]
                if d in res:
                    g2, d2 = res[d]
                    c = conj(dict(g), g2)
                    res[j] = (c, d2)
                else:
                    res[j] = (g, d)

        for i in one:
            if i not in res:
                follow(i)
        for i, o in enumerate(G):
            if not any(d in res and res[d] != ((), d) for _, _, d in o):
                continue
            n = set()
            for g, e, d in o:
                if d in res:
                    g2, d2 = res[d]
                    g = None if g2 is None else conj(dict(g), g2)
                    if g is None:
                        continue
                    d = d2
                n.add((g, e, d))
            G[i] = n
        if root in res and res[root][0] is not None:
            g2, d2 = res[root]
            c = conj(dict(rootg), g2)
            if c is not None and d2 != -1:
                return d2, c
        return root, rootg

    def quotient(self, G, facts, root):
        n = len(G)
        # reachable part
        seen = {root}
        st = [root]
        while st:
            i = st.pop()
            for _, _, d in G[i]:
                if d != -1 and d not in seen:
                    seen.add(d)
                    st.append(d)
        pred = {}
        ids = {}
        lab = {}
        for i in seen:
            l = []
            for g, e, d in G[i]:
                k = ids.setdefault((g, e), len(ids))
                l.append((k, d))
                if d != -1:
                    pred.setdefault(d, set()).add(i)
            lab[i] = l
        blk = {i: 0 for i in seen}
        blk[-1] = -1
        members = {0: set(seen)}
        dirty = {0}
        nxt = 1
        while dirty:
            b = dirty.pop()
            ms = members[b]
            by = {}
            for i in ms:
                by.setdefault(frozenset((k, blk[d]) for k, d in lab[i]), []).append(i)
            if len(by) == 1:
                continue
            parts = sorted(by.values(), key=len, reverse=True)
            members[b] = set(parts[0])
            touched = set()
            for p in parts[1:]:
                members[nxt] = set(p)
                for i in p:
                    blk[i] = nxt
                nxt += 1
            for p in parts[1:]:
                for i in p:
                    for q in pred.get(i, ()):
                        touched.add(blk[q])
            # the part that kept the number is not touched by this split, the others were compared with old numbers
            dirty |= {x for x in touched if len(members[x]) > 1}
            for p in parts:
                x = blk[p[0]]
                if len(p) > 1 and any(q in members[x] for i in p for q in pred.get(i, ())):
                    dirty.add(x)
        order = {}
        for i in sorted(seen):
            order.setdefault(blk[i], len(order))
        NG = [None] * len(order)
        NFc = [None] * len(order)
        for i in sorted(seen):
            c = order[blk[i]]
            if NG[c] is None:
                NG[c] = {(g, e, -1 if d == -1 else order[blk[d]]) for g, e, d in G[i]}
                NFc[c] = dict(facts[i])
            else:
                f, o = NFc[c], facts[i]
                for v in list(f):
                    if v in o:
                        f[v] |= o[v]
                    else:
                        del f[v]
        return NG, NFc, order[blk[root]]

    def delay_pushes(self):
        """A push commutes with everything that neither uses its vector nor ages the values pushed: move every
        push to the latest such point, so that where exactly the code performs it does not matter."""
        kinds = {}

        def rk(v):
            r = kinds.get(v)
            if r is None:
                r = set()
                for x in roots(v):
                    if x[0] == "R":
                        r.add(x[1])
                    elif x[0] == "la":
                        r.add("la")
                kinds[v] = r
            return r

        def hit(ev, p):
            k = ev[0]
            if k == "ret":
                return True
            vn, vals = p[1], p[2]
            if k == "push":
                return ev[1] == vn
            if k in ("pop", "pop-none", "next", "end", "set"):
                return vn in str(ev[1])
            if k == "eat":
                return any(x in rk(v) for v in vals for x in ("tok", "la"))
            if k == "call":
                if any(ev[1] in rk(v) or "la" in rk(v) for v in vals):
                    return True
                return any(vn in self.ex.show(None, a) for a in ev[2])
            return k not in ("cond",)

        new = []
        ids = {}
        work = []

        def node(n, pend):
            k = (n, pend)
            i = ids.get(k)
            if i is None:
                i = ids[k] = len(new)
                new.append([])
                nf.append(self.nf[n])
                work.append((i, n, pend))
                if len(new) > 2000000:
                    raise TooBig("delayed pushes")
            return i

        nf = []
        node(0, ())
        chain = {}
        while work:
            i, n, pend = work.pop()
            out = new[i]
            for ev, d in self.edges[n]:
                if ev is None or ev[0] == "cond":
                    out.append((ev, node(d, pend)))
                    continue
                fl = tuple(p for p in pend if hit(ev, p))
                keep = tuple(p for p in pend if p not in fl)
                src = i
                fl = sorted(fl, key=lambda p: (p[1], [self.ex.show(None, v) for v in p[2]]))
                for p in fl:
                    j = len(new)
                    new.append([])
                    nf.append(self.nf[n])
                    new[src].append((p, j))
                    src = j
                if ev[0] == "push":
                    new[src].append((None, node(d, tuple(sorted(keep + (ev,), key=str)))))
                else:
                    new[src].append((ev, None if d is None else node(d, keep)))
        self.edges, self.nf = new, nf

    def trim(self):
        """drop nodes from which no kept end is reachable (a failing parse has no observable prefix)"""
        n = len(self.edges)
        pred = [[] for _ in range(n)]
        live = [False] * n
        st = []
        for i, es in enumerate(self.edges):
            for ev, d in es or ():
                if ev is not None and not self.project.err:
                    if ev[0] == "call" and ev[4] != "ok" or ev[0] == "ret" and ev[1] == -1 or ev[0] == "eat-err":
                        continue
                if d is None:
                    if not live[i]:
                        live[i] = True
                        st.append(i)
                else:
                    pred[d].append(i)
        while st:
            i = st.pop()
            for p in pred[i]:
                if not live[p]:
                    live[p] = True
                    st.append(p)
        self.live = live
        self.edges = [[(ev, d) for ev, d in es or () if d is None or live[d]] if live[i] else [] for i, es in enumerate(self.edges)]

    # ---- entry valuations
    def atoms(self):
        at = {}
        for v, m in self.rootg:
            at.setdefault(v, set()).add(m)
        seen = set()
        for es in self.G:
            for g, ev, _ in es:
                for v, m in g:
                    at.setdefault(v, set()).add(m)
                if ev and ev[0] in ("call", "ret") and self.project.flags:
                    d = ev[3] if ev[0] == "call" else ev[2]
                    if d not in seen:
                        seen.add(d)
                        for n, e, v in d:
                            if NODES[v][0] == "i" and self.ex.is_boolish(e) and self.project.flag(n):
                                at.setdefault(e, set()).add(2)
        return at

    def valuations(self):
        at = self.atoms()
        keys = sorted(at, key=lambda v: self.ex.show(None, v))
        parts = []
        tot = 1
        for v in keys:
            ps = [self.ex.univ(v)]
            for m in sorted(at[v]):
                n = []
                for p in ps:
                    a, b = p & m, p & ~m
                    if a:
                        n.append(a)
                    if b:
                        n.append(b)
                ps = n
            parts.append(ps)
            tot *= len(ps)
        if tot > self.max_vals:
            raise TooBig("%d entry valuations over %s" % (tot, [self.ex.show(None, k) for k in keys]))
        return keys, parts

    def subst(self, v, V):
        k = v
        memo = self.subc
        r = memo.get(k)
        if r is not None:
            return r
        r = v
        t = NODES[v]
        m = V.get(v)
        if m is not None and m & (m - 1) == 0:
            ty = self.ex.prog.types[t[2]] if t[0] == "y" and t[2] is not None else {"k": "?"}
            if ty["k"] == "bool":
                r = I(m >> 1)
            elif ty["k"] == "adt" and ty["kind"] == "enum" and not ty["vars"][m.bit_length() - 1]["fields"]:
                r = mk("adt", t[2], m.bit_length() - 1, ())
        elif children(v):
            r = rebuild(v, lambda c: self.subst(c, V))
            tr = NODES[r]
            if tr[0] == "not" and NODES[tr[1]][0] == "i":
                r = I(1 - NODES[tr[1]][1])
        memo[k] = r
        return r

    def term(self, v, V):
        if v == -1:
            return "Err"
        return self.ex.show(None, self.subst(v, V))

    def sym(self, ev, V):
        """(base, cube) or None when projected away"""
        p = self.project
        k = ev[0]
        if k == "eat":
            if not p.eat:
                return None
            return ("eat",), self.cube(ev[1], ev[2])
        if k == "eat-err":
            return None if not p.err else (("eat-err",), ())
        if k == "call":
            _, f, args, delta, ok, oc, m = ev
            if not p.call(f):
                return None
            b = ["call", f]
            if p.args:
                b.append("(" + ",".join(self.term(a, V) for a in args) + ")")
            if p.flags:
                b.append(self.delta(delta, V))
            if ok != "ok":
                if not p.err:
                    return "dead"
                b.append("err")
            return tuple(b), self.cube(oc, m)
        if k == "cond":
            if not p.cond(ev[1]):
                return None
            val = ev[2]
            if val and val[0] == "tok":
                return ("cond", ev[1]), (("la", val[1]),)
            return ("cond", ev[1]), (("v", nameset(val)),)
        if k in ("push", "pop", "pop-none", "next", "end", "set"):
            if not p.push:
                return None
            if k == "push":
                return ("push", ev[1], ",".join(self.term(x, V) for x in ev[2])), ()
            if k in ("pop", "next"):
                return (k, ev[1]), self.cube(ev[2], None)
            return (k, ev[1]), ()
        if k == "ret":
            if ev[1] == -1:
                if not p.err:
                    return "dead"
                return ("ret", "Err(" + self.term(ev[4], V) + ")"), (("la", ev[3]),)
            b = ["ret"]
            b.append("Ok" if not p.ret else self.term(ev[1], V))
            if p.flags:
                b.append(self.delta(ev[2], V))
            return tuple(b), ((("la", ev[3]),) if p.retla else ())
        if k == "panic":
            if str(ev[1]).startswith("slip: "):
                return "dead"
            return ("panic", ev[1]), ()
        return (str(ev),), ()

    def cube(self, oc, m):
        d = []
        if self.project.outcome:
            for t, names in oc:
                d.append((t, nameset(names)))
        if m is not None:
            d.append(("la", m))
        return tuple(sorted(d, key=lambda x: x[0]))

    def delta(self, delta, V):
        out = []
        for n, e, v in delta:
            if not self.project.flag(n):
                continue
            e2, v2 = self.subst(e, V), self.subst(v, V)
            if e2 == v2:
                continue
            out.append(n + "=" + self.ex.show(None, v2))
        return "{" + ",".join(out) + "}"

    def build(self):
        keys, parts = self.valuations()
        names = [self.ex.show(None, k) for k in keys]
        roots = []
        table = {}
        dfas = []
        allstates = []  # per dfa
        trans = []
        for combo in itertools.product(*parts):
            V = dict(zip(keys, combo))
            self.subc = {}
            root, loc = self.determinise(V)
            off = len(trans)
            for t in loc:
                trans.append([(b, [(c, d + off) for c, d in l]) for b, l in t])
            cube = tuple((n, m if NODES[k][0] == "tk" else nameset(self.ex.maskstr(k, m))) for n, k, m, ps in zip(names, keys, combo, parts) if len(ps) > 1)
            roots.append([cube, root + off])
            if len(trans) > self.max_states * 4:
                trans, roots = self.compress(trans, roots)
        trans, roots = self.compress(trans, roots)
        return DFA(roots, trans, {n: self.ex.univ(k) if NODES[k][0] == "tk" else frozenset(self.ex.maskstr(k, self.ex.univ(k))) for n, k in zip(names, keys)})

    def compress(self, trans, roots):
        trans, rs = minimise(trans, [r for _, r in roots])
        trans, rs = idle(trans, rs)
        return trans, [[c, r] for (c, _), r in zip(roots, rs)]

    def determinise(self, V):
        ok = {(): True}

        def holds(g):
            r = ok.get(g)
            if r is None:
                r = ok[g] = all(V[v] & m == V[v] for v, m in g)
            return r

        symc = {}
        END = -1

        def out(n):
            """list of (sym, dst)"""
            res = []
            for g, ev, d in self.G[n]:
                if not holds(g):
                    continue
                if ev is None:
                    s = None
                else:
                    s = symc.get(ev, 0)
                    if s == 0:
                        s = symc[ev] = self.sym(ev, V)
                if s == "dead":
                    continue
                res.append((s, d))
            return res

        outc = {}

        def closure(ns):
            seen = set(ns)
            st = list(ns)
            while st:
                n = st.pop()
                if n == END:
                    continue
                o = outc.get(n)
                if o is None:
                    o = outc[n] = out(n)
                for s, d in o:
                    if s is None and d not in seen:
                        seen.add(d)
                        st.append(d)
            return frozenset(x for x in seen if x == END or any(s is not None for s, _ in outc[x]))

        states = {}
        loc = []
        ends = set()
        work = []

        def state(ns):
            c = closure(ns)
            i = states.get(c)
            if i is None:
                i = states[c] = len(loc)
                loc.append(None)
                work.append((i, c))
                if i > self.max_states:
                    raise TooBig("determinised states")
            return i

        root = state([self.root] if holds(self.rootg) else [])
        cm = {}
        while work:
            i, c = work.pop()
            by = {}
            for n in c:
                if n == END:
                    continue
                for s, d in outc[n]:
                    if s is not None:
                        by.setdefault(s[0], {}).setdefault(s[1], set()).add(d)
            tr = []
            for b in by:
                cubes = by[b]
                if len(cubes) == 1:
                    l = [(q, frozenset(ds)) for q, ds in cubes.items()]
                else:
                    l = disjoint([(q, frozenset(ds)) for q, ds in cubes.items()], self.dmemo)
                # merge equal targets on la
                tr.append((b, merge([(q, state(ds)) for q, ds in l])))
            tr.sort(key=lambda x: str(x[0]))
            loc[i] = tr
            if END in c:
                ends.add(i)
        # only what can still reach an end counts
        pred = [[] for _ in loc]
        for i, tr in enumerate(loc):
            for _, l in tr:
                for _, d in l:
                    pred[d].append(i)
        st = list(ends)
        while st:
            for j in pred[st.pop()]:
                if j not in ends:
                    ends.add(j)
                    st.append(j)
        for i, tr in enumerate(loc):
            tr = [(b, [(q, d) for q, d in l if d in ends]) for b, l in tr] if i in ends else []
            loc[i] = [(b, l) for b, l in tr if l]
        return root, loc


# ------------------------------------------------------------------ cubes: tuple of (dim, mask) sorted; absent = everything
def inter(a, b):
    d = dict(a)
    for k, m in b:
        if k in d:
            x = d[k] & m
            if not x:
                return None
            d[k] = x
        else:
            d[k] = m
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def minus(a, b):
    """a \\ b as disjoint cubes; masks must be relative to known universes: a dim missing in a cannot be
    complemented symbolically, so represent complement as ('!', mask)"""
    out = []
    cur = dict(a)
    for k, m in b:
        am = cur.get(k)
        if am is None:
            r = neg(m)
        else:
            r = sub(am, m)
        if not empty(r):
            c = dict(cur)
            c[k] = r
            out.append(tuple(sorted(c.items(), key=lambda x: x[0])))
        x = m if am is None else isect(am, m)
        if empty(x):
            return out
        cur[k] = x
    return out


class Neg(frozenset):
    """complement of a set of names"""

    __slots__ = ()

    def __hash__(self):
        return frozenset.__hash__(self) ^ 0x5bd1e995

    def __eq__(self, o):
        return type(o) is Neg and frozenset.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __and__(self, o):
        return isect(self, o)

    __rand__ = __and__

    def __bool__(self):
        return True


def nameset(names):
    if names and names[0] == "!":
        return Neg(names[1:])
    return frozenset(names)


def neg(m):
    if isinstance(m, int):
        return TOKALL & ~m
    if isinstance(m, Neg):
        return frozenset(m)
    return Neg(m)


def isect(a, b):
    if isinstance(a, int):
        return a & b
    na, nb = isinstance(a, Neg), isinstance(b, Neg)
    if na and nb:
        return Neg(frozenset.union(a, b))
    if na:
        return frozenset(frozenset.__sub__(b, a))
    if nb:
        return frozenset(frozenset.__sub__(a, b))
    return frozenset.__and__(a, b)


def sub(a, b):
    return isect(a, neg(b))


def empty(m):
    if isinstance(m, Neg):
        return False
    return not m


TOKALL = 0


def set_tokall(x):
    global TOKALL
    TOKALL = x


def inter2(a, b):
    d = dict(a)
    for k, m in b:
        if k in d:
            x = isect(d[k], m)
            if empty(x):
                return None
            d[k] = x
        else:
            d[k] = m
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def disjoint(items, memo=None):
    """items: (cube, set) -> disjoint cubes with unioned sets"""
    if memo is None:
        memo = {}
    return [(q, ds) for q, ds in split(frozenset(items), memo)]


def split(items, memo):
    r = memo.get(items)
    if r is not None:
        return r
    dim = None
    for c, _ in items:
        if c and (dim is None or c[0][0] < dim):
            dim = c[0][0]
    if dim is None:
        r = frozenset([((), frozenset().union(*[ds for _, ds in items]))])
    else:
        parts = [(None, ())]
        for c, d in items:
            if not c or c[0][0] != dim:
                parts = [(p, l + ((c, d),)) for p, l in parts]
                continue
            m, x = c[0][1], (c[1:], d)
            n = []
            for p, l in parts:
                a = m if p is None else isect(p, m)
                q = neg(m) if p is None else sub(p, m)
                if not empty(a):
                    n.append((a, l + (x,)))
                if not empty(q):
                    n.append((q, l))
            parts = n
        g = {}
        for p, l in parts:
            if not l:
                continue
            k = split(frozenset(l), memo)
            o = g.get(k, 0)
            g[k] = p if o == 0 else None if (o is None or p is None) else union_masks(o, p)
        out = []
        for k, m in g.items():
            m = canon(m)
            for c, ds in k:
                out.append((c if m is None else ((dim, m),) + c, ds))
        r = frozenset(out)
    memo[items] = r
    return r


def union_masks(a, b):
    if isinstance(a, int):
        return a | b
    return neg(isect(neg(a), neg(b)))


def merge(l):
    """merge cubes with equal target that differ in one dimension only"""
    l = list(l)
    changed = len(l) > 1
    while changed:
        changed = False
        for dim in sorted({k for q, _ in l for k, _ in q}):
            g = {}
            for q, d in l:
                rest = tuple(x for x in q if x[0] != dim)
                m = dict(q).get(dim)
                g.setdefault((rest, d), []).append(m)
            if len(g) < len(l):
                nl = []
                for (rest, d), ms in g.items():
                    if any(m is None for m in ms):
                        nl.append((rest, d))
                        if len(ms) > 1:
                            changed = True
                        continue
                    m = ms[0]
                    for x in ms[1:]:
                        m = union_masks(m, x)
                        changed = True
                    if isinstance(m, Neg) and not frozenset(m):
                        nl.append((rest, d))
                    else:
                        nl.append((tuple(sorted(rest + ((dim, m),), key=lambda x: x[0])), d))
                l = nl
    return sorted(l, key=lambda x: (x[1], repr(x[0])))


# ------------------------------------------------------------------ minimisation
def mdd(items, memo):
    """canonical decision diagram of disjoint labelled cubes {(cube, target)}; dims in name order"""
    r = memo.get(items)
    if r is not None:
        return r
    dim = None
    for c, _ in items:
        if c and (dim is None or c[0][0] < dim):
            dim = c[0][0]
    if dim is None:
        r = frozenset(d for _, d in items)
    else:
        parts = []  # (mask|None, [items])
        parts = [(None, ())]
        for c, d in items:
            if c and c[0][0] == dim:
                m, rest = c[0][1], c[1:]
            else:
                m, rest = None, c
            if m is None:
                parts = [(p, l + ((rest, d),)) for p, l in parts]
                continue
            n = []
            for p, l in parts:
                a = m if p is None else isect(p, m)
                q = neg(m) if p is None else sub(p, m)
                if not empty(a):
                    n.append((a, l + ((rest, d),)))
                if not empty(q):
                    n.append((q, l))
            parts = n
        g = {}
        for p, l in parts:
            if not l:
                continue
            k = mdd(frozenset(l), memo)
            o = g.get(k, 0)
            g[k] = p if o == 0 else None if (o is None or p is None) else union_masks(o, p)
        if len(g) == 1 and len(parts) == sum(1 for _ in g) and next(iter(g.values())) is None:
            r = next(iter(g))
        else:
            r = (dim, frozenset((k, canon(m)) for k, m in g.items()))
            if len(r[1]) == 1:
                (k, m), = r[1]
                if m is None:
                    r = k
    memo[items] = r
    return r


def canon(m):
    if m is None or isinstance(m, int) and m == TOKALL or isinstance(m, Neg) and not frozenset(m):
        return None
    return m


def minimise(trans, roots):
    """Moore refinement on cube-labelled deterministic transitions"""
    # reachable
    seen = {}
    order = []
    st = [r for r in roots if r is not None]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen[s] = len(order)
        order.append(s)
        for b, l in trans[s]:
            for c, d in l:
                if d not in seen:
                    st.append(d)
    n = len(order)
    lab = []
    bid = {}
    for s in order:
        lab.append([(bid.setdefault(b, len(bid)), [(c, seen[d]) for c, d in l]) for b, l in trans[s]])
    for e in lab:
        e.sort(key=lambda x: x[0])
    blk = [0] * n
    nb = 1
    while True:
        sig = {}
        nblk = [0] * n
        memo = {}
        for i in range(n):
            k = [blk[i]]
            for b, l in lab[i]:
                k.append(b)
                k.append(mdd(frozenset((c, blk[d]) for c, d in l), memo))
            k = tuple(k)
            j = sig.get(k)
            if j is None:
                j = sig[k] = len(sig)
            nblk[i] = j
        if len(sig) == nb:
            break
        nb = len(sig)
        blk = nblk
    # canonical numbering from the roots
    rep = {}
    for i in range(n):
        rep.setdefault(blk[i], i)
    num = {}
    nt = []
    queue = []

    def visit(b):
        if b not in num:
            num[b] = len(nt)
            nt.append(None)
            queue.append(b)
        return num[b]

    nr = [None if r is None else visit(blk[seen[r]]) for r in roots]
    qi = 0
    while qi < len(queue):
        b = queue[qi]
        qi += 1
        s = order[rep[b]]
        tr = []
        for base, l in sorted(trans[s], key=lambda x: str(x[0])):
            ml = merge([(c, blk[seen[d]]) for c, d in l])
            ml.sort(key=lambda x: repr(x[0]))
            tr.append((base, [(c, visit(d)) for c, d in ml]))
        nt[num[b]] = tr
    return nt, nr


def idle(trans, rs):
    """a look at a value that changes nothing, whatever the value, is not a step"""
    while any(vacuous(b, l) for tr in trans for b, l in tr):
        n = len(trans)
        r = skip(trans, rs)
        if r is None:
            break
        trans, rs = minimise(*r)
        if len(trans) > 4 * n + 100:
            break
    return trans, rs


def vacuous(b, l):
    return b[0] == "cond" and len(l) == 1 and not l[0][0]


def skip(trans, rs):
    """the same behaviour without the vacuous looks (a subset construction)"""
    eps = [[l[0][1] for b, l in tr if vacuous(b, l)] for tr in trans]
    states, loc, work, memo = {}, [], [], {}

    def state(ds):
        seen = set(ds)
        st = list(ds)
        while st:
            for d in eps[st.pop()]:
                if d not in seen:
                    seen.add(d)
                    st.append(d)
        k = frozenset(x for x in seen if not trans[x] or any(not vacuous(b, l) for b, l in trans[x]))
        i = states.get(k)
        if i is None:
            i = states[k] = len(loc)
            loc.append(None)
            work.append((i, k))
        return i

    roots = [None if r is None else state((r,)) for r in rs]
    while work:
        if len(loc) > 4 * len(trans) + 200:
            return None
        i, k = work.pop()
        by = {}
        for x in k:
            for b, l in trans[x]:
                if not vacuous(b, l):
                    by.setdefault(b, []).append(l)
        tr = []
        for b, ls in by.items():
            if len(ls) == 1:
                l = [(c, state((d,))) for c, d in ls[0]]
            else:
                g = {}
                for m in ls:
                    for c, d in m:
                        g.setdefault(c, set()).add(d)
                l = [(c, state(ds)) for c, ds in disjoint([(c, frozenset(ds)) for c, ds in g.items()], memo)]
            tr.append((b, merge(l)))
        loc[i] = sorted(tr, key=lambda x: str(x[0]))
    return loc, roots


class DFA:
    def __init__(self, roots, trans, univ=None):
        self.roots = roots  # [[cube, state]]
        self.trans = trans
        self.univ = univ or {}

    def size(self):
        return len(self.trans), sum(len(l) for t in self.trans for _, l in t)


# ------------------------------------------------------------------ comparison
def covers(cubes, q):
    rem = [q]
    for c in cubes:
        rem = [y for r in rem for y in (minus(r, c) if inter2(r, c) is not None else [r])]
        if not rem:
            return []
    return rem


_CTX = re.compile(r"[\w.'<>()]")


def _const(v):
    if v in (frozenset(["F"]), frozenset(["T"])):
        return "0" if "F" in v else "1"
    if v == frozenset(["None"]):
        return "None"
    return None


def specialise(base, known):
    """rewrite the terms of a label under the known entry values (dim -> constant text)"""
    if not known:
        return base
    out = []
    for x in base[1:]:
        if x[:1] == "{" and x[-1:] == "}":
            ents = [e.split("=", 1) for e in x[1:-1].split(",") if "=" in e]
            if all(len(e) == 2 for e in ents):
                ents = [(n, _subst(v, known)) for n, v in ents]
                ents = [n + "=" + v for n, v in ents if known.get("context." + n, known.get(n)) != v]
                out.append("{" + ",".join(ents) + "}")
                continue
        out.append(_subst(x, known))
    return (base[0],) + tuple(out)


def _subst(x, known):
    for k, v in known.items():
        if k in x:
            x = re.sub(r"(?<![\w.'])" + re.escape(k) + r"(?![\w.'])", v, x)
    return x.replace("!1", "0").replace("!0", "1") if "!" in x else x


def lone(ta, tb, partial=False):
    """the side (0, 1) whose only step is a look at a value that the other side does not take: not a difference if what
    follows agrees with the other side whatever is seen.  partial: side 0 may rule values out"""
    for side, t, o in ((0, ta, tb), (1, tb, ta)):
        if len(t) == 1:
            (base, l), = t.items()
            if base[0] == "cond" and base not in o and (partial and side == 0 or not covers([q for q, _ in l], ())):
                return side
    return None


def compare(ref, cur, limit=3):
    """language inclusion both ways over the product; returns [(entry condition, path, (kind, label, cube))]"""
    diffs = []
    seenroot = set()
    pairs = []
    for rc, r in ref.roots:
        for cc, c in cur.roots:
            v = inter2(rc, cc)
            if v is None:
                continue
            rd, cd = dict(rc), dict(cc)
            kr = {k: _const(m) for k, m in cd.items() if k not in rd and not isinstance(m, int) and _const(m)}
            kc = {k: _const(m) for k, m in rd.items() if k not in cd and not isinstance(m, int) and _const(m)}
            key = (r, c, tuple(sorted(kr.items())), tuple(sorted(kc.items())))
            if key in seenroot:
                continue
            seenroot.add(key)
            pairs.append((r, c, v, kr, kc))
    ufs = {}
    for r, c, v, kr, kc in pairs:
        if (r is None) != (c is None):
            diffs.append((v, [], ("missing" if c is None else "extra", ("any behaviour",), ())))
            if len(diffs) >= limit:
                break
            continue
        if r is None:
            continue
        uf = ufs.setdefault((tuple(sorted(kr.items())), tuple(sorted(kc.items()))), {})

        def find(x):
            while uf.get(x, x) != x:
                x = uf[x]
            return x

        work = [(r, c, None, None)]
        parent = {}
        for a, b, par, sy in work:
            fa, fb = find(("r", a)), find(("c", b))
            if fa == fb:
                continue
            uf[fa] = fb
            parent.setdefault((a, b), (par, sy))
            ta, tb = {}, {}
            for t, src, known in ((ta, ref.trans[a], kr), (tb, cur.trans[b], kc)):
                for base, l in src:
                    t.setdefault(specialise(base, known), []).extend(l)
            side = lone(ta, tb)
            if side is not None:
                for q, d in list((ta, tb)[side].values())[0]:
                    work.append(((d, b) if side == 0 else (a, d)) + ((a, b), (list((ta, tb)[side])[0], q)))
                continue
            bad = None
            for base in sorted(set(ta) | set(tb), key=str):
                la, lb = ta.get(base, []), tb.get(base, [])
                ca, cb = [x for x, _ in la], [x for x, _ in lb]
                for q in ca:
                    rem = covers(cb, q)
                    if rem:
                        bad = ("missing", base, rem[0])
                        break
                if bad:
                    break
                for q in cb:
                    rem = covers(ca, q)
                    if rem:
                        bad = ("extra", base, rem[0])
                        break
                if bad:
                    break
                for q, d in la:
                    for q2, d2 in lb:
                        x = inter2(q, q2)
                        if x is not None:
                            work.append((d, d2, (a, b), (base, x)))
            if bad:
                p = []
                k = (a, b)
                while k is not None:
                    k2, s = parent[k]
                    if s is not None:
                        p.append(s)
                    k = k2
                diffs.append((v, p[::-1], bad))
                break
        if len(diffs) >= limit:
            break
    return diffs
