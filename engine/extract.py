"""Explore one function and build the projected event automata; (de)serialisation relative to token-class names."""
import re, sys, time, json, os, signal
from core import *
from tokens import Tokens, BASE_TEXTS
from ai import Explorer, NeedText, Unsupported
import prims, automaton, lowlevel, align
from automaton import Builder, DFA, idle, Neg, set_tokall
from project import PROJ, COVER

OUT = COVER
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def nonterminals():
    return [x.strip() for x in open(os.path.join(VERIF, "spec", "nonterminals.txt")) if x.strip()]


# ---------------------------------------------------------------- token masks <-> names
def mask_to_str(T, m):
    return T.short(m)


def str_to_mask(T, s):
    if s == "*":
        return T.VIS
    if s == "*!":
        return T.VIS & T.NL
    if s == "*~":
        return T.VIS & ~T.NL
    negate = s[0] == "^"
    m = 0
    body = s[s.index("{") + 1 : -1]
    for n in body.split(" "):
        if not n:
            continue
        w = 3
        if n[-1] == "!":
            n, w = n[:-1], 2
        elif n[-1] == "~":
            n, w = n[:-1], 1
        for c in T.resolve(n):
            m |= w << (2 * c)
    return (T.VIS & ~m) if negate else m


def _resolve(T, known_texts):
    """name -> class indices; the rest-class 'id' of a universe with fewer texts covers the texts it does not split"""
    idx = {}
    for c, n in enumerate(T.names):
        idx.setdefault(n, []).append(c)

    def f(n):
        if n == "id":
            return idx["id"] + [c for c, nm in enumerate(T.names) if nm.startswith("id:") and nm[3:] not in known_texts]
        if n not in idx:
            raise KeyError(n)
        return idx[n]

    return f


def dump_cube(T, c):
    out = []
    for k, m in c:
        if isinstance(m, int):
            out.append([k, T.short(m)])
        elif isinstance(m, Neg):
            out.append([k, "!", sorted(m)])
        else:
            out.append([k, "=", sorted(m)])
    return out


def load_cube(T, c):
    out = []
    for x in c:
        if len(x) == 2:
            out.append((x[0], str_to_mask(T, x[1])))
        elif x[1] == "!":
            out.append((x[0], Neg(x[2])))
        else:
            out.append((x[0], frozenset(x[2])))
    return tuple(sorted(out, key=lambda x: x[0]))


def dump_dfa(T, d):
    return {
        "roots": [[dump_cube(T, c), r] for c, r in d.roots],
        "trans": [[[list(b), [[dump_cube(T, c), x] for c, x in l]] for b, l in t] for t in d.trans],
    }


def load_dfa(T, j, texts):
    T.resolve = _resolve(T, set(texts))
    roots = [[load_cube(T, c), r] for c, r in j["roots"]]
    trans, rs = idle([[(tuple(b), [(load_cube(T, c), x) for c, x in l]) for b, l in t] for t in j["trans"]], [r for _, r in roots])
    return DFA([[c, r] for (c, _), r in zip(roots, rs)], trans)


# ---------------------------------------------------------------- exploration
_PROG = {}


def prog(path, al=None):
    """program model of a dump, under an alignment (see align.py)"""
    k = (path, json.dumps(al, sort_keys=True))
    p = _PROG.get(k)
    if p is None:
        p = _PROG[k] = Prog(path)
        if al:
            align.apply(p, al)
    return p


def roots_spec():
    r = {n: [None, "nt"] for n in nonterminals()}
    r.update(json.load(open(os.path.join(VERIF, "spec", "roots.json"))))
    return r


def find(P, key, spec):
    path, mode = spec
    if mode == "nt":
        l = P.by_base.get(key)
        return l[0] if l else None
    return P.inst(path)


def explore(P, key, texts=(), drop=(), spec=None):
    spec = spec or roots_spec()[key]
    mode = spec[1]
    texts = list(texts)
    NT = [n for n in nonterminals() if n not in drop]
    inst = find(P, key, spec)
    pr = prims.PRIMS
    if mode in ("hlp", "pos"):
        pr = {k: v for k, v in prims.PRIMS.items() if k not in ("expected_token_error", "unexpected_token_error")}
    elif mode == "ll":
        pr = lowlevel.PRIMS
    pr = {k: v for k, v in pr.items() if k not in drop}
    while True:
        T = Tokens(P, texts)
        if mode == "ll":
            T.VIS = T.ALL
        set_tokall(T.VIS)
        ex = Explorer(P, T, NT, OUT, pr, ll=mode == "ll", errmsg=mode == "hlp", pos=mode == "pos")
        try:
            edges, facts = ex.explore(inst["id"])
            return ex, edges, facts
        except NeedText as e:
            texts.append(e.s)


class Timeout(Exception):
    pass


def extract(path, key, projs, texts=(), drop=(), al=None, limit=0):
    """-> json-able dict {fn, texts, proj{...}, panics, inlined, ...} or {fn, failed: reason}"""
    t0 = time.time()
    try:
        if limit:
            def alarm(*_):
                raise Timeout()

            signal.signal(signal.SIGALRM, alarm)
            signal.alarm(limit)
        P = prog(path, al)
        spec = roots_spec()[key]
        if find(P, key, spec) is None:
            return {"fn": key, "missing": True}
        ex, edges, facts = explore(P, key, texts, drop, spec)
        res = {"fn": key, "texts": ex.T.texts, "proj": {}, "nodes": len(edges), "events": sum(1 for es in edges for ev, _ in es or () if ev), "inlined": sorted(ex.inlined), "callees": sorted(ex.callees), "warn": sorted(ex.warn)}
        pan = {}
        for es in edges:
            for ev, d in es or ():
                if ev and ev[0] == "panic":
                    pan[str(ev[1])] = pan.get(str(ev[1]), 0) + 1
        res["panics"] = sorted(pan)
        res["panics_definite"] = definite(edges) if pan else []
        res["progress"] = progress(edges)
        res["minlen"] = minlen(P, edges)
        for p in projs:
            res["proj"][p] = dump_dfa(ex.T, Builder(ex, edges, facts, PROJ[p]).build())
        res["t"] = round(time.time() - t0, 2)
        return res
    except Timeout:
        return {"fn": key, "failed": "time limit of %d s" % limit}
    except (Unsupported, automaton.TooBig, RecursionError, MemoryError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, NeedText) as e:
        if os.environ.get("RESSA_VERIF_DEBUG"):
            raise
        return {"fn": key, "failed": "%s: %s" % (type(e).__name__, str(e)[:300])}
    finally:
        if limit:
            signal.alarm(0)


def minlen(P, edges):
    """least length of each list in what the function returns: {"" or field: n}"""
    out = {}

    def note(name, v):
        t = NODES[v]
        n = None
        if t[0] == "vec":
            n = {"+": 3, "?": 0}.get(t[3], t[3])
        out[name] = n if name not in out else None if n is None or out[name] is None else min(out[name], n)

    for es in edges:
        for ev, d in es or ():
            if ev and ev[0] == "ret" and ev[1] != -1:
                t = NODES[ev[1]]
                if t[0] == "adt" and P.adt_name(t[1]) == "Result":
                    t = NODES[t[3][0]]
                    v = NODES[ev[1]][3][0]
                else:
                    v = ev[1]
                note("", v)
                if t[0] == "adt" and len(P.types[t[1]]["vars"]) == 1:
                    for f, x in zip(P.types[t[1]]["vars"][0]["fields"], t[3]):
                        note(f[0], x)
                elif t[0] == "tup":
                    for i, x in enumerate(t[1]):
                        note(str(i), x)
    return {k: v for k, v in sorted(out.items()) if v is not None}


def definite(edges):
    """panics reached without deciding anything the analysis does not know (opaque conditions, contents of lists): [[what, steps]]"""
    prev = {0: None}
    work = [0]
    out = {}
    for i in work:
        for ev, d in edges[i] or ():
            if ev and ev[0] == "panic":
                p, k = [], i
                while k is not None:
                    x = prev[k]
                    if x and x[1]:
                        p.append(" ".join(str(y) for y in x[1][:2])[:80])
                    k = x and x[0]
                out.setdefault(str(ev[1]), p[::-1])
            elif d is not None and d not in prev and (not ev or ev[0] in ("eat", "eat-err", "call", "push", "set")):
                prev[d] = (i, ev)
                work.append(d)
    return [[k, v] for k, v in sorted(out.items())]


def progress(edges):
    """compact graph for the termination argument.
    cyc: cycles of the explored graph without an `eat`: list of sets of nonterminals called on the cycle
    first: list of (callee, set of nonterminals called before it without any eat)
    null: sets of nonterminals called on some path to a successful return without any eat (None if none)"""
    n = len(edges)
    # graph without eat edges
    g = [[] for _ in range(n)]
    for i, es in enumerate(edges):
        for ev, d in es or ():
            if ev is not None and ev[0] in ("eat",):
                continue
            if d is None:
                if ev is not None and ev[0] == "ret" and ev[1] != -1:
                    g[i].append(("ret", None))
                continue
            l = None
            if ev is not None:
                if ev[0] == "call":
                    l = ev[1] if ev[4] == "ok" else "!err"
                elif ev[0] == "pop":
                    l = "-" + ev[1]
                elif ev[0] == "next":
                    l = "-next " + ev[1]
                elif ev[0] == "push":
                    l = "+" + ev[1]
            g[i].append((l, d))
    # SCCs
    comp = scc(n, lambda i: [d for l, d in g[i] if d is not None and l != "!err"])
    cyc = set()
    members = {}
    for i, c in enumerate(comp):
        members.setdefault(c, []).append(i)
    for c, ms in members.items():
        ed = [(i, l, d) for i in ms for l, d in g[i] if d is not None and l != "!err" and comp[d] == c]
        if not ed:
            continue
        sub = {}
        for i, l, d in ed:
            sub.setdefault(i, []).append((l, d))
        cyc.add(json.dumps(min_cycles(sub)))
    # reachability from the entry without eats
    first = {}
    # BFS over (node) with sets of callees passed: keep antichains of small sets
    best = {0: {frozenset()}}
    work = [0]
    null = set()
    while work:
        i = work.pop()
        for l, d in g[i]:
            for s in list(best[i]):
                if l == "ret":
                    null.add(s)
                    continue
                if l == "!err":
                    continue
                s2 = s
                if l and l[0] not in "+-":
                    first.setdefault(l, set()).add(s)
                    s2 = s | {l}
                cur = best.setdefault(d, set())
                if any(x <= s2 for x in cur):
                    continue
                for x in [x for x in cur if x >= s2]:
                    cur.discard(x)
                cur.add(s2)
                work.append(d)
        for es, d in edges[i] or ():
            if es is not None and es[0] == "call" and es[4] != "ok":
                for s in best[i]:
                    first.setdefault(es[1], set()).add(s)
    mini = lambda ss: sorted(sorted(x) for x in ss if not any(y < x for y in ss))
    return {"cyc": [json.loads(x) for x in sorted(cyc)], "first": {k: mini(v) for k, v in sorted(first.items())}, "null": mini(null)}


def min_cycles(sub):
    """minimal sets of call labels over the cycles of a small labelled graph; [] if the calls-free part of it may not terminate.
    A cycle that takes more out of a list than it puts in is finite."""
    res = set()
    free = {i: [(l, d) for l, d in es if not l or l[0] in "+-"] for i, es in sub.items()}
    if not drains(free):
        res.add(frozenset())
    seen = set()
    for s in sub:
        for l0, s0 in sub[s]:
            if not l0 or l0[0] in "+-" or (s0, l0, s) in seen:
                continue
            seen.add((s0, l0, s))
            # cycles through this call: paths from its target back to its source
            best = {s0: {frozenset(): {frozenset([l0])}}}
            work = [(s0, frozenset(), frozenset([l0]))]
            while work:
                i, pm, cs = work.pop()
                if cs not in best[i].get(pm, ()):
                    continue  # superseded
                if i == s:
                    if not any(x[0] == "-" and "+" + lst(x) not in pm for x in pm):
                        res.add(cs)
                    continue
                for l, d in sub.get(i, ()):
                    p2, c2 = (pm, cs) if not l else (pm | {l}, cs) if l[0] in "+-" else (pm, cs | {l})
                    cur = best.setdefault(d, {}).setdefault(p2, set())
                    if any(x <= c2 for x in cur):
                        continue
                    for x in [x for x in cur if x > c2]:
                        cur.discard(x)
                    cur.add(c2)
                    work.append((d, p2, c2))
    return sorted(sorted(x) for x in res if not any(y < x for y in res))


def lst(l):
    return l[6:] if l.startswith("-next ") else l[1:]


def drains(g):
    """no infinite path: every cycle takes more out of some list (one per component) than it puts in"""
    ids = sorted(g)
    num = {x: k for k, x in enumerate(ids)}
    comp = scc(len(ids), lambda k: [num[d] for _, d in g[ids[k]] if d in num])
    groups = {}
    for x in ids:
        groups.setdefault(comp[num[x]], []).append(x)
    for ms in groups.values():
        ed = [(i, l, d) for i in ms for l, d in g[i] if d in num and comp[num[d]] == comp[num[i]]]
        if not ed:
            continue
        n = len(ms)
        for name in sorted({lst(l) for _, l, _ in ed if l}):
            # is there a cycle of net weight >= 0?  (longest path relaxation with weights scaled so that 0 becomes positive)
            w = [(i, d, (0 if not l or lst(l) != name else 1 if l[0] == "+" else -1) * (n + 1) + 1) for i, l, d in ed]
            dist = {x: 0 for x in ms}
            for _ in range(n + 1):
                ch = False
                for i, d, c in w:
                    if dist[i] + c > dist[d]:
                        dist[d] = dist[i] + c
                        ch = True
                if not ch:
                    break
            if not ch:
                break  # this list decreases on every cycle
        else:
            return False
    return True


def scc(n, succ):
    idx = [-1] * n
    low = [0] * n
    on = [False] * n
    st = []
    comp = [-1] * n
    cnt = [0, 0]
    for r in range(n):
        if idx[r] != -1:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = cnt[0]
        cnt[0] += 1
        st.append(r)
        on[r] = True
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if idx[w] == -1:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on[w] = True
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif on[w]:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                while True:
                    w = st.pop()
                    on[w] = False
                    comp[w] = cnt[1]
                    if w == v:
                        break
                cnt[1] += 1
    return comp


if __name__ == "__main__":
    r = extract(os.path.join(VERIF, "build", "mir.json"), sys.argv[1], sys.argv[2:] or list(PROJ))
    print(r.get("failed"), r.get("progress"), len(json.dumps(r)))
