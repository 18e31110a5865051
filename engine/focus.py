"""All differences between two automata, and which aspect of the behaviour a difference is about."""
import re
from automaton import DFA, lone, covers, inter2, specialise, _const


class Diff:
    __slots__ = ("entry", "pair", "kind", "base", "cube", "other", "walk")

    def __init__(self, entry, pair, kind, base, cube, other, walk):
        self.entry, self.pair, self.kind, self.base, self.cube, self.other, self.walk = entry, pair, kind, base, cube, other, walk

    def path(self):
        p, k = [], self.pair
        while k is not None:
            k, s = self.walk[k]
            if s is not None:
                p.append(s)
        return p[::-1]

    def sig(self, without=()):
        c = tuple((k, repr(m)) for k, m in self.cube if k not in without)
        return (self.kind, self.base, c)


def restrict(d, dim, val):
    """the automaton entered with dim = val only"""
    q = ((dim, frozenset([val])),)
    roots = []
    for c, r in d.roots:
        x = inter2(c, q)
        if x is not None:
            roots.append((x, r))
    return DFA(roots, d.trans)


def strip_label(base):
    """the grammatical step a label stands for, without contexts, values and error kinds"""
    if base[0] == "ret":
        return ("ret", base[1].split("(")[0].split("{")[0] if len(base) > 1 else "")
    if base[0] == "call":
        return ("call", base[1]) + (("err",) if base[-1] == "err" else ())
    return (base[0],)


def flags_of(base):
    for x in base[1:]:
        if x[:1] == "{" and x[-1:] == "}":
            return {e.split("=", 1)[0]: e.split("=", 1)[1] for e in split_top(x[1:-1]) if "=" in e}
    return {}


def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def alldiffs(ref, cur, limit=400, known=None, partial=False):
    """ref, cur: DFA.  -> [Diff]; 'missing': only ref can do it, 'extra': only cur can.  partial: ref may rule values
    out by looking at them, without that being a difference"""
    diffs = []
    seen = set()
    roots = []
    for rc, r in ref.roots:
        for cc, c in cur.roots:
            v = inter2(rc, cc)
            if v is None:
                continue
            kr = {k: _const(m) for k, m in v if not isinstance(m, int) and _const(m)}
            kr.update(known or {})
            kc = kr
            key = (r, c, tuple(sorted(kr.items())), tuple(sorted(kc.items())))
            if key in seen:
                continue
            seen.add(key)
            roots.append((r, c, v, kr, kc))
    memo = {}
    for r, c, v, kr, kc in roots:
        if r is None or c is None:
            if (r is None) != (c is None):
                diffs.append(Diff(v, None, "missing" if c is None else "extra", ("any behaviour",), (), [], {}))
            continue
        # one walk per root pair; states already compared under the same knowledge are skipped
        done = memo.setdefault((tuple(sorted(kr.items())), tuple(sorted(kc.items()))), set())
        walk = {(r, c): (None, None)}
        work = [(r, c)]
        for a, b in work:
            if (a, b) in done:
                continue
            done.add((a, b))
            ta, tb = {}, {}
            for t, src, kn in ((ta, ref.trans[a], kr), (tb, cur.trans[b], kc)):
                for base, l in src:
                    t.setdefault(specialise(base, kn), []).extend(l)
            # a look only one side takes: what follows must agree with the other side whatever is seen
            side = lone(ta, tb, partial)
            if side is not None:
                (base, l), = (ta, tb)[side].items()
                for q, d in l:
                    p = (d, b) if side == 0 else (a, d)
                    if p not in walk:
                        walk[p] = ((a, b), (base, q))
                        work.append(p)
                continue
            res = {}
            for base in set(ta) | set(tb):
                la, lb = ta.get(base, []), tb.get(base, [])
                if partial and base[0] == "cond" and not lb:
                    for q, d in la:
                        if (d, b) not in walk:
                            walk[d, b] = ((a, b), (base, q))
                            work.append((d, b))
                    continue
                for side, l, o in (("missing", la, lb), ("extra", lb, la)):
                    oc = [x for x, _ in o]
                    for q, d in l:
                        for rem in covers(oc, q):
                            res.setdefault(side, []).append((base, rem, d))
                for q, d in la:
                    for q2, d2 in lb:
                        x = inter2(q, q2)
                        if x is not None and (d, d2) not in walk:
                            walk[d, d2] = ((a, b), (base, x))
                            work.append((d, d2))
            for side in sorted(res):
                rival = res.get("extra" if side == "missing" else "missing", ())
                for base, rem, d in sorted(res[side], key=lambda x: (x[0], repr(x[1]))):
                    st = strip_label(base)
                    other = []
                    for b2, rem2, d2 in rival:
                        if strip_label(b2) == st:
                            x = inter2(rem, rem2)
                            if x is not None:
                                other.append(b2)
                                p = (d, d2) if side == "missing" else (d2, d)
                                if p not in walk:
                                    walk[p] = ((a, b), (base, x))
                                    work.append(p)
                    diffs.append(Diff(v, (a, b), side, base, rem, other, walk))
            if len(diffs) >= limit or len(walk) > 20000:
                break
        if len(diffs) >= limit:
            break
    return diffs


def included(d, dim, small, big, limit=50):
    """what d entered with dim = small can do and with dim = big cannot"""
    a, b = restrict(d, dim, small), restrict(d, dim, big)
    a = DFA([(tuple(y for y in c if y[0] != dim), r) for c, r in a.roots], a.trans)
    b = DFA([(tuple(y for y in c if y[0] != dim), r) for c, r in b.roots], b.trans)
    return [x for x in alldiffs(a, b, limit * 4, partial=True) if x.kind == "missing"][:limit]


# ---------------------------------------------------------------- aspects
def a_any(T, ref, cur):
    return alldiffs(ref, cur, 30)


def a_flags(*names):
    """the same grammatical step is taken in another context (one of the named flags differs)"""
    ns = set(names)

    def pick(T, ref, cur):
        out = []
        for d in alldiffs(ref, cur):
            f = flags_of(d.base)
            if d.other and all({k for k in set(f) | set(flags_of(o)) if f.get(k) != flags_of(o).get(k)} & ns for o in d.other):
                out.append(d)
        return out

    return pick


def mentions(d, names):
    return any(k.split(".")[-1].split("(")[0] in names for k, _ in d.cube)


def a_dims(*names):
    """what is accepted depends on the named context differently"""
    ns = set(names)

    def pick(T, ref, cur):
        out = [d for d in alldiffs(ref, cur) if mentions(d, ns)]
        if out:
            return out
        dims = {k for c, _ in ref.roots + cur.roots for k, m in c if k.split(".")[-1] in ns and not isinstance(m, int)}
        for dim in sorted(dims):
            vals = sorted({v for c, _ in ref.roots + cur.roots for k, m in c if k == dim for v in m})
            per = {v: alldiffs(restrict(ref, dim, v), restrict(cur, dim, v)) for v in vals}
            if len(vals) < 2:
                for v in vals:
                    out += per[v]
                continue
            sigs = {v: {(d.sig(), len(d.path())) for d in l} for v, l in per.items()}
            common = set.intersection(*sigs.values())
            for v, l in per.items():
                out += [d for d in l if (d.sig(), len(d.path())) not in common]
        return out

    return pick


def a_errkind(T, ref, cur):
    """both fail at the same point, with another error or blaming another token"""
    return [d for d in alldiffs(ref, cur) if d.base[0] == "ret" and len(d.base) > 1 and d.base[1].startswith("Err(") and d.other]


def a_newline(T, ref, cur):
    """what is accepted depends on a line terminator before the token, or is about where a statement may end"""
    out = []
    for d in alldiffs(ref, cur):
        for k, m in d.cube:
            if isinstance(m, int) and m != T.VIS:
                if (m & T.NL) >> 1 != (m & ~T.NL) & (T.NL >> 1):
                    out.append(d)
                    break
    return out


def a_label(rx):
    """the difference is about a step or value that matches rx"""
    r = re.compile(rx)

    def pick(T, ref, cur):
        return [d for d in alldiffs(ref, cur) if r.search(" ".join(d.base)) or any(r.search(" ".join(o)) for o in d.other)]

    return pick


def a_tokens(rx):
    """the difference is about a token that matches rx"""
    r = re.compile(rx)

    def pick(T, ref, cur):
        out = []
        for d in alldiffs(ref, cur):
            if any(isinstance(m, int) and m != T.VIS and any(r.search(n) for n in T.masknames(m & T.VIS)) for _, m in d.cube):
                out.append(d)
        return out

    return pick


def a_or(*ps):
    def pick(T, ref, cur):
        for p in ps:
            o = p(T, ref, cur)
            if o:
                return o
        return []

    return pick


def a_and(p, q):
    def pick(T, ref, cur):
        b = {(d.sig(), repr(d.entry)) for d in q(T, ref, cur)}
        return [d for d in p(T, ref, cur) if (d.sig(), repr(d.entry)) in b]

    return pick
