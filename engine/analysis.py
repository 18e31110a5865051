"""Decide, for functions of the current tree, whether their projected behaviour is the specified one.

For every root (nonterminal or helper, spec/nonterminals.txt + spec/roots.json) spec/ref holds the reviewed automata.  A root whose
program fragment (its MIR and that of all crate-local code it can inline) is the very same as the one the automata were derived from
needs no exploration in the quick tier; every other root is explored on the current MIR and its automata are compared with the
reviewed ones.  A difference is confirmed only if it does not vanish when the function is seen through its callers (code moved
between functions)."""
import re
import os, json, time, hashlib, lzma, glob
from concurrent.futures import ProcessPoolExecutor
import dump, extract, align, fingerprint
from core import base_name
from tokens import Tokens
from automaton import compare, set_tokall, Neg
from project import projections

VERIF = dump.VERIF
REF = os.path.join(VERIF, "spec", "ref")
REFMIR = os.path.join(VERIF, "spec", "ref.mir.json.xz")
REFMETA = os.path.join(VERIF, "spec", "refmeta.json")
# most expensive first, so that the pool stays busy
BIG = ["parse_class_el", "parse_left_hand_side_expr_allow_call", "parse_assignment_expr", "parse_left_hand_side_expr", "parse_binary_expression", "parse_group_expr", "parse_array_init", "parse_update_expr", "parse_for_stmt", "parse_obj_prop", "parse_break_stmt", "parse_continue_stmt"]
BUDGET = float(os.environ.get("RESSA_VERIF_BUDGET", "780"))  # seconds for one check


def engine_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "*.py"))) + [os.path.join(VERIF, "spec", "nonterminals.txt"), os.path.join(VERIF, "spec", "roots.json")]:
        if os.path.basename(f) not in ("check.py", "props.py", "rules.py", "focus.py", "analysis.py", "mkref.py"):
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


# library calls that only carry data along: where one has no model, what the function does is unknown rather than different
PLUMBING = re.compile(r"^<?(std|core|alloc)::(iter|slice|vec|option|result|mem|array|collections|ops|convert|borrow|boxed|rc|cell|default|intrinsics)\b|as (std|core)::iter::|^<\[|^core::array|impl \[T\]")

# ... except where it drops or rearranges what it carries
REARRANGES = re.compile(r"::(insert|reverse|rev|swap|swap_remove|remove|pop|pop_front|truncate|retain|dedup\w*|clear|drain|sort\w*|skip|skip_while|take_while|step_by|resize\w*|rotate_\w+|split_off|split_at|split_first|split_last|fill|filter|filter_map|nth|nth_back|last|zip|cycle)(::<.*>)?$")


class Analysis:
    def __init__(self, full=False, freeze=False):
        self.t0 = time.time()
        self.full = full
        self.spec = extract.roots_spec()
        self.mir = dump.dump()
        P = extract.prog(self.mir)
        self.al = None
        self.removed = []
        self.meta = None if freeze else json.load(open(REFMETA))
        if self.meta:
            self.al = align.compute(self.meta, P, self.wanted())
            if self.al:
                P = extract.prog(self.mir, self.al)
            self.removed = align.removed(self.meta, P, extract.nonterminals() + extract.prims.PURE)
        self.prog = P
        self.finger = fingerprint.Finger(P, [n for n in extract.nonterminals() if n not in self.removed])
        self.cache = os.path.join(dump.BUILD, "cache", engine_hash())
        os.makedirs(self.cache, exist_ok=True)
        self.res = {}
        self.refs = {}
        self.verdicts = {}
        self.sides = {}
        self.stats = {"identical": set(), "explored": set(), "undecided": {}, "inlined_view": set()}

    def wanted(self):
        w = {s[0] for s in self.spec.values() if s[0]}
        nt = set(extract.nonterminals())
        w |= {p for p in self.meta["fns"] if base_name(p) in nt or base_name(p) in extract.prims.PRIMS}
        return w

    def left(self):
        return BUDGET - (time.time() - self.t0)

    # ---------------------------------------------------------------- references
    def ref(self, key):
        r = self.refs.get(key)
        if r is None:
            p = os.path.join(REF, key + ".json")
            r = self.refs[key] = json.load(open(p)) if os.path.exists(p) else {}
        return r

    def refmir(self):
        out = os.path.join(dump.BUILD, "ref.mir.json")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(REFMIR):
            with open(out + ".tmp", "wb") as h:
                h.write(lzma.open(REFMIR).read())
            os.rename(out + ".tmp", out)
        return out

    def inst(self, key):
        return extract.find(self.prog, key, self.spec[key])

    def fp(self, key):
        i = self.inst(key)
        return None if i is None else self.finger.of_inst(i["id"], self.spec[key][1])

    # ---------------------------------------------------------------- exploration
    def jobs(self, todo):
        """todo: [(mir, key, projs, texts, drop, al, cachefile)] -> results"""
        out = []
        run = []
        for j in todo:
            cp = j[6]
            if cp and os.path.exists(cp):
                try:
                    c = json.load(open(cp))
                    if c.get("failed") or all(p in c.get("proj", {}) for p in j[2]):
                        out.append((j, c))
                        continue
                except ValueError:
                    pass
            run.append(j)
        run.sort(key=lambda j: BIG.index(j[1]) if j[1] in BIG else len(BIG))
        if run:
            lim = max(20, int(self.left()))
            with ProcessPoolExecutor(min(8, os.cpu_count() or 8, len(run))) as px:
                fs = [(j, px.submit(extract.extract, j[0], j[1], j[2], j[3], j[4], j[5], lim)) for j in run]
                for j, f in fs:
                    try:
                        r = f.result()
                    except Exception as e:
                        r = {"fn": j[1], "failed": "worker: %s" % e}
                    if j[6] and not r.get("failed", "").startswith(("time limit", "worker")):
                        tmp = j[6] + ".%d" % os.getpid()
                        with open(tmp, "w") as h:
                            json.dump(r, h)
                        os.rename(tmp, j[6])
                    out.append((j, r))
        return out

    def cachefile(self, key, fp, drop, tag="c"):
        h = hashlib.sha256(json.dumps([key, fp, sorted(drop), self.al, tag]).encode()).hexdigest()[:32]
        return os.path.join(self.cache, "%s-%s.json" % (key, h))

    def load(self, keys):
        """make self.res[key] available (identical: the reference automata themselves)"""
        todo = []
        for k in keys:
            if k in self.res:
                continue
            r = self.ref(k)
            if self.inst(k) is None:
                self.res[k] = {"fn": k, "missing": True}
                continue
            if k in self.removed or any(self.uses(r, x) for x in self.removed):
                # seen through the removed nonterminals, on both sides
                continue
            fp = self.fp(k)
            if not self.full and r and fp == r["fp"]:
                self.res[k] = dict(r, same=True)
                self.stats["identical"].add(k)
                continue
            todo.append((self.mir, k, projections(self.spec[k][1]), r.get("texts", ()), (), self.al, self.cachefile(k, fp, ())))
        for j, r in self.jobs(todo):
            self.res[j[1]] = r
            self.stats["explored"].add(j[1])

    # ---------------------------------------------------------------- verdicts
    def compare(self, ref, cur, proj, limit=2):
        """-> ('same'|'diff'|'undecided', detail)"""
        if cur.get("missing"):
            return "undecided", "not found in the current tree"
        if cur.get("failed"):
            return "undecided", cur["failed"]
        if not ref or ref.get("failed") or proj not in ref.get("proj", {}):
            return "undecided", "no reference"
        if cur.get("same"):
            return "same", None
        new = [w[7:] for w in cur.get("warn", ()) if w.startswith("opaque ") and PLUMBING.search(w[7:]) and not REARRANGES.search(w[7:]) and w[7:] not in ref.get("opaque", ())]
        if new:
            return "undecided", "uses %s, of which there is no model" % ", ".join(new)
        if proj == "POS":
            # the same sums may be had by other means
            op = {w[7:] for w in cur.get("warn", ()) if w.startswith("opaque ")} ^ set(ref.get("opaque", ()))
            op = op or heads(cur["proj"][proj]) - heads(ref["proj"][proj])
            if op:
                return "undecided", "computed by other means: %s" % ", ".join(sorted(op))
        a, b = ref["proj"][proj], cur["proj"][proj]
        if a == b and ref["texts"] == cur["texts"]:
            return "same", None
        texts = list(ref["texts"]) + [t for t in cur["texts"] if t not in ref["texts"]]
        T = Tokens(self.prog, texts)
        if proj in ("FULL", "POS"):
            T.VIS = T.ALL
        set_tokall(T.VIS)
        try:
            da = extract.load_dfa(T, a, ref["texts"])
            db = extract.load_dfa(T, b, cur["texts"])
        except KeyError as e:
            return "undecided", "token class %s no longer exists" % e
        d = compare(da, db, limit)
        if not d:
            return "same", None
        if proj == "FULL" and counters(a) != counters(b):
            return "undecided", "tells the elements of a list apart by other comparisons"
        return "diff", [describe(T, x) for x in d]

    def decide(self, pairs):
        """pairs: [(key, proj)] -> {(key, proj): (verdict, detail)}"""
        pairs = [p for p in pairs]
        keys = []
        for k, _ in pairs:
            if k not in keys:
                keys.append(k)
        self.load(keys)
        out = {}
        inl = []
        for k, p in pairs:
            if k in self.res:
                out[k, p] = self.compare(self.ref(k), self.res[k], p)
            else:
                inl.append((k, p))
        if inl:
            # callers of removed nonterminals: both sides with those inlined
            v = self.through(set(self.removed), [x for x in inl if x[0] not in self.removed])
            for x in inl:
                out[x] = v.get(x, ("undecided", "its interface changed; decided through its callers"))
        bad = sorted({k for (k, p), v in out.items() if v[0] == "diff"})
        if bad:
            self.second_chance(out, bad)
        for (k, p), v in out.items():
            if v[0] == "undecided":
                self.stats["undecided"][k] = v[1]
        return out

    def uses(self, r, name):
        return name in r.get("callees", ()) or name in extract.prims.PURE and name + "(" in json.dumps(r.get("proj", ""))

    def callers(self, keys):
        return [k for k in self.spec if set(self.ref(k).get("callees", ())) & set(keys)]

    def through(self, drop, pairs):
        """verdicts for pairs with the nonterminals in drop inlined on both sides"""
        keys = sorted({k for k, _ in pairs})
        todo = []
        rm = self.refmir()
        mh = hashlib.sha256(open(REFMIR, "rb").read()).hexdigest()[:16]
        ch = dump.digest(self.mir)
        for k in keys:
            pj = sorted({p for kk, p in pairs if kk == k})
            tx = self.ref(k).get("texts", ())
            todo.append((rm, k, pj, tx, tuple(sorted(drop)), None, self.cachefile(k, mh, drop, "r" + ",".join(pj))))
            todo.append((self.mir, k, pj, tx, tuple(sorted(drop)), self.al, self.cachefile(k, ch, drop, "x" + ",".join(pj))))
        rr = {}
        for j, r in self.jobs(todo):
            rr[j[1], "r" if j[0] == rm else "c"] = r
            self.stats["inlined_view"].add(j[1])
        for k, p in pairs:
            self.sides.setdefault((k, p), (rr[k, "r"], rr[k, "c"]))
        return {(k, p): self.compare(rr[k, "r"], rr[k, "c"], p) for k, p in pairs}

    # ---------------------------------------------------------------- which aspect differs
    def dfas(self, ref, cur, proj):
        texts = list(ref["texts"]) + [t for t in cur["texts"] if t not in ref["texts"]]
        T = Tokens(self.prog, texts)
        if proj in ("FULL", "POS"):
            T.VIS = T.ALL
        set_tokall(T.VIS)
        return T, extract.load_dfa(T, ref["proj"][proj], ref["texts"]), extract.load_dfa(T, cur["proj"][proj], cur["texts"])

    def differences(self, key, proj, pick):
        """described differences of (key, proj) that pick(T, ref, cur) selects; for pairs decided 'diff'"""
        r, c = self.sides.get((key, proj)) or (self.ref(key), self.res[key])
        T, a, b = self.dfas(r, c, proj)
        return [{"entry": cube_str(T, d.entry), "path": [label(T, x, q, 80) for x, q in d.path()], "difference": "%s: %s" % ("no longer possible" if d.kind == "missing" else "newly possible", label(T, d.base, d.cube)), "instead": [" ".join(x)[:300] for x in d.other]} for d in pick(T, a, b)]

    def second_chance(self, out, bad):
        """code moved between a function and its callers is no difference: look at the callers with the function inlined"""
        nts = set(extract.nonterminals())
        for f in bad:
            if f not in nts or self.left() < 60:
                continue
            if not any(out.get((f, p), ("",))[0] == "diff" for p in projections("nt")):
                continue
            r = self.ref(f)
            if f in r.get("callees", ()):
                continue  # recursive: cannot be seen through
            cs = [c for c in self.callers([f]) if c != f]
            if not cs or len(cs) > 6:
                continue
            pj = sorted({p for (k, p), v in out.items() if k == f and v[0] == "diff"})
            cost = sum(self.ref(c).get("nodes", 0) for c in cs) + r.get("nodes", 0)
            if cost > 30000:
                continue
            v = self.through({f} | set(self.removed), [(c, p) for c in cs for p in pj])
            for p in pj:
                if all(v[c, p][0] == "same" for c in cs):
                    out[f, p] = ("same", "moved code: same behaviour in " + ", ".join(cs))
                    for c in cs:
                        if out.get((c, p), ("",))[0] == "diff":
                            out[c, p] = ("same", "moved code: same behaviour with %s inlined" % f)

    def where(self, key):
        i = self.inst(key)
        if not i:
            return "src/lib.rs"
        return "%s:%s" % (i["body"].get("file", "src/lib.rs"), i["body"].get("l0", 0))


def counters(d):
    """the comparisons of an automaton that involve a loop's counter"""
    return set(re.findall(r'"((?:Lt|Le|eq)\([^"]*i\(\)[^"]*)"', json.dumps(d)))


def heads(d):
    """the functions whose values the terms of an automaton mention"""
    return set(re.findall(r"([\w.]*[\w>])\(", json.dumps(d))) - {"sum", "len", "Div", "index", "span", "eq", "Lt", "with", "Some", "Ok", "piece"}


def cube_str(T, c, width=400):
    out = []
    for k, m in c:
        if isinstance(m, int):
            s = T.short(m)
            out.append(("" if k == "la" else k + ":") + s)
        elif isinstance(m, Neg):
            out.append(k + "=F" if m == Neg(["T"]) else k + " not in " + "|".join(sorted(m)))
        else:
            out.append(k + "=" + "|".join(sorted(m)))
    s = " ".join(out)
    return s if len(s) <= width else s[:width] + "…"


def label(T, base, cube, width=200):
    return (" ".join(base) + (" [" + cube_str(T, cube, width) + "]" if cube else ""))[:1200]


def describe(T, d):
    v, path, (kind, base, cube) = d
    return {
        "entry": cube_str(T, v),
        "path": [label(T, b, c, 80) for b, c in path],
        "difference": "%s: %s" % ("no longer possible" if kind == "missing" else "newly possible", label(T, base, cube)),
    }
