"""Rules that need no reference: decided on the automata or on the MIR of the current tree alone.

Every rule returns (obligations checked, violations [{where, rule, detail}], undecided [text])."""
import json, re
import align, extract, focus
from core import base_name
from extract import load_dfa, scc
from tokens import Tokens
from automaton import set_tokall, inter2


def nts(A, keys=None):
    ks = [k for k in (keys or extract.nonterminals()) if k in A.spec]
    A.load(ks)
    und = []
    out = []
    for k in ks:
        r = A.res.get(k)
        if r is None or r.get("missing") or r.get("failed"):
            und.append("%s: %s" % (k, (r or {}).get("failed") or "not present under this interface"))
        else:
            out.append((k, r))
    return out, und


# ---------------------------------------------------------------- leaving a construct
# what a finished construct may leave behind in the context, with the reason
LEAVES = {
    "next_part": {"past_prolog=1"},  # the directive prologue is over
    "parse_directive": {"strict=1"},  # 'use strict'
}


def restore(A):
    n, bad = 0, []
    ok, und = nts(A)
    v = A.decide([(k, "CTX") for k, _ in ok])
    for k, r in ok:
        allow = LEAVES.get(k, set())
        for t in r["proj"]["CTX"]["trans"]:
            for b, l in t:
                if b[0] != "ret":
                    continue
                n += 1
                f = b[-1] if b[-1][:1] == "{" else "{}"
                left = [x for x in focus.split_top(f[1:-1]) if x and x not in allow]
                if left and v[k, "CTX"][0] != "same":
                    bad.append({"where": A.where(k), "rule": "a construct that has been parsed leaves the context as it found it", "detail": "%s returns %s with %s changed" % (k, b[1][:80], ", ".join(left))})
    return n, bad, und


# ---------------------------------------------------------------- errors are passed on
def errors(A):
    n, bad = 0, []
    ok, und = nts(A)
    for k, r in ok:
        tr = r["proj"]["ERR"]["trans"]
        for i, t in enumerate(tr):
            for b, l in t:
                if b[0] == "eat-err":
                    want, what = "Err(scan-error())", "the error of the scanner"
                elif b[0] == "call" and b[-1] == "err":
                    want, what = "Err(%s.err)" % b[1], "the error of " + b[1]
                else:
                    continue
                for cube, x in l:
                    n += 1
                    got = sorted(" ".join(bb) for bb, _ in tr[x])
                    if got != ["ret " + want]:
                        bad.append({"where": A.where(k), "rule": "a failure inside a construct ends the parse with that very failure", "detail": "%s: after %s the function goes on with: %s" % (k, what, "; ".join(g[:120] for g in got[:4]) or "nothing")})
    return n, bad, und


# ---------------------------------------------------------------- termination
# functions that recurse on a strict part of the tree they consume (they take it by value), not on the input
STRUCTURAL = {"has_restricted_target", "reinterpret_expr_as_pat", "reinterpret_as_cover_formals_list"}


def progress(A):
    ok, und = nts(A)
    R = {k: r["progress"] for k, r in ok}
    for k in A.spec:
        if k not in R:
            R.setdefault(k, A.ref(k).get("progress", {"cyc": [], "first": {}, "null": []}))
    names = [k for k in extract.nonterminals() if k in R]
    nullable = set()
    ch = True
    while ch:
        ch = False
        for k in names:
            if k not in nullable and any(set(s) <= nullable for s in R[k]["null"]):
                nullable.add(k)
                ch = True
    n, bad = 0, []
    for k, _ in ok:
        for c in R[k]["cyc"]:
            n += 1
            for s in c:
                if set(s) <= nullable:
                    bad.append({"where": A.where(k), "rule": "every loop consumes a token or a list element on each round", "detail": "%s has a loop that consumes nothing%s" % (k, " (it only calls %s, which may succeed without consuming)" % ", ".join(s) if s else "")})
    edge = {k: sorted(g for g, ss in R[k]["first"].items() if g in R and any(set(s) <= nullable for s in ss)) for k in names}
    idx = {k: i for i, k in enumerate(names)}
    comp = scc(len(names), lambda i: [idx[g] for g in edge[names[i]] if g in idx])
    groups = {}
    for i, c in enumerate(comp):
        groups.setdefault(c, []).append(names[i])
    for c, l in groups.items():
        n += 1
        if (len(l) > 1 or l[0] in edge[l[0]]) and not set(l) <= STRUCTURAL:
            bad.append({"where": A.where(l[0]), "rule": "no construct re-enters itself before a token is consumed", "detail": "left recursion through " + " -> ".join(sorted(l))})
    return n, bad, und


# ---------------------------------------------------------------- panics
def panics(A, keys=None):
    ks = list(A.spec)
    A.load(ks)
    n, bad, und = 0, [], []
    for k in ks:
        r = A.res.get(k)
        if r is None or r.get("missing") or r.get("failed"):
            und.append(k)
            continue
        n += 1
        for what, path in r.get("panics_definite", ()):
            bad.append({"where": A.where(k), "rule": "no input reaches a panic", "detail": "%s reaches %s after: %s" % (k, what, " | ".join(path[-12:]) or "entry")})
        if r.get("panics") and not r.get("panics_definite"):
            und.append("%s: %s not excluded" % (k, ", ".join(r["panics"])))
    return n, bad, und


# ---------------------------------------------------------------- monotonicity
def tolerant(A):
    n, bad = 0, []
    ok, und = nts(A)
    for k, r in ok:
        T, d = dfa(A, r, "AST")
        if not any("config.tolerant" in dict(c) for c, _ in d.roots):
            continue
        n += 1
        for x in focus.included(d, "config.tolerant", "F", "T")[:2]:
            bad.append({"where": A.where(k), "rule": "what the default mode accepts, the tolerant mode accepts with the same tree", "detail": "%s: only without tolerance: %s after %s" % (k, show(T, x), [show_step(T, s) for s in x.path()][-6:])})
    return n, bad, und


# steps only strict code takes, with the reason why they accept nothing sloppy code would not
STRICT_ONLY = {
    "parse_function_decl": r"call parse_formal_params",  # the name is compared with eval and arguments as a token in strict code and as a string in sloppy code
    "parse_property_pattern": r"call parse_object_property_key",  # contextual keywords are plain keys in strict code, keys or shorthands in sloppy code
    "parse_fn_name": r"call parse_ident_name",  # `function yield`: the caller then rejects the restricted name
    # sloppy code looks one token further, to see if let is a name; an initialised variable before `in`, which sloppy code takes as a for-in loop, is left to be refused in place of a semicolon
    "parse_for_stmt": r"eat \[\{kw:let\}\]|call parse_for_loop_cont \(Some\(LoopInit::Variable\(VariableKind::Var,.*\) \[\{kw:in\}\]$",
    "parse_assignment_expr": r"ret Ok \[\{kw:implements",  # `async static`: no arrow parameter, the caller refuses the word
    "parse_primary_expression": r"cond at_import_call|call parse_ident_name",  # import(
    "parse_if_clause": r"call parse_statement \(\) \[\{kw:function\}\]",  # sloppy code takes a function declaration here, which strict code leaves to be refused by parse_statement
    "parse_yield_expr": r"ret Ok \[\{kw:implements",  # the operand of yield starts with a reserved word in strict code: the yield ends there and the caller refuses the word
}


def strict(A):
    n, bad = 0, []
    ok, und = nts(A)
    for k, r in ok:
        T, d = dfa(A, r, "GRAM")
        if not any("context.strict" in dict(c) for c, _ in d.roots):
            continue
        n += 1
        rx = STRICT_ONLY.get(k)
        for x in focus.included(d, "context.strict", "T", "F"):
            s = show(T, x)
            if re.match("call (has_restricted_target|parse_function_source_el)|cond strval", " ".join(x.base)):  # a query takes no token; a body is taken in both modes, its own directives decide
                continue
            if rx and re.match(rx, s):
                continue
            bad.append({"where": A.where(k), "rule": "strict mode accepts no more than sloppy mode", "detail": "%s: only in strict mode: %s" % (k, show(T, x))})
            break
    return n, bad, und


def dfa(A, r, proj):
    T = Tokens(A.prog, r["texts"])
    set_tokall(T.VIS)
    return T, load_dfa(T, r["proj"][proj], r["texts"])


def show(T, x):
    from analysis import label

    return label(T, x.base, x.cube, 200)


def show_step(T, s):
    from analysis import label

    return label(T, s[0], s[1], 60)


# ---------------------------------------------------------------- operators
PREC = [["LogicalOr"], ["LogicalAnd"], ["Pipe"], ["Caret"], ["And"], ["Equal", "NotEqual", "StrictEquals", "StrictNotEquals"], ["LessThan", "GreaterThan", "LessThanEqual", "GreaterThanEqual", "kw:in", "kw:instanceof"], ["LeftShift", "RightShift", "UnsignedRightShift"], ["Plus", "Minus"], ["Asterisk", "ForwardSlash", "Modulo"]]
OPS = {
    "binary_operator": {"p:Equal": "Equal", "p:NotEqual": "NotEqual", "p:StrictEquals": "StrictEqual", "p:StrictNotEquals": "StrictNotEqual", "p:LessThan": "LessThan", "p:LessThanEqual": "LessThanEqual", "p:GreaterThan": "GreaterThan", "p:GreaterThanEqual": "GreaterThanEqual", "p:LeftShift": "LeftShift", "p:RightShift": "RightShift", "p:UnsignedRightShift": "UnsignedRightShift", "p:Plus": "Plus", "p:Minus": "Minus", "p:Asterisk": "Times", "p:ForwardSlash": "Over", "p:Modulo": "Mod", "p:Pipe": "Or", "p:Caret": "XOr", "p:And": "And", "kw:in": "In", "kw:instanceof": "InstanceOf"},
    "logical_operator": {"p:LogicalAnd": "And", "p:LogicalOr": "Or"},
    "unary_operator": {"p:Minus": "Minus", "p:Plus": "Plus", "p:Not": "Not", "p:BitwiseNot": "Tilde", "kw:typeof": "TypeOf", "kw:void": "Void", "kw:delete": "Delete"},
    "assignment_operator": {"Assign": "Equal", "AddAssign": "PlusEqual", "SubtractAssign": "MinusEqual", "MultiplyAssign": "TimesEqual", "DivideAssign": "DivEqual", "ModuloAssign": "ModEqual", "LeftShiftAssign": "LeftShiftEqual", "RightShiftAssign": "RightShiftEqual", "UnsignedRightShiftAssign": "UnsignedRightShiftEqual", "BitwiseOrAssign": "OrEqual", "BitwiseXOrAssign": "XOrEqual", "BitwiseAndAssign": "AndEqual", "ExponentAssign": "PowerOfEqual"},
}
ENUM = {"binary_operator": "BinaryOperator", "logical_operator": "LogicalOperator", "unary_operator": "UnaryOperator", "assignment_operator": "AssignmentOperator"}
# ress spells the punctuators in its own way; `tok argN` dims carry token classes, `argN` dims variant names


def table(A, key):
    """{argument token/variant: result label} of a pure table helper, or None"""
    A.load([key])
    r = A.res.get(key)
    if r is None or r.get("missing") or r.get("failed"):
        return None
    T = Tokens(A.prog, r["texts"])
    T.VIS = T.ALL
    set_tokall(T.VIS)
    d = load_dfa(T, r["proj"]["FULL"], r["texts"])
    out = {}
    for cube, root in d.roots:
        if root is None:
            continue
        vals = None
        rest = []
        for k, m in cube:
            if isinstance(m, int):
                vals = T.masknames(m)
            elif re.match(r"arg\d", k):
                vals = sorted(m)
            else:
                rest.append((k, tuple(sorted(m))))
        tr = d.trans[root]
        res = [b[1] for b, l in tr if b[0] == "ret"]
        if len(tr) != 1 or len(res) != 1:
            return None
        for x in vals if vals is not None else ["*"]:
            out[x, tuple(rest)] = res[0]
    return out


def operators(A):
    n, bad, und = 0, [], []
    for k, want in OPS.items():
        t = table(A, k)
        if t is None:
            und.append(k + ": no table")
            continue
        got = {x: v for (x, _), v in t.items()}
        for x in sorted(set(got) | set(want)):
            n += 1
            w = "Some(%s::%s)" % (ENUM[k], want[x]) if x in want else "None"
            # the operator helpers are only asked about operators: what they answer for other tokens is free
            if x in want and got.get(x, got.get("*")) != w:
                bad.append({"where": A.where(k), "rule": "each operator token denotes its own operator", "detail": "%s: %s gives %s instead of %s" % (k, x, got.get(x, got.get("*")), w)})
    return n, bad, und


def precedence(A):
    n, bad, und = 0, [], []
    b, d = table(A, "bin_precedence"), table(A, "determine_precedence")
    if b is None:
        return 0, [], ["bin_precedence: no table"]
    dp = {} if d is None else {x: v for (x, _), v in d.items()}

    def value(x, allow_in):
        for (y, rest), v in b.items():
            if y in (x, "*") and all(k != "context.allow_in" or allow_in in m for k, m in rest):
                if v.startswith("determine_precedence("):
                    p = x.split(":", 1)[-1]
                    v = dp.get(p, dp.get("*"))
                try:
                    return int(v)
                except (TypeError, ValueError):
                    return None
        return None

    toks = sorted({x for x, _ in b})
    for allow in ("T", "F"):
        val = {}
        for x in toks:
            v = value(x.rstrip("~!"), allow) if (x, ()) not in b else value(x, allow)
            if v is None:
                v = value(x, allow)
            if v is None:
                und.append("precedence of %s unknown" % x)
                continue
            val[x.split(":", 1)[1] if x.startswith("p:") else x] = v
        level = {}
        for i, l in enumerate(PREC):
            for x in l:
                level[x] = i + 1
        if allow == "F":
            level["kw:in"] = 0
        for x in val:
            n += 1
            if (val[x] > 0) != (level.get(x, 0) > 0):
                bad.append({"where": A.where("bin_precedence"), "rule": "exactly the binary operators have a binding power", "detail": "%s (allow_in=%s) has precedence %d" % (x, allow, val[x])})
        ops = [x for x in val if level.get(x, 0) > 0 and val[x] > 0]
        for x in ops:
            for y in ops:
                if x < y:
                    n += 1
                    a, c = val[x] - val[y], level[x] - level[y]
                    if (a > 0) != (c > 0) or (a < 0) != (c < 0):
                        bad.append({"where": A.where("determine_precedence"), "rule": "binary operators bind in the order ECMAScript gives", "detail": "%s (%d) against %s (%d)" % (x, val[x], y, val[y])})
    return n, bad[:6], und


# ---------------------------------------------------------------- who may touch what (MIR)
def callee(P, t):
    if t[0] != "call":
        return None
    o = t[1]
    if o[0] == "k" and isinstance(o[1], dict):
        for k in ("fn", "inst", "fnptr", "closure"):
            if isinstance(o[1].get(k), int):
                return P.insts[o[1][k]]
    return None


def local(P):
    return [i for i in P.insts if i["crate"] == "ressa" and i.get("body")]


def graph(P):
    """callers of every local function (closures count as their parent)"""
    up = {}
    for i in local(P):
        for ss, t, ln in i["body"]["blocks"]:
            q = callee(P, t)
            if q is not None and q["crate"] == "ressa":
                up.setdefault(root_path(q["path"]), set()).add(root_path(i["path"]))
    return up


def root_path(p):
    return p.split("::{closure")[0]


LOW = ("next_item", "peek_item", "at_import_call", "at_lexical_decl", "at_async_function", "_new", "new", "build", "with_comment_handler", "update_positions")
PUMP = re.compile(r"RefScanner(::<[^>]*>)?( as .*Iterator>)?::(next|set_state|skip_comments|get_next_token)$|RefScanner as std::iter::Iterator>::")
FIELDS = {"look_ahead", "current_position", "look_ahead_position", "found_eof", "scanner", "_look_ahead"}


def pump(A):
    """only the token pump and the look-ahead helpers drive the scanner and replace the look-ahead"""
    P = A.prog
    up = graph(P)
    n, bad = 0, []

    def allowed(p, seen=()):
        if base_name(p) in LOW or "Builder" in p:
            return True
        cs = up.get(p, set()) - {p}
        return bool(cs) and p not in seen and all(allowed(c, seen + (p,)) for c in cs)

    ptid = {k for k, t in enumerate(P.types) if t["k"] == "adt" and t["name"].endswith("ressa::Parser")}
    for i in local(P):
        rp = root_path(i["path"])
        for ss, t, ln in i["body"]["blocks"]:
            q = callee(P, t)
            if q is not None and PUMP.search(q["path"]):
                n += 1
                if not allowed(rp):
                    bad.append({"where": "%s:%s" % (i["body"]["file"], ln), "rule": "only the token pump and the restoring look-ahead drive the scanner", "detail": "%s calls %s" % (rp, q["path"])})
            for s in ss:
                if s[0] == "=" and any(isinstance(e, list) and e[0] == "f" for e in s[1][1]):
                    f = written(P, i["body"], s[1], ptid)
                    if f in FIELDS:
                        n += 1
                        if not allowed(rp):
                            bad.append({"where": "%s:%s" % (i["body"]["file"], s[3] if len(s) > 3 else ln), "rule": "only the token pump replaces the look-ahead and the positions", "detail": "%s writes %s" % (rp, f)})
    return n, bad, []


def written(P, body, place, ptid):
    """name of the Parser field a place lies in"""
    t = body["locals"][place[0]]
    for e in place[1]:
        x = P.types[t]
        if e == "*":
            t = x.get("e") if x["k"] in ("ref", "ptr") else (x["args"][0] if x.get("box") else None)
        elif e[0] == "f":
            if t in ptid:
                return x["vars"][0]["fields"][e[1]][0]
            t = e[2]
        else:
            return None
        if t is None:
            return None
    return None


IMPURE = re.compile(r"^std::(env|time|fs|net|thread|process|os|sync::(mpsc|Mutex|RwLock|atomic|OnceLock|LazyLock))|std::io::(stdin|_print|_eprint)|(^|[<: ])(rand|rayon)::|std::(cell|rc)::.*(RefCell|Cell)|std::thread::|std::time::|std::ptr::(read|write)_volatile|LocalKey|RandomState as .*BuildHasher|Hash(Set|Map).*::(iter|iter_mut|into_iter|drain|keys|values|retain|intersection|union|difference)$|Hash(Set|Map).*IntoIterator|^std::sys")


def purity(A):
    """the library's own code asks nothing of the environment and keeps no hidden state"""
    P = A.prog
    n, bad = 0, []
    for i in local(P):
        if not i["body"].get("file", "src/").startswith("src"):
            continue
        for ss, t, ln in i["body"]["blocks"]:
            q = callee(P, t)
            if q is not None:
                n += 1
                if IMPURE.search(q["path"]):
                    bad.append({"where": "%s:%s" % (i["body"]["file"], ln), "rule": "parsing depends on nothing but the text and the configuration", "detail": "%s calls %s" % (root_path(i["path"]), q["path"])})
            for s in ss:
                if s[0] == "=":
                    for c in consts(s[2]):
                        if any(k in c for k in ("static", "thread_local", "static_mut")):
                            bad.append({"where": "%s:%s" % (i["body"]["file"], s[3] if len(s) > 3 else ln), "rule": "no mutable state outside the parser", "detail": "%s uses a static" % root_path(i["path"])})
    return n, bad, []


def consts(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts(v)


def logging(A):
    """code that only runs when logging is switched on changes nothing"""
    P = A.prog
    n, bad = 0, []
    for i in local(P):
        bl = i["body"]["blocks"]
        succ = {}
        pred = {}
        logs = []
        for k, (ss, t, ln) in enumerate(bl):
            s = [t[1]] if t[0] == "goto" else [x[1] for x in t[2]] + [t[3]] if t[0] == "switch" else [t[2]] if t[0] == "drop" else [t[4]] if t[0] == "call" else [t[3]] if t[0] == "assert" else []
            succ[k] = [x for x in s if x is not None]
            for x in succ[k]:
                pred.setdefault(x, []).append(k)
            q = callee(P, t)
            if q is not None and q["path"].endswith("__private_api::log"):
                logs.append(k)
        for lg in logs:
            n += 1
            # blocks only reached when the level test has succeeded and that lead to the log call
            region, todo = set(), [lg]
            while todo:
                k = todo.pop()
                if k in region:
                    continue
                region.add(k)
                for p in pred.get(k, ()):
                    if len(set(succ[p])) == 1 or bl[p][1][0] in ("assert",):
                        todo.append(p)
            for k in region:
                q = callee(P, bl[k][1])
                if q is not None and q["crate"] == "ressa" and q.get("body"):
                    lt = [P.types[x] for x in q["body"]["locals"][1 : q["body"]["nargs"] + 1]]
                    if any(x["k"] == "ref" and x.get("mut") for x in lt):
                        bad.append({"where": "%s:%s" % (i["body"]["file"], bl[k][2]), "rule": "logging has no effect on parsing", "detail": "%s calls %s only when logging is on" % (root_path(i["path"]), q["path"])})
    return n, bad, []


NLS = {10, 13, 0x2028, 0x2029}


def line_terminators(A):
    """line counting knows the same four line terminators everywhere"""
    P = A.prog
    n, bad, und = 0, [], []
    by = {}
    for i in local(P):
        by.setdefault(root_path(i["path"]), []).append(i)
    for name in ("ressa::get_lines", "update_positions"):
        roots = [p for p in by if p == name or base_name(p) == name]
        if not roots:
            und.append(name + ": not found")
            continue
        seen, todo, bodies = set(), list(roots), []
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for i in by.get(p, ()):
                bodies.append(i)
                for ss, t, ln in i["body"]["blocks"]:
                    q = callee(P, t)
                    if q is not None and q["crate"] == "ressa" and q.get("body"):
                        todo.append(root_path(q["path"]))
        union = set()
        for i in bodies:
            cs, st = chars(P, i["body"])
            union |= cs | st
            n += 1
            x = cs & NLS
            w = None
            if (0x2028 in x) != (0x2029 in x):
                w = "only one of U+2028 and U+2029"
            elif {0x2028, 0x2029} <= x and len(x & {10, 13}) == 1:
                w = "only one of LF and CR"
            extra = sorted(c for c in cs if c not in NLS and c in (0x0b, 0x0c, 0x85, 0x1c, 0x1d, 0x1e, 0xa0, 0x20, 0x09))
            if extra:
                w = "also " + ", ".join("U+%04X" % c for c in extra)
            if w:
                bad.append({"where": "%s:%s" % (i["body"]["file"], i["body"]["l0"]), "rule": "LF, CR, U+2028 and U+2029 end a line, and nothing else does", "detail": "%s tests for %s" % (i["path"], w)})
        miss = NLS - union
        if miss and not bad:
            bad.append({"where": "%s:%s" % (by[roots[0]][0]["body"]["file"], by[roots[0]][0]["body"]["l0"]), "rule": "LF, CR, U+2028 and U+2029 end a line", "detail": "%s never looks for %s" % (roots[0], ", ".join("U+%04X" % c for c in sorted(miss)))})
    return n, bad, und


def chars(P, b):
    cs, st = set(), set()

    def walk(x):
        for c in consts(x):
            if isinstance(c.get("char"), int):
                cs.add(c["char"])
            if isinstance(c.get("str"), str) and len(c["str"]) <= 8:
                st.update(ord(y) for y in c["str"])

    for ss, t, ln in b["blocks"]:
        for s in ss:
            walk(s)
        walk(t[1:])
        if t[0] == "switch" and len(t) > 4 and t[4] is not None and P.types[t[4]]["k"] == "char":
            cs |= {v for v, _ in t[2]}
        elif t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1] and P.types[b["locals"][t[1][1][0]]]["k"] == "char":
            cs |= {v for v, _ in t[2]}
    return cs, st
