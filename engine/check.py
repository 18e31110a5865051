"""python3 engine/check.py Cnn [--thorough]: decide one property on /repo's current tree."""
import os, sys, json, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump
from analysis import Analysis
from props import PROPS, Cmp, Rule

VERIF = dump.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    """[text] of findings recorded for pid (lines 'finding: property=<id> <what fails>'; 'fixed:' lines suppress nothing)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out


def run(pid, tier):
    t0 = time.time()
    p = next(x for x in PROPS if x.id == pid)
    A = Analysis(full=tier == "thorough")
    viol, und = [], []
    rules, nobl = [], 0
    pairs, samples = [], []
    for o in p.obs:
        if isinstance(o, Cmp):
            for f in o.fns:
                for pj in o.projs:
                    if (f, pj) not in pairs:
                        pairs.append((f, pj))
    verd = A.decide(pairs) if pairs else {}
    for o in p.obs:
        if isinstance(o, Rule):
            n, bad, u = o.fn(A)
            nobl += n
            rules.append({"rule": o.name, "instances": n, "violations": len(bad), "undecided": u[:20]})
            viol += bad
            und += ["%s: %s" % (o.name, x) for x in u]
    seen = set()
    ndiff = 0
    for o in p.obs:
        if not isinstance(o, Cmp):
            continue
        for f in o.fns:
            for pj in o.projs:
                v, d = verd[f, pj]
                if v == "undecided":
                    if (f, pj) not in seen:
                        seen.add((f, pj))
                        und.append("%s %s: %s" % (f, pj, d))
                elif v == "diff":
                    ndiff += 1
                    if o.pick is not None:
                        d = A.differences(f, pj, o.pick)
                    if d and (f, pj) not in seen:
                        seen.add((f, pj))
                        viol.append({"where": A.where(f), "rule": "%s behaves as specified (%s view)" % (f, pj), "detail": d[:3]})
    for k, pj in pairs:
        if len(samples) < 4 and verd[k, pj][0] == "same":
            g = A.res.get(k, {}).get("proj", {}).get(pj) or A.ref(k)["proj"][pj]
            samples.append({"function": k, "view": pj, "where": A.where(k), "entry_classes": len(g["roots"]), "states": len(g["trans"]), "transitions": sum(len(l) for t in g["trans"] for _, l in t)})
    for r in rules:
        if len(samples) < 6:
            samples.append(r)
    kf = known(pid)
    fresh = []
    for v in viol:
        s = v["where"] + " " + json.dumps(v["detail"], sort_keys=True)
        hit = [k for k in kf if k in s]
        if hit:
            v["known"] = hit[0]
        else:
            fresh.append(v)
    st = A.stats
    exp = A.spec
    cov = {
        "programs": len(pairs),
        "disagreements_checked": ndiff,
        "samples": samples,
        "explanation": "Each (function, view) pair is one automaton over token classes derived from the MIR of the current tree and compared with its reference; a function whose MIR and that of everything it inlines is unchanged modulo numbering needs no exploration in the quick tier. Rules are evaluated on every instance listed.",
        "functions_unchanged": sorted(st["identical"]),
        "functions_explored": sorted(st["explored"]),
        "seen_through_callers": sorted(st["inlined_view"]),
        "renamed": (A.al or {}).get("fns", {}),
        "interface_changed": A.removed,
        "mir_instances": len(A.prog.insts),
        "states_compared": sum(len((A.res.get(k, {}).get("proj", {}).get(pj) or {"trans": ()})["trans"]) for k, pj in pairs),
        "rule_instances": nobl,
        "rules": rules,
        "undecided": und,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": p.level,
        "coverage": cov,
        "assumptions": ["rustc's MIR represents the source", "the models of std, ress and resast calls in engine/models.py", "the reference automata in spec/ref state the intended behaviour", "the tokenizer delivers an arbitrary token sequence"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for v in viol:
        if "known" in v:
            print("KNOWN-FINDING: property=%s %s" % (pid, v["known"]))
    print("%s: %d automata compared, %d rule instances, %d explored, %d undecided, %.1f s" % (pid, len(pairs), nobl, len(st["explored"]), len(und), time.time() - t0))
    for u in und[:10]:
        print("undecided: " + u[:300])
    if fresh:
        rp = os.path.join(dump.BUILD, "replay", pid + ".json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as h:
            json.dump({"property": pid, "title": p.title, "violations": fresh}, h, indent=1)
        for v in fresh[:8]:
            d = v["detail"]
            print("  %s: %s" % (v["where"], v["rule"]))
            for x in d if isinstance(d, list) else [d]:
                if isinstance(x, dict):
                    print("    entered with: %s" % x["entry"][:200])
                    print("    after: %s" % (" | ".join(x["path"][-8:])[:500] or "(entry)"))
                    print("    %s" % x["difference"][:400])
                else:
                    print("    " + str(x)[:500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    want = [q for q in pairs if verd[q][0] != "undecided"]
    if (pairs and not want) or (not pairs and not nobl):
        print("nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        sys.exit(run([a for a in sys.argv[1:] if not a.startswith("-")][0], tier))
    except dump.BuildError as e:
        print(e)
        sys.exit(2)
    except Exception:
        import traceback

        traceback.print_exc()
        sys.exit(2)
