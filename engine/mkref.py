"""(Re)freeze references from the current tree.  Every change to spec/ref is reviewed by hand before it is committed."""
import sys, os, json, lzma
from analysis import *

if __name__ == "__main__":
    a = Analysis(full=True, freeze=True)
    keys = sys.argv[1:] or list(a.spec)
    os.makedirs(REF, exist_ok=True)
    todo = [(a.mir, k, projections(a.spec[k][1]), (), (), None, a.cachefile(k, a.fp(k), (), "freeze")) for k in keys]
    ml = {}
    for j, x in a.jobs(todo):
        f = j[1]
        if x.get("failed") or x.get("missing"):
            print("FAILED", f, str(x)[:300])
            continue
        if x["minlen"]:
            ml[f] = x["minlen"]
        o = {"fn": f, "fp": a.fp(f), "texts": x["texts"], "callees": x["callees"], "inlined": x["inlined"], "nodes": x["nodes"], "events": x["events"], "panics": x["panics"], "opaque": [w[7:] for w in x["warn"] if w.startswith("opaque ")], "progress": x["progress"], "proj": x["proj"]}
        with open(os.path.join(REF, f + ".json"), "w") as h:
            h.write("{" + ",\n".join("%s:%s" % (json.dumps(k), json.dumps(v) if k != "proj" else "{" + ",\n".join("%s:%s" % (json.dumps(p), json.dumps(d, separators=(",", ":"))) for p, d in v.items()) + "}") for k, v in o.items()) + "}\n")
    if len(sys.argv) == 1:
        json.dump(ml, open(os.path.join(os.path.dirname(REF), "minlen.json"), "w"), indent=0, sort_keys=True)
        with lzma.open(REFMIR, "wb", preset=9) as h:
            h.write(open(a.mir, "rb").read())
        json.dump(align.meta(a.prog), open(REFMETA, "w"), indent=0, sort_keys=True)
