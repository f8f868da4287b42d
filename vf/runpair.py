"""Compares one crate of the repository with the reference model; writes the outcome per function."""
import json
import sys
import time

from mir import Crate
from compare import Pair


def main():
    spec, impl, out, budget = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    wanted = set(json.load(open(sys.argv[5]))) if len(sys.argv) > 5 else None
    t = time.time()
    p = Pair(Crate(spec), Crate(impl))
    p.run(wanted=p.closure(wanted) if wanted is not None else None, deadline=budget)
    rs = []
    for (n, s), r in p.res.items():
        rs.append({"fn": n, "self": s, "status": r.status, "definite": bool(r.definite), "why": r.why, "diff": r.diff,
                   "loc": r.loc, "less": r.less, "hash": r.hash, "views": r.views, "peel": p.peels.get((n, s)), "time": round(r.time, 2), "size": p.size.get((n, s), 0)})
    missing = [n for n, f in p.cs.fns.items() if n not in p.ci.fns and not f.d.get("closure") and "promoted" not in n
               and not p.skip(n)]
    json.dump({"results": rs, "missing": missing, "changed_adts": p.changed_adts, "seconds": round(time.time() - t, 1),
               "functions": len(p.ci.fns)}, open(out, "w"))


if __name__ == "__main__":
    main()
