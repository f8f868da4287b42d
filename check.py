#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from the source of /repo."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vf"))
import tree
import props


def compare(crate, spec, impl, wanted, budget):
    out = os.path.join(tree.WORK, "cmp-%s.json" % crate)
    want = os.path.join(tree.WORK, "want-%s.json" % crate)
    json.dump(sorted(wanted), open(want, "w"))
    if os.path.exists(out):
        os.remove(out)
    e = dict(os.environ, PYTHONHASHSEED="0")
    f = lambda d: os.path.join(d, crate + ".json")
    p = subprocess.run([sys.executable, os.path.join(HERE, "vf", "runpair.py"), f(spec), f(impl), out, str(budget), want],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        return {"results": [], "missing": [], "error": p.stdout[-2000:], "functions": 0, "changed_adts": [], "seconds": 0}
    return json.load(open(out))


def names(spec, crate):
    d = json.load(open(os.path.join(spec, crate + ".json")))
    return [b["name"] for b in d["bodies"]]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    lk = tree.lock()
    spec = tree.spec_dump()
    impl = tree.repo_dump()
    table = props.PROPS.get(pid, {})
    violations, undecided, held, samples = [], [], [], []
    nfun = 0
    for crate, items in table.items():
        if items == "*":
            r = compare(crate, spec, impl, {n for n in names(spec, crate)}, 420)
            nfun += r["functions"]
            v, h, u = props.judge_order(r)
            violations += v
            held += h
            undecided += u
            continue
        items = [(i, None) if isinstance(i, str) else i for i in items]
        ns = {}
        for n in names(spec, crate):
            ns.setdefault(props.nn(n), n)
        wanted = set()
        for i, _ in items:
            b = i.split("@")[0]
            if b not in ns:
                raise SystemExit("unknown function %s in the table of %s" % (i, pid))
            wanted.add(ns[b])
        budget = 420 if len(table) == 1 else 300
        r = compare(crate, spec, impl, wanted, budget)
        nfun += r["functions"]
        v, h, u = props.judge(pid, items, r)
        violations += v
        held += h
        undecided += u
    import rules
    for v in rules.run(pid, spec, impl):
        if v["status"] == "violation":
            violations.append(v)
        elif v["status"] == "held":
            held.append(v["fn"])
        else:
            undecided.append({"function": v["fn"], "reason": v["why"]})
    known = known_findings(pid)
    new = []
    for v in violations:
        key = "%s %s" % (v["fn"], v.get("self") or "")
        if key.strip() in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key.strip()]))
        else:
            new.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static comparison of normal forms: each listed function of the code in /repo is abstractly "
                           "interpreted from its MIR over all inputs at once and its normal form (result, effects on "
                           "mutable parameters, panics) compared with that of the reference model; plus the rules named "
                           "in held/undecided.",
            "obligations": len(held) + len(undecided) + len(violations),
            "discharged": len(held),
            "held": held, "undecided": undecided,
            "functions_in_tree": nfun,
            "differences": [{"function": v["fn"], "self": v.get("self"), "at": v.get("loc"), "difference": v.get("diff")} for v in violations],
        },
        "assumptions": ["models of the standard library in vf/models.py", "rustc's MIR of the checked profile",
                        "functions listed as undecided are not judged"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    path = os.path.join(HERE, "evidence", pid + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    for v in new:
        print("difference: %s%s at %s: %s" % (v["fn"], " for " + v["self"] if v.get("self") else "", v.get("loc"), v.get("diff")))
    for u in undecided:
        print("undecided: %s (%s)" % (u["function"], u["reason"]))
    print("%s: %d obligations hold, %d undecided, %d violated, %.1fs" % (pid, len(held), len(undecided), len(violations), time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)


def known_findings(pid):
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else ():
        l = l.strip()
        if l.startswith("finding: property=%s " % pid):
            key, _, what = l.split(" ", 2)[2].partition(" :: ")
            out[key.strip()] = what
    return out


if __name__ == "__main__":
    main()
