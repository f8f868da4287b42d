#!/usr/bin/env python3
"""trial.py CORPUS.py [name...]: runs the comparison on edited copies of /repo (development only).

A corpus is a python file with CASES = {name: [(file, old, new), ...]}; results say which functions
are not shown equal to the reference model."""
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys

SNAP = "/tmp/w/vf-%d" % os.getpid()
if __name__ == "__main__":
    # the corpus runs against a copy, so that the sources may be edited meanwhile
    shutil.copytree("/verif/vf", SNAP + "/vf")
sys.path.insert(0, SNAP + "/vf")
import tree
tree.VERIF, tree.WORK, tree.DRIVER = "/verif", "/verif/work", "/verif/driver"
tree.DRV = "/verif/driver/target/debug/vfdriver"
import props

TMP = "/tmp/w/trial%s" % os.environ.get("TRIALDIR", "")


def work(job):
    name, edits = job
    k = mp.current_process()._identity[0] if mp.current_process()._identity else 0
    d = os.path.join(TMP, "w%d" % k)
    src, tgt, out = d + "/src", d + "/target", d + "/out"
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(tgt):
        shutil.copytree(os.path.join(tree.WORK, "target"), tgt, copy_function=shutil.copy2)
    tree.copy_tree("/repo", src)
    if os.environ.get("KEEP"):
        out = os.environ["KEEP"] + "/" + name
        os.makedirs(out, exist_ok=True)
    if isinstance(edits, str):
        p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + src, edits], cwd="/", capture_output=True, text=True)
        p = subprocess.run(["patch", "-p1", "-s", "-d", src, "-i", edits], capture_output=True, text=True) if p.returncode else p
        if p.returncode:
            return name, {"error": "patch: " + p.stderr}
    else:
        for e in edits:
            if e[0] == "@":
                p = os.path.join(src, e[1])
                s = open(p).read()
                assert s[e[2]:].startswith(e[3])
                open(p, "w").write(s[:e[2]] + e[4] + s[e[2] + len(e[3]):])
                continue
            f, old, new = e
            p = os.path.join(src, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, {"error": "no match in %s: %s" % (f, old[:80])}
            open(p, "w").write(s.replace(old, new, 1))
    try:
        tree.dump_at(src, tgt, out, name)
    except tree.BuildError as e:
        return name, {"error": "build: " + str(e)[-1500:]}
    res = {}
    for c in CRATES:
        o = d + "/cmp.json"
        if os.path.exists(o):
            os.remove(o)
        a = [sys.executable, SNAP + "/vf/runpair.py", "/verif/work/spec-mir/%s.json" % c, out + "/%s.json" % c, o, "400"]
        p = subprocess.run(a, env=dict(os.environ, PYTHONHASHSEED="0"), capture_output=True, text=True)
        if not os.path.exists(o):
            res[c] = {"error": p.stderr[-800:]}
        else:
            res[c] = json.load(open(o))
    import rules
    res["rules"] = [(pid, v) for pid in rules.RULES for v in rules.run(pid, os.path.join(tree.WORK, "spec-mir"), out, src)]
    return name, res


CRATES = ("lrp.lib", "lrp.bin", "wop.lib", "wop.bin")


def load(f):
    if os.path.isdir(f):
        return {n: os.path.join(os.path.abspath(f), n, "patch.diff") for n in sorted(os.listdir(f))}
    spec = importlib.util.spec_from_file_location("corpus", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CASES


def main():
    cases = load(sys.argv[1])
    want = sys.argv[2:]
    jobs = [(n, e) for n, e in cases.items() if not want or any(w in n for w in want)]
    os.makedirs(TMP, exist_ok=True)
    tree.spec_dump()
    tally = {"quiet": 0, "undecided": 0, "violation": 0, "error": 0}
    with mp.Pool(min(int(os.environ.get("JOBS", 7)), len(jobs))) as pool:
        for name, r in pool.imap_unordered(work, jobs):
            if "error" in r:
                print("== %s ERROR %s" % (name, r["error"]), flush=True)
                tally["error"] += 1
                continue
            viol, und = [], []
            for c in CRATES:
                if "error" in r[c]:
                    und.append("%s %s" % (c, r[c]["error"][-300:]))
                    continue
                for x in r[c]["results"]:
                    if x["status"] in ("equal", "eqrec"):
                        if x["less"]:
                            und.append("less panics: " + props.nn(x["fn"], x["self"]))
                        continue
                    l = "%s [%s] %s %s" % (props.nn(x["fn"], x["self"]), x["status"], x["why"][:200], x.get("views") or "")
                    if x["peel"]:
                        l += "\n        PEEL %s %s" % (x["peel"][0], x["peel"][1][:300])
                    if x["definite"]:
                        viol.append(l + "\n        " + (x["diff"] or "")[:700])
                    else:
                        und.append("%s (%.0fs)%s" % (l, x["time"], ("\n        " + (x["diff"] or "")[:500]) if "-v" in os.environ.get("TRIAL", "") else ""))
                if r[c]["missing"]:
                    und.append("missing %s" % r[c]["missing"])
                if r[c]["changed_adts"]:
                    und.append("changed adts %s" % r[c]["changed_adts"])
            for pid, v in r["rules"]:
                if v["status"] == "violation":
                    viol.append("rule %s %s %s" % (pid, v["fn"], v.get("diff")))
                elif v["status"] != "held":
                    und.append("rule %s %s %s" % (pid, v["fn"], v.get("why")))
            pids = set(pid for pid, v in r["rules"] if v["status"] == "violation")
            for pid, table in props.PROPS.items():
                for c, items in table.items():
                    if items == "*":
                        if "results" in r[c] and props.judge_order(r[c])[0]:
                            pids.add(pid)
                        continue
                    if "results" in r[c] and props.judge(pid, [(i, None) if isinstance(i, str) else i for i in items], r[c])[0]:
                        pids.add(pid)
            if pids:
                viol.append("alarms: " + " ".join(sorted(pids)) + ("" if name[:3] in pids or name[0] != "C" or "rs:" in name else "   MISSED " + name))
            elif name[0] == "C" or "rs:" in name:
                und.append("MISSED " + name)
            st = "VIOLATION" if viol else "undecided" if und else "quiet"
            tally[st.lower()] += 1
            print("== %s %s %.0fs" % (name, st, sum(r[c].get("seconds", 0) for c in CRATES)), flush=True)
            for l in viol:
                print("   !! " + l)
            for l in und:
                print("   ?? " + l)
    print(tally)
    shutil.rmtree(SNAP)


if __name__ == "__main__":
    main()
