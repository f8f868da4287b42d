"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vf"))
import props
import rules

NF = "MIR normal-form comparison with a reference model (abstract interpretation to value-flow normal forms)"
TECH = {
    "C20": "effect and type scan of the MIR call graph (who may call / who may own)",
    "C22": "constant-table and index-range analysis of the shipped reductors' MIR",
    "C23": "static expansion of wop.grammar compared with the tables and bindings in the MIR of out.rs",
    "C31": "automaton equivalence of the token patterns declared in the source with the reference's",
    "C27": "hash-order taint over the MIR call graph, plus " + NF,
}
NA = {
    "C30": "quantifies over all derivations of all grammars and token sequences; exact acceptance is a proof about LR theory, "
           "not visible in the shape of the code. Its structural ingredients are claimed separately (C01-C19).",
    "C32": "language equivalence before and after renumbering is a bisimulation over runtime tables; the structural clause "
           "(every reference renumbered consistently) is claimed as C17.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in props.PROPS or i in rules.RULES:
            n = sum(len(v) for v in props.PROPS.get(i, {}).values())
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "technique": TECH.get(i, NF),
                "level": "other",
                "level_note": rules.NOTES.get(i) or
                "Decides, for all inputs, that the %d functions the property rests on denote the same result, effects and panics as "
                "the reference model in /verif/spec; any definite difference is a violation. Trusts the models of the standard "
                "library, the reference model (read against the property by hand) and rustc's MIR. Functions whose shape is out of "
                "reach are reported as undecided, not as violations." % n,
            })
        else:
            na.append({"property": i, "reason": NA[i]})
    m = {
        "version": 1,
        "setup_cmd": "python3 vf/tree.py --setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "Static analysis only: no code of /repo is executed by any check. No hooks in /repo.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
